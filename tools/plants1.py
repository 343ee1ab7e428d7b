from plant import *
E = 'pyo3_bindgen_engine/src/'
which = sys.argv[1:]
def P(id, *a, **k):
    if not which or id in which:
        plant(id, *a, **k)

P('B01', 'C03', [(E+'syntax/module.rs', '''                .into_iter()
                .filter_map(|submodule_name| {
                    let full_submodule_name''', '''                .into_iter()
                .map_while(|submodule_name| {
                    let full_submodule_name''')],
  CLI + '''
mkdir -p "$T/py/demopkg"; echo > "$T/py/demopkg/__init__.py"
for i in a b c d e f g h; do echo "def f_$i(x: int) -> int: return x" > "$T/py/demopkg/sub_$i.py"; done
for bad in i j k; do
  echo "raise RuntimeError('broken')" > "$T/py/demopkg/sub_$bad.py"
  PYTHONPATH="$T/py" timeout 60 "$B" -m demopkg > "$T/out.rs" 2> "$T/err" || { cat "$T/err"; exit 1; }
  for i in a b c d e f g h; do grep -q "fn f_$i" "$T/out.rs" || { echo "demopkg.sub_$i lost its bindings because demopkg.sub_$bad is broken"; exit 1; }; done
done
''', 'a package that has a submodule whose import raises, and healthy submodules that are visited after it',
  'Every submodule visited after a broken one silently loses all its bindings.')

P('B02', 'C13', [(E+'codegen.rs', '''            self = self.module_name(module_name)?;
''', '''            let previous = self.clone();
            self = match self.module_name(module_name) {
                // A module that is not installed does not invalidate the modules that were already parsed
                Err(PyBindgenError::PyError(err))
                    if !previous.modules.is_empty()
                        && pyo3::Python::with_gil(|py| {
                            err.is_instance_of::<pyo3::exceptions::PyModuleNotFoundError>(py)
                        }) =>
                {
                    previous
                }
                result => result?,
            };
''')],
  RUST, 'a batch of module names in which a name other than the first one cannot be found',
  'A missing module of a batch is skipped silently: module_names returns Ok and the bindings lack it.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py").unwrap();
    std::fs::write("py/demo_here.py", "def f(): pass\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    assert!(pyo3_bindgen::Codegen::default().module_names(["demo_missing", "demo_here"]).is_err());
    assert!(pyo3_bindgen::Codegen::default().module_names(["demo_here", "demo_missing"]).is_err(), "a missing module was skipped silently");
}
'''})

P('B04', 'C05', [(E+'syntax/module.rs', 'use rustc_hash::FxHashSet as HashSet;', 'use std::collections::HashSet;')],
  CLI + '''
mkdir -p "$T/py/demopkg"; echo > "$T/py/demopkg/__init__.py"
for i in a b c d e f; do echo "def f_$i(x: int) -> int: return x" > "$T/py/demopkg/sub_$i.py"; done
for run in 1 2 3 4 5 6; do
  PYTHONPATH="$T/py" timeout 60 "$B" -m demopkg > "$T/out$run.rs" 2> "$T/err" || { cat "$T/err"; exit 1; }
  cmp "$T/out1.rs" "$T/out$run.rs" || { echo "two runs, two different bindings"; exit 1; }
done
''', 'a package with more than one submodule, and a comparison between two runs (random keys of the hash set)',
  'The order of the submodules in the bindings depends on random bytes of the operating system.')

P('B05', 'C06', [(E+'codegen.rs', '''        get_duplicate_modules(&mut self.modules)
            .into_iter()
            .rev()
            .for_each(|range| {''', '''        get_duplicate_modules(&mut self.modules)
            .into_iter()
            .for_each(|range| {
                if range.end > self.modules.len() {
                    return;
                }''')],
  RUST, 'two or more different modules that are each added more than once (or a package together with its submodules), so that there are several groups to merge',
  'After the first group was merged, the ranges of the others are stale: other modules are overwritten and lost, and duplicates remain.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py").unwrap();
    for name in ["demo_a", "demo_b", "demo_c", "demo_d"] {
        std::fs::write(format!("py/{name}.py"), format!("def fn_{name}(): pass\\n")).unwrap();
    }
    std::env::set_var("PYTHONPATH", "py");
    let gen = |names: &[&str]| {
        pyo3_bindgen::Codegen::default().module_names(names).unwrap().generate().unwrap().to_string()
    };
    let once = gen(&["demo_a", "demo_b", "demo_c", "demo_d"]);
    let twice = gen(&["demo_a", "demo_b", "demo_c", "demo_a", "demo_b", "demo_d"]);
    for name in ["demo_a", "demo_b", "demo_c", "demo_d"] {
        assert_eq!(once.matches(&format!("fn fn_{name} ")).count(), 1);
        assert_eq!(twice.matches(&format!("fn fn_{name} ")).count(), 1, "{name}");
    }
}
'''})

P('B06', 'C10', [(E+'syntax/property.rs', '''                            {
                                Type::Unknown
                            } else {
                                return_annotation.try_into()?
                            }
                        };
                    } else {
                        annotation = Type::try_from(typ)?;
                    }

                    // Update the docstring''', '''                            {
                                // Infer the type of class-level properties that are not annotated from their value
                                getter
                                    .call1((property.py().get_type_bound::<pyo3::PyAny>(),))
                                    .and_then(|value| Ok(Type::try_from(value.get_type())))
                                    .unwrap_or(Ok(Type::Unknown))?
                            } else {
                                return_annotation.try_into()?
                            }
                        };
                    } else {
                        annotation = Type::try_from(typ)?;
                    }

                    // Update the docstring''')],
  CLI + '''
mkdir -p "$T/py"; cat > "$T/py/demomod.py" <<EOF
class Door:
    @property
    def state(self):
        open("$T/called", "a").write("getter ran")
        return self._state
EOF
PYTHONPATH="$T/py" timeout 60 "$B" -m demomod > "$T/out.rs" 2> "$T/err" || { cat "$T/err"; exit 1; }
grep -q "fn state" "$T/out.rs" || exit 1
[ ! -e "$T/called" ] || { echo "the generation ran the getter of the property"; exit 1; }
''', 'a class with a property whose getter has no return annotation',
  'The getter of an unannotated property is called while the bindings are generated.')

P('B07', 'C02', [(E+'codegen.rs', '''                    crate::io_utils::with_suppressed_python_output(
                        module.py(),
                        self.cfg.suppress_python_stdout,
                        self.cfg.suppress_python_stderr,
                        || {
                            self.modules.push(Module::parse(&self.cfg, &module)?);''', '''                    crate::io_utils::with_suppressed_python_output(
                        module.py(),
                        self.cfg.suppress_python_stderr,
                        self.cfg.suppress_python_stdout,
                        || {
                            self.modules.push(Module::parse(&self.cfg, &module)?);''')],
  RUST, 'generation of dependencies with only one of the two streams suppressed, and a dependency that writes to the other one while it is inspected',
  'While dependencies are parsed, the stream that is not suppressed is suppressed as well, and its output is lost.',
  files={'main.rs': '''use pyo3::prelude::*;
fn main() {
    std::fs::create_dir_all("py/demo_dep").unwrap();
    std::fs::write("py/demo_dep/__init__.py", "class K:\\n    pass\\n").unwrap();
    std::fs::write("py/demo_dep/late.py", "import sys\\nprint('to stdout')\\nprint('to stderr', file=sys.stderr)\\n").unwrap();
    std::fs::write("py/demo_user.py", "from demo_dep import K\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    pyo3::prepare_freethreaded_python();
    Python::with_gil(|py| py.run_bound("import sys, io\\nsys.stdout = io.StringIO()\\nsys.stderr = io.StringIO()", None, None)).unwrap();
    let cfg = pyo3_bindgen::Config::builder().generate_dependencies(true).suppress_python_stdout(true).suppress_python_stderr(false).build();
    pyo3_bindgen::Codegen::new(cfg).module_name("demo_user").unwrap().generate().unwrap();
    let get = |e: &str| Python::with_gil(|py| py.eval_bound(e, None, None).unwrap().extract::<String>().unwrap());
    let (out, err) = (get("__import__('sys').stdout.getvalue()"), get("__import__('sys').stderr.getvalue()"));
    assert_eq!(out, "");
    assert_eq!(err, "to stderr\\n");
}
'''})

P('B08', 'C04', [(E+'syntax/common/attribute_variant.rs', """                .getattr(pyo3::intern!(py, "__module__"))
                .map(|a| a.to_string())
                .unwrap_or_default(),
""", """                .getattr(pyo3::intern!(py, "__module__"))
                .map(|a| a.to_string())
                .unwrap_or_else(|_| unreachable!("Every type belongs to a module")),
""")],
  CLI + '''
mkdir -p "$T/py"; cat > "$T/py/demomod.py" <<EOF
class Meta(type):
    @property
    def __module__(cls):
        raise AttributeError('no module')
class Odd(metaclass=Meta):
    pass
value = Odd()
def f(): pass
EOF
PYTHONPATH="$T/py" timeout 60 "$B" -m demomod > "$T/out.rs" 2> "$T/err" || { cat "$T/err"; exit 1; }
grep -q "fn f" "$T/out.rs" || exit 1
''', 'a module attribute whose type has a metaclass that does not report a `__module__`',
  'The generation panics instead of ending with bindings or an error.')

P('B13', 'C01', [(E+'syntax/module.rs', '''        let pkgutil = py.import_bound(pyo3::intern!(py, "pkgutil"))?;

        // Extract the paths of the module
        let module_paths = module
            .getattr(pyo3::intern!(py, "__path__"))?
            .iter()?
            .map(|x| Ok(std::path::PathBuf::from(x?.to_string())))
            .collect::<Result<Vec<_>>>()?;
''', '''        let pkgutil = py.import_bound(pyo3::intern!(py, "pkgutil"))?;
        let sys = py.import_bound(pyo3::intern!(py, "sys"))?;

        // Extract the paths of the module (without the warnings that it might write about obsolete paths)
        let stderr = sys.getattr(pyo3::intern!(py, "stderr"))?;
        sys.setattr(
            pyo3::intern!(py, "stderr"),
            py.import_bound(pyo3::intern!(py, "io"))?
                .call_method0(pyo3::intern!(py, "StringIO"))?,
        )?;
        let module_paths = module
            .getattr(pyo3::intern!(py, "__path__"))?
            .iter()?
            .map(|x| Ok(std::path::PathBuf::from(x?.to_string())))
            .collect::<Result<Vec<_>>>()?;
        sys.setattr(pyo3::intern!(py, "stderr"), stderr)?;
''')],
  RUST, 'stderr is not suppressed, and iterating over the `__path__` of a package raises',
  'sys.stderr stays replaced after the failed call.',
  files={'main.rs': '''use pyo3::prelude::*;
fn main() {
    std::fs::create_dir_all("py").unwrap();
    std::fs::write("py/demo_pkg.py", "class P:\\n    def __iter__(self):\\n        raise OSError('path is gone')\\n__path__ = P()\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    pyo3::prepare_freethreaded_python();
    Python::with_gil(|py| py.run_bound("import sys\\nsys.demo_before = sys.stderr", None, None)).unwrap();
    let cfg = pyo3_bindgen::Config::builder().suppress_python_stderr(false).build();
    let _ = pyo3_bindgen::Codegen::new(cfg).module_name("demo_pkg").and_then(|c| c.generate());
    let same = Python::with_gil(|py| py.eval_bound("__import__('sys').stderr is __import__('sys').demo_before", None, None).unwrap().extract::<bool>().unwrap());
    assert!(same, "sys.stderr was not given back");
}
'''})
