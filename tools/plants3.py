import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
from plant import *
from plants2 import COMPILED
E = 'pyo3_bindgen_engine/src/'
which = sys.argv[1:]
def P(id, *a, **k):
    if id in which:
        plant(id, *a, **k)

MACRO = HEAD + '''export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true PYO3_PYTHON=/usr/bin/python3.12
mkdir -p "$T/src" "$T/py" && cp "$D/main.rs" "$T/src/main.rs" && cp "$R/Cargo.lock" "$T/Cargo.lock" && cp -r "$D/py/." "$T/py/" || exit 3
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pyo3_bindgen = { path = "$R/pyo3_bindgen", features = ["macros"] }
pyo3 = { version = "0.21", default-features = false, features = ["auto-initialize"] }
EOF
export PYTHONPATH="$T/py"; cd "$T"
CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2>"$T/log" || { cat "$T/log"; exit 1; }
timeout 60 "$T/target/debug/demo"
'''

P('B15', 'C17', [('pyo3_bindgen_macros/src/lib.rs', '''    // Generate the bindings
    pyo3_bindgen_engine::Codegen::default()
''', '''    // Do not generate the same bindings again if the module was already imported by this crate
    // Note: The bindings are always contained in a Rust module with the name of the Python module
    thread_local! {
        static EXPANDED: std::cell::RefCell<std::collections::HashMap<String, String>> = std::cell::RefCell::default();
    }
    let ident = module_name
        .rsplit('.')
        .next()
        .unwrap_or_default()
        .to_owned();
    if let Some(bindings) = EXPANDED.with_borrow(|expanded| expanded.get(&ident).cloned()) {
        return bindings.parse().unwrap();
    }

    // Generate the bindings
    let bindings = pyo3_bindgen_engine::Codegen::default()
'''), ('pyo3_bindgen_macros/src/lib.rs', '''            panic!("Failed to generate bindings for '{module_name}' Python module:\\n{err}")
        })
        .into()
''', '''            panic!("Failed to generate bindings for '{module_name}' Python module:\\n{err}")
        });
    EXPANDED.with_borrow_mut(|expanded| expanded.insert(ident, bindings.to_string()));
    bindings.into()
''')], MACRO, 'two uses of the macro in one crate for submodules of the same name in different packages',
  'The second use expands to the bindings of the first one.',
  files={'main.rs': '''mod first { pyo3_bindgen::import_python!("demo_one.util"); }
mod second { pyo3_bindgen::import_python!("demo_two.util"); }
fn main() {
    pyo3::Python::with_gil(|py| {
        assert_eq!(first::demo_one::util::one(py).unwrap(), 1);
        assert_eq!(second::demo_two::util::two(py).unwrap(), 2);
    });
}
''', 'py/demo_one/__init__.py': '', 'py/demo_two/__init__.py': '', 'py/demo_one/util.py': 'def one() -> int: return 1\n', 'py/demo_two/util.py': 'def two() -> int: return 2\n'})

P('B16', 'C06', [(E+'codegen.rs', '''                prelude: input
                    .iter()
                    .flat_map(|module| module.prelude.iter().cloned())
                    .unique()
                    .collect(),
''', '''                // The prelude does not depend on which of the duplicates it is
                prelude: input[0].prelude.clone(),
''')], RUST, 'a submodule that is added before its package, whose __all__ leaves something out',
  'The stand-in of the package that was made for the submodule has no prelude, so the prelude of the package is lost.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py/demo_pkg").unwrap();
    std::fs::write("py/demo_pkg/__init__.py", "__all__ = ['shown']\\ndef shown(): pass\\ndef other(): pass\\n").unwrap();
    std::fs::write("py/demo_pkg/sub.py", "def inner(): pass\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    let gen = |names: &[&str]| pyo3_bindgen::Codegen::default().module_names(names).unwrap().generate().unwrap().to_string();
    let alone = gen(&["demo_pkg"]);
    assert!(alone.contains("use super :: { shown"));
    assert_eq!(gen(&["demo_pkg", "demo_pkg.sub"]), alone);
    assert_eq!(gen(&["demo_pkg.sub", "demo_pkg"]), alone, "the prelude depends on the order");
}
'''})

P('B17', 'C10', [(E+'syntax/function.rs', '''                        if default.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
                            None
''', '''                        if default.eq(param.getattr(pyo3::intern!(py, "empty"))?)? {
                            None
''')], RUST, 'a default value of a class with a custom __eq__ (for example one that records comparisons or yields something else than a bool)',
  'The comparison runs code of the inspected module, once per parameter with a default value.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py").unwrap();
    std::fs::write("py/demo_eq.py", "log = []\\nclass Query:\\n    def __eq__(self, other):\\n        log.append('compared')\\n        raise RuntimeError('queries cannot be compared')\\ndef find(q=Query()): pass\\ndef plain(a=1): pass\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    let bindings = pyo3_bindgen::Codegen::default().module_name("demo_eq").unwrap().generate().unwrap().to_string();
    assert!(bindings.contains("fn find") && bindings.contains("fn plain"));
    pyo3_bindgen::Codegen::default().module_from_str("import demo_eq\\nassert demo_eq.log == [], demo_eq.log\\n", "demo_check").map(|_| ()).expect("code of the module was run");
}
'''})

P('B18', 'C13', [(E+'syntax/module.rs', '''        let submodules = if cfg.traverse_submodules {
            submodules_to_process
                .into_iter()
''', '''        // Importing a broken submodule can be slow, so do not try it more than once
        thread_local! {
            static UNAVAILABLE: std::cell::RefCell<HashSet<Path>> = std::cell::RefCell::default();
        }
        let submodules = if cfg.traverse_submodules {
            submodules_to_process
                .into_iter()
                .filter(|submodule_name| {
                    let full_submodule_name = name.join(&(*submodule_name).clone().into());
                    !UNAVAILABLE.with_borrow(|unavailable| unavailable.contains(&full_submodule_name))
                })
'''), (E+'syntax/module.rs', '''                                .and_then(|attr| Ok(attr.downcast_into::<pyo3::types::PyModule>()?))
                        })
                        .ok()
                })
''', '''                                .and_then(|attr| Ok(attr.downcast_into::<pyo3::types::PyModule>()?))
                        })
                        .map_err(|_| UNAVAILABLE.with_borrow_mut(|u| u.insert(full_submodule_name.clone()))).ok()
                })
''')], RUST, 'a submodule whose import fails once and works when the same package is requested again in the same process',
  'The submodule stays without bindings for the rest of the process.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py/demo_late").unwrap();
    std::fs::write("py/demo_late/__init__.py", "def top(): pass\\n").unwrap();
    std::fs::write("py/demo_late/sub.py", "import os\\nif not os.path.exists('ready'):\\n    raise OSError('not ready')\\ndef inner(): pass\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    let gen = || pyo3_bindgen::Codegen::default().module_name("demo_late").unwrap().generate().unwrap().to_string();
    let before = gen();
    assert!(before.contains("fn top") && !before.contains("fn inner"));
    std::fs::write("ready", "").unwrap();
    assert!(gen().contains("fn inner"), "the submodule can be imported now, but still has no bindings");
}
'''})

P('B19', 'C09', [(E+'syntax/module.rs', '''        let submodules = if cfg.traverse_submodules {
            submodules_to_process
                .into_iter()
''', '''        // Skip submodules that are being parsed already (packages can contain each other)
        static IN_PROGRESS: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());
        struct InProgress(usize);
        impl Drop for InProgress {
            fn drop(&mut self) {
                let mut in_progress = IN_PROGRESS.lock().unwrap();
                let i = in_progress.iter().position(|&id| id == self.0).unwrap();
                in_progress.remove(i);
            }
        }
        IN_PROGRESS.lock().unwrap().push(module.as_ptr() as usize);
        let _in_progress = InProgress(module.as_ptr() as usize);
        let submodules = if cfg.traverse_submodules {
            submodules_to_process
                .into_iter()
'''), (E+'syntax/module.rs', '''                                .and_then(|attr| Ok(attr.downcast_into::<pyo3::types::PyModule>()?))
                        })
                        .ok()
                })
''', '''                                .and_then(|attr| Ok(attr.downcast_into::<pyo3::types::PyModule>()?))
                        })
                        .ok().filter(|submodule| !IN_PROGRESS.lock().unwrap().contains(&(submodule.as_ptr() as usize)))
                })
''')], RUST, 'two threads that generate bindings of overlapping packages, one of which reaches a subpackage while the other one is inside of it',
  'The subpackage is taken for a cycle: the second thread silently loses its bindings.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py/demo_par/mid").unwrap();
    std::fs::write("py/demo_par/__init__.py", "").unwrap();
    std::fs::write("py/demo_par/mid/__init__.py", "def in_mid(): pass\\n").unwrap();
    std::fs::write("py/demo_par/mid/slow.py", "import time\\ntime.sleep(1.0)\\ndef late(): pass\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    let gen = |name| pyo3_bindgen::Codegen::default().module_name(name).unwrap().generate().unwrap().to_string();
    let first = std::thread::spawn(move || gen("demo_par.mid"));
    std::thread::sleep(std::time::Duration::from_millis(500));
    let second = std::thread::spawn(move || gen("demo_par"));
    let (first, second) = (first.join().unwrap(), second.join().unwrap());
    assert!(first.contains("fn late") && first.contains("fn in_mid"));
    assert!(second.contains("fn in_mid"), "the bindings depend on what another thread does");
}
'''})

P('B20', 'C11', [(E+'syntax/property.rs', '''            let setter_name = Ident::from_py(&format!("set_{}", self.name.name().as_py()));
            if scoped_function_idents.contains(&&setter_name)
                || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&setter_name.as_py())
            {
                return Ok(TraitMethod::empty());
            } else {
                setter_name.try_into()?
            }
        };
        let param_name = self.name.name().as_py();
''', '''            let setter_name = Ident::from_py(&format!("set_{}", self.name.name().as_py()));
            if scoped_function_idents.contains(&&setter_name)
                || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&setter_name.as_py())
            {
                return Ok(TraitMethod::empty());
            } else {
                setter_name.try_into()?
            }
        };
        let param_name = self.name.name().as_rs();
''')], COMPILED, 'a property or module variable whose name is a keyword of Rust (such as type, match or loop)',
  'The setter assigns to another attribute (r#type) and succeeds.',
  files={'demo_set.py': '''type: int = 1
plain: int = 1
def seen() -> int:
    return type * 10 + plain
''', 'gen.rs': '''fn main() {
    let out = std::env::args().nth(1).unwrap();
    pyo3_bindgen::Codegen::default().module_name("demo_set").unwrap().build(out).unwrap();
}
''', 'use.rs': '''mod b { include!("bindings.rs"); }
fn main() {
    pyo3::Python::with_gil(|py| {
        b::demo_set::set_plain(py, 2).unwrap();
        assert_eq!(b::demo_set::seen(py).unwrap(), 12);
        b::demo_set::set_type(py, 5).unwrap();
        assert_eq!(b::demo_set::seen(py).unwrap(), 52, "the variable was not set");
    });
}
'''})

P('B21', 'C04', [(E+'utils/text.rs', '''    while docstring.ends_with('/') {
        docstring.pop();
''', '''    while !docstring.is_empty() && &docstring[docstring.len() - 1..] == "/" {
        docstring.pop();
''')], RUST, 'a docstring that ends with a character outside of ASCII',
  'The generation panics because the text is cut in the middle of a character.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py").unwrap();
    std::fs::write("py/demo_doc.py", "def plain():\\n    'a path/'\\ndef other():\\n    'and so on\\u{2026}'\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    let bindings = pyo3_bindgen::Codegen::default().module_name("demo_doc").unwrap().generate().unwrap().to_string();
    assert!(bindings.contains("fn plain") && bindings.contains("fn other"));
}
'''})

P('B22', 'C08', [('pyo3_bindgen_cli/src/main.rs', '''            codegen.module_name(module_name).unwrap_or_else(|err| {
                panic!("Failed to parse the content of '{module_name}' Python module:\\n{err}")
            })
''', '''            // Modules that were given more than once or as a part of another one need not be parsed again
            let top = module_name.split('.').next().unwrap_or(module_name);
            if top != module_name && args.module_names.iter().any(|other| other == top) {
                return codegen;
            }
            codegen.module_name(module_name.trim()).unwrap_or_else(|err| {
                panic!("Failed to parse the content of '{module_name}' Python module:\\n{err}")
            })
''')], CLI + '''
mkdir -p "$T/py/demo_cli" && echo "def top(): pass" > "$T/py/demo_cli/__init__.py" && echo "def inner(): pass" > "$T/py/demo_cli/sub.py" && echo "raise OSError('broken')" > "$T/py/demo_cli/bad.py" || exit 3
export PYTHONPATH=$T/py
timeout 60 "$B" -m demo_cli demo_cli.sub > "$T/out.rs" 2> "$T/err" || { cat "$T/err"; exit 1; }
grep -q "fn top" "$T/out.rs" && grep -q "fn inner" "$T/out.rs" || { echo "no bindings"; exit 1; }
for m in demo_cli.bad demo_cli.missing; do
if timeout 60 "$B" -m $m > "$T/out.rs" 2> "$T/err"; then echo "status 0 for $m"; exit 1; fi
if timeout 60 "$B" -m demo_cli $m > "$T/out.rs" 2> "$T/err"; then echo "status 0, but there are no bindings of $m"; exit 1; fi
done
exit 0
''', 'a request for a package together with one of its submodules that is broken or missing',
  'The submodule is skipped without an error: the tool exits with status 0 without the requested bindings.')

P('B23', 'C12', [(E+'syntax/module.rs', '''            let file_name = format!("{module_name}/__init__.py");
''', '''            let file_name = format!("{module_name}/__init__.py");
            let short_name = self.name.name().as_py();
'''), (E+'syntax/module.rs', '''                            #file_name,
                            #module_name,
''', '''                            #file_name,
                            #short_name,
''')], COMPILED, 'a text whose module name is dotted, embedded in an interpreter where a module with its last name is loaded (or a text that uses __name__)',
  'The text is executed in the namespace of the other module, which is changed by it, and the embedded module has the wrong name.',
  files={'demo_util.py': 'def who() -> str: return "file"\n', 'demo_ns.py': '', 'gen.rs': '''fn main() {
    let out = std::env::args().nth(1).unwrap();
    pyo3_bindgen::Codegen::default().module_from_str("def who() -> str: return 'text'\\n", "demo_ns.demo_util").unwrap().build(out).unwrap();
}
''', 'use.rs': '''mod b { include!("bindings.rs"); }
fn main() {
    pyo3::Python::with_gil(|py| {
        use pyo3::prelude::*;
        let file = py.import_bound("demo_util").unwrap();
        py.import_bound("demo_ns").unwrap();
        b::demo_ns::demo_util::pyo3_embed_python_source_code(py).unwrap();
        assert_eq!(b::demo_ns::demo_util::who(py).unwrap(), "text");
        assert_eq!(file.call_method0("who").unwrap().extract::<String>().unwrap(), "file", "the other module was changed");
    });
}
'''})
