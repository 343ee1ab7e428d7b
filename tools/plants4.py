import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
import plant as _p
from plant import *
E = 'pyo3_bindgen_engine/src/'
which = sys.argv[1:]
def P(id, *a, **k):
    if id in which:
        plant(id, *a, **k)

P('B24', 'C10', [(E+'syntax/function.rs', '''            .call_method1(pyo3::intern!(py, "signature"), (function,))
''', '''            // Resolve annotations that are postponed (`from __future__ import annotations`)
            .call_method(
                pyo3::intern!(py, "signature"),
                (function,),
                Some(&pyo3::types::IntoPyDict::into_py_dict_bound([("eval_str", true)], py)),
            )
''')], RUST, 'a function whose annotation is text that does something when it is evaluated',
  'The text of annotations is executed as code of the inspected module.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py").unwrap();
    std::fs::write("py/demo_ann.py", "log = []\\ndef touch(x):\\n    log.append(x)\\n    return int\\ndef area(width: \\"touch('width')\\", height: int) -> \\"touch('result')\\": pass\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    let bindings = pyo3_bindgen::Codegen::default().module_name("demo_ann").unwrap().generate().unwrap().to_string();
    assert!(bindings.contains("fn area"));
    pyo3_bindgen::Codegen::default().module_from_str("import demo_ann\\nassert demo_ann.log == [], demo_ann.log\\n", "demo_check").map(|_| ()).expect("functions of the module were called");
}
'''})

P('B25', 'C06', [(E+'codegen.rs', '''                    merge_duplicate_submodules_recursive(&self.modules[range.clone()]);
''', '''                    merge_duplicate_submodules_recursive(&[
                        // The one that was added explicitly, if any, takes precedence
                        self.modules[range.start].clone(),
                        self.modules[range.end - 1].clone(),
                    ]);
''')], RUST, 'three or more requested modules of one package', 'Only the first and the last one of them keep their bindings.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py/demo_three").unwrap();
    std::fs::write("py/demo_three/__init__.py", "def top(): pass\\n").unwrap();
    for name in ["left", "middle", "right"] {
        std::fs::write(format!("py/demo_three/{name}.py"), format!("def in_{name}(): pass\\n")).unwrap();
    }
    std::env::set_var("PYTHONPATH", "py");
    let bindings = pyo3_bindgen::Codegen::default().module_names(["demo_three.left", "demo_three.middle", "demo_three.right"]).unwrap().generate().unwrap().to_string();
    for name in ["fn in_left", "fn in_middle", "fn in_right"] {
        assert!(bindings.contains(name), "{name} is missing");
    }
}
'''})

P('B26', 'C04', [(E+'syntax/function.rs', '''                        param.getattr(pyo3::intern!(py, "kind"))?.extract::<u8>()?,
''', '''                        param.getattr(pyo3::intern!(py, "kind"))?.extract::<u8>().unwrap(),
''')], RUST, 'a callable object with a __signature__ of its own, the parameters of which have a kind that is no integer',
  'The generation panics instead of returning an error or skipping the function.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py").unwrap();
    std::fs::write("py/demo_sig.py", "import inspect\\nclass Odd:\\n    name = 'odd'\\n    kind = 'positional'\\n    annotation = default = empty = None\\nclass Sig(inspect.Signature):\\n    parameters = {'odd': Odd()}\\ndef odd(a): pass\\nodd.__signature__ = Sig()\\ndef fine(): pass\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    let result = std::panic::catch_unwind(|| pyo3_bindgen::Codegen::default().module_name("demo_sig").and_then(|c| c.generate()).map(|b| b.to_string()));
    assert!(result.is_ok(), "generation panicked");
}
'''})

