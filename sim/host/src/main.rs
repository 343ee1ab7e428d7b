//! simhost: a Python interpreter embedded next to the real `pyo3_bindgen` engine.
//!
//! The process runs one Python program (the simulator in /verif/sim/py) and exposes the real,
//! unmodified engine to it as the builtin module `_engine`. Every engine entry point is called
//! exactly the way a Rust program would call it: from a thread that does not hold the GIL.
use pyo3::prelude::*;
use pyo3::types::{PyCFunction, PyDict, PyList, PyModule, PyTuple};
use pyo3_bindgen::{Codegen, Config, PyBindgenError};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

mod drive;
mod items;

static HANDLES: Mutex<(u64, BTreeMap<u64, Codegen>)> = Mutex::new((0, BTreeMap::new()));

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn insert(cg: Codegen) -> u64 {
    let mut h = HANDLES.lock().unwrap();
    h.0 += 1;
    let id = h.0;
    h.1.insert(id, cg);
    id
}

fn take(id: u64) -> Codegen {
    HANDLES.lock().unwrap().1.remove(&id).expect("no such handle")
}

enum Out {
    None,
    Handle(u64),
    Text(String),
}

fn finish(
    py: Python<'_>,
    r: std::thread::Result<Result<Out, PyBindgenError>>,
) -> PyResult<PyObject> {
    let d = PyDict::new_bound(py);
    match r {
        Ok(Ok(out)) => {
            d.set_item("outcome", "ok")?;
            match out {
                Out::None => {}
                Out::Handle(h) => d.set_item("handle", h)?,
                Out::Text(t) => d.set_item("text", t)?,
            }
        }
        Ok(Err(e)) => {
            d.set_item("outcome", "err")?;
            d.set_item("err", e.to_string())?;
            let kind = match &e {
                PyBindgenError::IoError(_) => "io",
                PyBindgenError::PyError(_) => "py",
                PyBindgenError::PyDowncastError => "downcast",
                PyBindgenError::SynError(_) => "syn",
                PyBindgenError::ParseError(_) => "parse",
                PyBindgenError::CodegenError(_) => "codegen",
                PyBindgenError::Infallible(_) => "infallible",
            };
            d.set_item("kind", kind)?;
            if let PyBindgenError::IoError(e) = &e {
                d.set_item("errno", e.raw_os_error())?;
            }
            if let PyBindgenError::PyError(e) = e {
                d.set_item("exc", e.into_value(py))?;
            }
        }
        Err(payload) => {
            let msg = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .or_else(|| payload.downcast_ref::<String>().cloned())
                .or_else(|| payload.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "<unknown panic>".into());
            d.set_item("outcome", "panic")?;
            d.set_item("err", msg)?;
        }
    }
    // A pending Python error here would be one the engine left behind
    if let Some(err) = PyErr::take(py) {
        d.set_item("leftover", err.into_value(py))?;
    }
    Ok(d.into_py(py))
}

fn guarded(
    py: Python<'_>,
    f: impl FnOnce() -> Result<Out, PyBindgenError> + Send,
) -> PyResult<PyObject> {
    let r = py.allow_threads(|| catch_unwind(AssertUnwindSafe(f)));
    finish(py, r)
}

fn config(d: &Bound<'_, PyDict>) -> PyResult<Config> {
    let mut c = Config::default();
    for (k, v) in d.iter() {
        let k: String = k.extract()?;
        match k.as_str() {
            "traverse_submodules" => c.traverse_submodules = v.extract()?,
            "generate_preludes" => c.generate_preludes = v.extract()?,
            "generate_imports" => c.generate_imports = v.extract()?,
            "generate_classes" => c.generate_classes = v.extract()?,
            "generate_type_vars" => c.generate_type_vars = v.extract()?,
            "generate_functions" => c.generate_functions = v.extract()?,
            "generate_properties" => c.generate_properties = v.extract()?,
            "generate_docs" => c.generate_docs = v.extract()?,
            "blocklist_names" => c.blocklist_names = v.extract()?,
            "include_private" => c.include_private = v.extract()?,
            "generate_dependencies" => c.generate_dependencies = v.extract()?,
            "suppress_python_stdout" => c.suppress_python_stdout = v.extract()?,
            "suppress_python_stderr" => c.suppress_python_stderr = v.extract()?,
            _ => return Err(pyo3::exceptions::PyKeyError::new_err(k)),
        }
    }
    Ok(c)
}

fn register(py: Python<'_>) -> PyResult<()> {
    let m = PyModule::new_bound(py, "_engine")?;
    macro_rules! def {
        ($name:literal, $f:expr) => {
            m.add(
                $name,
                PyCFunction::new_closure_bound(
                    py,
                    Some(concat!($name, "\0").trim_end_matches('\0')),
                    None,
                    $f,
                )?,
            )?;
        };
    }
    let _ = &m;
    // new(cfg) -> handle
    def!("new", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<u64> {
        let cfg: Bound<'_, PyDict> = a.get_item(0)?.downcast_into()?;
        Ok(insert(Codegen::new(config(&cfg)?)))
    });
    // clone(handle) -> handle
    def!("clone", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<u64> {
        let id: u64 = a.get_item(0)?.extract()?;
        let cg = HANDLES.lock().unwrap().1.get(&id).expect("no such handle").clone();
        Ok(insert(cg))
    });
    def!("drop", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<()> {
        let id: u64 = a.get_item(0)?.extract()?;
        drop(take(id));
        Ok(())
    });
    // module_name(handle, name) -> result
    def!("module_name", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<PyObject> {
        let cg = take(a.get_item(0)?.extract()?);
        let name: String = a.get_item(1)?.extract()?;
        guarded(a.py(), move || Ok(Out::Handle(insert(cg.module_name(&name)?))))
    });
    def!("module_names", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<PyObject> {
        let cg = take(a.get_item(0)?.extract()?);
        let names: Vec<String> = a.get_item(1)?.extract()?;
        guarded(a.py(), move || {
            let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            Ok(Out::Handle(insert(cg.module_names(names)?)))
        })
    });
    def!("module_from_str", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<PyObject> {
        let cg = take(a.get_item(0)?.extract()?);
        let src: String = a.get_item(1)?.extract()?;
        let name: String = a.get_item(2)?.extract()?;
        guarded(a.py(), move || Ok(Out::Handle(insert(cg.module_from_str(&src, &name)?))))
    });
    // module(handle, module object) -> result
    def!("module", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<PyObject> {
        let cg = take(a.get_item(0)?.extract()?);
        let m: Py<PyModule> = a.get_item(1)?.downcast_into::<PyModule>()?.unbind();
        guarded(a.py(), move || {
            Python::with_gil(|py| Ok(Out::Handle(insert(cg.module(m.bind(py))?))))
        })
    });
    def!("modules", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<PyObject> {
        let cg = take(a.get_item(0)?.extract()?);
        let mut ms: Vec<Py<PyModule>> = Vec::new();
        for m in a.get_item(1)?.iter()? {
            ms.push(m?.downcast_into::<PyModule>()?.unbind());
        }
        guarded(a.py(), move || {
            Python::with_gil(|py| {
                let ms: Vec<_> = ms.iter().map(|m| m.bind(py).clone()).collect();
                Ok(Out::Handle(insert(cg.modules(ms)?)))
            })
        })
    });
    // generate(handle) -> result
    def!("generate", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<PyObject> {
        let cg = take(a.get_item(0)?.extract()?);
        guarded(a.py(), move || Ok(Out::Text(cg.generate()?.to_string())))
    });
    // build(handle, path) -> result
    def!("build", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<PyObject> {
        let cg = take(a.get_item(0)?.extract()?);
        let path: String = a.get_item(1)?.extract()?;
        guarded(a.py(), move || {
            cg.build(&path)?;
            Ok(Out::None)
        })
    });
    // items(text) -> nested lists | raises ValueError if the text is not Rust
    def!("items", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<PyObject> {
        let text: String = a.get_item(0)?.extract()?;
        items::items(a.py(), &text)
    });
    def!("pretty", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<String> {
        let text: String = a.get_item(0)?.extract()?;
        let f = syn::parse_file(&text)
            .map_err(|e| pyo3::exceptions::PyValueError::new_err(e.to_string()))?;
        Ok(prettyplease::unparse(&f))
    });
    // drive(text, root, first) -> (text with wrappers, table)
    def!("drive", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<(String, PyObject)> {
        let text: String = a.get_item(0)?.extract()?;
        let root: String = a.get_item(1)?.extract()?;
        drive::drive(a.py(), &text, &root, a.get_item(2)?.extract()?)
    });
    def!("panic_exception", |a: &Bound<'_, PyTuple>, _k: Option<&Bound<'_, PyDict>>| -> PyResult<PyObject> {
        Ok(a.py().get_type_bound::<pyo3::panic::PanicException>().into_py(a.py()))
    });
    py.import_bound("sys")?.getattr("modules")?.set_item("_engine", m)?;
    Ok(())
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if std::env::var_os("SIM_PANIC_TRACE").is_some() {
            eprintln!("PANIC {msg} @ {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
    }));
    pyo3::prepare_freethreaded_python();
    let code = Python::with_gil(|py| -> i32 {
        let r = (|| -> PyResult<i32> {
            register(py)?;
            let args: Vec<String> = std::env::args().skip(1).collect();
            let sys = py.import_bound("sys")?;
            sys.setattr("argv", PyList::new_bound(py, &args))?;
            let dir = std::path::Path::new(&args[0]).parent().unwrap().to_owned();
            sys.getattr("path")?.call_method1("insert", (0, dir.to_string_lossy().to_string()))?;
            let runpy = py.import_bound("_simboot")?;
            runpy.call_method0("main")?.extract()
        })();
        match r {
            Ok(c) => c,
            Err(e) => {
                if e.is_instance_of::<pyo3::exceptions::PySystemExit>(py) {
                    return e.value_bound(py).getattr("code").and_then(|c| c.extract()).unwrap_or(2);
                }
                e.print(py);
                2
            }
        }
    });
    Python::with_gil(|py| {
        let _ = py.run_bound("import sys; sys.stdout.flush(); sys.stderr.flush()", None, None);
    });
    std::process::exit(code);
}
