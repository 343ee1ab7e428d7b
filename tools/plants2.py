import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
from plant import *
E = 'pyo3_bindgen_engine/src/'
which = sys.argv[1:]
def P(id, *a, **k):
    if not which or id in which:
        plant(id, *a, **k)

TWO = '''
# bindings of module $1 (made with the tool, unless b.rs is there already) compiled into a program with main.rs as its body
'''
COMPILED = HEAD + '''export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true PYO3_PYTHON=/usr/bin/python3.12
mkdir -p "$T/gen/src" "$T/use/src" "$T/py" && cp "$D/gen.rs" "$T/gen/src/main.rs" && cp "$D/use.rs" "$T/use/src/main.rs" || exit 3
for p in gen use; do cp "$R/Cargo.lock" "$T/$p/Cargo.lock"
cat > "$T/$p/Cargo.toml" <<EOF
[package]
name = "demo_$p"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pyo3_bindgen = { path = "$R/pyo3_bindgen" }
pyo3 = { version = "0.21", default-features = false, features = ["auto-initialize"] }
EOF
done
cp "$D"/*.py "$T/py/" 2>/dev/null
export PYTHONPATH="$T/py"; cd "$T"
cargo_run() { CARGO_TARGET_DIR="$T/target" cargo build --offline -q --manifest-path "$T/$1/Cargo.toml" 2>"$T/log" || { cat "$T/log"; exit $2; }; }
cargo_run gen 3
timeout 60 "$T/target/debug/demo_gen" "$T/use/src/bindings.rs" || exit 1
cargo_run use 1
timeout 60 "$T/target/debug/demo_use"
'''

P('B03', 'C09', [(E+'syntax/module.rs', '''                    py.import_bound(full_submodule_name.to_py().as_str())
                        .or_else(|_| {
                            module
''', '''                    // Do not go through the import system for submodules that are already loaded
                    py.import_bound(pyo3::intern!(py, "sys"))
                        .and_then(|sys| sys.getattr(pyo3::intern!(py, "modules")))
                        .and_then(|modules| modules.get_item(full_submodule_name.to_py()))
                        .and_then(|loaded| Ok(loaded.downcast_into::<pyo3::types::PyModule>()?))
                        .or_else(|_| py.import_bound(full_submodule_name.to_py().as_str()))
                        .or_else(|_| {
                            module
''')],
  RUST, 'two threads that generate bindings for the same package, one of which gets there while the other one is in the middle of importing a submodule',
  'The second thread inspects the half-initialised submodule and silently loses its bindings.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py/demo_slow").unwrap();
    std::fs::write("py/demo_slow/__init__.py", "").unwrap();
    std::fs::write("py/demo_slow/sub.py", "import time\\ntime.sleep(1.0)\\ndef late(): pass\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    let gen = || pyo3_bindgen::Codegen::default().module_name("demo_slow").unwrap().generate().unwrap().to_string();
    let first = std::thread::spawn(gen);
    std::thread::sleep(std::time::Duration::from_millis(500));
    let second = std::thread::spawn(gen);
    let (first, second) = (first.join().unwrap(), second.join().unwrap());
    assert!(first.contains("fn late"));
    assert_eq!(first, second, "the bindings depend on what another thread does");
}
'''})

P('B09', 'C07', [(E+'codegen.rs', '''        Ok(std::fs::write(output_path, self.generate()?.to_string())?)
''', '''        // Check that the output is writable before the (potentially slow) generation
        let mut output = std::fs::File::create(output_path)?;
        let bindings = self.generate()?;
        Ok(std::io::Write::write_all(
            &mut output,
            bindings.to_string().as_bytes(),
        )?)
''')],
  RUST, 'a generation that fails while a file exists at the output path',
  'A failed generation truncates the bindings of the previous build (or leaves an empty file).',
  files={'main.rs': '''fn main() {
    std::fs::write("bindings.rs", "pub mod previous {}").unwrap();
    assert!(pyo3_bindgen::Codegen::default().build("bindings.rs").is_err());
    assert_eq!(std::fs::read_to_string("bindings.rs").unwrap(), "pub mod previous {}", "the file was changed by a build that failed");
    assert!(pyo3_bindgen::Codegen::default().build("new.rs").is_err());
    assert!(!std::path::Path::new("new.rs").exists(), "a build that failed made a file");
    pyo3_bindgen::Codegen::default().module_name("colorsys").unwrap().build("bindings.rs").unwrap();
    assert!(std::fs::read_to_string("bindings.rs").unwrap().contains("rgb_to_hsv"));
}
'''})

P('B14', 'C07', [(E+'codegen.rs', '''        Ok(std::fs::write(output_path, self.generate()?.to_string())?)
''', '''        use std::io::Write as _;
        let bindings = self.generate()?;
        let mut output = std::io::BufWriter::new(std::fs::File::create(output_path)?);
        for item in bindings {
            write!(output, "{item} ")?;
        }
        Ok(())
''')],
  RUST, 'an error of the last write, such as a full disk, with bindings that fit into the buffer or end in it',
  'The error of the final flush is lost: build() returns Ok although the file is incomplete.',
  files={'main.rs': '''fn main() {
    std::fs::create_dir_all("py").unwrap();
    std::fs::write("py/demo_small.py", "def f(a: int) -> int: return a\\n").unwrap();
    std::env::set_var("PYTHONPATH", "py");
    let gen = || pyo3_bindgen::Codegen::default().module_name("demo_small").unwrap();
    gen().build("bindings.rs").unwrap();
    assert!(std::fs::read_to_string("bindings.rs").unwrap().contains("fn f"));
    assert!(gen().build("/dev/full").is_err(), "nothing could be written, but the build succeeded");
}
'''})

P('B10', 'C08', [('pyo3_bindgen_cli/src/main.rs', '''        std::io::stdout().write_all(bindings.as_bytes()).unwrap();
''', '''        let mut stdout = std::io::BufWriter::with_capacity(1 << 20, std::io::stdout().lock());
        stdout.write_all(bindings.as_bytes()).unwrap();
''')],
  CLI + '''
timeout 60 "$B" -m colorsys > "$T/out.rs" 2> "$T/err" || { cat "$T/err"; exit 1; }
grep -q "fn rgb_to_hsv" "$T/out.rs" || { echo "no bindings"; exit 1; }
if timeout 60 "$B" -m colorsys > /dev/full 2> "$T/err"; then echo "status 0, but nothing could be written"; exit 1; fi
exit 0
''', 'standard output that cannot take the bindings (a full disk), with bindings smaller than the buffer',
  'The error is lost when the buffer is dropped: the tool exits with status 0 although nothing was delivered.')

P('B11', 'C12', [(E+'syntax/module.rs', '''        let embed_source_code_fn = if let Some(source_code) = &self.source_code {
''', '''        // Use the same indentation as the rest of the bindings
        let source_code = self
            .source_code
            .as_ref()
            .map(|source_code| source_code.replace('\\t', "    "));
        let embed_source_code_fn = if let Some(source_code) = &source_code {
''')],
  COMPILED, 'a source text with a tab in a string literal',
  'The embedded source code is not the text the bindings were generated from: tabs in strings become spaces.',
  files={'gen.rs': '''const TEXT: &str = "SEP = '\\t'\\n\\ndef rows() -> str:\\n\\treturn \\'a\\tb\\'\\n";
fn main() {
    let out = std::env::args().nth(1).unwrap();
    pyo3_bindgen::Codegen::default().module_from_str(TEXT, "demo_text").unwrap().build(out).unwrap();
}
''', 'use.rs': '''mod b { include!("bindings.rs"); }
fn main() {
    pyo3::Python::with_gil(|py| {
        b::demo_text::pyo3_embed_python_source_code(py).unwrap();
        assert_eq!(b::demo_text::rows(py).unwrap(), "a\\tb", "the embedded text is not the one the bindings were made from");
        b::demo_text::pyo3_embed_python_source_code(py).unwrap();
    });
}
'''})

P('B12', 'C11', [(E+'syntax/function.rs', '''            .map(|param| param.name.as_py())
            .collect();
        let keyword_args_idents''', '''            .map(|param| param.name.as_rs())
            .collect();
        let keyword_args_idents''')],
  COMPILED, 'a keyword-only parameter whose name is a keyword of Rust (such as type, match or loop)',
  'The argument is passed under the escaped name (r#type), so the call fails or ends up in **kwargs.',
  files={'demo_kw.py': '''def pick(a: int, *, type: str, match: int) -> str:
    return "%s %s %s" % (a, type, match)
def plain(a: int, *, key: str) -> str:
    return "%s %s" % (a, key)
''', 'gen.rs': '''fn main() {
    let out = std::env::args().nth(1).unwrap();
    pyo3_bindgen::Codegen::default().module_name("demo_kw").unwrap().build(out).unwrap();
}
''', 'use.rs': '''mod b { include!("bindings.rs"); }
fn main() {
    pyo3::Python::with_gil(|py| {
        assert_eq!(b::demo_kw::plain(py, 1, "k").unwrap(), "1 k");
        match b::demo_kw::pick(py, 1, "t", 2) {
            Ok(v) => assert_eq!(v, "1 t 2"),
            Err(e) => { eprintln!("the call through the binding fails: {e}"); std::process::exit(1); }
        }
    });
}
'''})
