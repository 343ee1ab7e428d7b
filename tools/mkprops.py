"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))
E='pyo3_bindgen_engine/src/'
prop('C01', "Python's output streams are always given back",
 "Whenever no generation call is in progress, the interpreter's sys.stdout and sys.stderr are the very objects they were before the calls that have ended began. This holds whether a call ended with bindings, with an error or by unwinding, wherever in the inspected code a failure struck, and however calls on several threads overlapped. (A stream that is not suppressed stays rebound if the inspected code itself rebinds it.)",
 ['fault_sequences','schedules','configurations','histories'],
 "Every point at which inspected Python code can run, fail or be preempted inside a call; every sequence of calls; 1..4 threads; all four settings of the two suppression flags.",
 "The tests never look at sys.stdout/sys.stderr, never make a call fail while streams are swapped and never run two calls at once; the state is process-global and the interleavings are chosen by the GIL.",
 [E+'utils/io.rs', E+'codegen.rs'],
 [('with_suppressed_python_output swaps and restores the two streams around a closure', E+'utils/io.rs'),
  ('callers wrap Module::parse in it', E+'codegen.rs: module, parse_dependencies')],
 [('sys.stdout / sys.stderr','process-global streams of the embedded interpreter',E+'utils/io.rs')],
 ['sys.stdout and sys.stderr after every call and after the last overlapping call'])
prop('C02', "Output suppression is complete, and changes nothing else",
 "With suppression of a stream on, nothing that inspected Python code writes to that stream while it is imported or inspected by a generation call reaches the real stream; with suppression off everything reaches it, in order. Code that writes to, flushes or queries the streams runs the same either way, so the bindings are identical for all settings of the suppression flags.",
 ['configurations','histories','fault_sequences','schedules'],
 "All settings of the two flags; every mix of stream operations (print, write, writelines, flush, isatty, ...) at every import and inspection point of a module forest; repeated and overlapping calls.",
 "No test inspects a module that prints, none sets the flags, and none compares the bindings across the flags.",
 [E+'utils/io.rs', E+'codegen.rs', E+'config.rs'],
 [('stand-in stream object installed while parsing', E+'utils/io.rs'),
  ('suppress_python_stdout / suppress_python_stderr flags', E+'config.rs')],
 [('stand-in stream','object that swallows output during parsing',E+'utils/io.rs')],
 ['text that reaches the original streams','generated bindings under each flag setting'])
prop('C03', "A broken submodule or attribute costs only its own bindings",
 "When a submodule cannot be imported, or a listed attribute cannot be read, generation still succeeds and produces exactly the bindings it would produce if that submodule or attribute did not exist. Every other public function, class, constant and submodule of the target keeps its binding.",
 ['fault_sequences','programs'],
 "Every set of failing submodules and unreadable attributes, at any depth of a package tree, with any exception, failing always or only the first time.",
 "The tests inspect healthy single-file modules; no import or attribute access ever fails in them.",
 [E+'syntax/module.rs', E+'syntax/class.rs'],
 [('failing submodule imports are dropped (or_else ... ok)', E+'syntax/module.rs: parse, submodules'),
  ('unreadable attributes are skipped with a warning', E+'syntax/module.rs and class.rs: filter_map over dir()')],
 [], ['items of the generated bindings'])
prop('C04', "Generation never panics, whatever the inspected module does",
 "As long as a requested module itself can be imported, adding it and generating its bindings ends with bindings or with an error value, never with a panic, an abort or an endless loop. This holds whatever the inspected objects report or raise, and whatever disappears from the import system between adding a module and generating.",
 ['fault_sequences','programs','histories'],
 "An exception of any kind at any point where inspected or library Python code runs; modules and imports that vanish or change between steps; malformed metadata (annotations, __all__, __module__, __name__, __path__, signatures).",
 "README promises it for every importable module; the tests inspect five well-behaved modules and inject no failure.",
 [E+'codegen.rs', E+'syntax/module.rs', E+'syntax/class.rs', E+'syntax/function.rs', E+'syntax/property.rs', E+'syntax/common/path.rs', E+'syntax/common/ident.rs', E+'typing/from_py.rs', E+'typing/into_rs.rs', E+'utils/text.rs'],
 [('errors are returned as PyBindgenError', E+'utils/error.rs'),
  ('unwrap()/unreachable!() where the code assumes that an operation cannot fail', E+'codegen.rs, syntax/module.rs')],
 [], ['outcome of every public Codegen call'])
prop('C05', "Bindings are reproducible byte for byte",
 "For the same modules and configuration, generation gives byte-identical bindings, whatever the interpreter's hash seed, the operating system's random bytes, the memory addresses objects happen to have, the calling thread, and whatever was imported or generated earlier in the process.",
 ['configurations','histories','schedules'],
 "All hash seeds, random-byte streams, address layouts and calling threads; all histories of earlier imports and generations in the process (of the same or of other modules).",
 "Each test generates once per process from a one-item module, so neither iteration order nor history can show.",
 [E+'codegen.rs', E+'syntax/module.rs'],
 [('deterministic FxHash containers and order-preserving unique()', E+'codegen.rs, syntax/module.rs'),
  ('modules sorted by name', E+'codegen.rs: merge_duplicate_modules')],
 [], ['text of the bindings across environments and histories'])
prop('C06', "Added modules are merged without loss or duplication, in any order",
 "The bindings for any sequence of added modules contain every binding that each of these modules has when generated alone, at the same path, and nothing else apart from the re-exports that link them; no item appears twice. Order, repetition, overlap (a package and its submodules) and the choice between adding one by one or in batches do not change the set of bindings.",
 ['histories','programs'],
 "All sequences of builder operations (by name, by module object, one by one, batched, cloned half-way) over a forest of packages, with repetitions and overlaps at every nesting depth.",
 "The tests add one module, or two disjoint top-level ones, and never look inside a merged tree.",
 [E+'codegen.rs'],
 [('canonicalize wraps nested modules into their parents', E+'codegen.rs'),
  ('merge_duplicate_modules merges trees of equal name recursively', E+'codegen.rs')],
 [('modules','list of parsed module trees, one per added module',E+'codegen.rs: Codegen.modules')],
 ['item tree of the bindings'])
prop('C07', "A build reports every failure and leaves no half-truth behind",
 "Writing bindings to a file succeeds only if the file then holds exactly the complete bindings, and any failure to open or write the file is returned as an I/O error. If generation itself fails, or the process dies before generation has finished, a file already at that path is unchanged and no new file appears.",
 ['fault_sequences','crash_points','histories'],
 "Every I/O error, short write and interruption at every system call on the output file; every failure or crash point during generation; every earlier content of the output file.",
 "No test calls build() at all, and none makes an I/O operation fail.",
 [E+'codegen.rs'],
 [('build() generates first and then writes with std::fs::write', E+'codegen.rs: build')],
 [('output file','previous bindings or nothing','path given to build()')],
 ['output file content and result of build()'])
prop('C08', "The command-line tool's exit status tells the truth",
 "The command-line tool exits with status 0 only if it delivered the complete, formatted bindings for all requested modules, and nothing else, to its chosen destination (standard output or the output file, whose missing parent directories it creates). In every other case it exits non-zero with a message on standard error; if generation fails nothing is written to standard output and an existing output file is unchanged.",
 ['fault_sequences','crash_points','configurations'],
 "Every failing, short or interrupted system call on the destination; every failing or noisy requested module; both destinations; lists of modules and every earlier state of the output path.",
 "The tests only check that os and sys exit with success; nothing checks the content, the -o option, or a failing write.",
 ['pyo3_bindgen_cli/src/main.rs', E+'codegen.rs', E+'utils/io.rs'],
 [('panic on every failed step gives exit status 101', 'pyo3_bindgen_cli/src/main.rs'),
  ('write_all / fs::write with checked result', 'pyo3_bindgen_cli/src/main.rs')],
 [('output file','previous bindings or nothing','--output path')],
 ['exit status, stdout, stderr and output file of the process'])
prop('C09', "Concurrent generations do not affect each other",
 "When several threads generate bindings at the same time in one process, each ends, and with exactly the result it would get if it ran alone, whether that is bindings or an error. This holds however the interpreter interleaves the threads, and for a generator that is built on one thread and finished on another.",
 ['schedules','histories','fault_sequences'],
 "All interleavings of 2..4 threads at every point where the interpreter can switch threads, over overlapping and disjoint module sets, with failures in some of them.",
 "Test threads overlap by accident only, on different modules, and the schedule is not controlled.",
 [E+'codegen.rs', E+'syntax/module.rs', E+'utils/io.rs', E+'syntax/common/path.rs'],
 [('per-call state only; the GIL serialises access to Python objects', E+'codegen.rs'),
  ('process-global stream swap', E+'utils/io.rs')],
 [('sys.stdout / sys.stderr','the only state shared between calls',E+'utils/io.rs')],
 ['results of all threads; progress of all threads'])
prop('C10', "Generation only looks at the target, it never runs or changes it",
 "Generating bindings calls none of the functions, methods, constructors, property accessors and callable objects it inspects (the hooks by which an object describes itself, such as __dir__, __getattr__ and __repr__, excepted). It adds, removes and rebinds no attribute of an inspected module or class, apart from the import system's own binding of imported submodules.",
 ['histories','programs','fault_sequences'],
 "All module forests whose callables record their invocation, all configurations, including runs in which some inspection fails half-way.",
 "The tests compare generated text only; a call into the target leaves no trace in it.",
 [E+'syntax/module.rs', E+'syntax/class.rs', E+'syntax/function.rs', E+'syntax/property.rs', E+'syntax/common/attribute_variant.rs'],
 [('inspection by getattr, dir and inspect.signature only', E+'syntax/*.rs')],
 [], ['effect log of the target; attribute dictionaries before and after'])
prop('C11', "Generated bindings are a faithful proxy of the Python object",
 "Each call of a generated function, method, constructor, getter or setter performs exactly one corresponding operation on the Python object, with every argument bound to the parameter of the same name, and returns its value or, as an error value, exactly the exception it raised. After any sequence of such calls, from one or several threads and with failures anywhere in them, the Python side has the same state and call history as if the operations had been performed in Python, and a failing, missing or ill-typed reply never panics.",
 ['histories','schedules','fault_sequences','programs'],
 "All sequences of calls through the bindings of stateful modules, classes and instances; exceptions and ill-typed replies from any call; modules that cannot be imported at call time; interleavings of several calling threads.",
 "No test compiles generated bindings together with calls, apart from two examples that are never run; tests compare generated text for three one-item modules.",
 [E+'syntax/function.rs', E+'syntax/class.rs', E+'syntax/property.rs', E+'typing/into_rs.rs', E+'syntax/common/path.rs'],
 [('generated dispatcher: import, getattr, call, extract', E+'syntax/function.rs: generate'),
  ('generated getters and setters', E+'syntax/property.rs'),
  ('argument preprocessing', E+'typing/into_rs.rs: preprocess_borrowed')],
 [], ['return values, errors, call log and state of the Python objects'])
prop('C12', "Bindings from source text depend on that text alone, and embed it intact",
 "Bindings generated from Python source text are determined by the text, the module name and the configuration, not by modules of that name that were loaded or generated from other text before. The embedding function generated with them installs exactly that text's module under that name, so that the bindings then work in a fresh interpreter, and may be called again.",
 ['histories','configurations'],
 "All histories of generations from different texts under the same and different names, interleaved with imports and embeddings.",
 "Each test generates one text under a unique name in its process and never runs the embedding function.",
 [E+'codegen.rs', E+'syntax/module.rs'],
 [('PyModule::from_code_bound', E+'codegen.rs: module_from_str'),
  ('pyo3_embed_python_source_code', E+'syntax/module.rs: generate')],
 [('embedded_source_code','source text by module name',E+'codegen.rs: Codegen.embedded_source_code'),
  ('sys.modules','modules known to the interpreter','embedded interpreter')],
 ['bindings text; behaviour of the embedded module'])
prop('C13', "A failed request is reported with its cause and leaves nothing behind",
 "If a requested module cannot be imported, or has no valid source, the call returns an error that carries the original Python exception; it is never skipped silently, and no Python error stays pending. Once the cause is gone, the same request in the same process gives the same bindings as in a process in which nothing ever failed.",
 ['fault_sequences','histories'],
 "All sequences of failing and succeeding requests, with transient and lasting failures of any exception type at any import of the requested modules.",
 "No test requests a module that fails, let alone retries one.",
 [E+'codegen.rs', E+'utils/error.rs', E+'utils/io.rs'],
 [('PyErr is converted with ? into PyBindgenError::PyError', E+'codegen.rs, utils/error.rs')],
 [], ['error values; bindings after recovery'])
# Not simulation targets
prop('C14', "Generated bindings compile for every importable module",
 "For every Python module that can be imported and every configuration, the generated bindings are accepted by the Rust compiler.",
 ['inputs','programs'], "All Python modules and configurations.",
 "The tests compile the output for a handful of modules.",
 [E+'syntax', E+'typing/into_rs.rs'], [('identifier sanitisation and name-clash avoidance', E+'syntax/*.rs')])
prop('C15', "Every public item, and only those, gets a binding of the right kind and name",
 "The bindings mirror the structure of the target: each public class, function, property, type variable and submodule allowed by the configuration appears once under its (sanitised) name, with its docstring, and private, blocklisted and reserved names do not appear.",
 ['inputs','configurations'], "All module structures and configurations.",
 "The tests check three one-item modules with the default configuration.",
 [E+'syntax/module.rs', E+'syntax/class.rs', E+'config.rs', E+'utils/text.rs'], [('Config::is_attr_allowed', E+'config.rs'), ('AttributeVariant::determine', E+'syntax/common/attribute_variant.rs')])
prop('C16', "Type annotations map to the documented Rust types",
 "Each annotation, whether a type object, a typing construct or a string, maps to the same Rust type independent of its spelling, with unknown annotations falling back to an untyped Python object.",
 ['inputs'], "All annotations.", "The tests check a few annotations.",
 [E+'typing/from_py.rs', E+'typing/into_rs.rs'], [('Type::from_str, Type::try_from, Type::into_rs', E+'typing')])
prop('C17', "Each import_python! gives the library's bindings or the cause of its failure",
 "Within one compiler process, each use of import_python! expands to exactly the bindings that the library generates for that module with the default configuration, or fails the compilation with a diagnostic that names the module and the original Python error (or says that the argument is not a module name). This holds whatever earlier uses did (failed, printed, replaced streams, changed import state), for every number and placement of uses, and nothing that inspected code prints reaches the compiler's own output streams. Text that the library merely tries and skips causes no compile errors.",
 ['inputs','histories','faults'], "Other uses of the macro in the same crate, inspected modules that fail always or once, print, or interfere with each other, process entropy.", "The macro has no unit tests that expand it for failing modules or more than once in a process.",
 ['pyo3_bindgen_macros/src/lib.rs','pyo3_bindgen_macros/src/parser.rs',E+'codegen.rs',E+'syntax/common/ident.rs'], [('import_python', 'pyo3_bindgen_macros/src/lib.rs'), ('Args::parse', 'pyo3_bindgen_macros/src/parser.rs')])
open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(p, ensure_ascii=False)+'\n' for p in P))
