"""rewrites the "fixed" list of known_findings.json from the table below and /repo's history"""
import json, os, subprocess
WHAT = {
 'do not re-export submodules that are not a part of': ('C05', 'with generate_dependencies(true) and traverse_submodules(false), submodules listed in __all__ were re-exported only if something had imported them before'),
 'do not parse text that is no identifier inside of macros': ('C17', 'names that are no identifiers (for example "a-b" or "1x") made import_python! fail to compile although their bindings were skipped, because the compiler reports every text that a macro fails to lex'),
 'give sys.stdout and sys.stderr back after errors': ('C01', 'sys.stdout/sys.stderr stayed replaced after an error or a panic during parsing and after overlapping calls of several threads'),
 'replace suppressed output streams with a stream': ('C02', 'a suppressed stream was a function: any use other than print() raised in the inspected module (also lost its bindings, C03)'),
 'suppress the output of modules also while they are imported': ('C02', 'output printed by module bodies at import (module_name, module_from_str, generate) reached the real streams although suppressed'),
 'accept annotations with missing or unbalanced type arguments': ('C04', 'index out of bounds / unreachable / subtraction overflow for annotations such as typing.Counter[int], "dict[str]", "None|None", "a]"'),
 'accept modules and attributes with empty or otherwise unusual names': ('C04', 'panic for modules without a usable __name__ and for names such as "" or "a::b"'),
 'return exceptions raised by __dir__ as errors': ('C04', 'panic when __dir__ of a module or class raises'),
 'skip dependencies that cannot be imported anymore': ('C04', 'panic in parse_dependencies when the root of an external import cannot be imported (any more)'),
 'return an error if a parent package cannot be imported anymore': ('C04', 'panic in canonicalize when a parent package of an added module cannot be imported (any more)'),
 'accept methods, setters and signatures without the expected parameters': ('C04', 'panic for __init__/__call__ without parameters, setters with fewer than two parameters, unknown parameter kinds'),
 'keep reexports that have the same name as a broken submodule': ('C03', 're-export that overrides a submodule of the same name was lost when that submodule cannot be imported; panic when the import is no module'),
 'do not parse modules that contain themselves endlessly': ('C04', 'endless recursion for modules that are listed as their own submodule'),
 'derive preludes independent of which submodules': ('C05', 'prelude contained submodules only if they had been imported before'),
 'keep the order of items while merging modules': ('C05', 'order of merged items depended on the hash of their content, which includes object addresses in annotations'),
 'do not add an empty __all__': ('C10', 'inspection added __all__ = [] to every module without __all__ (which also changed what a later generation saw)'),
 'do not execute source code in the namespace': ('C12', 'module_from_str with the name of a loaded module executed the text in the old namespace'),
 'embed the source code of modules with dotted names': ('C12', 'no embedding function for source text with a dotted name or a name that is a Rust keyword'),
 'generate added submodules also if the traversal': ('C06', 'modules added below the top level vanished from the bindings if traverse_submodules was off'),
 'do not use values that are no strings as docstrings': ('C05', '__doc__ objects that are no strings ended up as documentation, with their address in memory'),
 'accept annotations that look like an incomplete class name': ('C04', 'panic for the annotations "<class \'>" and "<enum \'>"'),
 'import submodules by their own name in the bindings': ('C11', 'bindings of classes and functions in submodules imported the top-level package only, so a submodule that was not imported yet could not be used'),
 'bind parameters named with an underscore': ('C11', 'a parameter named "_" produced text that is no Rust or was not passed on'),
 'keep the variadic parameter of methods that receive self': ('C11', 'def f(*args) as a method lost its variadic parameter'),
 'call methods without parameters through their class': ('C11', 'a function without parameters in a class was called on the instance, which raises TypeError'),
 'do not modify the keyword arguments passed to a binding': ('C11', 'keyword-only arguments were inserted into the dictionary the caller passed as **kwargs'),
 'determine the kind of a method from its class object': ('C11', 'static and class methods that are aliases or wrapped were bound as instance methods (and the other way round)'),
 'pass bytes, frozen sets, variadic tuples and missing': ('C11', 'bytes arrived as lists, frozen sets as sets, tuple[int, ...] was bound as a 1-tuple, Optional dictionaries could not be passed as None'),
 'use the type of the setter for its parameter': ('C11', 'the parameter of a setter had the type of the getter'),
 'map the type of classes to classes': ('C11', 'type[C] was bound as an instance of C, so classes could not be passed'),
 'map annotated types to the type they annotate': ('C11', 'typing.Annotated[T, ...] was not mapped to T but to text that does not compile'),
 'correct the names of the types of IP addresses': ('C11', 'the bindings named types that do not exist (std::net::IpV4Addr)'),
 'convert IP addresses with a type that can be extracted': ('C11', 'bindings that return IP addresses did not compile (Ipv4Addr cannot be extracted)'),
 'do not map iterators to lists': ('C11', 'typing.Iterator was mapped to Vec: iterators of the results could not be converted and were consumed'),
 'pass paths as such': ('C11', 'pathlib.Path arguments arrived as str'),
 'generate bindings only for the last source code': ('C12', 'two texts with one name in one generator: merged bindings of both, but only the last text was embedded'),
 'map tuples with more elements than PyO3': ('C11', 'annotations with tuples of more than 12 elements were mapped to Rust tuples that PyO3 does not convert: the bindings did not compile'),
 'do not follow submodules overwritten by imports': ('C04', 'a package with an imported name that is also the name of a submodule which is the package itself (sys.modules): endless recursion, stack overflow'),
 'do not refer to types that are not generated': ('C11', 'with generate_classes(false) the bindings referred to classes that are not generated and did not compile'),
}
here = os.path.dirname(os.path.abspath(__file__))
try:
    exec(open(os.path.join(here, 'fixed_more.py')).read())
except FileNotFoundError:
    pass
p = os.path.join(here, '..', 'known_findings.json')
k = json.load(open(p))
k['fixed'] = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        hit = [v for a, v in WHAT.items() if s[5:].startswith(a)]
        if not hit:
            print('NO ENTRY', l)
            continue
        k['fixed'].append('fixed: property=%s %s %s' % (hit[0][0], h, hit[0][1]))
json.dump(k, open(p, 'w'), indent=1)
