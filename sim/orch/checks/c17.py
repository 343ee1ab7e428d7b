"""C17: every use of import_python! gives the library's bindings or the cause of its failure, whatever the others in the same compiler process did."""
from .common import *
from .c08 import SITE
from .c02 import noisy
import weird, hashlib, re, glob

MACROS = os.path.join(TARGET, 'cli/debug/libpyo3_bindgen_macros.so')
SITE2 = SITE.replace('builtins._S = _RT()', '''_done = set()
def _once(key, exc):
    if key not in _done:
        _done.add(key)
        raise getattr(builtins, exc)('cause ' + key)
_RT.once = staticmethod(_once)
builtins._S = _RT()''')
NOTEXT = ['', 'walpha', '1', '"walpha" "wbeta"', '"walpha",', "'w'", 'b"walpha"', '("walpha")', '"walpha"; "x"', 'c"walpha"', 'concat!("walpha")']
EXC = [e for e in EXC_ANY if e not in ('SyntaxError', 'UnicodeError')]


def literal(rng, n):
    k = rng.random()
    if k < 0.7 or '\\' in n or '"' in n or '\n' in n:
        return json.dumps(n, ensure_ascii=False)
    if k < 0.8:
        return 'r"%s"' % n
    if k < 0.9:
        return 'r#"%s"#' % n
    return '"%s"' % ''.join('\\u{%x}' % ord(c) if rng.random() < 0.5 else c for c in n)


class C17(Check):
    id = 'C17'
    cases = {'quick': 1200, 'thorough': 20000}
    budget = {'quick': 120, 'thorough': 1800}
    rule = ('case = modules as real files (some missing, failing always or the first time, noisy, hostile, interfering with each other) + a crate with 1..5 uses of import_python! (different spellings of the name, in modules and function bodies, repeated, some with malformed arguments) that the real compiler expands with the real macro; '
            'the expanded crate, the diagnostics and the standard streams are compared with the expansion of a crate that has the text in place which the library generates in the same history; non-trivial = a use was expanded, distinct by outcome')
    real = 'rustc (whole process), pyo3_bindgen_macros, pyo3_bindgen_engine, CPython 3.12 with its file system importer, real files'
    stub = 'content and failures of the modules, entropy, hash seed'
    assumptions = ['uses of the macro are expanded one after another in the order of the source text (rustc without parallel front end)', 'inspected code does not end the process']

    def setup(self, tier):
        if not os.path.exists(MACROS):
            raise HarnessError('macros are not built')
        root = subprocess.run(['rustc', '--print', 'sysroot'], capture_output=True, text=True, env=dict(os.environ)).stdout.strip()
        self.rustc = os.path.join(root, 'bin/rustc')
        deps = os.path.join(TARGET, 'host/debug/deps')
        libs = sorted(glob.glob(os.path.join(deps, 'libpyo3-*.rlib')), key=os.path.getmtime)
        if not libs:
            raise HarnessError('no libpyo3 in ' + deps)
        self.args = ['--edition', '2021', '--crate-type', 'lib', '-Zunpretty=expanded', '--error-format=json', '-L', 'dependency=' + deps, '--extern', 'pyo3=' + libs[-1]]

    def gen(self, rng, tier, i):
        g = wg.Gen(rng, roots=(1, 3), items=(1, 3), fan=(0, 2), depth=rng.choice([0, 1, 1, 2]), stdlib=0.05)
        w = g.world()
        names = [m['name'] for m in w['mods']]
        for m in w['mods']:
            k = rng.random()
            if k < 0.25:
                noisy(rng, m, '<%s>' % m['name'])
            elif k < 0.33:
                m['items'].insert(rng.choice([0, len(m['items'])]), {'k': 'fault', 'n': [], 'src': '_S.raise_(%r, %r)\n' % (rng.choice(EXC), 'cause ' + m['name'])})
            elif k < 0.41:
                m['items'].insert(rng.choice([0, len(m['items'])]), {'k': 'fault', 'n': [], 'src': '_S.once(%r, %r)\n' % (m['name'], rng.choice(EXC))})
            elif k < 0.43:
                m['items'].append({'k': 'fault', 'n': [], 'src': 'def (:\n'})
            elif k < 0.48:
                o = rng.choice(names)
                m['items'].append({'k': 'fault', 'n': [], 'src': rng.choice(['import sys\nsys.modules.pop(%r, None)\n' % o, 'import sys\nsys.path_importer_cache.clear()\n', 'import sys, io\nsys.stdout = io.StringIO()\n', 'import os\nos.environ["PYTHONPATH"] = ""\n', 'import sys\nsys.path.append("nowhere")\n', 'import threading\nthreading.Thread(target=lambda: None).start()\n', 'import warnings\nwarnings.warn("<%s>")\n' % m['name'], 'import sys\nsys.argv[:] = []\n', 'import os\nos.chdir("/")\n'])})
        if rng.random() < 0.2:
            weird.hostile(w, rng, 0.25)
        uses = []
        for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5])):
            k = rng.random()
            if k < 0.8:
                n = rng.choice(names)
            elif k < 0.93:
                n = rng.choice(['wmissing', names[0] + '.nosuch', '', '.', 'a b', names[0] + '.', '\u00e9\u00e9', names[0] + '..x', '-', 'w\n', '\\', "'", '{}', '{0}', 'json', 'colorsys'])
            else:
                uses.append([rng.choice(['mod', 'fn']), rng.choice(NOTEXT), None])
                continue
            uses.append([rng.choice(['mod', 'mod', 'fn', 'deep']), literal(rng, n), n])
        return {'world': w, 'uses': uses, 'hash': rng.randint(1, 1000), 'rand': rng.randrange(1 << 30)}

    def files(self, spec, wd):
        os.makedirs(wd)
        with open(os.path.join(wd, 'sitecustomize.py'), 'w') as f:
            f.write(SITE2)
        for m in spec['world']['mods']:
            rel = m['name'].replace('.', '/')
            p = os.path.join(wd, rel + '/__init__.py' if m['pkg'] else rel + '.py')
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', encoding='utf-8', errors='surrogatepass') as f:
                f.write(wg.source(m))

    def expected(self, spec, wd, ex):
        """what the library gives for the same requests, one after another in one process"""
        ops = [{'op': 'py', 'code': 'import sys, builtins, importlib.machinery\nsys.path.insert(0, %r)\nexec(open(%r).read(), {"__name__": "site"})\nif importlib.machinery.PathFinder not in sys.meta_path: sys.meta_path.append(importlib.machinery.PathFinder)\nimport importlib, sysconfig; importlib.invalidate_caches()\n' % (wd, os.path.join(wd, 'sitecustomize.py'))}]
        ops += [{'op': 'gen', 'cfg': {}, 'req': [['n', n]]} for _, _, n in spec['uses'] if n is not None]
        r = ex.leg({'world': {}, 'threads': [ops], 'line_events': False, 'text': True, 'cwd': wd}, timeout=30)
        if r.get('problem'):
            return None
        if r['results'][0][0]['outcome'] != 'ok':
            raise HarnessError(str(r['results'][0][0]))
        res = iter(r['results'][0][1:])
        return [next(res) if n is not None else {'outcome': 'syntax'} for _, _, n in spec['uses']]

    def crate(self, spec, content):
        out = []
        for k, ((place, _, _), c) in enumerate(zip(spec['uses'], content)):
            out.append({'mod': 'mod u%d { %s }', 'fn': 'fn u%d() { %s }', 'deep': 'mod u%d { pub mod inner { #[allow(unused)] use super::*; %s } }'}[place] % (k, c))
        return '\n'.join(out) + '\n'

    def expand(self, text, base, name, env, extra):
        src, dst = os.path.join(base, name + '.rs'), os.path.join(base, name + '.out')
        with open(src, 'w', encoding='utf-8') as f:
            f.write(text)
        e = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LANG': 'C.UTF-8', 'RUSTC_BOOTSTRAP': '1', **env}
        try:
            p = subprocess.run([self.rustc] + self.args + extra + ['--crate-name', 'uses', '-o', dst, src], cwd=base, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            return None
        diag, other = [], []
        for l in p.stderr.decode('utf-8', 'replace').splitlines():
            try:
                d = json.loads(l)
                diag.append(d)
            except ValueError:
                other.append(l)
        text = ''
        if os.path.exists(dst):
            with open(dst, encoding='utf-8', errors='replace') as f:
                text = f.read()
        return p.returncode, p.stdout.decode('utf-8', 'replace'), text, diag, other

    def run(self, spec, ex):
        base = tempfile.mkdtemp(dir=ex.scratch())
        try:
            return self.compare(spec, ex, base, os.path.join(base, 'py'))
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def compare(self, spec, ex, base, wd):
        self.files(spec, wd)
        want = self.expected(spec, wd, ex)
        if want is None or any(o['outcome'] not in ('ok', 'err', 'syntax') for o in want):
            ex.probe('skipped')
            return []
        env = {'PYTHONPATH': wd, 'PYTHONHASHSEED': str(spec['hash']), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'LD_PRELOAD': SHIM, 'SIM_RAND': str(spec['rand'])}
        got = self.expand(self.crate(spec, ['pyo3_bindgen_macros::import_python!(%s);' % l for _, l, _ in spec['uses']]), base, 'uses', env, ['--extern', 'pyo3_bindgen_macros=' + MACROS])
        if got is None:
            return [viol('hang', 'hang', 'the compilation does not end')]
        rc, stdout, text, diag, other = got
        ref = self.expand(self.crate(spec, [o['text'] if o['outcome'] == 'ok' else '' for o in want]), base, 'text', {}, [])
        ex.stats['legs'] += 2
        ex.stats['events'] += len(spec['uses'])
        for o in want:
            ex.probe('use_' + o['outcome'])
            if o['outcome'] == 'err' and o.get('exc'):
                e = o['exc']
                f = ex.stats['world_faults']
                e = str(e[0]) if isinstance(e, (list, tuple)) else str(e).split(':')[0]
                f[e] = f.get(e, 0) + 1
        norm = lambda s: re.sub(r'\s+', '', s).replace('(/*ERROR*/);', '')
        dig = hashlib.blake2b(repr([rc, stdout, norm(text), sorted(d.get('message', '') for d in diag)]).encode(), digest_size=12).hexdigest()
        ex.digests.add(dig)
        ex.case_digest.update(dig.encode())
        if rc < 0 or rc > 1:
            return [viol('abort', 'rc %d' % rc, 'the compiler ends with %d: %s' % (rc, '\n'.join(other)[-600:]))]
        if stdout:
            return [viol('noise', 'stdout', 'text on the standard output of the compiler: %r' % stdout[:300])]
        bad = [l for l in other if re.search(r'<w\w*', l)]
        if bad:
            return [viol('noise', 'stderr', 'text of inspected modules on the standard error of the compiler: %r' % bad[:3])]
        mine = [(d.get('message', ''), (d.get('spans') or [{}])[0].get('line_start') or 0, '\n'.join(c.get('message', '') for c in d.get('children', ()))) for d in diag if d.get('level') == 'error']
        for k, o in enumerate(want):
            here = [m for m in mine if m[1] == k + 1]
            if o['outcome'] == 'ok':
                p = [m for m in here if 'panicked' in m[0]]
                if p:
                    return [viol('fails', 'panic', 'use %d (%s) fails, although the library gives bindings: %s' % (k, spec['uses'][k], p))]
            elif o['outcome'] == 'syntax':
                if not here:
                    return [viol('silent', 'argument', 'use %d with the argument %r is accepted' % (k, spec['uses'][k][1]))]
            else:
                if not here:
                    return [viol('silent', 'failure', 'use %d (%s) does not fail, although the library gives %s' % (k, spec['uses'][k], o))]
                t = '\n'.join(m[0] + '\n' + m[2] for m in here)
                miss = [x for x in self.cause(spec['uses'][k][2], o) if norm(x) not in norm(t)]
                if miss:
                    return [viol('cause', 'cause', 'the diagnostic of use %d lacks %r: %s' % (k, miss, t[:600]))]
        lines = {k + 1 for k, o in enumerate(want) if o['outcome'] != 'ok'}
        a = sorted(m[0] for m in mine if m[1] not in lines and not m[0].startswith('aborting'))
        b = sorted(d.get('message', '') for d in ref[3] if d.get('level') == 'error' and not d.get('message', '').startswith('aborting'))
        x, y = norm(text), norm(ref[2])
        if x != y:
            j = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return [viol('differs', 'differs', 'the expansion differs from the bindings of the library: %r vs %r' % (x[max(0, j - 150):j + 150], y[max(0, j - 150):j + 150]))]
        if a != b:
            return [viol('differs', 'diagnostics', 'the diagnostics differ from those for the text of the library: %s vs %s' % (a[:5], b[:5]))]
        return []

    def cause(self, name, o):
        """what a diagnostic has to mention"""
        out = [name if re.search(r'\w\w', name) else "'%s'" % name]
        m = re.search(r'cause \w+(\.\w+)*', str(o))
        if m:
            out.append(m.group(0))
        e = o.get('exc')
        if e:
            out.append(str(e[0]) if isinstance(e, (list, tuple)) else str(e).split(':')[0])
        return out

    def nontrivial(self, spec, ex):
        return ex.stats['probes'].get('use_ok', 0) > 0

    def shrinks(self, spec):
        if len(spec['uses']) > 1:
            for k in range(len(spec['uses'])):
                yield with_(spec, ['uses'], spec['uses'][:k] + spec['uses'][k + 1:])
        yield from shrink_world_in(spec)


CHECK = C17()
