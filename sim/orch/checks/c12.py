"""C12: bindings from source text depend on that text alone and embed it intact."""
from .common import *
from .c11 import Bindings, names_of, dict_diff, BAD, C11
import px

NAMES = ['wtext', 'wtext', 'type', 'wmatch', 'größe', 'Wt', 'wa.wb', 'wa.match', 'w_1']
BITS = ['"# {} //"', "'tab\\there'", '"""two\nlines\t "quoted" \\\\ """', "r'C:\\new\\t'", '"é世😀"', '"/* */ */"', "'#\"#'", '"""  \n\n  """', "'\\x00\\u2028'", '"\u2028\u00a0"', '"%s {0} $x"']


def dress(r, src):
    """the same module, written in a way that gets lost easily"""
    for i in range(r.randint(0, 3)):
        src += 'BLOB%d = %s\n' % (i, r.choice(BITS))
    src += 'def whereami(a: int = 0) -> int:\n    import sys\n    return sys._getframe().f_lineno\n'
    k = r.random()
    if k < 0.25:
        src = r.choice(['\n\n', '\n', '\n \n\t\n', '# comment\n\n', '# -*- coding: utf-8 -*-\n', '\ufeff', '\x0c\n', '"""text\n\n\tdoc  \n"""\n', '   \n']) + src
    k = r.random()
    if k < 0.3:
        src = src.rstrip('\n') if r.random() < 0.5 else src + r.choice(['\n\n', '    \n', '# end', '\x0c', 'pass;\n'])
    if r.random() < 0.1:
        src = src.replace('\n', '\r\n')
    return src


def simple(r, name, k):
    """a text that has something to do with others of the same name"""
    return r.choice([
        'def f%d(a: int) -> str: ...\n' % k,
        'class C:\n    def m%d(self, x: "C") -> "C": ...\n' % k,
        'try:\n    seen += 1\nexcept NameError:\n    seen = 1\nglobals()["v%d" % seen] = seen\n',
        'import sys\nfor k in dir(sys.modules[__name__]):\n    if not k.startswith("_"): globals()["saw_" + k] = 1\n',
        'if "f1" in globals():\n    def again(): ...\nelse:\n    def f1(x: int): ...\n',
        '__all__ = ["a%d"]\na%d = 5\nhidden = 6\n' % (k, k),
        '"""doc %d"""\nx%d: int = %d\n' % (k, k, k),
        'def __getattr__(n):\n    if n == "ghost": return 1\n    raise AttributeError(n)\ndef __dir__(): return ["g%d", "ghost"]\ng%d = 1\n' % (k, k),
        'from typing import TypeVar, Optional\nT = TypeVar("T")\ndef tv(x: Optional[T]) -> T: ...\n',
        'import %s as me\ndef own(): ...\n' % name,
        'import types, functools\nclass D(dict):\n    @property\n    def p(self) -> int: return 1\ndef d(x: D) -> D: ...\ninst = D()\n',
    ])


BROKEN = ['x = (\n', 'raise ValueError("q")\n', 'import nothere\n', 'y = 1\nimport sys\ndel sys.modules[__name__]\n', 'y = 1\nraise KeyboardInterrupt()\n', 'def f(): ...\n1/0\n']


def text_world(seed, k):
    r = rng_for('C12-world', seed, k)
    name = r.choice(NAMES)
    g = px.WorldGen(r, common=r.choice([0.4, 0.75, 1.0]), single=name)
    src = g.world()[name]['src']
    w = {'text': dress(r, src), 'name': name, 'ops': g.ops + [{'do': 'fn', 'mod': name, 'attr': 'whereami', 'params': [['a', 'o', 'int']], 'ret': 'int'}], 'cfg': dict(any_cfg(r, 0.08) if r.random() < 0.3 else {}, **flags(r, 0.9)), 'mods': {}}
    w['cfg'].pop('generate_dependencies', None)
    if '.' in name:
        w['mods'][name.split('.')[0]] = {'src': 'pkgattr = 1\n', 'pkg': True, 'list': []}
    return w


class C12(Check):
    id = 'C12'
    cases = {'quick': 3000, 'thorough': 60000}
    budget = {'quick': 150, 'thorough': 2400}
    worlds = {'quick': 160, 'thorough': 2400}
    rule = ('case = either a history of generations from texts under equal and different names, of imports, failures and changes of sys.modules that ends in a generation whose bindings are compared with those of a fresh process; or a text whose bindings are compiled with its embedding function, and a history of '
            'embeddings and calls in a fresh interpreter, compared with the text executed as a module in Python; non-trivial = bindings were generated or a body was entered, distinct by event log')
    real = Check.real + ', the generated bindings and embedding functions compiled by rustc with pyo3'
    stub = 'modules on disk (virtual importer), scripted replies and exceptions'
    assumptions = ['the parent packages of a dotted name are the same in both processes', 'the text does not rebind its own __name__', 'modules that the text imports are the same in both processes', 'a text without NUL characters (Python rejects them)']

    def __init__(self):
        self.bindings = Bindings()
        self.w = {}
        self.c11 = C11()

    def setup(self, tier):
        px.cleanup(self.worlds[tier] + 100)
        self.seed = int(os.environ.get('VERIF_SEED') or 1)

    def world(self, k):
        if k not in self.w:
            self.w = dict(list(self.w.items())[-300:])
            self.w[k] = text_world(self.seed, k)
        return self.w[k]

    def gen(self, rng, tier, i):
        if i % 2:
            return self.gen_embed(rng, self.world(i // 2 % self.worlds[tier]))
        return self.gen_history(rng)

    # ------------- histories of generations
    def gen_history(self, rng):
        names = rng.sample(['wtext', 'wother', 'type', 'wdisk', 'wdisk.sub', 'größe'], rng.randint(1, 3))
        if 'wdisk.sub' in names and 'wdisk' in names:
            names.remove('wdisk')
        disk = {}
        for n in ['wdisk'] + [n for n in names if '.' not in n and rng.random() < 0.4]:
            disk[n] = {'src': simple(rng, n, rng.randint(1, 3)), 'pkg': n == 'wdisk', 'list': []}
        ops = []
        texts = {n: [self.text(rng, n) for _ in range(2)] for n in names}
        cfg = lambda: dict(any_cfg(rng, 0.1) if rng.random() < 0.3 else {}, **flags(rng, 0.9))
        final = rng.choice(names)
        for _ in range(rng.randint(1, 5)):
            n = final if rng.random() < 0.7 else rng.choice(names)
            k = rng.random()
            if k < 0.35:
                ops.append({'op': 'gen', 'cfg': cfg(), 'req': [['s', rng.choice(texts[n]), n]]})
            elif k < 0.45:
                ops.append({'op': 'gen', 'cfg': cfg(), 'req': [['s', rng.choice(BROKEN), n]]})
            elif k < 0.6:
                ops.append({'op': 'import', 'name': n})
            elif k < 0.7:
                ops.append({'op': 'gen', 'cfg': cfg(), 'req': [['n', n]]})
            elif k < 0.8:
                ops.append({'op': 'py', 'code': 'import sys\nsys.modules.pop(%r, None)\n' % n})
            elif k < 0.9:
                ops.append({'op': 'py', 'code': 'import sys, types\nm = types.ModuleType(%r)\nm.junk = 1\nm.__all__ = ["junk"]\nm.seen = 7\nm.f1 = print\nsys.modules[%r] = m\n' % (n, n)})
            elif k < 0.95:
                ops.append({'op': 'py', 'code': 'import sys\nsys.modules[%r] = None\n' % n})
            else:
                ops.append({'op': 'py', 'code': 'import sys\nm = sys.modules.get(%r)\nif m is not None: m.added = 1; m.__doc__ = "changed"\n' % n})
        req = []
        for n in ([final] if rng.random() < 0.6 else rng.sample(names, rng.randint(1, len(names)))):
            for t in rng.sample(texts[n], rng.choice([1, 1, 1, 2])):
                req.append(['s', t, n])
        if rng.random() < 0.5:
            rng.shuffle(req)
        return {'kind': 'history', 'world': disk, 'ops': ops, 'req': req, 'cfg': cfg()}

    def text(self, rng, n):
        if rng.random() < 0.3:
            g = px.WorldGen(rng, common=0.8, single=n)
            return g.world()[n]['src']
        return dress(rng, ''.join(simple(rng, n, rng.randint(1, 4)) for _ in range(rng.randint(1, 2))))

    def run_history(self, spec, ex):
        last = {n: t for _, t, n in spec['req']}
        want_req = []
        for _, t, n in spec['req']:
            if [n, last[n]] not in [[b, a] for _, a, b in want_req]:
                want_req.append(['s', last[n], n])
        one = lambda ops, req: {'world': spec['world'], 'threads': [ops + [{'op': 'gen', 'cfg': spec['cfg'], 'req': req}]], 'line_events': False, 'mon': bool(ops), 'text': True, 'px': {'mode': 'py'}}
        want = ex.leg(one([], want_req))
        if want.get('problem'):
            ex.probe('reference_' + want['problem'][0])
            return []
        want = want['results'][0][-1]
        got = ex.leg(one(spec['ops'], spec['req']))
        if got.get('problem'):
            return [viol(got['problem'][0], got['problem'][0], 'after the history: %s' % got['problem'][1])]
        got = got['results'][0][-1]
        ex.probe('generated_' + want['outcome'])
        if (got['outcome'], got.get('text')) != (want['outcome'], want.get('text')):
            return [viol('text', 'history', 'the bindings depend on what was loaded or generated before: %s' % text_diff(got, want))]
        if want['outcome'] == 'err' and got.get('exc') != want.get('exc'):
            return [viol('error', 'history', 'the error depends on what was loaded or generated before: %s, alone: %s' % (got, want))]
        return []

    # ------------- embedding
    def gen_embed(self, rng, w):
        n = w['name']
        h = px.history(rng, {'mods': [n], 'ops': w['ops']}, rng.choice([2, 4, 8, 12]), threads=1, wild=rng.random() < 0.3)[0]
        uid = [1000]

        def embed(fault=False):
            uid[0] += 1
            o = {'op': 'px', 'id': uid[0], 'do': 'embed', 'mod': n, 'text': w['text']}
            if fault:
                o['fault'] = [1, rng.choice(px.EXCS)]
            return o
        ops = [embed(rng.random() < 0.1)] + h
        if rng.random() < 0.1:
            ops.insert(0, h[0])
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.insert(rng.randint(1, len(ops)), embed(rng.random() < 0.15))
        if rng.random() < 0.04:
            uid[0] += 1
            ops.insert(0, {'op': 'px', 'id': uid[0], 'do': 'py', 'stale': True, 'code': 'import types\nm = types.ModuleType(%r)\nm.stale = 1\nsys.modules[%r] = m\n' % (n, n)})
        return {'kind': 'embed', 'world': w['mods'], 'name': n, 'text': w['text'], 'cfg': w['cfg'], 'threads': [ops]}

    def run_embed(self, spec, ex):
        b = self.bindings.get(ex, spec['world'], [['s', spec['text'], spec['name']]], spec['cfg'])
        if 'error' in b:
            return [viol('bindings', 'bindings', b['error'])]
        have = names_of(b['table'])
        if (spec['name'], None, 'pyo3_embed_python_source_code', None) not in have:
            return [viol('no-embedding', 'no-embedding', 'no embedding function is generated for the module %r' % spec['name'])]
        ops = [op for op in spec['threads'][0] if op['do'] in ('py', 'embed') or any((op['mod'], op.get('cls'), c, False if op['do'] == 'ctor' else None) in have for c in px.cands(op))]
        both = dict(spec, names=[spec['name']])
        vs = self.c11.compare(both, [ops], b, ex)
        if vs and any(op.get('stale') for op in ops):
            # known: the text is executed in the namespace of the module that has the name
            other = self.c11.compare(dict(both, reuse=True), [ops], b, ex)
            if not other:
                return [dict(vs[0], **{'class': 'stale-namespace', 'sig': 'stale-namespace'})]
            vs = other
        for v in vs:
            v['class'] = 'embed-' + v['class']
        return vs

    def run(self, spec, ex):
        return self.run_history(spec, ex) if spec['kind'] == 'history' else self.run_embed(spec, ex)

    def shrinks(self, spec):
        if spec['kind'] == 'history':
            for o in drop_chunks(spec['ops']):
                yield with_(spec, ['ops'], o)
            if len(spec['req']) > 1:
                for j in range(len(spec['req'])):
                    yield with_(spec, ['req'], spec['req'][:j] + spec['req'][j + 1:])
            if spec['cfg']:
                yield with_(spec, ['cfg'], {})
        else:
            yield from shrink_threads(spec)


def text_diff(a, b):
    x, y = a.get('text') or json.dumps(a), b.get('text') or json.dumps(b)
    n = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return '...%s\nalone: ...%s' % (x[max(0, n - 200):n + 200], y[max(0, n - 200):n + 200])


CHECK = C12()
