"""C10: generation neither calls nor changes what it inspects."""
from .common import *

# (name in the module, source); every callable reports its invocation with _S.call
EXTRA = [
    ('inst', 'class _Inst:\n    def __call__(self, a, b=1): _S.call("inst()")\ninst = _Inst()\n'),
    ('inst2', 'class _Inst2:\n    __name__ = "inst2"\n    def __call__(self, a: int): _S.call("inst2()")\ninst2 = _Inst2()\n'),
    ('ops', 'class _Ops:\n    def __eq__(self, o): _S.call("eq")\n    def __bool__(self): _S.call("bool"); return True\n    def __len__(self): _S.call("len"); return 0\n    def __iter__(self): _S.call("iter"); return iter(())\n    def __hash__(self): _S.call("hash"); return 1\n    def __int__(self): _S.call("int"); return 1\n    def __index__(self): _S.call("index"); return 1\n    def __contains__(self, x): _S.call("contains"); return False\n    def __getitem__(self, x): _S.call("getitem"); raise IndexError\n    def __enter__(self): _S.call("enter")\n    def __exit__(self, *a): _S.call("exit")\nops = _Ops()\n'),
    ('dflt', 'class _Dflt:\n    def __eq__(self, o): _S.call("deq"); return False\n    def __bool__(self): _S.call("dbool"); return True\n    def __hash__(self): _S.call("dhash"); return 2\n    def __len__(self): _S.call("dlen"); return 0\n    def __iter__(self): _S.call("diter"); return iter(())\ndef dflt(a=_Dflt(), *, b: int = _Dflt()): _S.call("dflt")\n'),
    ('ann', 'class _Ann:\n    def __eq__(self, o): _S.call("aeq"); return False\n    def __bool__(self): _S.call("abool"); return True\n    def __call__(self): _S.call("acall")\n    def __iter__(self): _S.call("aiter"); return iter(())\ndef ann(a: _Ann(), *b: _Ann()) -> _Ann(): _S.call("ann")\n'),
    ('ithr', 'ithr = iter([1, 2, 3])\n'),
    ('gen', 'def _g():\n    _S.call("generator")\n    yield 1\ngen = _g()\n'),
    ('agen', 'async def _ag():\n    _S.call("asyncgen")\n    yield 1\nagen = _ag()\nasync def coro(a: int): _S.call("coro")\n'),
    ('cached', '@functools.lru_cache(maxsize=None)\ndef cached(a: int): _S.call("cached")\n'),
    ('wrapped', 'def _deco(f):\n    @functools.wraps(f)\n    def inner(*a, **k):\n        _S.call("wrapper")\n        return f(*a, **k)\n    return inner\n@_deco\ndef wrapped(a: int, b: str = "x") -> int: _S.call("wrapped")\n'),
    ('disp', '@functools.singledispatch\ndef disp(a): _S.call("disp")\n@disp.register\ndef _(a: int): _S.call("disp int")\n'),
    ('Lazy', 'class Lazy:\n    @functools.cached_property\n    def lazy(self): _S.call("lazy")\n    @property\n    def p(self): _S.call("p.get")\n    @p.setter\n    def p(self, v): _S.call("p.set")\n    @p.deleter\n    def p(self): _S.call("p.del")\n    def __del__(self): _S.call("del")\n    def __init_subclass__(cls, **k): _S.call("init_subclass")\n    def __set_name__(self, o, n): _S.call("set_name")\n    def __class_getitem__(cls, k): _S.call("class_getitem")\n'),
    ('Meta', 'class Meta(type):\n    def __call__(cls, *a, **k):\n        _S.call("Meta.__call__")\n        return type.__call__(cls, *a, **k)\n    @property\n    def mp(cls): _S.call("mp")\n    def __iter__(cls): _S.call("Meta.iter"); return iter(())\n    def __len__(cls): _S.call("Meta.len"); return 0\n    def __bool__(cls): _S.call("Meta.bool"); return True\n    def __prepare__(n, b, **k): return {}\nclass Made(metaclass=Meta):\n    def __init__(self, a: int): _S.call("Made.__init__")\n    def __new__(cls, *a): _S.call("Made.__new__"); return object.__new__(cls)\n'),
    ('Inst', 'class Inst:\n    def __init__(self, a: int = 1): _S.call("Inst.__init__")\n    def __call__(self): _S.call("Inst.__call__")\n    def m(self, a): _S.call("Inst.m")\n    def __getattribute__(self, n): _S.hook("Inst.getattribute"); return object.__getattribute__(self, n)\n    def __setattr__(self, n, v): _S.call("Inst.setattr " + n)\n    def __delattr__(self, n): _S.call("Inst.delattr")\n'),
    ('ob', 'class _Set:\n    def __setattr__(self, n, v): _S.call("setattr " + n)\n    def __delattr__(self, n): _S.call("delattr " + n)\n    def __setitem__(self, n, v): _S.call("setitem")\nob = _Set()\n'),
    ('mapp', 'class _Map(dict):\n    def __getitem__(self, k): _S.call("mapgetitem"); return 1\n    def keys(self): _S.call("mapkeys"); return []\n    def items(self): _S.call("mapitems"); return []\n    def get(self, *a): _S.call("mapget")\nmapp = _Map(a=1)\n'),
    ('lst', 'class _Lst(list):\n    def __getitem__(self, k): _S.call("lstgetitem"); return 1\n    def __iter__(self): _S.call("lstiter"); return iter(())\n    def __len__(self): _S.call("lstlen"); return 3\nlst = _Lst([1, 2])\n'),
    ('num', 'class _Num(int):\n    def __int__(self): _S.call("numint"); return 1\n    def __eq__(self, o): _S.call("numeq"); return False\n    def __hash__(self): return 1\nnum = _Num(4)\n'),
    ('Color', 'class Color(enum.Enum):\n    RED = 1\n    @classmethod\n    def _missing_(cls, v): _S.call("missing")\n    def em(self): _S.call("Color.em")\n'),
    ('Ctx', '@contextlib.contextmanager\ndef Ctx(a: int):\n    _S.call("Ctx")\n    yield\n'),
    ('part', 'def _pt(a, b=2): _S.call("part")\npart = functools.partial(_pt, 1)\nclass PM:\n    def base(self, a, b): _S.call("PM.base")\n    pm = functools.partialmethod(base, 1)\n'),
    ('bound', 'class _B:\n    def bm(self, a): _S.call("bm")\n    @classmethod\n    def cm(cls, a): _S.call("cm")\nbound = _B().bm\nbcm = _B.cm\n'),
    ('Proxy', 'class _P:\n    def __getattr__(self, n):\n        _S.hook("proxy " + n)\n        if n.startswith("__"): raise AttributeError(n)\n        def f(*a, **k): _S.call("proxy." + n)\n        return f\nProxy = _P()\n'),
    ('strann', 'def strann(a: "_S.call(1)", *b: "_S.call(2)", c: "list[_S.call(3)]" = 1) -> "_S.call(4)": _S.call("strann")\nclass StrAnn:\n    x: "_S.call(5)" = 1\n    def __init__(self, a: "_S.call(6)"): _S.call("StrAnn")\n    @property\n    def p(self) -> "_S.call(7)": _S.call("StrAnn.p")\n    @staticmethod\n    def s(a: "_S.call(8)" = 1): _S.call("StrAnn.s")\nstrv: "_S.call(9)" = 1\n'),
    ('PG', 'class _Get:\n    def __call__(self, s=None) -> int: _S.call("_Get()")\n    def __get__(self, o, t=None): _S.hook("_Get.get"); return self\nclass PG:\n    a = property(lambda *s: _S.call("PG.a"), lambda *s: _S.call("PG.a.set"), lambda *s: _S.call("PG.a.del"))\n    b = property(_Get(), _Get())\n    c = property(lambda s=None, v=None: _S.call("PG.c"))\n    @staticmethod\n    def z(): _S.call("PG.z")\n    @classmethod\n    def y(cls): _S.call("PG.y")\n    def __call__(*s): _S.call("PG()")\n    def __init__(*s): _S.call("PG.init")\n    def m(*s): _S.call("PG.m")\n'),
    ('zero', 'def zero(): _S.call("zero")\nzl = lambda: _S.call("zl")\nclass ZMeta(type):\n    def __instancecheck__(c, o): _S.hook("inst"); return False\n    def zm(c=None): _S.call("zm")\nclass Zero(metaclass=ZMeta):\n    zz = functools.partial(zero)\n    def __class_getitem__(c, k): _S.call("class_getitem")\n    def __init_subclass__(c, **k): _S.call("init_subclass")\n    def __reduce__(s): _S.call("reduce")\n    def __copy__(s): _S.call("copy")\n    def __fspath__(s): _S.call("fspath")\n    def __index__(s): _S.call("index")\nzinst = Zero()\n'),
    ('sig', 'class _SigF:\n    __name__ = "sig"\n    __module__ = __name__\n    __signature__ = inspect.Signature([inspect.Parameter("a", 1)])\n    def __call__(self, a): _S.call("sig()")\nsig = _SigF()\n'),
]


class C10(Check):
    id = 'C10'
    cases = {'quick': 2000, 'thorough': 60000}
    budget = {'quick': 120, 'thorough': 1800}
    rule = ('case = module forest in which every callable, constructor, accessor, operator and metaclass reports its invocation + sequence of generation calls (all request kinds, random configuration), fault-free and with exceptions injected at drawn '
            'interpreter events; the call log must stay empty and the attribute dictionaries of all inspected modules, classes and functions unchanged (modules loaded before) or equal to those after a plain import (modules loaded by the call); non-trivial = something was inspected, distinct by event log')
    assumptions = ['hooks by which objects describe themselves (__dir__, __getattr__, __getattribute__, __repr__, __str__, __signature__, descriptors\' __get__) may be called', 'CPython itself creates an empty __annotations__ of a class when that is read']

    def gen(self, rng, tier, i):
        g = wg.Gen(rng, roots=(1, 2), items=(1, 4), fan=(0, 3), depth=rng.choice([0, 1, 2]), reexport=0.3, closures=0.5, private=0.3)
        w = g.world()
        for m in w['mods']:
            m['head'] = 'import inspect, contextlib\n'
            for n, src in rng.sample(EXTRA, rng.choice([0, 1, 2, 3])):
                m['items'].append({'k': 'extra', 'n': [n] if m.get('all') is None or rng.random() < 0.7 else [], 'src': src})
                if m.get('all') is not None and rng.random() < 0.7:
                    m['all'].append(n)
        names = [m['name'] for m in w['mods']]
        ops = []
        for _ in range(rng.randint(1, 3)):
            cfg = dict(any_cfg(rng, 0.2), **flags(rng, 0.8))
            if cfg.get('generate_dependencies') and rng.random() < 0.9:
                del cfg['generate_dependencies']
            if rng.random() < 0.3:
                cfg['include_private'] = True
            op = {'op': 'gen', 'cfg': cfg, 'req': requests(rng, w, n=rng.randint(1, 2)), 'text': False}
            if rng.random() < 0.1:
                m = rng.choice(w['mods'])
                op['req'].insert(0, ['s', 'import builtins\n_S = builtins._S\n' + wg.source(m), 'wtext'])
            ops.append(op)
        return {'world': w, 'ops': ops, 'loaded': rng.random() < 0.75, 'faults': [], 'fseed': rng.randrange(1 << 30), 'nf': rng.choice([1, 2, 3])}

    def verdict(self, spec, rep, ex, names):
        if rep.get('problem'):
            ex.probe('skipped_' + rep['problem'][0])
            return []
        for o in rep['results'][0]:
            ex.probe('op_' + o['outcome'])
        if rep['calls']:
            return [viol('called', rep['calls'][0], 'generation called: %s' % rep['calls'][:6])]
        d = rep['post'][0].get('diff') if spec['loaded'] else None
        if d:
            return [viol('changed', '%s %s' % (d[0][1], d[0][-1]), 'generation changed: %s' % d[:6])]
        return []

    def plan(self, spec, names, **k):
        ops = copy.deepcopy(spec['ops'])
        p = {'world': wg.emit(spec['world']), 'threads': [ops], 'line_events': False, 'pre': [{'op': 'py', 'code': 'import builtins\nbuiltins._S = _S\n'}], 'post': []}
        if spec['loaded']:
            p['pre'] += [{'op': 'import', 'name': n} for n in names] + [{'op': 'snap', 'mods': names}]
            p['post'] = [{'op': 'snapdiff', 'mods': names}]
        else:
            p['post'] = [{'op': 'py', 'code': KEYS % (names,)}]
        p.update(k)
        return p

    def run(self, spec, ex):
        names = [m['name'] for m in spec['world']['mods']]
        if spec['faults']:
            return self.verdict(spec, ex.leg(self.plan(spec, names, faults=spec['faults'])), ex, names)
        rep = ex.leg(self.plan(spec, names, want_sites=True))
        vs = self.verdict(spec, rep, ex, names)
        if vs or rep.get('problem'):
            return vs
        ex.probe('inspected', sum(1 for o in rep['results'][0] if o['outcome'] == 'ok'))
        if not spec['loaded']:
            order = list(dict.fromkeys(n for n in rep['exec_log'] if n in names))
            ref = ex.leg({'world': wg.emit(spec['world']), 'threads': [[{'op': 'import', 'name': n} for n in order] + [{'op': 'py', 'code': KEYS % (names,)}]], 'line_events': False})
            if not ref.get('problem'):
                a, b = ref['results'][0][-1]['value'], rep['post'][0]['value']
                for n in sorted(set(a) | set(b)):
                    x, y = set(a.get(n, ())), set(b.get(n, ()))
                    extra = {k for k in y - x if ':' in n or n + '.' + k not in b}
                    if n in a and n in b and (extra or x - y):
                        return [viol('changed', 'import', 'after generation %s has the attributes +%s -%s compared with a plain import' % (n, sorted(extra), sorted(x - y)))]
                ex.probe('compared_with_plain_import')
        rng = random.Random(spec['fseed'])
        for _ in range(spec['nf'] if spec['loaded'] else 0):
            faults = pick_faults(rng, rep['sites'], rng.choice([1, 1, 2]), EXC_ANY)
            if not faults:
                break
            vs = self.verdict(spec, ex.leg(self.plan(spec, names, faults=faults)), ex, names)
            if vs:
                vs[0]['spec'] = dict(spec, faults=faults)
                return vs
        return []

    def nontrivial(self, spec, ex):
        return ex.stats['probes'].get('inspected', 0) > 0

    def shrinks(self, spec):
        if len(spec['faults']) > 1:
            for f in drop_chunks(spec['faults']):
                if f:
                    yield with_(spec, ['faults'], f)
        for q in drop_chunks(spec['ops']):
            if q:
                yield with_(spec, ['ops'], q)
        for j, op in enumerate(spec['ops']):
            for k in list(op['cfg']):
                c = dict(op['cfg'])
                del c[k]
                yield with_(spec, ['ops', j, 'cfg'], c)
            if len(op['req']) > 1:
                for q in drop_chunks(op['req']):
                    if q:
                        yield with_(spec, ['ops', j, 'req'], q)
        if not spec['faults']:
            yield from shrink_world_in(spec)


KEYS = '''import sys
RESULT = {}
for n in %r:
    m = sys.modules.get(n)
    if type(m) is type(sys):
        RESULT[n] = sorted(vars(m))
        for k, v in vars(m).items():
            if isinstance(v, type) and v.__module__ == n:
                RESULT[n + ':' + k] = sorted(a for a in vars(v) if a != '__annotations__')
'''
CHECK = C10()
