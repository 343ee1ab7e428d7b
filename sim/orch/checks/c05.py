"""C05: the bindings of the same modules under the same configuration are byte-identical in every environment and after every history."""
from .common import *

LANES = ['0', '1', '7', '4242', '99', '31337']


def history(rng, w, req, depth=3):
    """operations that happened earlier in the process"""
    names = [m['name'] for m in w['mods']]
    ops = []
    for _ in range(rng.randint(1, depth)):
        r = rng.random()
        if r < 0.45:
            for n in rng.sample(names, rng.randint(1, min(4, len(names)))):
                ops.append({'op': 'import', 'name': n})
        elif r < 0.6:
            ops.append({'op': 'gen', 'cfg': dict(flags(rng), **any_cfg(rng, 0.1)), 'req': requests(rng, w, n=rng.randint(1, 2)), 'text': False})
        elif r < 0.7:
            ops.append({'op': 'gen', 'cfg': {}, 'req': req, 'text': False})
        elif r < 0.8:
            ops.append({'op': 'gen', 'cfg': {}, 'req': [['n', rng.choice(['json', 'string', 'html', 'wsgiref', 'wmissing', 'colorsys'])]], 'text': False})
        elif r < 0.9:
            n = rng.choice(names)
            ops += [{'op': 'import', 'name': n}, {'op': 'forget', 'name': n.split('.')[0]}]
        else:
            ops.append({'op': 'import', 'name': rng.choice(['json', 'xml.dom', 'email', 'html.parser', 'unittest', 'concurrent.futures', 'ctypes', 'logging.handlers'])})
    return ops


class C05(Check):
    id = 'C05'
    cases = {'quick': 1000, 'thorough': 40000}
    budget = {'quick': 120, 'thorough': 1800}
    level = 'exploration'
    rule = ('case = random module forest + configuration + requests; generated once in a reference environment and then in several drawn ones (hash seed, OS random bytes, object addresses, allocation noise, calling thread, '
            'earlier imports/generations/forgotten modules), texts compared byte by byte; non-trivial = both sides gave bindings, distinct by event log')
    assumptions = ['no module of the forest has an attribute that hides one of its own submodules which it does not import itself (importing that submodule rebinds the attribute)', 'the content of a module (its attributes and their docstrings) does not itself depend on the environment', 'CPython 3.12 on one machine']

    def gen(self, rng, tier, i):
        g = wg.Gen(rng, roots=(1, 2), items=(1, 5), fan=(0, 4), depth=rng.choice([1, 2, 2, 3]), reexport=0.5, all=0.5, crossroot=0.5)
        w = g.world()
        for m in w['mods']:
            r = rng.random()
            if r < 0.2:
                m['items'].append({'k': 'fn', 'n': ['annot'], 'src': 'class _A:\n    def __repr__(self): return "<A object at 0x%%x>" %% _S.addr("%s")\n    __hash__ = None\ndef annot(a: _A(), b: {"x": _A()}, c: typing.Union[_A, str, int] = frozenset({"p", "q"})) -> _A(): ...\n' % m['name']})
            elif r < 0.4:
                m['items'].append({'k': 'fn', 'n': ['setty'], 'src': 'setty = {"a", "b", "c", ("x", 1)}\nclass Slotted:\n    __slots__ = {"s1", "s2", "s3"}\nfor _n in {"dyn1", "dyn2", "dyn3"}:\n    globals()[_n] = _n\ndel _n\n'})
            elif r < 0.5:
                m['items'].append({'k': 'cls', 'n': ['Abs'], 'src': 'class Abs(abc.ABC):\n    @abc.abstractmethod\n    def am(self): ...\n    @abc.abstractmethod\n    def bm(self): ...\n'})
            elif r < 0.6:
                # documentation that is no text
                m['items'].append({'k': 'cls', 'n': ['Docs'], 'src': 'class _D:\n    __slots__ = ()\n    def __repr__(self): return "<D object at 0x%%x>" %% _S.addr("%s")\nclass Docs:\n    __doc__ = %s\n    def m(self): ...\n    m.__doc__ = _D()\n    @property\n    def p(self): ...\n    p.fget.__doc__ = %s\ndef docs(): ...\ndocs.__doc__ = %s\n%s' % ((m['name'],) + tuple(rng.choice(['property(lambda self: 1)', '_D()', '{"x", "y"}', '"real"', 'object()', '7']) for _ in range(3)) + (rng.choice(['', '', '__doc__ = _D()\n']),))})
        names = [m['name'] for m in w['mods']]
        cfg = dict(any_cfg(rng, 0.12), **flags(rng, 0.85))
        if cfg.get('generate_dependencies') and rng.random() < 0.7:
            del cfg['generate_dependencies']
        req = requests(rng, w, names[:1] if rng.random() < 0.5 else None, n=rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.1:
            m = rng.choice(w['mods'])
            req = [['s', wg.source(m), rng.choice(['wtext', 'walpha2'])]] + (req if rng.random() < 0.4 else [])
        envs = []
        for _ in range(rng.randint(3, 5)):
            e = {'lane': rng.choice(LANES), 'rand': rng.randrange(1 << 30), 'addr': rng.randrange(1 << 30), 'junk': rng.choice([0, 0, 7, 1000]), 'thread': rng.random() < 0.5, 'same': rng.random() < 0.5, 'hist': history(rng, w, req) if rng.random() < 0.75 else []}
            envs.append(e)
        return {'world': w, 'cfg': cfg, 'req': req, 'envs': envs}

    def leg(self, spec, e, ex):
        op = {'op': 'gen', 'cfg': spec['cfg'], 'req': spec['req']}
        p = {'world': wg.emit(spec['world']), 'line_events': False, 'text': True, 'addr_seed': e['addr'], 'rand': e['rand'], 'junk': e['junk']}
        th = (e['hist'] if e['same'] else []) + [op]
        p['pre'] = [] if e['same'] else e['hist']
        p['threads'] = [[], th] if e['thread'] else [th]
        r = ex.leg(p, lane=e['lane'])
        if r.get('problem'):
            return ['problem', r['problem'][0]]
        if r.get('rand_calls'):
            ex.probe('legs_with_random_bytes')
        o = (r['results'][1] if e['thread'] else r['results'][0])[-1]
        return [o['outcome'], o.get('text') if o['outcome'] == 'ok' else o.get('exc', o.get('err'))]

    REF = {'lane': '0', 'rand': 1, 'addr': 0, 'junk': 0, 'thread': False, 'same': True, 'hist': []}

    def run(self, spec, ex):
        ref = self.leg(spec, self.REF, ex)
        ex.probe('reference_' + ref[0])
        if ref[0] in ('problem', 'caller'):
            return []
        for e in spec['envs']:
            r = self.leg(spec, e, ex)
            ex.probe('compared')
            ex.probe('with_history' if e['hist'] else 'without_history')
            if r[0] == 'caller' or (r[0] == ref[0] == 'err'):
                continue
            if r != ref:
                where = ''
                if r[0] == ref[0] == 'ok':
                    a, b = ref[1], r[1]
                    k = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    where = 'texts differ at byte %d: %r vs %r' % (k, a[max(0, k - 80):k + 80], b[max(0, k - 80):k + 80])
                else:
                    where = 'outcomes differ: %s vs %s' % (str(ref)[:300], str(r)[:300])
                v = viol('differs', 'differs', 'bindings in environment %s differ from the reference: %s' % (json.dumps({k: e[k] for k in e}), where))
                v['spec'] = dict(spec, envs=[e])
                return [v]
        return []

    def nontrivial(self, spec, ex):
        return ex.stats['probes'].get('reference_ok', 0) > 0

    def shrinks(self, spec):
        e = spec['envs'][0]
        for k, v in self.REF.items():
            if e[k] != v and k != 'hist':
                yield with_(spec, ['envs', 0, k], v)
        for h in drop_chunks(e['hist']):
            yield with_(spec, ['envs', 0, 'hist'], h)
        for k in list(spec['cfg']):
            c = dict(spec['cfg'])
            del c[k]
            yield with_(spec, ['cfg'], c)
        if len(spec['req']) > 1:
            for q in drop_chunks(spec['req']):
                if q:
                    yield with_(spec, ['req'], q)
        yield from shrink_world_in(spec)


CHECK = C05()
