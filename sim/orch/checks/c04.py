"""C04: generation ends with bindings or an error value, whatever the inspected modules do."""
from .common import *
import weird
import re as _re


def normmsg(s):
    s = _re.sub(r'0x[0-9a-f]+', '0x', s)
    s = _re.sub(r'`[^`]*`|"[^"]*"|\'[^\']*\'', '_', s)
    s = _re.sub(r'\d+', 'N', s)
    return s[:160]


class C04(Check):
    id = 'C04'
    cases = {'quick': 1500, 'thorough': 100000}
    budget = {'quick': 110, 'thorough': 1800}
    level = 'exploration'
    rule = ('case = module forest (healthy, hostile metadata, or both) + builder history (add by name/object/source, clone, forget or break modules in between, generate, random configuration); executed fault-free, '
            'then with 1..3 exceptions or import-system changes at positions drawn over the distinct interpreter events of that run; non-trivial = at least one event, distinct by event log')
    assumptions = ['memory allocation does not fail (pyo3 aborts by design)', 'the requested module itself can be imported; a PanicException raised by Python code is not injected']

    def gen(self, rng, tier, i):
        kind = rng.choice(['faults', 'hostile', 'swarm', 'swarm', 'swarm', 'state', 'both'])
        if kind == 'swarm':
            return self.swarm(rng)
        g = wg.Gen(rng, roots=(1, 3), items=(1, 4), fan=(0, 3), depth=rng.choice([0, 1, 2, 2, 3]), keywordnames=0.3, private=0.3, closures=0.3)
        w = g.world()
        if kind in ('hostile', 'both'):
            weird.hostile(w, rng, 0.8)
        if rng.random() < 0.25:
            weird.loops(w, rng, rng.choice([0.3, 1.0]))
        names = [m['name'] for m in w['mods']]
        ops = []
        nops = rng.randint(1, 2)
        for _ in range(nops):
            cfg = dict(any_cfg(rng, 0.15), **flags(rng, 0.8))
            if rng.random() < 0.08:
                cfg['generate_dependencies'] = True
            if rng.random() < 0.25:
                cfg['include_private'] = True
            ops.append({'op': 'new', 'h': 'a', 'cfg': cfg})
            for _ in range(rng.randint(1, 3)):
                if rng.random() < 0.12:
                    m = rng.choice(w['mods'])
                    ops.append({'op': 'add', 'h': 'a', 'req': ['s', wg.source(m), rng.choice(['wtext', 'walpha', 'a.b', 'wtext2', 'walpha.sa'])]})
                else:
                    ops.append({'op': 'add', 'h': 'a', 'req': requests(rng, w, n=1)[0]})
                if kind in ('state', 'both') and rng.random() < 0.5:
                    ops.append(rng.choice([
                        {'op': 'forget', 'name': rng.choice(names)},
                        {'op': 'forget', 'name': rng.choice(names).split('.')[0]},
                        {'op': 'py', 'code': 'import sys\nsys.modules[%r] = %s\n' % (rng.choice(names), rng.choice(['None', 'object()', '5', 'type(sys)("other")', 'sys']))},
                        {'op': 'py', 'code': 'SIM.modules[%r]["gone"] = True\nimport sys\nsys.modules.pop(%r, None)\n' % ((rng.choice(names),) * 2)},
                        {'op': 'py', 'code': 'import sys\nfor _k in %r: SIM.modules[_k]["gone"] = True; sys.modules.pop(_k, None)\n' % ([rng.choice(names).split('.')[0]] + [n for n in names if rng.random() < 0.5],)},
                        {'op': 'py', 'code': 'import sys\nm = sys.modules.get(%r)\nif m is not None:\n    m.__dict__.clear()\n' % rng.choice(names)},
                        {'op': 'py', 'code': 'import sys\nm = sys.modules.get(%r)\nif m is not None:\n    %s\n' % (rng.choice(names), rng.choice(['m.__name__ = 5', 'del m.__doc__', 'm.__path__ = None', 'm.__dir__ = 3', 'm.__getattr__ = 3', 'del m.__name__', 'm.__all__ = 3']))},
                        {'op': 'py', 'code': 'SIM.modules[%r]["src"] = %r\nimport sys\nsys.modules.pop(%r, None)\n' % ((lambda n: (n, rng.choice(['', 'x = 1\n', 'raise ValueError(1)\n', 'import sys\nsys.modules[__name__] = 3\n', 'raise SystemExit(1)\n']), n))(rng.choice(names)))},
                    ]))
            if rng.random() < 0.2:
                ops.append({'op': 'clone', 'h': 'a', 'to': 'b'})
                ops.append({'op': 'generate', 'h': 'b'})
            ops.append({'op': 'generate', 'h': 'a'})
        nf = rng.choice([2, 4, 8]) if kind != 'hostile' else 1
        if any(op.get('cfg', {}).get('generate_dependencies') for op in ops):
            nf = min(nf, 2)
        return {'world': w, 'threads': [ops], 'mode': 'search', 'kind': kind, 'fseed': rng.randrange(1 << 30), 'nf': nf}

    def swarm(self, rng):
        """many small modules with very few hostile items each, so that an error caused by one does not hide what another one causes"""
        mods, ops = [], []
        for j in range(rng.randint(8, 16)):
            name = 'w%s%d' % (rng.choice(['a', 'b']), j)
            m = {'name': name, 'pkg': rng.random() < 0.2, 'doc': None, 'items': [{'k': 'help', 'n': [], 'src': weird.HELP.format(E=rng.choice(weird.EXCS))}], 'all': None}
            for n in range(rng.choice([1, 1, 2])):
                src = weird.item(rng, n, name)
                if rng.random() < 0.6:
                    src += weird.uses(rng, n)
                m['items'].append({'k': 'weird', 'n': [], 'src': weird.guarded(src)})
            if rng.random() < 0.2:
                m['items'].append({'k': 'weird', 'n': [], 'src': weird.tail(rng)})
            mods.append(m)
            cfg = flags(rng, 0.9)
            if rng.random() < 0.25:
                cfg['include_private'] = True
            h = 'h%d' % j
            ops += [{'op': 'new', 'h': h, 'cfg': cfg}, {'op': 'add', 'h': h, 'req': [rng.choice(['n', 'n', 'n', 'o']), name]}, {'op': 'generate', 'h': h}]
        return {'world': {'mods': mods}, 'threads': [ops], 'mode': 'search', 'kind': 'hostile', 'fseed': rng.randrange(1 << 30), 'nf': rng.choice([0, 0, 1])}

    def plan(self, spec, **k):
        p = {'world': wg.emit(spec['world']), 'threads': spec['threads'], 'text': False, 'line_events': False}
        p.update(k)
        return p

    def verdict(self, rep):
        vs = self.generic_problems(rep)
        for th in rep.get('results') or []:
            for j, o in enumerate(th or []):
                if o['outcome'] == 'panic':
                    vs.append(viol('panic', normmsg(o['err']), 'operation %d panicked: %s' % (j, o['err'])))
        return vs

    def run(self, spec, ex):
        if spec['mode'] == 'one':
            return self.verdict(ex.leg(self.plan(spec, faults=spec['faults'])))
        base = dict(spec, mode='one', faults=[])
        rep = ex.leg(self.plan(spec, want_sites=True))
        vs = self.verdict(rep)
        for th in rep.get('results') or []:
            for o in th or []:
                ex.probe('op_' + o['outcome'])
        if vs:
            vs[0]['spec'] = base
            return vs
        rng = random.Random(spec['fseed'])
        names = [m['name'] for m in spec['world']['mods']]
        for _ in range(spec['nf']):
            excs = EXC_ANY[:]
            if spec['kind'] != 'faults':
                excs += ['@forget:' + rng.choice(names), '@gone:' + rng.choice(names), '@junk:' + rng.choice(names), '@none:' + rng.choice(names), '@forget:' + rng.choice(names).split('.')[0], '@gone:' + rng.choice(names).split('.')[0], '@forget:' + rng.choice(names)] * 2
            faults = pick_faults(rng, rep['sites'], rng.choice([1, 1, 2, 3]), excs)
            if not faults:
                break
            r2 = ex.leg(self.plan(spec, faults=faults))
            for th in r2.get('results') or []:
                for o in th or []:
                    ex.probe('op_' + o['outcome'])
            vs = self.verdict(r2)
            if vs:
                vs[0]['spec'] = dict(base, faults=faults)
                return vs
        return []

    def shrinks(self, spec):
        yield from shrink_faults(spec)
        yield from shrink_threads(spec)
        yield from shrink_world_in(spec)


CHECK = C04()
