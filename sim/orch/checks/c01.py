"""C01: sys.stdout / sys.stderr are given back whatever happens inside a call and however calls overlap."""
from .common import *


# streams of the caller
STREAMS = ['new', 'new', None, 'missing', 'closed', 'stringio', 'wrapper', 'detached', 'devnull', 'original', 'int', 'failing', 'noattr', 'falsy', 'nobool', 'noeq', 'eqall', 'plain']


class C01(Check):
    id = 'C01'
    cases = {'quick': 1500, 'thorough': 40000}
    budget = {'quick': 120, 'thorough': 1800}
    level = 'exploration'
    rule = ('case = random module forest (prints, failing bodies, stream-replacing bodies) + 1..4 threads of generation calls with random suppression flags + seeded interleaving; '
            'executed fault-free first, then with faults at positions drawn over the distinct interpreter events of that run; non-trivial = reached at least one event, distinct by event log')
    assumptions = ['threads switch only at interpreter events (function starts, imports, lines of module bodies, call boundaries)', 'the caller does not rebind the streams while a call is in progress']

    def gen(self, rng, tier, i):
        nthreads = rng.choice([1, 1, 2, 2, 3, 4])
        g = wg.Gen(rng, roots=(1, 3), reexport=0.0 if nthreads > 1 else 0.3, deepcross=False, items=(1, 3), fan=(0, 2), depth=rng.choice([1, 2, 2]))
        w = g.world()
        for m in w['mods']:
            r = rng.random()
            if r < 0.25:
                m['items'].append({'k': 'out', 'n': [], 'src': '_S.out(%r, %r, %r)\n' % (rng.choice(['stdout', 'stderr']), rng.choice(['print', 'write', 'flush', 'isatty', 'printflush']), m['name'])})
            elif r < 0.40:
                m['items'].append({'k': 'fault', 'n': [], 'src': '_S.fail(%r, %r, %r)\n' % (m['name'], rng.choice(['always', 'first']), rng.choice(EXC_ANY + ['Panic', 'Panic']))})
            elif r < 0.46 and nthreads == 1:
                m['items'].append({'k': 'repl', 'n': [], 'src': 'import sys as _sys, io as _io\n_sys.%s = %s\n' % (rng.choice(['stdout', 'stderr']), rng.choice(['_io.StringIO()', 'None', 'object()', 'open("/dev/null", "w")', '_io.TextIOWrapper(_io.BytesIO())', '_sys.__stdout__', '_sys.__stderr__', 'type("Tee", (), {"__init__": lambda s, o: s.__dict__.update(o=o), "__getattr__": lambda s, n: getattr(s.__dict__["o"], n)})(_sys.stdout)', '_sys.stderr', '5']))})
            elif r < 0.50 and nthreads == 1:
                m['items'].append({'k': 'repl', 'n': [], 'src': 'import sys as _sys\ndel _sys.%s\n' % rng.choice(['stdout', 'stderr'])})
            elif r < 0.60:
                m['items'].append({'k': 'attrfault', 'n': ['ga'], 'src': 'def __getattr__(n):\n    _S.fail("ga", "always", %r)\ndef __dir__():\n    return [k for k in globals() if k != "_S"] + ["lost1"]\n' % rng.choice(['AttributeError', 'ValueError', 'Panic', 'KeyboardInterrupt'])})
        names = [m['name'] for m in w['mods']]
        repl = any(it['k'] == 'repl' for m in w['mods'] for it in m['items'])
        threads = []
        for t in range(nthreads):
            ops = []
            for _ in range(rng.randint(1, 3) if nthreads == 1 else rng.randint(1, 2)):
                cfg = {} if repl else flags(rng, 0.75)
                r = rng.random()
                if r < 0.1:
                    req = [['s', rng.choice(['x = 1\n', 'x = (\n', 'raise ValueError("q")\n', 'import sys\nprint("hi")\ndef f(): ...\n', 'import nothere\n']), 'wfromstr%d' % rng.randint(0, 1)]]
                elif r < 0.2:
                    req = [['n', rng.choice(['wmissing', 'walpha.nope', 'w..bad', ''])]]
                else:
                    req = requests(rng, w, n=rng.randint(1, 2), by=('n', 'b') if repl else ('n', 'b', 'o', 'ob'))
                if rng.random() < 0.04:
                    cfg['generate_dependencies'] = True
                op = {'op': 'gen', 'cfg': cfg, 'req': req, 'text': False}
                if rng.random() < 0.15:
                    op['end'] = 'none'
                ops.append(op)
            if nthreads == 1 and rng.random() < 0.2 and not repl:
                ops.insert(rng.randint(0, len(ops)), {'op': 'streams', 'out': rng.choice(STREAMS), 'err': rng.choice(STREAMS + ['same'])})
            threads.append(ops)
        spec = {'world': w, 'threads': threads, 'mode': 'search', 'fseed': rng.randrange(1 << 30), 'nf': 6, 'streams': 'rec'}
        if rng.random() < 0.15:
            spec['pre'] = [{'op': 'streams', 'out': rng.choice(STREAMS), 'err': rng.choice(STREAMS + ['same'])}]
        if nthreads > 1:
            spec['sched'] = {'seed': rng.randrange(1 << 30), 'p': rng.choice([0.02, 0.1, 0.3])}
        return spec

    def plan(self, spec, **k):
        p = {'world': wg.emit(spec['world']), 'threads': spec['threads'], 'streams': spec.get('streams', 'rec'), 'line_events': True, 'text': False, 'reset_streams': False}
        if spec.get('sched'):
            p['sched'] = spec['sched']
        if spec.get('pre'):
            p['pre'] = spec['pre']
        p.update(k)
        return p

    def verdict(self, rep):
        vs = []
        for inv in rep.get('inv', ()):
            if inv[0] == 'streams':
                vs.append(viol('streams-not-restored', ','.join(inv[2]), 'after call %s of thread/op %s: sys.%s is not the object it was' % (inv[1], inv[1], ' and sys.'.join(inv[2]))))
        if not vs and not rep.get('problem') and not all(rep['final_streams']):
            vs.append(viol('streams-not-restored', 'final', 'after the last overlapping call the streams are not the original objects'))
        return vs[:1]

    def run(self, spec, ex):
        if spec['mode'] == 'one':
            return self.verdict(ex.leg(self.plan(spec, faults=spec['faults'])))
        rep = ex.leg(self.plan(spec, want_sites=True))
        if rep.get('problem'):
            ex.probe('skipped_' + rep['problem'][0])
            return []
        vs = self.verdict(rep)
        base = dict(spec, mode='one', faults=[])
        if len(spec['threads']) > 1:
            ex.probe('overlapping_runs')
        if vs:
            vs[0]['spec'] = dict(base, sched={'explicit': rep['switches']}) if spec.get('sched') else base
            return vs
        rng = random.Random(spec['fseed'])
        for _ in range(spec['nf']):
            faults = pick_faults(rng, rep['sites'], rng.choice([1, 1, 1, 2, 3]), EXC_ANY + ['Panic'] * 3)
            if not faults:
                break
            r2 = ex.leg(self.plan(spec, faults=faults))
            for res in (r2.get('results') or []):
                for o in res or []:
                    ex.probe('call_' + o['outcome'])
            vs = self.verdict(r2)
            if vs:
                vs[0]['spec'] = dict(base, faults=faults, **({'sched': {'explicit': r2['switches']}} if spec.get('sched') else {}))
                return vs
        return []

    def shrinks(self, spec):
        yield from shrink_faults(spec)
        yield from shrink_sched(spec)
        yield from shrink_threads(spec)
        yield from shrink_world_in(spec)


CHECK = C01()
