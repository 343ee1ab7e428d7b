"""C09: concurrent generations end, each with the result it has when it runs alone."""
from .common import *


class C09(Check):
    id = 'C09'
    cases = {'quick': 2000, 'thorough': 100000}
    budget = {'quick': 120, 'thorough': 1800}
    rule = ('case = module forest without import cycles between concurrently requested modules + 2..4 threads of generation calls over overlapping modules (some requests fail, some generators are built on one thread and finished on another, some threads are '
            'struck by exceptions) + seeded interleaving (switches at function starts, imports, lines of module bodies, call boundaries); every unfaulted thread\'s results are compared with a solo run, all threads must end; non-trivial = at least one switch, distinct by event log')
    assumptions = ['threads switch only at interpreter events', 'module bodies do not fail while another thread waits for the same module and import locks are taken in one order (otherwise CPython itself may hand out a half-initialised module)']

    def gen(self, rng, tier, i):
        nthreads = rng.choice([2, 2, 2, 3, 3, 4])
        mode = rng.choice('RN')
        g = wg.Gen(rng, roots=(1, 3), items=(1, 3), fan=(0, 3), depth=rng.choice([0, 1, 2, 2]), reexport=0.6 if mode == 'R' else 0.0, deepcross=False, stdlib=0.1, prints=0)
        w = g.world()
        for m in w['mods']:         # (no failing bodies, see assumptions)
            enums = [n for it in m['items'] for n in it['n'] if '(enum.Enum)' in it['src']]
            for it in m['items']:
                for e in enums:
                    it['src'] = it['src'].replace('(%s):' % e, ':') if it['k'] == 'cls' else it['src']
        for m in w['mods']:
            if '.' in m['name'] and rng.random() < 0.08:
                m['unfindable'] = rng.choice(EXC_COMMON)
        bad = [m['name'] for m in w['mods'] if m.get('unfindable')]
        for m in w['mods']:
            m['items'] = [it for it in m['items'] if not (it['k'] == 'imp' and any(b.rpartition('.')[2] in it['src'] for b in bad))]
            if rng.random() < 0.2:
                m['items'].append({'k': 'out', 'n': [], 'src': '_S.out(%r, %r, %r)\n' % (rng.choice(['stdout', 'stderr']), rng.choice(['print', 'write', 'flush', 'isatty']), m['name'])})
            if rng.random() < 0.15:
                m['items'].append({'k': 'hook', 'n': [], 'src': 'def __dir__():\n    return [k for k in globals() if k != "_S"]\n'})
            if rng.random() < 0.15:
                m['items'].append({'k': 'fn', 'n': ['reprs'], 'src': 'class _A:\n    def __repr__(self):\n        _S.hook("repr")\n        return "int"\ndef reprs(a: _A(), b=_A()) -> _A(): ...\n'})
        names = [m['name'] for m in w['mods']]
        pool = [n for n in names if '.' not in n] if mode == 'R' else names
        focus = rng.sample(pool, min(len(pool), rng.choice([1, 2, 9])))
        threads = [[] for _ in range(nthreads)]
        nh = 0
        for t in range(nthreads):
            for _ in range(rng.choice([1, 1, 2])):
                cfg = dict(any_cfg(rng, 0.08), **flags(rng, 0.75))
                if rng.random() < 0.95:
                    cfg.pop('generate_dependencies', None)
                r = rng.random()
                if r < 0.08:
                    req = [['n', rng.choice(['wmissing', 'walpha.nope', 'w..bad'])]]
                elif r < 0.16:
                    req = [['s', rng.choice(['x = 1\ndef f(a: int): ...\n', 'x = (\n', 'raise ValueError("q")\n', 'import %s\ndef f(): ...\n' % rng.choice([n for n in names if '.' not in n]), 'import nothere\n', 'import sys\nprint("x")\nclass C: ...\n']), 'wtext%d' % t]]
                else:
                    req = requests(rng, w, focus if rng.random() < 0.8 else pool, n=rng.choice([1, 1, 2]))
                if rng.random() < 0.2 and t + 1 < nthreads:
                    nh += 1
                    u = rng.randint(t + 1, nthreads - 1)
                    h = 'h%d' % nh
                    threads[t].append({'op': 'new', 'h': h, 'cfg': cfg})
                    for q in req[:-1]:
                        threads[t].append({'op': 'add', 'h': h, 'req': q, 'text': False})
                    last = rng.random() < 0.5
                    threads[t].append({'op': 'add', 'h': h, 'to': h + 'x', 'req': req[-1]})
                    threads[u].append({'op': 'generate', 'h': h + 'x', 'wait': True})
                else:
                    threads[t].append({'op': 'gen', 'cfg': cfg, 'req': req})
        spec = {'world': w, 'threads': threads, 'sched': {'seed': rng.randrange(1 << 30), 'p': rng.choice([0.01, 0.05, 0.2, 0.5])}, 'tfaults': {}, 'line': rng.random() < 0.6, 'extra': rng.randint(0, 2)}
        if rng.random() < 0.4:
            spec['tfaults'] = {str(t): [[rng.choice([rng.randint(0, 60), rng.randint(0, 1500)]), rng.choice(EXC_ANY + ['Panic'])] for _ in range(rng.randint(1, 2))] for t in rng.sample(range(nthreads), rng.choice([1, 1, nthreads - 1]))}
        return spec

    def plan(self, spec, **k):
        p = {'world': wg.emit(spec['world']), 'threads': spec['threads'], 'line_events': spec['line']}
        p.update(k)
        return p

    def chains(self, spec):
        """solo programs: [(ops, [(thread, index)])]; a generator that is handed over is one program"""
        out = []
        for t, ops in enumerate(spec['threads']):
            solo, at = [], []
            for j, op in enumerate(ops):
                if op['op'] == 'gen':
                    solo.append(op)
                    at.append((t, j))
                elif op['op'] in ('new', 'add'):
                    solo.append(op)
                    at.append((t, j))
                    if op.get('to'):
                        for u, ops2 in enumerate(spec['threads']):
                            for l, o2 in enumerate(ops2):
                                if o2['op'] == 'generate' and o2['h'] == op['to']:
                                    solo.append(dict(o2, wait=False))
                                    at.append((u, l))
            if solo:
                out.append((solo, at))
        return out

    def run(self, spec, ex):
        want = {}
        for solo, at in self.chains(spec):
            r = ex.leg(self.plan(spec, threads=[solo], line_events=False))
            if r.get('problem'):
                ex.probe('skipped_solo')
                return []
            for o, k in zip(r['results'][0], at):
                want[k] = o
        sched = spec['sched']
        for n in range(1 + (spec['extra'] if 'seed' in sched else 0)):
            s = dict(sched, seed=sched['seed'] + n) if 'seed' in sched else sched
            rep = ex.leg(self.plan(spec, sched=s, tfaults=spec['tfaults']))
            vs = self.judge(spec, ex, want, rep)
            if vs:
                vs[0]['spec'] = dict(spec, sched={'explicit': rep['switches']}) if rep.get('switches') else spec
                return vs
        return []

    def judge(self, spec, ex, want, rep):
        vs = self.generic_problems(rep)
        if vs:
            return vs
        ex.probe('switched' if rep['switches'] else 'not_switched')
        if rep.get('native_passes'):
            ex.probe('native_blocks', rep['native_passes'])
        faulted = {int(t) for t in spec['tfaults']}
        if not rep['fired']:
            faulted = set()
        # programs that a fault may have reached: those with a part on a faulted thread
        tainted = set()
        for solo, at in self.chains(spec):
            if any(t in faulted for t, _ in at):
                tainted |= set(at)
        for t, ops in enumerate(spec['threads']):
            for j, op in enumerate(ops):
                got = rep['results'][t][j]
                if got['outcome'] == 'panic' and t not in faulted:
                    return [viol('panic', 'panic', 'thread %d, operation %d panicked: %s' % (t, j, got['err']))]
                if (t, j) in tainted or (t, j) not in want:
                    continue
                w = want[t, j]
                ex.probe('compared_' + w['outcome'])
                a = [w['outcome'], w.get('text'), w.get('exc'), w.get('kind')]
                b = [got['outcome'], got.get('text'), got.get('exc'), got.get('kind')]
                if a == b:
                    continue
                if a[0] == b[0] == 'ok':
                    k = next((q for q, (x, y) in enumerate(zip(a[1], b[1])) if x != y), min(len(a[1]), len(b[1])))
                    return [viol('differs', 'text', 'thread %d, operation %d: the bindings differ from a solo run at byte %d: %r vs %r' % (t, j, k, a[1][max(0, k - 80):k + 80], b[1][max(0, k - 80):k + 80]))]
                return [viol('differs', '%s/%s' % (a[0], b[0]), 'thread %d, operation %d: alone %s, concurrently %s' % (t, j, str({k: v for k, v in w.items() if k != 'text'})[:300], str({k: v for k, v in got.items() if k != 'text'})[:300]))]
        return []

    def nontrivial(self, spec, ex):
        return ex.stats['probes'].get('switched', 0) > 0

    def shrinks(self, spec):
        if spec['tfaults']:
            yield with_(spec, ['tfaults'], {})
        yield from shrink_sched(spec)
        if spec['line']:
            yield with_(spec, ['line'], False)
        if not any(op.get('wait') for ops in spec['threads'] for op in ops):
            if len(spec['threads']) > 2 or not spec['tfaults']:
                yield from shrink_threads(spec)
        yield from shrink_world_in(spec)


CHECK = C09()
