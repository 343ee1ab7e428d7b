"""C02: suppression hides everything inspected code writes and changes nothing else."""
from .common import *

TEXTY = ['print', 'printflush', 'write', 'writelines', 'len', 'warn', 'log', 'traceback', 'ctx', 'buffer', 'late', 'surrogate']
QUERY = ['flush', 'isatty', 'encoding', 'writable', 'closed', 'errors', 'real', 'reconfigure', 'attrs', 'fileno']
STDLIB = ['typing', 'collections', 'datetime', 'pathlib', 'ipaddress', 'functools', 'enum', 'dataclasses', 'abc', 'sys', 'json', 'os', 'warnings', 'logging', 'traceback', 'test']
COMBOS = [(True, True), (False, True), (True, False), (False, False)]


def noise(rng, tag):
    """a statement of inspected code that uses a stream"""
    stream, mode = rng.choice(['stdout', 'stdout', 'stderr']), rng.choice(TEXTY * 2 + QUERY)
    return '_S.out(%r, %r, %r)' % ('stderr' if mode == 'surrogate' else stream, mode, tag)


def noisy(rng, m, tag):
    r = rng.random()
    if r < 0.5:
        m['items'].insert(rng.randint(0, len(m['items'])), {'k': 'out', 'n': [], 'src': noise(rng, tag + 'b') + '\n'})
    elif r < 0.6:
        m['items'].append({'k': 'out', 'n': [], 'src': 'def __getattr__(n):\n    %s\n    raise AttributeError(n)\ndef __dir__():\n    %s\n    return [k for k in globals() if k != "_S"] + ["lost1"]\n' % (noise(rng, tag + 'g'), noise(rng, tag + 'd'))})
    elif r < 0.7:
        m['items'].append({'k': 'fn', 'n': ['loud'], 'src': 'class _A:\n    def __repr__(self):\n        %s\n        return "int"\ndef loud(a: _A(), b=_A()) -> _A(): ...\n' % noise(rng, tag + 'r')})
    elif r < 0.8:
        m['items'].append({'k': 'cls', 'n': ['Meta', 'Loud'], 'src': 'class Meta(type):\n    def __dir__(cls):\n        %s\n        return list(type.__dir__(cls)) + ["lost2"]\n    def __getattr__(cls, n):\n        %s\n        raise AttributeError(n)\nclass Loud(metaclass=Meta):\n    def lm(self): ...\n' % (noise(rng, tag + 'm'), noise(rng, tag + 'n'))})
    elif r < 0.9:
        m['items'].append({'k': 'fn', 'n': ['sigloud'], 'src': 'class _Sig:\n    __name__ = "sigloud"\n    @property\n    def __signature__(self):\n        %s\n        raise ValueError("no signature")\n    def __call__(self, x): ...\nsigloud = _Sig()\n' % noise(rng, tag + 's')})
    else:
        m['items'].append({'k': 'fn', 'n': ['tryloud'], 'src': 'try:\n    %s\n    def tryloud(a: int): ...\nexcept Exception:\n    def tryloud_failed(): ...\n' % noise(rng, tag + 't')})


class C02(Check):
    id = 'C02'
    cases = {'quick': 1500, 'thorough': 60000}
    budget = {'quick': 110, 'thorough': 1800}
    rule = ('case = module forest whose module bodies and describing hooks write to, flush and query sys.stdout/sys.stderr, 1..3 threads of calls, seeded interleaving and injected exceptions; the same case is executed under all four '
            'settings of the suppression flags (single thread) or with mixed flags (several threads); text that reaches the recorded real streams, results and bindings are compared; non-trivial = the inspected code wrote something, distinct by event log')
    assumptions = ['the inspected code uses the streams through sys.stdout/sys.stderr (not through descriptors or references captured before the call) and does not rebind them', 'text written by a call without suppression while another thread\'s call suppresses that stream is outside the property (the streams are global to the process)']

    def gen(self, rng, tier, i):
        nthreads = rng.choice([1, 1, 1, 2, 3])
        deps = nthreads == 1 and rng.random() < 0.2
        more = dict(crossroot=1.0, stdlib=0.0) if deps else {}
        g = wg.Gen(rng, roots=(2, 3) if deps else (1, 2), **more, reexport=0.0 if nthreads > 1 else 0.3, deepcross=False, items=(1, 3), fan=(0, 3), depth=rng.choice([0, 1, 2]))
        w = g.world()
        loud = [m for m in w['mods'] if rng.random() < 0.6] or w['mods'][:1]
        for m in loud:
            for j in range(rng.randint(1, 2)):
                noisy(rng, m, '<%s%d>' % (m['name'], j))
        names = [m['name'] for m in w['mods']]
        base = any_cfg(rng, 0.06)
        base.pop('generate_dependencies', None)
        if deps:
            # dependencies of the target only, not the libraries that the generated modules happen to import
            base['generate_dependencies'] = True
            base['blocklist_names'] = STDLIB
        threads = []
        for t in range(nthreads):
            ops = []
            for _ in range(rng.randint(1, 3) if nthreads == 1 else rng.randint(1, 2)):
                if rng.random() < 0.15:
                    req = [['s', 'import sys\n%s\ndef f(a: int): ...\n' % rng.choice(['print("<text>")', 'sys.stderr.write("<text>")', 'sys.stdout.flush()', 'print("<text>", file=sys.stderr, flush=True)', 'sys.stdout.buffer.write(b"<text>")', 'import nothere']), 'wtext%d' % rng.randint(0, 1)]]
                else:
                    req = requests(rng, w, names=[n for n in names if n.split('.')[0] == w['mods'][-1]['name'].split('.')[0]] if deps and rng.random() < 0.8 else None, n=rng.randint(1, 2))
                op = {'op': 'gen', 'cfg': dict(base), 'req': req}
                if nthreads > 1:
                    op['cfg'].update(flags(rng, 0.5))
                ops.append(op)
                if nthreads == 1 and rng.random() < 0.3:
                    ops.append({'op': 'py', 'code': 'import sys\nprint("<caller>")\nprint("<caller>", file=sys.stderr)\n'})
                if nthreads == 1 and rng.random() < 0.1:
                    ops.append({'op': 'streams', 'out': 'new', 'err': 'new'})
                if rng.random() < 0.15:
                    ops.append({'op': 'forget', 'name': rng.choice(names).split('.')[0]})
            threads.append(ops)
        if nthreads > 1:
            # redirect_stdout() of the inspected code swaps the stream of the whole process: not for several threads
            for m in w['mods']:
                for it in m['items']:
                    it['src'] = it['src'].replace("', 'ctx', '", "', 'print', '")
        spec = {'world': w, 'threads': threads, 'faults': [], 'fseed': rng.randrange(1 << 30), 'nf': rng.choice([0, 1, 2])}
        if nthreads > 1:
            spec['sched'] = {'seed': rng.randrange(1 << 30), 'p': rng.choice([0.02, 0.1, 0.3])}
        return spec

    def plan(self, spec, combo=None, **k):
        th = copy.deepcopy(spec['threads'])
        if combo is not None:
            for ops in th:
                for op in ops:
                    if op['op'] == 'gen':
                        op['cfg'].update(suppress_python_stdout=combo[0], suppress_python_stderr=combo[1])
        p = {'world': wg.emit(spec['world']), 'threads': th, 'line_events': True, 'faults': spec['faults'], 'streams': 'rec'}
        if spec.get('sched'):
            p['sched'] = spec['sched']
        p.update(k)
        return p

    def leaks(self, plan, rep):
        """text of a call that suppresses the stream reached the real one"""
        for label, text, tid, idx, incall in rep.get('outlog') or []:
            if incall and tid is not None and tid >= 0:
                cfg = plan['threads'][tid][idx].get('cfg', {})
                if cfg.get('suppress_python_' + label, True):
                    return [viol('leak', label, 'thread %d, operation %d suppresses %s, but this text reached it: %r' % (tid, idx, label, text[:200]))]
        return []

    def missing(self, plan, rep):
        """single thread: everything written without suppression arrived in order"""
        for label in ('stdout', 'stderr'):
            got = ''.join(o[1] for o in rep['outlog'] if o[0] == label)
            pos = 0
            if all(op['cfg'].get('suppress_python_' + label) is False for ops in plan['threads'] for op in ops if op['op'] == 'gen'):
                for s, mode, text, tid in rep['said']:
                    if s == label and mode in TEXTY and mode != 'warn':
                        k = got.find(text, pos)
                        if k < 0:
                            return [viol('lost', label, 'text %r (%s) was written to %s without suppression, but did not arrive (in order) in %r' % (text, mode, label, got[-300:]))]
                        pos = k + len(text)
            want = sum(1 for ops in plan['threads'] for op in ops if op['op'] == 'py')
            if got.count('<caller>') != want:
                return [viol('lost', label, 'the caller wrote to %s %d times between the calls, %d arrived' % (label, want, got.count('<caller>')))]
        return []

    def run(self, spec, ex):
        multi = len(spec['threads']) > 1
        if multi:
            plan = self.plan(spec, want_sites=True)
            rep = ex.leg(plan)
            if rep.get('problem'):
                ex.probe('skipped_' + rep['problem'][0])
                return []
            ex.probe('texts_written', len(rep['said']))
            vs = self.leaks(plan, rep)
            one = dict(spec, nf=0)
            rng = random.Random(spec['fseed'])
            for _ in range(spec['nf']):
                if vs:
                    break
                f = pick_faults(rng, rep['sites'], rng.choice([1, 2]), EXC_ANY)
                if not f:
                    break
                one = dict(spec, nf=0, faults=f)
                plan = self.plan(one)
                rep2 = ex.leg(plan)
                if not rep2.get('problem'):
                    ex.probe('texts_written', len(rep2['said']))
                    vs = self.leaks(plan, rep2)
                    if vs:
                        rep = rep2
            if vs:
                vs[0]['spec'] = dict(one, sched={'explicit': rep['switches']})
            return vs
        vs, sites = self.combos(spec, ex)
        if vs:
            vs[0]['spec'] = dict(spec, nf=0)
            return vs
        rng = random.Random(spec['fseed'])
        for _ in range(spec['nf']):
            # positions inside the inspected modules only: the same logical place under every flag setting
            f = rng.choice(EXC_COMMON)
            cand = sorted({s for s in sites if s.startswith(('exec ', 'find ', 'list ', 'line sim'))})
            if not cand:
                break
            site = rng.choice(cand)
            one = dict(spec, nf=0, sitefaults=[[site, f]])
            vs, _ = self.combos(one, ex)
            if vs:
                vs[0]['spec'] = one
                return vs
        return []

    def combos(self, spec, ex):
        ref = None
        sites = []
        for combo in reversed(COMBOS):
            plan = self.plan(spec, combo, want_sites=True, sitefaults=spec.get('sitefaults', []))
            rep = ex.leg(plan)
            if rep.get('problem'):
                ex.probe('skipped_' + rep['problem'][0])
                return [], []
            ex.probe('texts_written', len(rep['said']))
            res = [[{k: o.get(k) for k in ('outcome', 'exc', 'err', 'text')} for o in th] for th in rep['results']]
            vs = self.leaks(plan, rep) or (self.missing(plan, rep) if not spec.get('sitefaults') else [])
            if vs:
                return vs, []
            per = {s: ''.join(o[1] for o in rep['outlog'] if o[0] == s) for s in ('stdout', 'stderr')}
            said = [s[:3] for s in rep['said']]
            if ref is None:
                ref, refper, refsaid, sites = res, per, said, rep['sites']
                continue
            for j, (a, b) in enumerate(zip(ref[0], res[0])):
                if a['outcome'] == 'err' and b['outcome'] == 'err':
                    a, b = dict(a, err=None), dict(b, err=None)
                if a != b:
                    x, y = str(a.get('text') or a), str(b.get('text') or b)
                    k = next((q for q, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
                    return [viol('changes', 'result', 'operation %d differs between no suppression and suppression %s: %s vs %s' % (j, combo, x[max(0, k - 100):k + 150], y[max(0, k - 100):k + 150]))], []
            if said != refsaid:
                return [viol('changes', 'behaviour', 'inspected code behaves differently under suppression %s: %s vs %s' % (combo, [s for s in refsaid if s not in said][:4], [s for s in said if s not in refsaid][:4]))], []
            for k, s in enumerate(('stdout', 'stderr')):
                if not combo[k] and per[s] != refper[s]:
                    return [viol('lost', s, 'suppressing the other stream changes what arrives on %s: %r vs %r' % (s, refper[s][-200:], per[s][-200:]))], []
        return [], sites

    def nontrivial(self, spec, ex):
        return ex.stats['probes'].get('texts_written', 0) > 0

    def shrinks(self, spec):
        for f in drop_chunks(spec.get('sitefaults', [])):
            yield with_(spec, ['sitefaults'], f)
        yield from shrink_faults(spec)
        yield from shrink_sched(spec)
        yield from shrink_threads(spec)
        yield from shrink_world_in(spec)


CHECK = C02()
