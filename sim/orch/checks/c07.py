"""C07: build() tells the truth about the file, and failed or interrupted generation leaves the disk alone."""
from .common import *
import hashlib

HARD = {'o': [13, 28, 5, 24, 30, 122, 12, 2, 40], 'w': [28, 5, 122, 27, 11, 9]}
GOODPATH = ['new', 'new', 'old', 'old', 'long_old', 'empty', 'link', 'dangling', 'sub', 'unicode', 'same', 'near', 'near']
BADPATH = ['dir', 'noparent', 'parentfile', 'longname', 'nul', 'loop', 'nopath']


def place(kind, k):
    """path of a target and what has to be on the disk before"""
    n = 'out%d.rs' % k
    return {
        'new': (n, []), 'old': (n, [['file', n, 'old content']]), 'near': (n, [['near', n, k]]), 'long_old': (n, [['file', n, 'x' * 300000]]), 'empty': (n, [['file', n, '']]),
        'link': (n, [['file', 'real%d.rs' % k, 'old content'], ['link', n, 'real%d.rs' % k]]), 'dangling': (n, [['link', n, 'later%d.rs' % k]]),
        'sub': ('d/%s' % n, [['dir', 'd', '']]), 'unicode': ('\u00e9 \u4e16%d.rs' % k, []), 'same': (n, []),
        'dir': (n, [['dir', n, '']]), 'noparent': ('missing/%s' % n, []), 'parentfile': ('plain/%s' % n, [['file', 'plain', 'p']]), 'longname': ('n' * 300, []), 'nul': ('a\0b', []),
        'loop': (n, [['link', n, n]]), 'nopath': ('', [])}[kind]


def near(text, how):
    """earlier content of a target that resembles the bindings"""
    k = len(text) // 2
    return {'exact': text, 'samelen': 'x' * len(text.encode('utf-8', 'surrogatepass')), 'first': '\n' + text[1:], 'middle': text[:k] + ('_' if text[k:k + 1] != '_' else 'q') + text[k + 1:], 'last': text[:-1] + '\n', 'prefix': text[:-1], 'half': text[:k],
            'longer': text + '\n// more', 'twice': text + text, 'swapped': text[k:] + text[:k], 'newline': text + '\n'}[how]


NEAR = ['exact', 'samelen', 'first', 'middle', 'last', 'prefix', 'half', 'longer', 'twice', 'swapped', 'newline']


def state(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                out[rel] = 'link ' + os.readlink(p)
            elif os.path.isdir(p):
                out[rel] = 'dir'
            else:
                with open(p, 'rb') as f:
                    out[rel] = 'file ' + hashlib.blake2b(f.read(), digest_size=10).hexdigest()
    return out


class C07(Check):
    id = 'C07'
    cases = {'quick': 3000, 'thorough': 60000}
    budget = {'quick': 120, 'thorough': 1800}
    rule = ('case = module forest + a sequence of builds by one or two threads into targets that are new, old (shorter, longer, empty, nearly or exactly the same bindings), links, directories, missing ..., with a drawn script of outcomes for the system calls on them (errors, short and interrupted writes, death of the '
            'process), exceptions and module losses at drawn interpreter events of the generation, and death at a drawn event; each result and the disk are compared with the same history that only generates; non-trivial = a build reached the disk or a fault struck, distinct by event and system call log')
    real = Check.real + ', Rust std::fs'
    stub = 'module forest (virtual importer), thread scheduler, fault injector, outcome of libc open/write/close/rename/... on the scratch directory'
    assumptions = ['the outcome of close() is not reported by Rust and says nothing on a local file system', 'nothing is claimed about the content of the target after a failed or interrupted write, except that the next build repairs it']

    def gen(self, rng, tier, i):
        g = wg.Gen(rng, roots=(1, 2), items=(1, 3), fan=(0, 2), depth=rng.choice([0, 1, 1, 2]))
        w = g.world()
        names = [m['name'] for m in w['mods']]
        nth = rng.choice([1] * 6 + [2])
        threads = []
        cfg = any_cfg(rng, 0.08)
        cfg.pop('generate_dependencies', None)
        for t in range(nth):
            ops = [{'op': 'gen', 'cfg': cfg, 'req': requests(rng, w), 'end': 'keep', 'h': 'g%d' % t}] if rng.random() > 0.05 else [{'op': 'new', 'cfg': cfg, 'h': 'g%d' % t}]
            last = None
            for j in range(rng.choice([1, 1, 2, 3]) if nth == 1 else 1):
                kind = rng.choice(GOODPATH) if rng.random() < 0.8 else rng.choice(BADPATH)
                k = 10 * t + j
                if last and nth == 1 and rng.random() < 0.5:
                    path, prep = last, []
                else:
                    path, prep = place(kind, k)
                prep = [[p[0], p[1], rng.choice(NEAR)] if p[0] == 'near' else p for p in prep]
                last = path
                if nth == 1 and rng.random() < 0.15:
                    ops.append({'op': 'py', 'code': 'import sys\nfor n in [n for n in sys.modules if n.split(".")[0] == %r]: del sys.modules[n]\nSIM.modules[%r]["gone"] = True\n' % (rng.choice(names).split('.')[0], rng.choice(names))})
                ops.append({'op': 'clone', 'h': 'g%d' % t, 'to': 'b%d_%d' % (t, j)})
                ops.append({'op': 'build', 'h': 'b%d_%d' % (t, j), 'path': '@DIR/' + path if path else '', 'prepare': prep, 'io': self.script(rng) if nth == 1 and rng.random() < 0.6 else '', 'watch': nth == 1})
            threads.append(ops)
        spec = {'world': w, 'threads': threads, 'faults': [], 'fseed': rng.randrange(1 << 30), 'nf': rng.choice([0, 1, 1, 2]), 'nd': rng.choice([0, 0, 1])}
        if nth > 1:
            spec['sched'] = {'seed': rng.randrange(1 << 30), 'p': rng.choice([0.02, 0.1, 0.3])}
        return spec

    def script(self, rng):
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < 0.2:
                out.append('o0:E%d' % rng.choice(HARD['o']))
            elif r < 0.3:
                out.append('o0:I')
            elif r < 0.45:
                out.append('w%d:E%d' % (rng.choice([0, 0, 1, 2]), rng.choice(HARD['w'])))
            elif r < 0.55:
                out.append('w%d:I' % rng.randint(0, 2))
            elif r < 0.75:
                out.append('w%d%s:S%d' % (rng.randint(0, 2), rng.choice(['', '', '+']) if rng.random() < 0.5 else '', rng.choice([1, 7, 4096, 100])))
            elif r < 0.85:
                out.append('c0:E%d' % rng.choice([5, 28]))
            elif r < 0.92:
                out.append(rng.choice(['o0:X', 'o0:Y', 'w0:X', 'w0:D%d' % rng.choice([1, 50, 5000]), 'w1:X', 'c0:X', 'c0:Y', 'r0:X', 'r0:Y']))
            else:
                out.append('w%d+:E28' % rng.choice([0, 1]))
        if any(':S1' in s and '+' in s for s in out):
            out = [s.replace('+:S1', ':S1') for s in out]
        return ','.join(out)

    def plan(self, spec, d, build, **k):
        th = copy.deepcopy(spec['threads'])
        for ops in th:
            for op in ops:
                if op['op'] == 'build' and not build:
                    op['op'] = 'generate'
        p = {'world': wg.emit(spec['world']), 'threads': th, 'line_events': True, 'faults': spec['faults'], 'dir': d}
        if spec.get('sched'):
            p['sched'] = spec['sched']
        p.update(k)
        return p

    def dir(self, ex):
        self.n = getattr(self, 'n', 0) + 1
        d = os.path.join(ex.scratch(), 'disk%d' % self.n)
        os.makedirs(d)
        return d

    def leg(self, spec, ex, **k):
        d = self.dir(ex)
        rep = ex.leg(self.plan(spec, d, True, **k))
        st = state(d)
        return rep, st, d

    def run(self, spec, ex):
        vs, sites = self.once(spec, ex)
        rng = random.Random(spec['fseed'])
        if not vs:
            for _ in range(spec['nf']):
                f = pick_faults(rng, sites or [], rng.choice([1, 1, 2]), EXC_COMMON + ['MemoryError', 'GeneratorExit'])
                if not f:
                    break
                one = dict(spec, nf=0, nd=0, faults=f)
                vs, _ = self.once(one, ex)
                if vs:
                    vs[0]['spec'] = one
                    return vs
            for _ in range(spec['nd']):
                one = dict(spec, nf=0, nd=0, die=rng.random())
                vs, _ = self.once(one, ex)
                if vs:
                    vs[0]['spec'] = one
                    return vs
        else:
            vs[0]['spec'] = dict(spec, nf=0, nd=0)
        return vs

    def once(self, spec, ex):
        multi = len(spec['threads']) > 1
        # sched with explicit switches is not used for the reference: one thread after the other gives the same bindings
        ref = ex.leg(self.plan(dict(spec, sched=None) if multi else spec, '/nonexistent', False, want_sites=True))
        if ref.get('problem'):
            ex.probe('skipped_' + ref['problem'][0])
            return [], []
        if multi and spec['faults']:
            return [], []
        spec = self.fill(spec, ref)
        rep, st, d = self.leg(spec, ex)
        try:
            died = any(c in op.get('io', '') for ops in spec['threads'] for op in ops if op['op'] == 'build' for c in 'XYD')
            if rep.get('problem'):
                if rep['problem'][0] == 'crash' and died:
                    ex.probe('died_on_disk_call')
                    return self.recover(spec, ex, d, ref), ref['sites']
                return self.generic_problems(rep), []
            vs = [viol('touched', 'during generation', 'the target changed while the generation was in progress, before %s' % w[1]) for w in rep['inv'] if w[0] == 'touched']
            for t, ops in enumerate(spec['threads']):
                for j, op in enumerate(ops):
                    if op['op'] == 'build' and not vs:
                        vs = self.judge(op, ref['results'][t][j], rep['results'][t][j], '%d.%d' % (t, j), ex, multi)
            if not vs and 'die' in spec and not multi:
                vs = self.death(spec, ex, ref, rep)
            return vs, ref['sites']
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def fill(self, spec, ref):
        """what is in the targets before, where it depends on the bindings"""
        spec = copy.deepcopy(spec)
        for ops, res in zip(spec['threads'], ref['results']):
            for op, r in zip(ops, res):
                for p in op.get('prepare', []):
                    if p[0] == 'near':
                        p[0], p[2] = 'file', near(r.get('text') or 'old content', p[2])
        return spec

    def judge(self, op, r, b, where, ex, multi):
        if b['outcome'] == 'skip' or r['outcome'] == 'skip':
            return []
        io = b.get('io')
        if io is None:
            return [viol('panic', 'panic', 'build %s: %s' % (where, b))] if b['outcome'] == 'panic' else []
        hits = [l.split() for l in io['log']]
        hard = [int(h[3][1:]) for h in hits if len(h) > 3 and h[3][0] == 'E' and h[1] != 'close']
        for h in hits:
            if len(h) > 3:
                ex.fault('disk:%s:%s' % (h[1], h[3][0] + (h[3][1:] if h[3][0] == 'E' else '')))
        ex.probe('build_' + b['outcome'])
        kind = 'build %s into %s (%s)' % (where, op['path'], io['log'])
        if b['outcome'] == 'panic':
            return [viol('panic', 'panic', '%s: %s' % (kind, b['err']))]
        if r['outcome'] == 'panic':
            return []
        if r['outcome'] == 'err':
            ex.probe('generation_failed')
            if b['outcome'] == 'ok':
                return [viol('lie', 'generation failed', '%s: generation fails with %s, but the build succeeds' % (kind, r['err']))]
            if (b.get('kind'), b.get('err')) != (r.get('kind'), r.get('err')) and not hard:
                return [viol('error', 'generation error', '%s: generation fails with %s %s, the build with %s %s' % (kind, r.get('kind'), r['err'], b.get('kind'), b['err']))]
            if io['after'] != io['before'] and not multi:
                return [viol('touched', 'failed generation', '%s: generation failed (%s), but the disk changed: %s -> %s' % (kind, r['err'], io['before'], io['after']))]
            return []
        text = r['text']
        if b['outcome'] == 'ok':
            if io['file'] != text:
                got = io['file']
                return [viol('lie', 'content', '%s: success, but the file holds %s instead of %d bytes of bindings' % (kind, None if got is None else '%d bytes (common prefix %d)' % (len(got), len(os.path.commonprefix([got, text]))), len(text)))]
            extra = set(io['after']) - set(io['before']) - {'later%s.rs' % op['path'][len('@DIR/out'):-3]}
            extra -= {op['path'][len('@DIR/'):]}
            if extra and not multi:
                return [viol('extra', 'files', '%s: the build left other files behind: %s' % (kind, sorted(extra)))]
            return []
        bad = any(op['path'] == (('@DIR/' + place(k, n)[0]) if k != 'nopath' else '') for k in ('noparent', 'parentfile', 'longname', 'nul', 'nopath') for n in (0, 1, 2, 10)) or self.badlink(op, io)
        if not hard and not bad:
            return [viol('spurious', 'error', '%s: nothing is wrong with the disk or the generation, but the build fails: %s' % (kind, b['err']))]
        if b.get('kind') != 'io':
            return [viol('error', 'kind', '%s: not reported as an I/O error: %s %s' % (kind, b.get('kind'), b['err']))]
        if hard and not bad and b.get('errno') not in hard:
            return [viol('error', 'errno', '%s: the system reported errno %s, the build reports %s %s' % (kind, hard, b.get('errno'), b['err']))]
        return []

    def badlink(self, op, io):
        n = op['path'][len('@DIR/'):]
        return io['before'].get(n) in ('dir', 'link ' + n)

    def recover(self, spec, ex, d, ref):
        """the process died on a disk call; afterwards the same target can be built"""
        fixed = copy.deepcopy(spec)
        for op in fixed['threads'][0]:
            if op['op'] == 'build':
                op['io'] = ''
                op['prepare'] = [p for p in op['prepare'] if p[0] == 'dir']
        fixed['faults'] = []
        r = ex.leg(self.plan(fixed, d, False))
        rep = ex.leg(self.plan(fixed, d, True))
        if r.get('problem') or rep.get('problem'):
            return self.generic_problems(rep)
        for j, op in enumerate(fixed['threads'][0]):
            if op['op'] == 'build':
                ex.probe('rebuilt_after_death')
                vs = self.judge(op, r['results'][0][j], rep['results'][0][j], 'after death %d' % j, ex, False)
                vs = [v for v in vs if v['class'] != 'extra']
                if vs and not (v_dir(op)):
                    return vs
        return []

    def death(self, spec, ex, ref, rep):
        """the process dies at a drawn event during the generation of a build"""
        sites = ref['sites']
        spans, j = [], 0
        ops = spec['threads'][0]
        marks = [k for k, s in enumerate(sites) if s.startswith('op ') and s.split()[1] in ('generate', 'gen', 'new', 'clone', 'py', 'forget', 'end')]
        order = [k for k in marks if sites[k].split()[1] == 'generate']
        builds = [j for j, op in enumerate(ops) if op['op'] == 'build']
        if len(order) != len(builds):
            return []
        for k, j in zip(order, builds):
            nxt = min([m for m in marks if m > k], default=len(sites))
            if nxt > k + 1 and ref['results'][0][j]['outcome'] != 'skip':
                spans.append((j, k + 1, nxt))
        if not spans:
            return []
        rng = random.Random(str(spec['die']))
        j, a, b = rng.choice(spans)
        at = rng.randrange(a, b)
        faults = [f for f in spec['faults'] if f[0] < at] + [[at, '@die']]
        d = self.dir(ex)
        try:
            r = ex.leg(self.plan(dict(spec, faults=faults), d, True))
            if (r.get('problem') or [''])[0] != 'crash':
                ex.probe('death_not_reached')
                return []
            ex.probe('died_during_generation')
            ex.fault('process death during generation')
            want = rep['results'][0][j]['io']['before']
            got = state(d)
            if got != want:
                return [viol('touched', 'death', 'the process died during the generation (event %d, %s) of build %d, and the disk changed: %s -> %s' % (at, sites[at], j, want, got))]
            return []
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def nontrivial(self, spec, ex):
        p = ex.stats['probes']
        return p.get('build_ok', 0) + p.get('build_err', 0) + p.get('died_on_disk_call', 0) > 0

    def shrinks(self, spec):
        yield from shrink_faults(spec)
        yield from shrink_sched(spec)
        for t, ops in enumerate(spec['threads']):
            for j, op in enumerate(ops):
                if op.get('io'):
                    parts = op['io'].split(',')
                    for k in range(len(parts)):
                        yield with_(spec, ['threads', t, j, 'io'], ','.join(parts[:k] + parts[k + 1:]))
                if op['op'] == 'build' and len(ops) > 3:
                    yield with_(spec, ['threads', t], ops[:j - 1] + ops[j + 1:])
        yield from shrink_threads(spec)
        yield from shrink_world_in(spec)


def v_dir(op):
    return False


CHECK = C07()
