"""Orchestrator: seeded search over simulated runs, shrinking, replay files, evidence."""
import os, sys, json, struct, subprocess, random, time, select, hashlib, signal, copy, re, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TARGET = os.path.join(VERIF, 'target')
HOST = os.path.join(TARGET, 'host/debug/simhost')
SHIM = os.path.join(TARGET, 'simshim.so')
PYDIR = os.path.join(VERIF, 'sim/py')
NCPU = os.cpu_count() or 4


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ workers
class Worker:
    def __init__(self, lane='0'):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'PYTHONHASHSEED': lane, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'LANG': 'C.UTF-8', 'LD_PRELOAD': SHIM}
        if os.environ.get('SIM_PANIC_TRACE'):
            env['SIM_PANIC_TRACE'] = '1'
        self.p = subprocess.Popen([HOST, os.path.join(PYDIR, '_simboot.py'), str(r1), str(w2)], pass_fds=(r1, w2), env=env, stdin=subprocess.DEVNULL, cwd='/')
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def _read(self, n):
        out = []
        while n:
            b = os.read(self.r, min(n, 1 << 20))
            if not b:
                raise HarnessError('worker died (exit %s)' % self.p.wait())
            out.append(b)
            n -= len(b)
        return b''.join(out)

    def run(self, plan, timeout=60, stderr=False):
        data = json.dumps({'plan': plan, 'timeout': timeout, 'stderr': stderr}).encode()
        mv = memoryview(struct.pack('<I', len(data)) + data)
        while mv:
            mv = mv[os.write(self.w, mv):]
        a, b = struct.unpack('<II', self._read(8))
        head = json.loads(self._read(a))
        body = self._read(b) if b else b''
        rep = json.loads(body) if body and not head['hang'] and head['status'] == 0 else {}
        rep['stderr'] = head['stderr']
        if head['hang']:
            rep['problem'] = ['hang', 'no progress within %d s' % timeout]
        elif head['status'] != 0:
            rep['problem'] = ['crash', 'status %d' % head['status']]
        elif not body:
            raise HarnessError('leg gave no report: ' + head['stderr'])
        if rep.get('problem') and rep['problem'][0] == 'harness':
            raise HarnessError(rep['problem'][1])
        return rep

    def close(self):
        os.close(self.w)
        os.close(self.r)
        self.p.wait()


class Exec:
    """executes legs for one case and accumulates statistics"""
    def __init__(self):
        self.workers = {}
        self.stats = {'legs': 0, 'events': 0, 'switches': 0, 'faults': {}, 'world_faults': {}, 'probes': {}}
        self.digests = set()
        self.case_digest = None
        self.tmp = None

    def leg(self, plan, lane='0', timeout=60, stderr=False):
        w = self.workers.get(lane)
        if w is None:
            w = self.workers[lane] = Worker(lane)
        rep = w.run(plan, timeout, stderr)
        if (rep.get('problem') or [None])[0] == 'hang':
            rep2 = w.run(plan, timeout * 2, stderr)        # a slow machine is not a hang
            if (rep2.get('problem') or [None])[0] != 'hang':
                rep = rep2
        s = self.stats
        s['legs'] += 1
        s['events'] += rep.get('events', 0)
        s['switches'] += len(rep.get('switches', ()))
        for k, v in rep.get('fired', {}).items():
            s['faults'][k] = s['faults'].get(k, 0) + v
        for k, v in rep.get('worldfaults', {}).items():
            s['world_faults'][k] = s['world_faults'].get(k, 0) + v
        if 'digest' in rep:
            self.digests.add(rep['digest'])
            if self.case_digest is not None:
                self.case_digest.update(rep['digest'].encode())
                self.case_digest.update(json.dumps(rep.get('results'), sort_keys=True).encode())
        return rep

    def probe(self, name, n=1):
        p = self.stats['probes']
        p[name] = p.get(name, 0) + n

    def fault(self, name, n=1):
        p = self.stats['faults']
        p[name] = p.get(name, 0) + n

    def scratch(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='simscratch.')
        return self.tmp

    def close(self):
        for w in self.workers.values():
            w.close()
        self.workers = {}
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)


# ------------------------------------------------------------------ checks
class Check:
    id = None
    level = 'exploration'
    cases = {'quick': 400, 'thorough': 20000}
    budget = {'quick': 150, 'thorough': 3600}     # seconds of search at most
    rule = ''
    assumptions = []
    real = 'pyo3_bindgen_engine (unmodified, from /repo), pyo3, CPython 3.12 with its importlib/inspect/pkgutil/typing'
    stub = 'module forest (virtual importer), stdout/stderr streams, thread scheduler, fault injector'

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def run(self, spec, ex):
        """-> list of violations: {'class':..., 'sig':..., 'detail':...}"""
        raise NotImplementedError

    def shrinks(self, spec):
        return iter(())

    def setup(self, tier):
        pass

    def generic_problems(self, rep, where=''):
        p = rep.get('problem')
        if p and p[0] in ('hang', 'deadlock', 'endless', 'crash'):
            return [viol(p[0], p[0], '%s %s %s' % (where, p[1], rep.get('stderr', '')[-300:]))]
        return []


def viol(cls, sig, detail):
    return {'class': cls, 'sig': str(sig), 'detail': detail}


def rng_for(prop, seed, i):
    return random.Random('%s/%s/%s' % (prop, seed, i))


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    with open(p) as f:
        return json.load(f)


def match_known(known, prop, v):
    for k in known.get('findings', ()):
        if k['property'] == prop and k['class'] == v['class'] and re.search(k['sig'], v['sig']):
            return k
    return None


def merge_stats(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            d = a.setdefault(k, {})
            for x, y in v.items():
                d[x] = d.get(x, 0) + y
        else:
            a[k] = a.get(k, 0) + v


def driver(check, seed, tier, start, step, n, deadline, wfd, stop_r):
    """one search process: cases start, start+step, ..."""
    ex = Exec()
    rc = 0

    def send(o):
        data = json.dumps(o).encode() + b'\n'
        mv = memoryview(data)
        while mv:
            mv = mv[os.write(wfd, mv):]
    try:
        for i in range(start, n, step):
            if time.monotonic() > deadline:
                break
            if select.select([stop_r], [], [], 0)[0]:
                break
            rng = rng_for(check.id, seed, i)
            spec = check.gen(rng, tier, i)
            ex.case_digest = hashlib.blake2b(digest_size=12)
            ex.stats = {'legs': 0, 'events': 0, 'switches': 0, 'faults': {}, 'world_faults': {}, 'probes': {}}
            ex.digests = set()
            vs = check.run(spec, ex)
            for v in vs:
                if 'spec' in v:
                    spec = v.pop('spec')
                    vs = [v]
                    break
            send({'i': i, 'violations': vs, 'spec': spec if vs or i < 3 else None, 'stats': ex.stats, 'digests': sorted(ex.digests), 'case': ex.case_digest.hexdigest(), 'nontrivial': check.nontrivial(spec, ex)})
    except BaseException as e:
        import traceback
        send({'harness': ''.join(traceback.format_exception(e))[-4000:]})
        rc = 1
    finally:
        ex.close()
    os._exit(rc)


def default_nontrivial(self, spec, ex):
    return ex.stats['events'] > 0


Check.nontrivial = default_nontrivial


def search(check, seed, tier, workers=None, cases=None, budget=None, stop_on_violation=True, known=None, start=0):
    known = known or {'findings': []}
    n = cases or int(os.environ.get('SIM_CASES', 0)) or check.cases[tier]
    budget = budget or check.budget[tier]
    workers = workers or min(NCPU, n)
    deadline = time.monotonic() + budget
    procs = []
    stop_r, stop_w = os.pipe()
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.close(stop_w)
            for pr in procs:
                os.close(pr[1])
            driver(check, seed, tier, start + k, workers, start + n, deadline, w, stop_r)
        os.close(w)
        procs.append([pid, r, b''])
    stats = {}
    digests, found, knownhits, done, nontriv = set(), [], {}, 0, set()
    samples, casedig = [], {}
    harness = None
    live = {p[1]: p for p in procs}
    stopping = False
    while live:
        rs, _, _ = select.select(list(live), [], [], 5)
        for r in rs:
            b = os.read(r, 1 << 20)
            p = live[r]
            if not b:
                os.close(r)
                del live[r]
                _, st = os.waitpid(p[0], 0)
                if st and not harness:
                    harness = 'driver ended with status %d' % st
                continue
            p[2] += b
            while b'\n' in p[2]:
                line, p[2] = p[2].split(b'\n', 1)
                m = json.loads(line)
                if 'harness' in m:
                    harness = m['harness']
                    continue
                done += 1
                merge_stats(stats, m['stats'])
                digests.update(m['digests'])
                casedig[m['i']] = m['case']
                if m['nontrivial']:
                    nontriv.add(m['case'])
                if m['i'] < 3:
                    samples.append((m['i'], m['spec']))
                new = []
                for v in m['violations']:
                    kf = match_known(known, check.id, v)
                    if kf:
                        knownhits[kf['id']] = knownhits.get(kf['id'], 0) + 1
                    else:
                        new.append(v)
                if new:
                    found.append((m['i'], m['spec'], new))
                    if stop_on_violation and not stopping:
                        stopping = True
                        os.write(stop_w, b'x')
    os.close(stop_r)
    os.close(stop_w)
    found.sort(key=lambda f: f[0])
    return dict(done=done, stats=stats, digests=digests, found=found, known=knownhits, samples=[s for _, s in sorted(samples)], nontrivial=len(nontriv), harness=harness, cases=casedig)


def shrink(check, spec, cls, sig, known, budget=60, log=lambda *a: None):
    """greedy minimisation: keep a smaller spec while the same violation class (and signature kind) persists"""
    ex = Exec()
    t0 = time.monotonic()
    tried = 0

    def bad(s):
        ex.case_digest = hashlib.blake2b(digest_size=12)
        try:
            vs = check.run(s, ex)
        except HarnessError:
            raise
        except Exception:
            return None
        for v in vs:
            v.pop('spec', None)
            if v['class'] == cls and not match_known(known, check.id, v):
                return v
        return None
    try:
        best = bad(spec)
        if best is None:
            return spec, None, tried
        progress = True
        while progress and time.monotonic() - t0 < budget:
            progress = False
            for cand in check.shrinks(spec):
                if time.monotonic() - t0 > budget:
                    break
                tried += 1
                v = bad(cand)
                if v is not None:
                    spec, best, progress = cand, v, True
                    break
        return spec, best, tried
    finally:
        ex.close()


# ------------------------------------------------------------------ generic shrink helpers
def drop_chunks(lst):
    """smaller versions of a list, big removals first"""
    n = len(lst)
    size = n
    seen = set()
    while size >= 1:
        for a in range(0, n, size):
            if (a, size) in seen:
                continue
            seen.add((a, size))
            if size <= n:
                yield lst[:a] + lst[a + size:]
        size //= 2


def with_(spec, path, value):
    s = copy.deepcopy(spec)
    o = s
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = value
    return s


# ------------------------------------------------------------------ command line
def main(check):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'case', 'selftest'])
    ap.add_argument('arg', nargs='?')
    a = ap.parse_args(sys.argv[2:])
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    known = load_known()
    check.setup(tier)
    if a.cmd == 'replay':
        return replay(check, a.arg, known)
    if a.cmd == 'case':
        return one_case(check, seed, tier, int(a.arg))
    if a.cmd == 'selftest':
        return selftest(check, seed, tier, int(a.arg or 40))
    t0 = time.monotonic()
    print('%s seed=%d tier=%s' % (check.id, seed, tier), flush=True)
    res = search(check, seed, tier, known=known)
    if res['harness']:
        print(res['harness'], file=sys.stderr)
        return 2
    rc = 0
    # determinism: run a sample of the cases again, with another number of workers, and compare the event logs
    again = search(check, seed, tier, workers=3, cases=min(12, max(1, res['done'])), budget=30, stop_on_violation=False, known=known)
    same = sum(1 for i, d in again['cases'].items() if res['cases'].get(i) == d)
    compared = sum(1 for i in again['cases'] if i in res['cases'])
    for k in known.get('findings', ()):
        if k['property'] == check.id:
            print('KNOWN-FINDING: property=%s %s' % (check.id, k['text']))
    nviol = 0
    if res['found']:
        i, spec, vs = res['found'][0]
        v = vs[0]
        print('case %d violates: %s: %s' % (i, v['class'], v['detail'][:2000]), flush=True)
        spec2, v2, tried = shrink(check, spec, v['class'], v['sig'], known, budget=60 if tier == 'quick' else 300)
        if v2 is None:
            spec2, v2 = spec, v
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-seed%d-case%d.json' % (check.id, seed, i))
        with open(path, 'w') as f:
            json.dump({'property': check.id, 'seed': seed, 'case': i, 'violation': v2, 'shrink_attempts': tried, 'spec': spec2}, f, indent=1)
        print('minimised after %d attempts: %s' % (tried, v2['detail'][:3000]))
        print('VIOLATION property=%s replay=%s' % (check.id, path), flush=True)
        nviol = len(res['found'])
        rc = 1
    wall = time.monotonic() - t0
    st = res['stats']
    cov = {
        'evaluations': res['done'], 'distinct_nontrivial': res['nontrivial'], 'rule': check.rule, 'samples': res['samples'][:2] or ['none'],
        'simulated_runs': st.get('legs', 0), 'simulated_runs_per_hour': int(st.get('legs', 0) / max(wall, 0.001) * 3600),
        'seeds_per_hour': int(res['done'] / max(wall, 0.001) * 3600),
        'simulated_time': '%d simulated interpreter events (the code has no clock; the event counter is the simulated time)' % st.get('events', 0),
        'thread_switches': st.get('switches', 0), 'distinct_event_histories': len(res['digests']),
        'faults_injected': dict(sorted({**st.get('faults', {})}.items())), 'faults_raised_by_simulated_modules': dict(sorted(st.get('world_faults', {}).items())),
        'probes': dict(sorted(st.get('probes', {}).items())), 'known_findings_hit': res['known'],
        'determinism': '%d of %d re-executed cases identical in event log and results (other process, other worker count)' % (same, compared),
        'real_components': check.real, 'stubbed_components': check.stub, 'exhaustive': False,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.id + '.json'), 'w') as f:
        json.dump({'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': cov, 'assumptions': check.assumptions, 'wall_s': round(wall, 2), 'violations': nviol}, f, indent=1)
    print('%s: %d cases, %d simulated runs, %d events, %d distinct histories, %.0f s, determinism %d/%d, known %s' % (check.id, res['done'], st.get('legs', 0), st.get('events', 0), len(res['digests']), wall, same, compared, res['known']))
    print('faults:', json.dumps(cov['faults_injected']), json.dumps(cov['faults_raised_by_simulated_modules']))
    print('probes:', json.dumps(cov['probes']))
    if res['done'] == 0:
        return 2
    return rc


def replay(check, path, known):
    with open(path) as f:
        r = json.load(f)
    want = r['violation']['class']
    for attempt in (1, 2):
        ex = Exec()
        ex.case_digest = hashlib.blake2b(digest_size=12)
        vs = check.run(r['spec'], ex)
        ex.close()
        vs = [v for v in vs if v['class'] == want] or vs
        print('replay %d: digest %s: %s' % (attempt, ex.case_digest.hexdigest(), '; '.join(v['class'] + ': ' + v['detail'][:1500] for v in vs) or 'no violation'))
    if vs:
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    return 0


def one_case(check, seed, tier, i):
    spec = check.gen(rng_for(check.id, seed, i), tier, i)
    ex = Exec()
    ex.case_digest = hashlib.blake2b(digest_size=12)
    vs = check.run(spec, ex)
    ex.close()
    print(json.dumps(spec, indent=1)[:20000])
    print(json.dumps(ex.stats), ex.case_digest.hexdigest())
    print(json.dumps(vs, indent=1)[:6000])
    return 1 if vs else 0


def selftest(check, seed, tier, n):
    """determinism proof: every case twice, in other processes and with another worker count"""
    a = search(check, seed, tier, workers=NCPU, cases=n, stop_on_violation=False, budget=3600)
    b = search(check, seed, tier, workers=3, cases=n, stop_on_violation=False, budget=3600)
    diff = [i for i in sorted(a['cases']) if a['cases'][i] != b['cases'].get(i)]
    print('%s: %d cases executed twice, %d differ %s' % (check.id, len(a['cases']), len(diff), diff[:20]), a['harness'] or '', b['harness'] or '')
    print('violations: ', [(i, v[0]['class'], v[0]['sig'][:200]) for i, _, v in a['found']][:10])
    return 1 if diff else 0
