"""C13: a failed request carries the original exception and leaves nothing behind."""
from .common import *

EXC = [e for e in EXC_ANY if e not in ('SyntaxError',)]
NAME = '''import sys
R = sys.__dict__.setdefault('_simnames', [])
def NAME(v):
    for i, x in enumerate(R):
        if x is v:
            return i
    R.append(v)
    return len(R) - 1
'''
MODS = '{k: NAME(v) for k, v in sys.modules.items() if k.split(".")[0] in %r}'


def texts(rng, names):
    """source text that fails while flag "bad" is set, or always (None = no exact oracle in Python)"""
    dep = rng.choice(names)
    return rng.choice([
        ['if _F("bad"): _T("text", %r)\ndef tf(a: int): ...\n' % rng.choice(EXC), True],
        ['import %s\ndef tf(a: int): ...\n' % dep, True],
        ['def ta(): ...\nimport %s as q\ntv = 1\n' % dep, True],
        ['def tf(:\n', False],
        ['x = (\n', False],
        ['raise ValueError("always")\n', False],
        ['import nothere_at_all\n', False],
        ['def f(): return\n  x = 1\n', False],
        ['1/0\n', False],
        ['raise SystemExit(3)\n', False],
        ['"\\0"\n', False],
        ['x = "\0"\n', None],
    ])


class C13(Check):
    id = 'C13'
    cases = {'quick': 4000, 'thorough': 60000}
    budget = {'quick': 110, 'thorough': 1800}
    rule = ('case = module forest in which some modules fail (finder or body, any exception, while a cause lasts; or exceptions injected at drawn interpreter events of the first attempt) + a sequence of requests (names, batches, source text) that is '
            'attempted while the cause lasts and again when it is gone; the error is compared with what a plain Python import gives, the second attempt and sys.modules with a process in which nothing failed; non-trivial = the first attempt failed, distinct by event log')
    assumptions = ['a failing module body has no side effects that outlive it, other than the modules it has imported', 'CPython 3.12: a package that fails after it has imported its own submodules leaves these loaded (the check does not inject that)']

    def gen(self, rng, tier, i):
        kind = rng.choice(['flag', 'flag', 'flag', 'inject', 'inject', 'builder'])
        g = wg.Gen(rng, roots=(1, 3), items=(1, 3), fan=(0, 3), depth=rng.choice([0, 1, 2, 2]), reexport=0.0 if kind == 'inject' else 0.3, crossroot=0.5, stdlib=0.1)
        w = g.world()
        names = [m['name'] for m in w['mods']]
        bad = []
        if kind != 'inject':
            for n in rng.sample(names, rng.choice([1, 1, 2]) if len(names) > 1 else 1):
                bad.append([n, rng.choice(['head', 'mid', 'head', 'tail', 'find', 'gone']), rng.choice(EXC)])
        around = [n for n in names for b in bad if n == b[0] or n.startswith(b[0] + '.')] or names
        req = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            pool = around if rng.random() < 0.6 else names
            if r < 0.55:
                req.append(['n', rng.choice(pool)])
            elif r < 0.8:
                req.append(['b', [rng.choice(names if rng.random() < 0.5 else pool) for _ in range(rng.randint(1, 3))]])
            elif kind != 'inject':
                t, ok = texts(rng, names)
                req.append(['s', t.replace('_F(', '_S.flag(').replace('_T(', '_S.tagged('), rng.choice(['wtext', 'wtext2', 'root'])])
            else:
                req.append(['s', 'import %s\ndef tf(a: int): ...\n' % rng.choice(names), 'wtext'])
        for rq in req:
            # (text under the name of a module that is requested as well: an earlier part of the request that succeeded stays)
            if rq[0] == 's' and rq[2] == 'root':
                rq[2] = rng.choice(ROOTS2) if len(req) == 1 else 'wtext3'
        # modules that are loaded already; a source text that has the name of one of them must not replace it when it fails
        pre = []
        if kind != 'inject':
            if len(req) == 1 and req[0][0] == 's' and req[0][2] in ROOTS2:
                pre = [rng.choice([n for n in names if n.split('.')[0] == req[0][2]] or names)] if rng.random() < 0.6 else []
            elif rng.random() < 0.1:
                pre = [rng.choice(names)]
        cfg = dict(any_cfg(rng, 0.08), **flags(rng, 0.8))
        cfg.pop('generate_dependencies', None)
        return {'world': w, 'kind': kind, 'bad': bad, 'req': req, 'cfg': cfg, 'times': rng.choice([1, 1, 2]), 'before': rng.random() < 0.2, 'pre': pre, 'faults': [], 'fseed': rng.randrange(1 << 30), 'nf': 5}

    def world(self, spec):
        w = copy.deepcopy(spec['world'])
        for m in w['mods']:
            for n, how, exc in spec['bad']:
                if m['name'] != n:
                    continue
                line = {'k': 'fault', 'n': [], 'src': 'if _S.flag("bad"): _S.tagged(%r, %r)\n' % (n, exc)}
                if how == 'head':
                    m['items'].insert(0, line)
                elif how == 'mid':
                    m['items'].insert(sum(1 for it in m['items'] if it['k'] == 'imp' and n not in it['src'] and 'from .' not in it['src']) and 1, line)
                elif how == 'tail' and not any(n in it['src'] or 'from .' in it['src'] for it in m['items'] if it['k'] == 'imp'):
                    m['items'].append(line)
                elif how == 'find':
                    m['findflag'] = ['bad', exc]
                elif how == 'gone':
                    m['goneflag'] = True
                else:
                    m['items'].insert(0, line)
        e = wg.emit(w)
        for m in w['mods']:
            e[m['name']]['src'] = e[m['name']]['src'].replace('_S.tagged(', '_S.tagged(')
        return e

    def setbad(self, spec, on):
        gone = [n for n, how, _ in spec['bad'] if how == 'gone']
        return {'op': 'py', 'code': 'SIM.flags["bad"] = %r\nfor n in %r: SIM.modules[n]["gone"] = %r\n' % (on, gone, on)}

    def text_ns(self, spec):
        """source texts reach the simulator through builtins, as their namespace is made by the engine"""
        return {'op': 'py', 'code': 'import builtins, importlib\nbuiltins._S = _S\nfor n in %r:\n    try: importlib.import_module(n)\n    except Exception: pass\n' % spec.get('pre', [])}

    def roots(self, spec):
        return sorted({n.split('.')[0] for n in spec_names(spec)} | {'wtext', 'wtext2', 'wtext3', 'nothere_at_all'})

    def attempt(self, spec, n=''):
        return {'op': 'gen', 'cfg': spec['cfg'], 'req': spec['req']}

    def oracle(self, spec, ex):
        """what plain Python says about the requests, in order, while the cause lasts; one outcome per attempt"""
        code = 'import types, sys, importlib\n'
        for rq in spec['req']:
            for n in ([rq[1]] if rq[0] == 'n' else rq[1] if rq[0] == 'b' else []):
                code += 'importlib.import_module(%r)\n' % n
            if rq[0] == 's':
                code += ('m = types.ModuleType(%r)\nm.__file__ = %r\nold = sys.modules.get(%r)\nsys.modules[%r] = m\ntry:\n    exec(compile(%r, %r, "exec", dont_inherit=True), m.__dict__)\n'
                         'except BaseException:\n    del sys.modules[%r]\n    if old is not None: sys.modules[%r] = old\n    raise\n') % (rq[2], rq[2] + '/__init__.py', rq[2], rq[2], rq[1], rq[2] + '/__init__.py', rq[2], rq[2])
        r = ex.leg({'world': self.world(spec), 'threads': [[self.text_ns(spec), self.setbad(spec, True)] + [{'op': 'py', 'code': code}] * spec['times'] + [self.setbad(spec, False), {'op': 'py', 'code': code}]], 'line_events': False})
        if r.get('problem'):
            return None
        return r['results'][0][2:-2], r['results'][0][-1]

    def run(self, spec, ex):
        world = self.world(spec)
        fresh = ex.leg({'world': world, 'threads': [[self.text_ns(spec), self.attempt(spec)]], 'line_events': spec['kind'] == 'inject', 'want_sites': spec['kind'] == 'inject'})
        if fresh.get('problem'):
            ex.probe('skipped_' + fresh['problem'][0])
            return []
        want = fresh['results'][0][1]
        if spec['kind'] == 'inject':
            return self.run_inject(spec, ex, world, fresh, want)
        pys = self.oracle(spec, ex)
        if pys is None:
            return []
        pys, again = pys
        ops = [self.text_ns(spec)]
        if spec['before']:
            ops.append({'op': 'gen', 'cfg': spec['cfg'], 'req': [['n', 'json']], 'text': False})
        ops.append(self.setbad(spec, True))
        snap = {'op': 'py', 'code': NAME + 'RESULT = ' + MODS % (self.roots(spec),)}
        single = len(spec['req']) == 1 and spec['req'][0][0] in 'ns'
        first = []
        for _ in range(spec['times']):
            ops.append(snap)
            if spec['kind'] == 'builder':
                ops.append({'op': 'new', 'h': 'a', 'cfg': spec['cfg']})
                for q in spec['req']:
                    ops += [{'op': 'clone', 'h': 'a', 'to': 'keep'}, {'op': 'add', 'h': 'a', 'req': q}]
                first.append(range(len(ops) - 2 * len(spec['req']), len(ops)))
            else:
                ops.append(self.attempt(spec))
                first.append(range(len(ops) - 1, len(ops)))
        ops.append(snap)
        ops.append(self.setbad(spec, False))
        ops.append(self.attempt(spec))
        r = ex.leg({'world': world, 'threads': [ops], 'line_events': False})
        if r.get('problem'):
            ex.probe('skipped_' + r['problem'][0])
            return []
        res = r['results'][0]
        for rng_, py in zip(first, pys):
            outs = [res[k] for k in rng_ if ops[k]['op'] in ('gen', 'add')]
            vs = self.judge(spec, ex, py, pys[0], outs)
            if vs:
                return vs
            if py['outcome'] != 'ok' and single:
                a, b = res[rng_[0] - 1 if spec['kind'] != 'builder' else rng_[0] - 2]['value'], res[len(ops) - 3]['value']
                if spec['req'][0][0] == 's' and rng_ is first[0]:
                    changed = [k for k in set(a) | set(b) if (k == spec['req'][0][2] or k not in b) and a.get(k) != b.get(k)]
                    if changed:
                        return [viol('left-behind', 'sys.modules', 'the failed request %s changed the entries of sys.modules for %s' % (str(spec['req'])[:300], changed))]
        if again['outcome'] != 'ok' and want['outcome'] == 'ok':
            # CPython keeps the submodules of a package that failed; a plain import does not recover either
            ex.probe('python_does_not_recover')
            return []
        return self.compare(spec, want, res[len(ops) - 1], 'after the cause was gone')

    def judge(self, spec, ex, py, py0, outs):
        for o in outs:
            if o.get('leftover'):
                return [viol('pending', o['leftover'], 'a Python error is still set after the call: %s' % o['leftover'])]
        bad = next((o for o in outs if o['outcome'] != 'ok'), None)
        if py['outcome'] == 'ok':
            ex.probe('first_attempt_not_failing')
            return []
        ex.probe('first_attempt_failed')
        if bad is None or bad['outcome'] == 'skip':
            return [viol('skipped', 'skipped', 'Python cannot import the requested modules %s (%s), but the call succeeded' % (str(spec['req'])[:300], py['exc']))]
        if bad['outcome'] != 'err' or bad.get('kind') != 'py':
            return [viol('no-cause', bad.get('kind') or bad['outcome'], 'the error does not carry the Python exception %s: %s' % (py['exc'], str(bad)[:400]))]
        if any('\0' in rq[1] for rq in spec['req'] if rq[0] == 's'):
            return []
        # (the submodules of a package that failed stay loaded, so that a repeated import can find another cause)
        if all(bad['exc'] != p.get('exc') or bad.get('exc_is_tagged') != p.get('exc_is_tagged') for p in (py, py0)):
            return [viol('other-cause', py['exc'][0], 'the error carries %s (tag %s) instead of %s (tag %s)' % (bad['exc'], bad.get('exc_is_tagged'), py['exc'], py.get('exc_is_tagged')))]
        return []

    def compare(self, spec, want, got, where):
        if got.get('leftover'):
            return [viol('pending', got['leftover'], 'a Python error is still set after the call: %s' % got['leftover'])]
        if want['outcome'] != 'ok':
            if got['outcome'] == 'ok':
                return [viol('retry', 'ok', '%s the request succeeds, in a fresh process it fails: %s' % (where, str(want)[:300]))]
            return []
        if got['outcome'] != 'ok':
            return [viol('retry', got['outcome'], '%s the request fails: %s' % (where, str(got)[:400]))]
        if got['text'] != want['text']:
            a, b = want['text'], got['text']
            k = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return [viol('retry', 'text', '%s the bindings differ from those of a fresh process at byte %d: %r vs %r' % (where, k, a[max(0, k - 80):k + 80], b[max(0, k - 80):k + 80]))]
        return []

    def run_inject(self, spec, ex, world, fresh, want):
        rng = random.Random(spec['fseed'])
        plans = [spec['faults']] if spec['faults'] else [pick_faults(rng, fresh['sites'], 1, EXC) for _ in range(spec['nf'])]
        for faults in plans:
            if not faults:
                continue
            r = ex.leg({'world': world, 'threads': [[self.text_ns(spec), self.attempt(spec), {'op': 'py', 'code': 'SIM.faults.clear()'}, self.attempt(spec)]], 'line_events': True, 'faults': faults})
            if r.get('problem'):
                ex.probe('skipped_' + r['problem'][0])
                continue
            _, a, _, b = r['results'][0]
            if a['outcome'] == 'ok':
                ex.probe('fault_swallowed')
                continue
            ex.probe('first_attempt_failed')
            vs = []
            if a.get('leftover'):
                vs = [viol('pending', a['leftover'], 'a Python error is still set after the call: %s' % a['leftover'])]
            vs = vs or self.compare(spec, want, b, 'after an attempt that failed with %s' % str(a)[:200])
            if vs:
                vs[0]['spec'] = dict(spec, faults=faults)
                return vs
        return []

    def nontrivial(self, spec, ex):
        return ex.stats['probes'].get('first_attempt_failed', 0) > 0

    def shrinks(self, spec):
        if spec['times'] > 1:
            yield with_(spec, ['times'], 1)
        if spec['before']:
            yield with_(spec, ['before'], False)
        for p in drop_chunks(spec['pre']):
            yield with_(spec, ['pre'], p)
        for b in drop_chunks(spec['bad']):
            yield with_(spec, ['bad'], b)
        for k in list(spec['cfg']):
            c = dict(spec['cfg'])
            del c[k]
            yield with_(spec, ['cfg'], c)
        if len(spec['req']) > 1:
            for q in drop_chunks(spec['req']):
                if q:
                    yield with_(spec, ['req'], q)
        for j, rq in enumerate(spec['req']):
            if rq[0] == 'b' and len(rq[1]) > 1:
                for q in drop_chunks(rq[1]):
                    if q:
                        yield with_(spec, ['req', j], ['b', q])
        if len(spec['faults']) > 1:
            for f in drop_chunks(spec['faults']):
                if f:
                    yield with_(spec, ['faults'], f)
        if spec['kind'] != 'inject':
            yield from shrink_world_in(spec)


ROOTS2 = wg.ROOTS[:2]


def spec_names(spec):
    return [m['name'] for m in spec['world']['mods']]


CHECK = C13()
