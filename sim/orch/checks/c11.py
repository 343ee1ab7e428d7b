"""C11: generated bindings are a faithful proxy of the Python objects."""
from .common import *
import px

BAD = {'argument': 'a value of the annotated type cannot be passed', 'self': 'the instance is not accepted', 'params': 'the binding has other parameters', 'panic': 'the binding panics', 'leftover': 'an exception is left behind in the interpreter'}


def world(seed, k):
    r = rng_for('C11-world', seed, k)
    g = px.WorldGen(r, common=r.choice([0.4, 0.75, 0.75, 1.0]))
    w = {'mods': g.world(), 'names': g.mods, 'ops': g.ops, 'req': [['n', g.mods[0]]], 'cfg': {}}
    if r.random() < 0.4:
        w['cfg'] = dict(any_cfg(r, 0.12), **flags(r, 0.9))
        w['cfg'].pop('generate_dependencies', None)
    if r.random() < 0.3:
        names = list(g.mods)
        r.shuffle(names)
        w['req'] = r.choice([[['o', names[0]]], [['b', names]], [['n', n] for n in names], [['n', names[0]]], [['ob', names]]])
    return w


class Bindings:
    """compiled bindings of a world"""
    def __init__(self):
        self.cache = {}

    def get(self, ex, mods, req, cfg=None):
        key = json.dumps([mods, req, cfg], sort_keys=True)
        if key not in self.cache:
            self.cache = dict(list(self.cache.items())[-40:])
            self.cache[key] = self.make(ex, mods, req, cfg)
        return self.cache[key]

    def make(self, ex, mods, req, cfg):
        rep = ex.leg({'world': mods, 'threads': [[{'op': 'gen', 'cfg': cfg or {}, 'req': req}]], 'line_events': False, 'mon': False, 'text': True, 'px': {'mode': 'py'}})
        res = (rep.get('results') or [[None]])[0][0] if not rep.get('problem') else None
        if not res or res['outcome'] != 'ok':
            return {'error': 'generation: %s' % (rep.get('problem') or res)}
        return self.compile(ex, res['text'])

    def compile(self, ex, text):
        rep = ex.leg({'world': {}, 'threads': [[{'op': 'drive', 'text': text, 'root': '', 'first': 0}]], 'mon': False})
        if rep.get('problem'):
            return {'error': 'generated text: %s' % rep['problem']}
        wrapped, table = rep['results'][0][0]['drive']
        so, msg = px.build([(wrapped, table, 0)])
        if so is None:
            return {'error': 'compiler: ' + first_errors(msg)}
        return {'so': so, 'table': table, 'base': 0}


def first_errors(msg):
    errs = msg.split('\nerror')
    return ('error' + errs[1] if len(errs) > 1 else msg)[:1500]


def bare(n):
    return n[2:] if n.startswith('r#') else n


def names_of(table):
    out = set()
    for t in table:
        k = ('.'.join(bare(p) for p in t['path']), bare(t['class']) if t['class'] else None, bare(t['name']))
        out |= {k + (None,), k + (t['method'],)}
    return out


class C11(Check):
    id = 'C11'
    cases = {'quick': 4000, 'thorough': 80000}
    budget = {'quick': 150, 'thorough': 2400}
    worlds = {'quick': 240, 'thorough': 2400}
    rule = ('case = a generated stateful module forest whose bindings are generated and compiled, and a history of calls, reads and writes through them by 1..3 threads under a seeded schedule, with drawn exceptions at drawn points of the bodies, replies of the wrong type, modules and attributes that '
            'vanish or are replaced; the same history is performed in Python and results, errors, call log and final state are compared; non-trivial = at least one body was entered, distinct by event log')
    real = Check.real + ', the generated bindings compiled by rustc with pyo3'
    stub = 'stateful module forest (virtual importer), scripted replies and exceptions of its bodies, thread scheduler'
    assumptions = ['arguments are passed with the types the bindings ask for, converted from the annotated Python values', 'positional-only, variadic and keyword parameters are all given']

    def __init__(self):
        self.bindings = Bindings()
        self.w = {}

    def setup(self, tier):
        px.cleanup(self.worlds[tier] + 100)
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED') or 1)

    def gen(self, rng, tier, i):
        k = i % self.worlds[tier]
        if k not in self.w:
            self.w = dict(list(self.w.items())[-300:])
            self.w[k] = world(self.seed, k)
        w = self.w[k]
        nth = rng.choice([1, 1, 1, 1, 2, 3])
        h = px.history(rng, {'mods': w['names'], 'ops': w['ops']}, rng.choice([3, 6, 10, 16]), threads=nth)
        spec = {'world': w['mods'], 'names': w['names'], 'cfg': w['cfg'], 'req': w['req'], 'threads': h}
        if nth > 1:
            spec['sched'] = {'seed': rng.randrange(1 << 30), 'p': rng.choice([0.1, 0.3, 0.6])}
            spec['warm'] = rng.random() < 0.5
        return spec

    def plan(self, spec, threads, b, mode):
        p = {'world': spec['world'], 'threads': threads, 'mon': False, 'only': 'px', 'px': {'mode': mode}, 'post': [{'op': 'pxstate', 'mods': spec['names']}]}
        if mode == 'rust':
            p['px'].update(b)
        elif spec.get('reuse'):
            p['px']['reuse'] = True
        if spec.get('warm'):
            p['pre'] = [{'op': 'import', 'name': n} for n in spec['names']]
        if spec.get('sched'):
            p['sched'] = spec['sched']
        return p

    def run(self, spec, ex):
        b = self.bindings.get(ex, spec['world'], spec['req'], spec['cfg'])
        if 'error' in b:
            return [viol('bindings', 'bindings', b['error'])]
        have = names_of(b['table'])
        threads = []
        for th in spec['threads']:
            out = []
            for op in th:
                if op['do'] == 'py' or any((op['mod'], op.get('cls'), c, False if op['do'] == 'ctor' else None) in have for c in px.cands(op)):
                    out.append(op)
                else:
                    ex.probe('no_binding_' + op['do'])
            threads.append(out)
        return self.compare(spec, threads, b, ex)

    def compare(self, spec, threads, b, ex):
        got = ex.leg(self.plan(spec, threads, b, 'rust'))
        if got.get('problem'):
            return [viol(got['problem'][0], got['problem'][0], 'calls through the bindings: %s' % got['problem'][1])]
        ref = ex.leg(self.plan(spec, threads, b, 'py'))
        if ref.get('problem'):
            ex.probe('reference_' + ref['problem'][0])
            return []
        entries = [l for l in got['post'][0]['log'] if not l[1].endswith(':exec')]
        ex.probe('bodies_entered', len(entries))
        for t, ops in enumerate(threads):
            for j, op in enumerate(ops):
                v = self.op(op, got['results'][t][j], ref['results'][t][j], ex)
                if v:
                    v['detail'] = 'operation %s: %s\n%s' % (op['id'], json.dumps(op), v['detail'])
                    return [v]
        a, c = got['post'][0], ref['post'][0]
        if a['log'] != c['log']:
            return [viol('calls', self.which(a['log'], c['log']), 'the call history differs: ' + first_diff(a['log'], c['log']))]
        if a['state'] != c['state']:
            return [viol('state', 'state', 'the final state differs: ' + dict_diff(a['state'], c['state']))]
        return []

    def which(self, a, b):
        for x, y in zip(a, b):
            if x != y:
                return '%s / %s' % (x[1], y[1])
        return 'length'

    def op(self, op, r, p, ex):
        if r['outcome'] in BAD:
            if r['outcome'] == 'self' and p['outcome'] == 'exc':
                return None
            return viol(r['outcome'], r['detail'][:200], '%s: %s' % (BAD[r['outcome']], r['detail']))
        ex.probe('op_%s_%s' % (op['do'], r['outcome']))
        if (op.get('ill') or p.get('odd')) and p['outcome'] == 'ok' and r['outcome'] == 'exc' and not r['thrown']:
            ex.probe('ill_typed_reply_is_error')
            return None
        if r != p:
            what = 'result' if r['outcome'] == p['outcome'] == 'ok' else 'error'
            return viol(what, '%s %s %s' % (op['do'], r['outcome'], p['outcome']), 'through the binding: %s\nin Python: %s' % (json.dumps(r), json.dumps(p)))
        return None

    def shrinks(self, spec):
        yield from shrink_threads(spec)
        yield from shrink_sched(spec)
        for t, th in enumerate(spec['threads']):
            for j, op in enumerate(th):
                for k in ('fault', 'reply', 'cause', 'ill'):
                    if k in op:
                        o = {a: b for a, b in op.items() if a != k and not (k == 'reply' and a == 'ill')}
                        yield with_(spec, ['threads', t, j], o)


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'entry %d: through the bindings %s, in Python %s' % (i, json.dumps(x), json.dumps(y))
    return 'through the bindings %d entries, in Python %d; then %s' % (len(a), len(b), json.dumps((a + b)[min(len(a), len(b))] if len(a) > len(b) else b[len(a)]))


def dict_diff(a, b, where=''):
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                return dict_diff(x, y, where + '/' + k)
            return '%s/%s: through the bindings %s, in Python %s' % (where, k, json.dumps(x), json.dumps(y))
    return '?'


CHECK = C11()
