"""C03: a broken submodule or attribute costs only its own bindings."""
from .common import *

EXC = ['Exception', 'ImportError', 'ModuleNotFoundError', 'ValueError', 'AttributeError', 'TypeError', 'KeyError', 'OSError', 'RuntimeError', 'MemoryError', 'RecursionError', 'SystemExit', 'StopIteration', 'UnicodeError', 'AssertionError', 'NotImplementedError', 'LookupError', 'SyntaxError', 'KeyboardInterrupt', 'GeneratorExit']


def imports_from(it, mod, names, below=False):
    """does this import item of module mod load one of the modules (or something below them)?"""
    s = it['src'].split()
    if it['k'] != 'imp':
        return False
    base = s[1]
    if base.startswith('.'):
        tgt = mod + base if base != '.' else mod
        if s[0] == 'from' and base == '.':
            tgt = mod + '.' + s[3]
    else:
        tgt = base
    if below:
        return any(tgt.startswith(n + '.') for n in names)
    cands = [tgt] + ([tgt + '.' + s[3]] if s[0] == 'from' else [])
    return any(c == n or c.startswith(n + '.') for c in cands for n in names)


class C03(Check):
    id = 'C03'
    cases = {'quick': 4000, 'thorough': 60000}
    budget = {'quick': 90, 'thorough': 1800}
    rule = ('case = random package forest in which a drawn set of submodules fails to import (any exception, at the finder or at any place of the body, always or only the first time, or an injected fault at the import event) and a drawn set of '
            'module and class attributes that are listed but raise; bindings compared item by item with a run in which these do not exist; non-trivial = something was broken and the reference run gave bindings, distinct by event log')
    assumptions = ['no healthy module imports a broken one, except inside try/except', 'the requested modules and their parents are healthy', 'an import or read that fails only the first time may give either the bindings without it or those of the healthy program']

    def gen(self, rng, tier, i):
        g = wg.Gen(rng, roots=(1, 2), items=(1, 4), fan=(1, 4), depth=rng.choice([1, 2, 2, 3]), reexport=0.5, all=0.5, sibling=0.3, stdlib=0.1)
        w = g.world()
        subs = [m['name'] for m in w['mods'] if '.' in m['name']]
        broken = {}
        transient = rng.random() < 0.2
        if subs and rng.random() < 0.9:
            for n in rng.sample(subs, 1 if transient else min(len(subs), rng.choice([1, 1, 2, 3]))):
                if any(n.startswith(b + '.') for b in broken):
                    continue
                for b in [b for b in broken if b.startswith(n + '.')]:
                    del broken[b]
                kind = rng.choice(['head', 'mid', 'tail', 'tail', 'find', 'syntax', 'inject', 'injectfind'] if not transient else ['head', 'mid', 'tail'])
                broken[n] = [kind, rng.choice(EXC), 'first' if transient else 'always']
        for m in w['mods']:
            if any(m['name'] == b or m['name'].startswith(b + '.') for b in broken):
                continue
            keep = []
            for it in m['items']:
                if imports_from(it, m['name'], broken):
                    if transient or rng.random() < 0.4 or imports_from(it, m['name'], broken, True):      # (what a broken package has loaded before it fails stays importable)
                        continue
                    it = dict(it, src='try:\n    %sexcept BaseException:\n    pass\n' % it['src'])
                keep.append(it)
            m['items'] = keep
            # something of the parent that has the name of a broken submodule
            for b in broken:
                if b.rpartition('.')[0] == m['name'] and rng.random() < 0.15:
                    leaf = b.rpartition('.')[2]
                    m['items'].append({'k': 'same', 'n': [leaf], 'src': rng.choice(['def %s(a: int): ...\n', 'class %s:\n    def q(self): ...\n', '%s = 5\n', 'from json import dumps as %s\n', 'import json as %s\n'] if not transient else ['def %s(a: int): ...\n']) % leaf})
                    m['all'] = None if rng.random() < 0.5 else m['all']
        # attributes that are listed but cannot be read
        attrs = []
        for m in w['mods']:
            if any(m['name'] == b or m['name'].startswith(b + '.') for b in broken):
                continue
            if rng.random() < 0.3:
                m['lost'] = [[rng.choice(['lost', 'aaa', 'zzz', 'core2']) + str(j), rng.choice(EXC)] for j in range(rng.randint(1, 2))]
                if m.get('all') is not None and rng.random() < 0.5:
                    m['all'].insert(rng.randint(0, len(m['all'])), m['lost'][0][0])
            for it in m['items']:
                if it['k'] == 'cls' and it['src'].startswith('class ') and '(enum.' not in it['src'] and 'NamedTuple' not in it['src'] and rng.random() < 0.3:
                    it['bad'] = [[rng.choice(['bad', 'aa', 'zz']) + str(j), rng.choice(EXC)] for j in range(rng.randint(1, 2))]
        names = [m['name'] for m in w['mods'] if not any(m['name'] == b or m['name'].startswith(b + '.') for b in broken)]
        parents = [n for n in names if any(b.startswith(n + '.') for b in broken)] or names
        cfg = dict(any_cfg(rng, 0.08), **flags(rng, 0.85))
        cfg.pop('generate_dependencies', None)
        cfg.pop('include_private', None)
        req = requests(rng, w, rng.choice([parents, names]), n=1 if transient else rng.choice([1, 1, 2]), by=('n', 'b') if any(b[0].startswith('inj') for b in broken.values()) else ('n', 'b', 'o', 'ob'))
        if transient:
            req = [['n', rng.choice(parents)]]
        return {'world': w, 'broken': broken, 'req': req, 'cfg': cfg}

    def variant(self, spec, mode):
        """mode: broken | without | healthy -> world (emitted), site faults"""
        w = copy.deepcopy(spec['world'])
        broken = spec['broken']
        sf = []
        if mode == 'without':
            w = wg.without(w, list(broken))
        for m in w['mods']:
            lost = m.pop('lost', [])
            if lost:
                body = ''.join('    if n == %r: _S.fail(%r, "always", %r)\n' % (n, m['name'] + n, e) for n, e in lost)
                names = [n for n, e in lost] if mode == 'broken' else []
                m['tail'] = 'def __getattr__(n):\n%s    raise AttributeError(n)\ndef __dir__():\n    return [k for k in globals() if k != "_S"] + %r\n' % (body, names)
            for it in m['items']:
                bad = it.pop('bad', [])
                if mode == 'broken':
                    it['src'] += ''.join('    %s = _S.bad(%r)\n' % (n, e) for n, e in bad)
            b = broken.get(m['name'])
            if b and mode == 'broken':
                kind, exc, when = b
                line = '_S.fail(%r, %r, %r)\n' % (m['name'], when, exc)
                if kind == 'head':
                    m['head'] = m.get('head', '') + line
                elif kind == 'mid':
                    m['items'].insert(len(m['items']) // 2, {'k': 'fault', 'n': [], 'src': line})
                elif kind == 'tail':
                    m['tail'] = m.get('tail', '') + line
                elif kind == 'find':
                    m['unfindable'] = exc
                elif kind == 'syntax':
                    m['tail'] = 'def broken(:\n'
                elif kind == 'inject':
                    sf.append(['exec %s ' % m['name'], exc])
                elif kind == 'injectfind':
                    sf.append(['find %s ' % m['name'], exc])
        out = wg.emit(w)
        if mode == 'without':
            # the listing still names the vanished modules in half of the cases (a stale entry), which makes no difference
            pass
        return out, sf

    def leg(self, spec, mode, ex):
        world, sf = self.variant(spec, mode)
        r = ex.leg({'world': world, 'threads': [[{'op': 'gen', 'cfg': spec['cfg'], 'req': spec['req']}]], 'items': True, 'text': False, 'lasting': sf})
        if r.get('problem'):
            return ['problem', r['problem'][0], None]
        o = r['results'][0][0]
        if o['outcome'] == 'ok' and 'items' not in o:
            return ['unparsable', o.get('items_error'), None]
        return [o['outcome'], o.get('exc', o.get('err')), wg.norm(o['items']) if o['outcome'] == 'ok' else None]

    def run(self, spec, ex):
        if not spec['broken'] and not any(m.get('lost') or any(it.get('bad') for it in m['items']) for m in spec['world']['mods']):
            return []
        ref = self.leg(spec, 'without', ex)
        if ref[0] != 'ok':
            ex.probe('reference_' + ref[0])
            return []
        got = self.leg(spec, 'broken', ex)
        ex.probe('compared')
        for b in spec['broken'].values():
            ex.probe('broken_%s_%s' % (b[0], b[2]))
        if got[0] != 'ok':
            return [viol('fails', got[0], 'generation does not succeed because of %s: %s' % (json.dumps(spec['broken']), str(got[1])[:300]))]
        names = [x for q in spec['req'] for x in (q[1] if isinstance(q[1], list) else [q[1]])]
        want = wg.anchors(spec['world'], names, spec['cfg'], spec['broken'])
        ex.probe('anchors', len(want))
        gone = wg.missing_anchors(want, got[2])
        if gone:
            return [viol('collateral', 'gone ' + gone[0][2].split()[0], 'broken %s: no bindings of %s' % (json.dumps(spec['broken']), gone[:5]))]
        if got[2] == ref[2]:
            return []
        if any(b[2] == 'first' for b in spec['broken'].values()):
            full = self.leg(spec, 'healthy', ex)
            if full[0] == 'ok' and full[2] == got[2]:
                ex.probe('transient_recovered')
                return []
        a, b, c = wg.diff(ref[2], got[2])
        return [viol('collateral', 'lost' if a else 'extra' if b else 'count', 'broken %s: missing: %s; extra: %s; other multiplicity: %s' % (json.dumps(spec['broken']), wg.show(a), wg.show(b), wg.show(c)))]

    def nontrivial(self, spec, ex):
        return ex.stats['probes'].get('compared', 0) > 0

    def shrinks(self, spec):
        for b in list(spec['broken']):
            d = dict(spec['broken'])
            del d[b]
            yield with_(spec, ['broken'], d)
        for i, m in enumerate(spec['world']['mods']):
            if m.get('lost'):
                for x in drop_chunks(m['lost']):
                    yield with_(spec, ['world', 'mods', i, 'lost'], x)
            for j, it in enumerate(m['items']):
                if it.get('bad'):
                    for x in drop_chunks(it['bad']):
                        yield with_(spec, ['world', 'mods', i, 'items', j, 'bad'], x)
        for k in list(spec['cfg']):
            c = dict(spec['cfg'])
            del c[k]
            yield with_(spec, ['cfg'], c)
        if len(spec['req']) > 1:
            for q in drop_chunks(spec['req']):
                if q:
                    yield with_(spec, ['req'], q)
        yield from shrink_world_in(spec)


CHECK = C03()
