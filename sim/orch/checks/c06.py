"""C06: modules added in any order, batching and overlap give the union of their bindings, each once."""
from .common import *


def split_use(items, path=''):
    """item tree -> (set of non-use items, set of re-exported leaves, multiplicity of every row)"""
    rows, uses, cnt = set(), set(), {}
    for kind, name, body, docs, kids in items:
        if kind == 'use':
            pre, _, rest = name.partition('{')
            for leaf in rest.rstrip(' }').split(',') if rest else ['']:
                if leaf.strip() or not rest:
                    uses.add((path, ' '.join((pre + leaf).replace('::', ' ').split())))
            k = (path, 'use', name)
        else:
            k = (path, kind, name)
            if kind != 'mod' or not path or not kids or any(x[0] != 'use' for x in kids):
                rows.add(k)       # (a nested module that contains nothing but re-exports is a re-export)
        cnt[k] = cnt.get(k, 0) + 1
        if kids:
            r, u, c = split_use(kids, path + '/' + name if kind == 'mod' else path + '/%s %s' % (kind, name))
            rows |= r
            uses |= u
            for a, b in c.items():
                cnt[a] = cnt.get(a, 0) + b
    return rows, uses, cnt


class C06(Check):
    id = 'C06'
    cases = {'quick': 2500, 'thorough': 40000}
    budget = {'quick': 120, 'thorough': 1800}
    rule = ('case = random forest and a set of modules (overlapping, nested, repeated); each generated alone, then together under several drawn builder histories (order, repetition, batches, by name or object, clones that continue separately, '
            'one or several threads handing the builder on); item trees compared with the union and with each other; non-trivial = at least two modules that generate alone, distinct by event log')
    assumptions = ['the content of the modules does not change while they are being added']

    def gen(self, rng, tier, i):
        g = wg.Gen(rng, roots=(1, 4), items=(1, 4), fan=(0, 4), depth=rng.choice([1, 2, 2, 3, 3]), reexport=0.5, all=0.4, sibling=0.4, crossroot=0.5)
        w = g.world()
        names = [m['name'] for m in w['mods']]
        if rng.random() < 0.15:
            # an attribute that has the name of a submodule (re-export of something with the same name)
            for m in w['mods']:
                kids = [k for k in w['mods'] if k['name'].rpartition('.')[0] == m['name']]
                if kids and rng.random() < 0.5:
                    k = rng.choice(kids)
                    leaf = k['name'].rpartition('.')[2]
                    if any(x['name'] == k['name'] + '.' + leaf for x in w['mods']):
                        continue
                    k['items'].append({'k': 'fn', 'n': [leaf], 'src': rng.choice(['def %s(a: int): ...\n', 'class %s:\n    def q(self): ...\n']) % leaf})
                    m['items'].append({'k': 'imp', 'n': [], 'src': 'from .%s import %s\n' % (leaf, leaf)})
        pick = rng.sample(names, min(len(names), rng.choice([1, 2, 2, 3, 4, 5])))
        if rng.random() < 0.5:
            # make overlap likely: a module together with its ancestors and siblings
            n = rng.choice(names)
            pick += [x for x in names if x == n.split('.')[0] or n.startswith(x + '.') or x.startswith(n + '.')][:4]
        pick = sorted(set(pick), key=lambda x: rng.random())
        cfg = dict(any_cfg(rng, 0.08), **flags(rng, 0.9))
        cfg.pop('generate_dependencies', None)
        hists = [self.history(rng, pick) for _ in range(rng.randint(2, 4))]
        return {'world': w, 'pick': pick, 'cfg': cfg, 'hists': hists}

    def history(self, rng, pick):
        order = pick[:]
        rng.shuffle(order)
        order += [rng.choice(pick) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        if rng.random() < 0.3:
            rng.shuffle(order)
        reqs = []
        while order:
            if rng.random() < 0.4:
                k = rng.randint(1, min(4, len(order)))
                reqs.append([rng.choice(['b', 'ob']), order[:k]])
                order = order[k:]
            else:
                reqs.append([rng.choice(['n', 'o']), order.pop(0)])
        return {'reqs': reqs, 'clone': rng.randint(0, len(reqs)) if rng.random() < 0.3 else None, 'thread': rng.random() < 0.2, 'seed': rng.randrange(1 << 30)}

    def leg(self, spec, h, ex):
        cfg = spec['cfg']
        ops = [{'op': 'new', 'h': 'a', 'cfg': cfg}]
        for j, rq in enumerate(h['reqs']):
            if h.get('clone') == j:
                # a clone takes over; the original gets other additions and is finished first
                ops.append({'op': 'clone', 'h': 'a', 'to': 'b'})
                ops.append({'op': 'add', 'h': 'a', 'req': h['reqs'][0]})
                ops.append({'op': 'generate', 'h': 'a', 'items': False})
                ops.append({'op': 'clone', 'h': 'b', 'to': 'a'})
            ops.append({'op': 'add', 'h': 'a', 'req': rq})
        if h.get('clone') == len(h['reqs']):
            ops.append({'op': 'clone', 'h': 'a', 'to': 'b'})
            ops.append({'op': 'generate', 'h': 'b', 'items': False})
        last = {'op': 'generate', 'h': 'a', 'items': True}
        p = {'world': wg.emit(spec['world']), 'text': False}
        if h.get('thread'):
            rng = random.Random(h['seed'])
            cut = rng.randint(1, len(ops))
            # the second thread finishes what the first one began (it starts when the first has ended)
            p['threads'] = [ops[:cut], ops[cut:] + [last]]
        else:
            p['threads'] = [ops + [last]]
        r = ex.leg(p)
        if r.get('problem'):
            return ['problem', r['problem'][0]]
        th = r['results'][-1]
        for t in r['results']:
            for o in t:
                if o['outcome'] not in ('ok', 'skip'):
                    return [o['outcome'], o.get('exc', o.get('err'))]
        o = th[-1]
        if o['outcome'] != 'ok':
            return [o['outcome'], o.get('err')]
        if 'items' not in o:
            return ['unparsable', o.get('items_error')]
        return ['ok', o['items']]

    def run(self, spec, ex):
        singles = {}
        for n in spec['pick']:
            r = self.leg(spec, {'reqs': [['n', n]]}, ex)
            if r[0] != 'ok':
                ex.probe('single_' + r[0])
                return []
            singles[n] = split_use(r[1])
            path, _, leaf = n.rpartition('.')
            want = ('/' + '/'.join(path.split('.')) if path else '', 'mod', leaf)
            have = {(p.replace('r#', ''), k, x.replace('r#', '')) for p, k, x in singles[n][2]}
            if want not in have:
                return [dict(viol('lost', 'module', 'the requested module %s is not in the bindings generated for it' % n), spec=dict(spec, pick=[n], hists=[]))]
        rows = set().union(*(s[0] for s in singles.values()))
        uses = set().union(*(s[1] for s in singles.values()))
        first = None
        for h in spec['hists']:
            got = self.leg(spec, h, ex)
            if got[0] in ('problem', 'caller'):
                ex.probe('skipped_' + got[0])
                continue
            if got[0] != 'ok':
                return [dict(viol('fails', got[0], 'all modules generate alone, but together: %s' % (str(got[1])[:300],)), spec=dict(spec, hists=[h]))]
            ex.probe('compared')
            if h.get('clone') is not None:
                ex.probe('with_clone')
            if len(spec['pick']) > 1:
                ex.probe('several_modules')
            r, u, c = split_use(got[1])
            vs = []
            if rows - set(c):
                vs.append(viol('lost', 'item', 'bindings lost: %s' % sorted(rows - set(c))[:4]))
            elif uses - u:
                vs.append(viol('lost', 'reexport', 're-exports lost: %s' % sorted(uses - u)[:4]))
            elif r - rows:
                vs.append(viol('extra', 'item', 'bindings that none of the modules has alone: %s' % sorted(r - rows)[:4]))
            else:
                for k, n in c.items():
                    if n > 1 and n > max(s[2].get(k, 0) for s in singles.values()):
                        vs.append(viol('twice', k[1], 'item appears %d times: %s' % (n, k)))
                        break
            if not vs:
                nm = wg.norm(got[1])
                if first is None:
                    first = (nm, h)
                elif nm != first[0]:
                    a, b, cc = wg.diff(first[0], nm)
                    v = viol('order', 'differs', 'bindings depend on the history: %s vs %s: only first: %s; only second: %s; count: %s' % (json.dumps(first[1]['reqs']), json.dumps(h['reqs']), wg.show(a, 3), wg.show(b, 3), wg.show(cc, 3)))
                    v['spec'] = dict(spec, hists=[first[1], h])
                    return [v]
            if vs:
                vs[0]['spec'] = dict(spec, hists=[h])
                return vs
        return []

    def nontrivial(self, spec, ex):
        return ex.stats['probes'].get('several_modules', 0) > 0

    def shrinks(self, spec):
        for k, h in enumerate(spec['hists']):
            for f, v in (('clone', None), ('thread', False)):
                if h.get(f) != v:
                    yield with_(spec, ['hists', k, f], v)
            for j, rq in enumerate(h['reqs']):
                if rq[0] in ('b', 'ob') and len(rq[1]) > 1:
                    for x in range(len(rq[1])):
                        s = with_(spec, ['hists', k, 'reqs', j], [rq[0], rq[1][:x] + rq[1][x + 1:]])
                        yield self.fit(s)
            for q in drop_chunks(h['reqs']):
                if q:
                    yield self.fit(with_(spec, ['hists', k, 'reqs'], q))
        for n in spec['pick']:
            if len(spec['pick']) > 1:
                s = copy.deepcopy(spec)
                s['pick'].remove(n)
                for h in s['hists']:
                    h['reqs'] = [[q[0], [x for x in q[1] if x != n]] if q[0] in ('b', 'ob') else q for q in h['reqs'] if q[1] != n]
                    h['reqs'] = [q for q in h['reqs'] if q[1]]
                if all(h['reqs'] for h in s['hists']):
                    yield s
        for k in list(spec['cfg']):
            c = dict(spec['cfg'])
            del c[k]
            yield with_(spec, ['cfg'], c)
        for w in wg.shrink_world(spec['world']):
            names = {m['name'] for m in w['mods']}
            if all(p in names for p in spec['pick']):
                yield with_(spec, ['world'], w)

    def fit(self, s):
        """keep only modules in 'pick' that every history adds"""
        for h in s['hists']:
            have = {x for q in h['reqs'] for x in (q[1] if q[0] in ('b', 'ob') else [q[1]])}
            s['pick'] = [p for p in s['pick'] if p in have]
        return s


CHECK = C06()
