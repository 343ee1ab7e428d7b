"""Random module forests. A world is {"mods": [{name, pkg, doc, items: [...], all: [...]|None, extra_list: []}]}.

Every item is a piece of source with metadata, so that shrinking is dropping items and the expected
bindings can be derived from the metadata. Import edges are acyclic: a module imports from its own
descendants, from the subtrees of lower-numbered siblings and from lower-numbered roots only.
"""
import copy

ANN = ['int', 'str', 'float', 'bool', 'bytes', 'list', 'dict', 'tuple', 'set', 'object', 'None', 'type', 'bytearray', 'frozenset', 'complex', 'slice',
       '"int"', '"str"', '"list[int]"', '"dict[str, int]"', '"dict[str, list[str]]"', '"int | None"', '"int | str"', '"tuple[int, str]"', '"set[int]"', '"Any"',
       '"Callable[[int], str]"', '"tuple[int, ...]"', '"Unknown"', '"a.b.C"', 'list[int]', 'dict[str, int]', 'tuple[int, str]', 'set[str]', 'int | None', 'type[int]', 'list[list[str]]',
       'typing.Any', 'typing.List[int]', 'typing.Dict[str, int]', 'typing.Optional[int]', 'typing.Optional["C9"]', 'typing.Union[int, str]', 'typing.Union[int, None, str]',
       'typing.Tuple[int, str]', 'typing.Callable[[int], str]', 'typing.Callable', 'typing.Callable[..., int]', 'typing.Iterable[int]', 'typing.Sequence[str]', 'typing.Type[int]', 'typing.Set[int]', 'typing.FrozenSet[str]',
       'typing.Mapping[str, int]', 'typing.Iterator[int]', 'collections.abc.Callable[[int], int]', 'collections.abc.Sequence[int]', 'datetime.date', 'datetime.timedelta', 'pathlib.Path', 'typing.NoReturn',
       'typing.Literal["a", "b"]', 'typing.ClassVar[int]', 'typing.TypeVar("Q")', 'typing.NewType("NT", int)', 'tuple[%s]' % ', '.join(['int'] * 13), '"list[tuple[%s]]"' % ', '.join(['str'] * 14), 'typing.Optional[tuple[%s]]' % ', '.join(['bytes'] * 12)]
VAL = ['1', '0', '-5', '2.5', '"x"', '""', 'True', 'None', 'b"x"', '[1, 2]', '[]', '{"a": 1}', '{}', '(1, 2)', '()', '{1}', 'frozenset({1})', '1j', 'range(3)', 'slice(1)', '...', 'bytearray(b"q")', 'datetime.date(2020, 1, 1)', 'datetime.timedelta(1)',
       'pathlib.PurePosixPath("x")', 'ipaddress.ip_address("127.0.0.1")', 'typing.Any', 'typing.List[int]', 'int', 'len', 'collections.OrderedDict()', 'NotImplemented']
DOCS = ['One line.', 'First.\n\nSecond paragraph.\n    indented', '  padded  ', 'with "quotes" and \\\\ backslash', 'ends with slash /', '```python\ncode\n```', 'unicode \u00e9\u4e16', 'tabs\tand  double  spaces', '\n\nleading newlines', 'a' * 60, '/', '//', '\\n']
PRE = 'import typing, collections, collections.abc, datetime, pathlib, ipaddress, functools, enum, dataclasses, abc\n'
SUBNAMES = ['sa', 'sb', 'sc', 'sd', 'core', 'util', 'where', 'match', 'io_', 'x1', 'loop']
ROOTS = ['walpha', 'wbeta', 'wgamma', 'wdelta']


class Gen:
    def __init__(self, rng, **opt):
        self.r = rng
        self.o = dict(roots=(1, 2), depth=2, fan=(0, 3), items=(1, 5), reexport=0.3, sibling=0.2, crossroot=0.3, all=0.35, doc=0.4, ann=0.7, stdlib=0.15, classes=True, prints=0.0, crossann=0.3, closures=0.1, private=0.15, keywordnames=0.15, pretty=0.0, big=0.04)
        self.o.update(opt)
        self.n = 10
        self.used = set()
        # several modules of one world can have items of the same name
        self.same = rng.random() < 0.3
        # a few worlds are much larger than the others in one dimension
        self.shape = rng.choice(['wide', 'long', 'deep', 'params']) if rng.random() < self.o['big'] else None
        if self.shape == 'wide' and self.o['depth'] > 0:
            self.o.update(fan=(6, len(SUBNAMES) + 12), depth=min(self.o['depth'], 1), items=(1, 2))
        elif self.shape == 'long':
            self.o.update(items=(12, 30), fan=(0, 1), roots=(1, 1) if self.o['roots'][0] == 1 else (2, 2))
        elif self.shape == 'deep' and self.o['depth'] > 0:
            self.o.update(depth=rng.randint(5, 9), fan=(1, 1), items=(1, 2), roots=(1, 1) if self.o['roots'][0] == 1 else (2, 2))

    def p(self, k):
        return self.r.random() < self.o[k]

    def rint(self, k):
        a, b = self.o[k]
        return self.r.randint(a, b)

    def uid(self):
        self.n += 1
        return self.n

    def ann(self, local):
        r = self.r
        if local and r.random() < self.o['crossann']:
            c = r.choice(local)
            return r.choice(['"%s"' % c, c, 'typing.List["%s"]' % c, 'typing.Optional[%s]' % c, '"list[%s]"' % c, '"dict[str, %s]"' % c])
        return r.choice(ANN)

    def sig(self, local, first=None, maxn=4):
        r = self.r
        ps = [first] if first else []
        stage = 0
        names = ['a', 'b', 'value', 'type', 'x0', 'data', 'match', '_q', 'self_', 'in_']
        if self.shape == 'params':
            maxn, names = 24, names + ['p%d' % i for i in range(20)]
        n = r.randint(0, maxn)
        dflt = False
        r.shuffle(names)
        kinds = sorted(r.choice([0, 0, 0, 1, 2, 2, 3]) for _ in range(n))
        seen1 = seen3 = star = False
        posonly_pending = False
        for i, k in enumerate(kinds):
            nm = names[i % len(names)]
            an = (': ' + self.ann(local)) if self.p('ann') else ''
            if k == 0:
                if dflt or r.random() < 0.3:
                    dflt = True
                    ps.append('%s%s=%s' % (nm, an, r.choice(['1', 'None', '"d"', '()'])))
                else:
                    ps.append(nm + an)
            elif k == 1:
                if not seen1:
                    seen1 = star = True
                    ps.append('*' + 'args')
            elif k == 2:
                if not star:
                    star = True
                    ps.append('*')
                ps.append(nm + an + (r.choice(['', '=1', '=None'])))
            elif k == 3:
                if not seen3:
                    seen3 = True
                    ps.append('**kwargs')
        # a leading positional-only section
        plain = [i for i, q in enumerate(ps) if not q.startswith('*')]
        cut = 0
        for i, q in enumerate(ps):
            if q.startswith('*'):
                break
            cut = i + 1
        if cut > (1 if first else 0) and r.random() < 0.15:
            ps.insert(r.randint(1 if not first else 2, cut), '/')
        if '*' in ps and ps.index('*') == len(ps) - 1:
            ps.remove('*')
        if '*' in ps and ps[ps.index('*') + 1].startswith('**'):
            ps.remove('*')
        return ', '.join(ps)

    def doc(self, ind):
        if not self.p('doc'):
            return ''
        return ind + repr(self.r.choice(DOCS)) + '\n'

    def fn(self, mod, local, name=None):
        name = name or self.name('f')
        ret = (' -> ' + self.ann(local)) if self.p('ann') else ''
        return {'k': 'fn', 'n': [name], 'src': 'def %s(%s)%s:\n%s    _S.call("%s.%s")\n' % (name, self.sig(local), ret, self.doc('    '), mod, name)}

    def name(self, prefix):
        if self.same and self.r.random() < 0.4:
            free = [n for n in ('%s%d' % (prefix, i) for i in range(4)) if n not in self.used]
            if free:
                self.used.add(free[0])
                return free[0]
        return '%s%d' % (prefix, self.uid())

    def var(self, mod, local):
        name = self.name('v')
        return {'k': 'var', 'n': [name], 'src': '%s = %s\n' % (name, self.r.choice(VAL))}

    def cls(self, mod, local):
        r = self.r
        name = self.name('C')
        kind = r.random()
        q = '%s.%s' % (mod, name)
        if kind < 0.08:
            return {'k': 'cls', 'n': [name], 'src': 'class %s(enum.Enum):\n%s    A = 1\n    B = 2\n' % (name, self.doc('    '))}
        if kind < 0.16:
            return {'k': 'cls', 'n': [name], 'src': '@dataclasses.dataclass\nclass %s:\n%s    a: int\n    b: str = "q"\n' % (name, self.doc('    '))}
        if kind < 0.22:
            return {'k': 'cls', 'n': [name], 'src': 'class %s(Exception):\n%s    pass\n' % (name, self.doc('    '))}
        if kind < 0.27:
            return {'k': 'cls', 'n': [name], 'src': '%s = typing.NamedTuple("%s", [("a", int), ("b", str)])\n' % (name, name)}
        base = ''
        if local and r.random() < 0.25:
            base = '(%s)' % r.choice(local)
        elif r.random() < 0.1:
            base = '(abc.ABC)'
        elif r.random() < 0.08:
            base = '(typing.Generic[typing.TypeVar("TT")])'
        out = 'class %s%s:\n%s' % (name, base, self.doc('    '))
        body = ''
        if r.random() < 0.5:
            body += '    def __init__(%s):\n        _S.call("%s.__init__")\n' % (self.sig(local, 'self'), q)
        if r.random() < 0.2:
            body += '    def __call__(%s):\n        _S.call("%s.__call__")\n' % (self.sig(local, 'self'), q)
        if r.random() < 0.1:
            body += '    def __new__(cls, *a, **k):\n        _S.call("%s.__new__")\n        return object.__new__(cls)\n' % q
        for _ in range(r.randint(0, 3)):
            m = self.name('m')
            d = r.random()
            ret = (' -> ' + self.ann(local)) if self.p('ann') else ''
            dd = self.doc('        ')
            if d < 0.5:
                body += '    def %s(%s)%s:\n%s        _S.call("%s.%s")\n' % (m, self.sig(local, 'self'), ret, dd, q, m)
            elif d < 0.6:
                body += '    @classmethod\n    def %s(%s)%s:\n%s        _S.call("%s.%s")\n' % (m, self.sig(local, 'cls'), ret, dd, q, m)
            elif d < 0.7:
                body += '    @staticmethod\n    def %s(%s)%s:\n%s        _S.call("%s.%s")\n' % (m, self.sig(local), ret, dd, q, m)
            elif d < 0.9:
                body += '    @property\n    def %s(self)%s:\n%s        _S.call("%s.%s.get")\n' % (m, ret, dd, q, m)
                if r.random() < 0.6:
                    an = (': ' + self.ann(local)) if self.p('ann') else ''
                    body += '    @%s.setter\n    def %s(self, value%s):\n        _S.call("%s.%s.set")\n' % (m, m, an, q, m)
            else:
                body += '    %s = %s\n' % (m, r.choice(VAL))
        if r.random() < 0.05:
            body += '    class Inner:\n        def z(self): _S.call("%s.Inner.z")\n' % q
        return {'k': 'cls', 'n': [name], 'src': out + (body or '    pass\n')}

    def module(self, name, pkg, above):
        """above: list of (module, item names) that may be imported from"""
        r = self.r
        items = []
        local = []
        self.used = set()
        for _ in range(self.rint('items')):
            d = r.random()
            if d < 0.4:
                items.append(self.fn(name, local))
            elif d < 0.65 and self.o['classes']:
                it = self.cls(name, local)
                local += it['n']
                items.append(it)
            elif d < 0.9:
                items.append(self.var(name, local))
            elif d < 0.95:
                n = self.name('T')
                items.append({'k': 'typevar', 'n': [n], 'src': '%s = typing.TypeVar("%s")\n' % (n, n)})
            elif self.p('closures'):
                n = self.name('p')
                items.append({'k': 'closure', 'n': [n], 'src': 'def _%s(a, b=2): _S.call("%s.%s")\n%s = functools.partial(_%s, 1)\n' % (n, name, n, n, n)})
            else:
                n = self.name('k')
                items.append({'k': 'fn', 'n': [n], 'src': '%s = lambda a, b=1: _S.call("%s.%s")\n' % (n, name, n)})
        if self.p('stdlib'):
            items.insert(0, {'k': 'imp', 'n': [], 'src': r.choice(['import json\n', 'from collections import OrderedDict\n', 'import os.path as osp\n', 'from functools import wraps\n', 'import string as stringmod\n'])})
        if self.p('private'):
            items.append({'k': 'priv', 'n': ['_priv'], 'src': 'def _priv(a): _S.call("%s._priv")\n' % name})
        if self.p('keywordnames'):
            n = r.choice(['struct', 'fn', 'impl', 'str', 'repr', 'move', 'trait', 'py', 'call', 'new', 'obj', 'test', 'crate'])
            items.append({'k': 'kw', 'n': [n], 'src': 'def %s(a=1): _S.call("%s.%s")\n' % (n, name, n)})
        return {'name': name, 'pkg': pkg, 'doc': r.choice(DOCS) if self.p('doc') else None, 'items': items, 'all': None}

    def world(self):
        r = self.r
        mods = []
        roots = ROOTS[:self.rint('roots')]
        exported = []            # (module name, names) of lower roots

        def build(name, depth, low):
            """low: modules of lower-numbered siblings/roots that may be imported"""
            pkg = depth < self.o['depth'] and r.random() < (0.98 if self.shape in ('deep', 'wide') else 0.75 if depth == 0 else 0.45)
            m = self.module(name, pkg, low)
            mine = [m]
            kids = []
            if pkg:
                subs = SUBNAMES + (['w%d' % i for i in range(12)] if self.shape == 'wide' else [])
                r.shuffle(subs)
                for s in subs[:self.rint('fan')]:
                    kid = build(name + '.' + s, depth + 1, low + kids)
                    kids += kid
                    mine += kid
            def names_of(k):
                return [n for it in k['items'] for n in it['n'] if it['k'] in ('fn', 'cls', 'var') and not n.startswith('_')]
            own = {k['name'].rpartition('.')[2] for k in kids if k['name'].rpartition('.')[0] == name}
            if kids and self.p('reexport'):
                for _ in range(r.randint(1, 2)):
                    k = r.choice(kids)
                    ns = names_of(k)
                    rel = k['name'][len(name):]
                    d = r.random()
                    if ns and d < 0.6:
                        x = r.choice(ns)
                        al = r.choice([None, None, self.name('al')])
                        m['items'].insert(0, {'k': 'imp', 'n': [], 'reexp': [k['name'], x, al or x], 'src': 'from %s import %s%s\n' % (rel, x, ' as ' + al if al else '')})
                    elif d < 0.8 and (rel.count('.') == 1 or rel.rpartition('.')[2] not in own):
                        par, _, leaf = rel.rpartition('.')
                        m['items'].insert(0, {'k': 'imp', 'n': [], 'src': 'from %s import %s\n' % (par or '.', leaf)})
                    else:
                        m['items'].insert(0, {'k': 'imp', 'n': [], 'src': 'import %s\n' % k['name']})
            sib = [k for k in low if k['name'].split('.')[0] == name.split('.')[0]]
            if sib and self.p('sibling'):
                k = r.choice(sib)
                ns = names_of(k)
                if ns:
                    m['items'].insert(0, {'k': 'imp', 'n': [], 'src': 'from %s import %s\n' % (k['name'], r.choice(ns))})
            oth = [k for k in low if k['name'].split('.')[0] != name.split('.')[0] and (self.o.get('deepcross', True) or '.' not in k['name'])]
            if oth and self.p('crossroot'):
                k = r.choice(oth)
                ns = names_of(k)
                if ns and r.random() < 0.6:
                    m['items'].insert(0, {'k': 'imp', 'n': [], 'src': 'from %s import %s\n' % (k['name'], r.choice(ns))})
                else:
                    m['items'].insert(0, {'k': 'imp', 'n': [], 'src': 'import %s\n' % k['name']})
            if self.p('all'):
                ns = [n for it in m['items'] for n in it['n']]
                al = [n for n in ns if r.random() < 0.6]
                al += [k['name'].rpartition('.')[2] for k in kids if k['name'].count('.') == name.count('.') + 1 and r.random() < 0.5]
                al += [it['reexp'][2] for it in m['items'] if it.get('reexp') and r.random() < 0.7]
                r.shuffle(al)
                m['all'] = al
            return mine
        for rt in roots:
            mods += build(rt, 0, [m for m in mods])
        return {'mods': mods}


def find(world, name):
    for m in world['mods']:
        if m['name'] == name:
            return m
    return None


def source(m):
    src = ''
    if m.get('doc') is not None:
        src += repr(m['doc']) + '\n'
    if m.get('future'):
        src += 'from __future__ import annotations\n'
    src += m.get('head', '')
    if m.get('pre', True):
        src += PRE
    for it in m['items']:
        src += it['src']
    if m.get('all') is not None:
        src += '__all__ = %r\n' % (m['all'],)
    src += m.get('tail', '')
    return src


def emit(world):
    out = {}
    names = {m['name'] for m in world['mods']}
    for m in world['mods']:
        e = {'src': source(m)}
        if m['pkg']:
            e['pkg'] = True
            e['list'] = [n.rpartition('.')[2] for n in (x['name'] for x in world['mods']) if n.startswith(m['name'] + '.') and n.count('.') == m['name'].count('.') + 1] + list(m.get('extra_list', ()))
        for k in ('unfindable', 'findflag', 'list_raise', 'path', 'nopath'):
            if m.get(k):
                e[k] = m[k]
        out[m['name']] = e
    return out


def without(world, names):
    """the world in which these modules (and everything below them) do not exist"""
    w = copy.deepcopy(world)
    w['mods'] = [m for m in w['mods'] if not any(m['name'] == n or m['name'].startswith(n + '.') for n in names)]
    return w


def shrink_world(world):
    """smaller worlds: drop subtrees, then items, then docs and __all__"""
    for i, m in enumerate(world['mods']):
        if len(world['mods']) > 1:
            yield without(world, [m['name']])
    for i, m in enumerate(world['mods']):
        n = len(m['items'])
        if n > 1:
            for half in (m['items'][:n // 2], m['items'][n // 2:]):
                w = copy.deepcopy(world)
                w['mods'][i]['items'] = copy.deepcopy(half)
                yield w
        for j in range(n):
            w = copy.deepcopy(world)
            del w['mods'][i]['items'][j]
            yield w
        if m.get('all') is not None:
            w = copy.deepcopy(world)
            w['mods'][i]['all'] = None
            yield w
            for j in range(len(m['all'])):
                w = copy.deepcopy(world)
                del w['mods'][i]['all'][j]
                yield w
        if m.get('doc') is not None:
            w = copy.deepcopy(world)
            w['mods'][i]['doc'] = None
            yield w
        if m.get('pre', True) and not any(x in it['src'] for it in m['items'] for x in ('typing', 'collections', 'datetime', 'pathlib', 'ipaddress', 'functools', 'enum', 'dataclasses', 'abc')):
            w = copy.deepcopy(world)
            w['mods'][i]['pre'] = False
            yield w


# ------------------------------------------------------------------ item trees
def norm(items, path='', bodies=True):
    """-> {key: count}; key = path/kind/name (and body): order-insensitive view of the bindings"""
    out = {}
    for kind, name, body, docs, kids in items:
        if kind == 'use':
            body = name = ' '.join(sorted(name.replace('{', ' ').replace('}', ' ').replace(',', ' ').split()))
        k = '%s/%s %s' % (path, kind, name)
        if kind == 'mod' and path:
            body = ''
        full = k if not bodies else '%s\x00%s\x00%s' % (k, body, docs or '')
        out[full] = out.get(full, 0) + 1
        if kids:
            for a, b in norm(kids, path + '/' + name if kind == 'mod' else path + '/%s %s' % (kind, name), bodies).items():
                out[a] = out.get(a, 0) + b
    return out


def diff(a, b, limit=6):
    """keys in one but not the other"""
    only_a = sorted(k for k in a if k not in b)
    only_b = sorted(k for k in b if k not in a)
    cnt = sorted(k for k in a if k in b and a[k] != b[k])
    return only_a, only_b, cnt


def show(keys, limit=5):
    return '; '.join(k.replace('\x00', ' | ')[:300] for k in keys[:limit]) + (' ... (%d)' % len(keys) if len(keys) > limit else '')


# ------------------------------------------------------------------ what must be there
import re
SIMPLE = {'1', '0', '-5', '2.5', '"x"', 'True', '[1, 2]', '{"a": 1}', 'b"x"'}


def anchors(world, names, cfg, broken=()):
    """(module path, possible rows, what) for public items that certainly have a binding when the given modules are requested: plain
    functions, classes with their methods, constants and submodules of all modules that can be imported and reached"""
    mods = {m['name']: m for m in world['mods']}
    block = set(cfg.get('blocklist_names', ['builtins', 'testing', 'tests', 'test', 'type']))
    memo = {}

    def bound(m):
        """names that imports bind in a module"""
        out = set()
        for it in m['items']:
            for l in it['src'].splitlines():
                x = re.match(r'(?:from \S+ )?import (.*)$', l)
                if x:
                    for part in x.group(1).split(','):
                        out.add(part.split(' as ')[-1].strip().split('.')[0])
        return out

    def derives(m, it):
        # (not every class can be derived from: enumerations, named tuples)
        x = re.search(r'^class \w+\((C\d+)\)', it['src'], re.M)
        if it['k'] != 'cls' or x is None:
            return True
        for b in m['items']:
            if b is it:
                return False
            if b['n'] == [x.group(1)]:
                return b['k'] == 'cls' and b['src'].startswith(tuple('class %s%s' % (x.group(1), y) for y in (':', '(abc.ABC)', '(typing.Generic[', '(C'))) and derives(m, b)
        return False

    def defined(n, name):
        m = mods[n]
        return any(name in it['n'] for it in m['items']) or name in bound(m) or n + '.' + name in mods

    def healthy(n):
        if n in memo:
            return memo[n]
        memo[n] = False
        m = mods.get(n)
        ok = m is not None and n not in broken and not any(m.get(k) for k in ('unfindable', 'list_raise', 'path', 'nopath', 'head')) and (not m.get('tail') or 'lost' in m or m.get('tailok'))
        par = n.rpartition('.')[0]
        if ok and par:
            ok = healthy(par)
        if ok:
            for it in m['items']:
                if it['k'] not in ('fn', 'cls', 'var', 'typevar', 'closure', 'imp', 'priv', 'kw', 'same') or not derives(m, it):
                    ok = False
                    break
                for l in it['src'].splitlines() if it['k'] in ('imp', 'same') else ():
                    x = re.match(r'from (\S+) import (\w+)', l)
                    y = re.match(r'import (\S+)', l)
                    if x:
                        src = x.group(1)
                        if src.startswith('.'):
                            src = n + src if src != '.' else n
                        if src.split('.')[0] in {r.split('.')[0] for r in mods}:
                            ok = src == n and n + '.' + x.group(2) in mods or (src in mods and src != n and healthy(src) and defined(src, x.group(2)))
                            if ok and src == n:
                                ok = healthy_child(n + '.' + x.group(2))
                    elif y and y.group(1).split('.')[0] in {r.split('.')[0] for r in mods}:
                        ok = y.group(1) in mods and (y.group(1) == n or healthy_child(y.group(1)))
                    if not ok:
                        break
                if not ok:
                    break
        memo[n] = ok
        return ok

    def healthy_child(n):
        # (a module that imports its own descendant: its own state is not known yet)
        m = mods.get(n)
        return m is not None and n not in broken and not any(it['k'] not in ('fn', 'cls', 'var', 'typevar', 'closure', 'priv', 'kw') or not derives(m, it) for it in m['items']) and not any(m.get(k) for k in ('unfindable', 'list_raise', 'path', 'nopath', 'head', 'tail'))

    out, seen = [], set()

    def visit(n):
        if n in seen or not healthy(n):
            return
        seen.add(n)
        m = mods[n]
        if block & set(n.split('.')):
            return
        path = '/' + n.replace('.', '/')
        bn = bound(m)
        out.append((path, None, 'module'))
        for it in m['items']:
            if it['k'] not in ('fn', 'cls', 'var') or len(it['n']) != 1 or it['n'][0] in block or it['n'][0] in bn:
                continue
            x = it['n'][0]
            if not re.fullmatch(r'[A-Za-z]+\d+', x):
                continue
            if it['k'] == 'fn' and cfg.get('generate_functions', True):
                out.append((path, ['fn ' + x], 'function'))
            elif it['k'] == 'var' and cfg.get('generate_properties', True) and it['src'].split(' = ', 1)[1].strip() in SIMPLE:
                out.append((path, ['fn ' + x, 'fn get_' + x], 'constant'))
            elif it['k'] == 'cls' and cfg.get('generate_classes', True):
                out.append((path, ['struct ' + x], 'class'))
                if it['src'].startswith('class ' + x):
                    for y in re.findall(r'^    def (m\d+)\(', it['src'], re.M):
                        if y not in block:
                            out.append((path, ['fn ' + y, 'fn get_' + y], 'member of %s' % x))
        if m['pkg'] and cfg.get('traverse_submodules', True):
            own = {y for it in m['items'] for y in it['n']} | bn
            for k in mods:
                leaf = k.rpartition('.')[2]
                if k.rpartition('.')[0] == n and leaf not in own and not leaf.startswith('_'):
                    visit(k)
    for n in names:
        visit(n)
    return out


def missing_anchors(want, rows):
    """rows: keys of norm()"""
    keys = set()
    paths = set()
    for k in rows:
        k = k.split('\x00')[0].replace('r#', '')
        p, _, last = k.rpartition('/')
        mod = '/'.join(x for x in p.split('/') if ' ' not in x)
        keys.add((mod, last))
        if last.startswith('mod '):
            paths.add((p + '/' + last[4:]))
    return [(p, w, what) for p, w, what in want if (p not in paths if w is None else not any((p, x) in keys for x in w))]
