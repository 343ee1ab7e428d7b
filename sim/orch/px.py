"""Stateful module worlds for the checks of generated bindings (C11, C12): generator, call histories, compilation of the bindings."""
import os, sys, json, hashlib, random, subprocess, fcntl, glob, shutil, tempfile
from simlib import VERIF, TARGET, HarnessError

sys.path.append(os.path.join(VERIF, 'sim/py'))
from proxy import candidates as cands

PXDIR = os.path.join(TARGET, 'px')

WORDS = ['', 'a', 'x y', '\u00e9\u4e16', 'line\nline', '\x00nul', '\U0001f600', "quo'te\"", 'None', '{}', '\\']


def v_any(r, d=2):
    k = r.randrange(14 if d else 8)
    return [lambda: repr(r.randint(-5, 99)), lambda: repr(r.choice(WORDS)), lambda: 'None', lambda: 'True', lambda: repr(r.choice([0.5, -1e300, 3.0])), lambda: repr(bytes([r.randrange(256) for _ in range(r.randint(0, 4))])), lambda: '10**%d' % r.randint(18, 40), lambda: repr(r.choice(WORDS)),
            lambda: '[%s]' % ', '.join(v_any(r, d - 1) for _ in range(some(r))), lambda: '(%s)' % ''.join(v_any(r, d - 1) + ', ' for _ in range(some(r))), lambda: '{%s}' % ', '.join(repr(r.choice('abc')) + ': ' + v_any(r, d - 1) for _ in range(r.randint(0, 2))),
            lambda: 'frozenset(%r)' % [r.randint(0, 5) for _ in range(r.randint(0, 3))], lambda: 'set(%r)' % [r.randint(0, 5) for _ in range(r.randint(0, 3))], lambda: 'bytearray(b"ba")'][k]()


def v_int(r):
    return repr(r.choice([0, 1, -1, 7, 255, 2 ** 31, -2 ** 63, 2 ** 63 - 1, r.randint(-1000, 1000)]))


def v_str(r):
    return repr(r.choice(WORDS + ['word%d' % r.randint(0, 9)])) if r.random() >= 0.02 else repr('long \u00e9 ') + ' * %d' % r.choice([50, 300, 5000])


def v_bytes(r):
    return repr(bytes([r.randrange(256) for _ in range(some(r, 5))]))


def some(r, n=3):
    """how many elements: mostly few, rarely a lot"""
    return r.randint(0, n) if r.random() >= 0.03 else r.randint(n + 1, 40)


def many(f, r, n=3):
    return [f(r) for _ in range(some(r, n))]


def lst(f):
    return lambda r: '[%s]' % ', '.join(many(f, r))


def dct(k, v):
    return lambda r: '{%s}' % ', '.join(k(r) + ': ' + v(r) for _ in range(some(r)))


def st(f, kind='set'):
    return lambda r: '%s([%s])' % (kind, ', '.join(many(f, r)))


def opt(f):
    return lambda r: 'None' if r.random() < 0.35 else f(r)


# name: (annotations, value expression, replies that are not of that type, normalisation of results, usable as parameter)
T = {
    'any': (['', 'typing.Any', '"typing.Any"', '"Any"', 'object'], v_any, [], None),
    'int': (['int', 'int', '"int"'], v_int, ['"text"', 'None', 'object()', '10**30', '-10**19', '[1]'], None),
    'float': (['float', '"float"'], lambda r: repr(r.choice([0.0, -0.5, 1e308, 3.25, float('5')])), ['"x"', 'None', '[1.0]', 'object()'], 'float'),
    'bool': (['bool', '"bool"'], lambda r: r.choice(['True', 'False']), ['"x"', 'None', '5', '[]'], None),
    'str': (['str', '"str"'], v_str, ['5', 'None', 'b"x"', 'object()', '"\\ud800"'], None),
    'bytes': (['bytes', '"bytes"'], v_bytes, ['5', 'None', '[300]', 'object()'], 'bytes'),
    'bytearray': (['bytearray'], lambda r: 'bytearray(%s)' % v_bytes(r), ['5', 'None'], 'bytes'),
    'list': (['list', 'typing.List', '"list"'], lst(v_any), ['5', 'None', 'object()'], None),
    'list_int': (['list[int]', 'typing.List[int]', '"list[int]"', 'typing.Sequence[int]', 'typing.Iterable[int]', '"Sequence[int]"'], lst(v_int), ['5', 'None', '["x"]', '[1, None]', '[10**40]'], None),
    'list_str': (['list[str]', 'typing.List[str]', '"list[str]"'], lst(v_str), ['5', '[1]', 'None'], None),
    'list_list': (['list[list[int]]', 'typing.List[typing.List[int]]', '"list[list[int]]"'], lst(lst(v_int)), ['[1]', '[[None]]'], None),
    'dict': (['dict', 'typing.Dict', '"dict"', 'typing.Mapping'], dct(v_str, v_any), ['5', 'None', '[1]'], None),
    'dict_str_int': (['dict[str, int]', 'typing.Dict[str, int]', '"dict[str, int]"'], dct(v_str, v_int), ['5', '{"a": "x"}', '{1: 1}', 'None'], None),
    'dict_str_any': (['dict[str, typing.Any]', 'typing.Dict[str, typing.Any]', '"dict[str, Any]"'], dct(v_str, v_any), ['5', 'None'], None),
    'dict_int_list': (['dict[int, list[str]]', 'typing.Dict[int, typing.List[str]]', '"dict[int, list[str]]"'], dct(v_int, lst(v_str)), ['5', '{1: 1}'], None),
    'set_int': (['set[int]', 'typing.Set[int]', '"set[int]"'], st(v_int), ['5', 'None', '{"x"}'], 'set'),
    'set_str': (['set[str]', 'typing.Set[str]'], st(v_str), ['5', '{5}'], 'set'),
    'set': (['set', 'set[float]'], st(lambda r: repr(r.choice([0.5, 1.5]))), ['5', 'None', '[1]'], None),
    'frozenset_int': (['frozenset[int]', 'typing.FrozenSet[int]', '"frozenset[int]"'], st(v_int, 'frozenset'), ['5', 'None'], 'set'),
    'frozenset': (['frozenset'], st(lambda r: '"q"', 'frozenset'), ['5', 'None', '[1]'], None),
    'tuple': (['tuple', 'typing.Tuple', '"tuple"', 'tuple[int]'], lambda r: '(%s)' % ''.join(v_any(r) + ', ' for _ in range(some(r))), ['5', 'None', '[1]'], None),
    'tuple_int_str': (['tuple[int, str]', 'typing.Tuple[int, str]', '"tuple[int, str]"'], lambda r: '(%s, %s)' % (v_int(r), v_str(r)), ['5', '(1,)', '(1, 2)', '(1, "x", 3)', 'None'], None),
    'tuple_nested': (['tuple[int, list[str], str]', '"tuple[int, list[str], str]"'], lambda r: '(%s, %s, %s)' % (v_int(r), lst(v_str)(r), v_str(r)), ['()', 'None'], None),
    'tuple_ints': (['tuple[int, ...]', 'typing.Tuple[int, ...]', '"tuple[int, ...]"'], lambda r: '(%s)' % ''.join(v_int(r) + ', ' for _ in range(some(r))), ['5', '("x",)'], 'list'),
    'opt_int': (['typing.Optional[int]', '"typing.Optional[int]"', 'int | None', '"int | None"', '"None | int"', 'typing.Union[int, None]', 'typing.Union[None, int]'], opt(v_int), ['"x"', '10**30', '[1]'], None),
    'opt_str': (['typing.Optional[str]', 'str | None', '"str | None"'], opt(v_str), ['5', 'b"x"'], None),
    'opt_list': (['typing.Optional[list[int]]', '"list[int] | None"'], opt(lst(v_int)), ['5', '["x"]'], None),
    'opt_dict': (['typing.Optional[dict[str, int]]'], opt(dct(v_str, v_int)), ['5'], None),
    'opt_dict_any': (['typing.Optional[dict]', '"dict | None"', 'typing.Optional[typing.Dict[str, typing.Any]]'], opt(dct(v_str, v_any)), ['5'], None),
    'opt_bytes': (['typing.Optional[bytes]', '"bytes | None"'], opt(v_bytes), ['5'], 'bytes'),
    'opt_set': (['typing.Optional[set[int]]'], opt(st(v_int)), ['5'], None),
    'opt_tuple': (['typing.Optional[tuple[int, str]]'], opt(lambda r: '(%s, %s)' % (v_int(r), v_str(r))), ['5'], None),
    'opt_float': (['typing.Optional[float]', '"float | None"'], opt(lambda r: repr(r.choice([0.5, -2.0]))), ['"x"'], 'float'),
    'opt_bool': (['typing.Optional[bool]'], opt(lambda r: r.choice(['True', 'False'])), ['"x"'], None),
    'list_bytes': (['list[bytes]', 'typing.List[bytes]'], lst(v_bytes), ['5', '[1]'], 'blist'),
    'list_any': (['list[typing.Any]', 'typing.List[typing.Any]'], lst(v_any), ['5'], None),
    'list_bool': (['list[bool]'], lst(lambda r: r.choice(['True', 'False'])), ['[5]'], None),
    'list_float': (['list[float]', 'typing.List[float]'], lst(lambda r: repr(r.choice([0.5, 1.0, -3e99]))), ['["x"]'], None),
    'list_opt': (['list[typing.Optional[int]]', '"list[int | None]"'], lst(opt(v_int)), ['["x"]'], None),
    'list_tuple': (['list[tuple[int, str]]'], lst(lambda r: '(%s, %s)' % (v_int(r), v_str(r))), ['[1]'], None),
    'list_dict': (['list[dict[str, int]]'], lst(dct(v_str, v_int)), ['[1]'], None),
    'list_set': (['list[set[int]]'], lst(st(v_int)), ['[1]'], None),
    'list_fset': (['list[frozenset[int]]'], lst(st(v_int, 'frozenset')), ['[1]'], 'fslist'),
    'dict_list': (['dict[str, list[int]]'], dct(v_str, lst(v_int)), ['5'], None),
    'dict_bytes': (['dict[str, bytes]'], dct(v_str, v_bytes), ['5'], 'bdict'),
    'dict_dict': (['dict[str, dict[str, int]]'], dct(v_str, dct(v_str, v_int)), ['{"a": 5}'], None),
    'tuple_bytes': (['tuple[int, bytes, frozenset[str]]'], lambda r: '(%s, %s, frozenset([%s]))' % (v_int(r), v_bytes(r), ', '.join(many(v_str, r))), ['5'], 'btuple'),
    'tuple_anys': (['tuple[typing.Any, ...]', 'tuple[object, ...]'], lambda r: '(%s)' % ''.join(v_any(r) + ', ' for _ in range(some(r))), ['5'], 'list'),
    'tuple_strs': (['tuple[str, ...]', '"tuple[str, ...]"'], lambda r: '(%s)' % ''.join(v_str(r) + ', ' for _ in range(some(r))), ['5', '(5,)'], 'list'),
    'union': (['typing.Union[int, str]', 'int | str', '"int | str"', 'typing.Union[int, str, None]', 'typing.Union[list, dict]', 'int | str | list[int]'], lambda r: r.choice([v_int, v_str])(r), [], None),
    'callable': (['typing.Callable', 'typing.Callable[[int], int]', 'typing.Callable[..., typing.Any]', '"Callable"', '"Callable[[int, str], int]"'], lambda r: r.choice(['(lambda q: 1)', '(lambda *a: None)']), ['5', 'None', 'len'], None),
    'type': (['type'], lambda r: r.choice(['int', 'str', 'dict']), ['5', 'None'], None),
    'complex': (['complex'], lambda r: repr(complex(r.randint(0, 9), 1.5)), ['5', '"x"', 'None'], None),
    'slice': (['slice'], lambda r: 'slice(%d, %d)' % (r.randint(0, 3), r.randint(4, 9)), ['5', 'None'], None),
    'date': (['datetime.date', '"datetime.date"'], lambda r: 'datetime.date(2020, 1, %d)' % r.randint(1, 28), ['5', 'None', '"2020"'], None),
    'datetime': (['"datetime.datetime"'], lambda r: 'datetime.datetime(2020, 1, %d, 5)' % r.randint(1, 28), ['5', 'None'], None),
    'time': (['datetime.time'], lambda r: 'datetime.time(%d, 1)' % r.randint(1, 23), ['5', 'None'], None),
    'timedelta': (['datetime.timedelta', '"timedelta"'], lambda r: 'datetime.timedelta(%d)' % r.randint(0, 9), [], None),
    'module': (['types.ModuleType', '"module"'], lambda r: r.choice(['types', 'sys']), ['5', 'None'], None),
    'iterator': (['typing.Iterator[int]', '"Iterator[int]"', 'typing.Generator', 'typing.Iterator'], lambda r: 'iter([%s])' % ', '.join(many(v_int, r)), [], None),
    'type_of': (['type[int]', 'typing.Type[int]', '"type[int]"', 'typing.Type'], lambda r: r.choice(['int', 'bool']), ['5'], None),
    'annotated': (['typing.Annotated[int, "x"]'], v_int, ['"x"'], None),
    'annotated_list': (['typing.Annotated[list[int], "x"]', 'typing.Annotated[typing.List[int], 5]'], lst(v_int), ['[None]'], None),
    'path': (['pathlib.Path', '"pathlib.Path"', 'os.PathLike'], lambda r: 'pathlib.Path(%r)' % r.choice(['a', '/x/y', '.', 'd/\u00e9']), ['5', 'None'], 'path'),
    'opt_path': (['typing.Optional[pathlib.Path]', 'pathlib.Path | None'], opt(lambda r: 'pathlib.Path(%r)' % r.choice(['a', '/x/y'])), ['5'], 'path'),
    'list_path': (['list[pathlib.Path]'], lst(lambda r: 'pathlib.Path(%r)' % r.choice(['a', '/x/y'])), ['5'], 'plist'),
    'ip': (['ipaddress.IPv4Address'], lambda r: 'ipaddress.IPv4Address(%r)' % r.choice(['1.2.3.4', '127.0.0.1']), ['5'], None),
    'literal': (['typing.Literal["a", "b"]', 'typing.Literal[1]'], lambda r: r.choice(['"a"', '1']), [], None),
    'newtype': (['typing.NewType("Q", int)', 'typing.TypeVar("TQ")', '"SomethingUnknown"', '"lib.Unknown[int]"', 'typing.ClassVar', '"Missing | int | None"'], v_any, [], None),
    'opt_obj': (['typing.Optional["Unknown"]', 'typing.Optional[typing.Any]', '"Unknown | None"'], v_any, [], None),
    'dict_any_int': (['dict[typing.Any, int]', 'dict[float, int]', 'dict[tuple[int, int], str]'], lambda r: '{%s: %s}' % (v_str(r), v_int(r)), ['5'], None),
    'tzinfo': (['datetime.tzinfo'], lambda r: 'datetime.timezone.utc', ['5'], None),
    'range': (['range'], lambda r: 'range(%d)' % r.randint(0, 5), [], None),
    'tuple_12': (['tuple[int, int, int, int, int, int, int, int, int, int, int, int]', '"typing.Tuple[int, int, int, int, int, int, int, int, int, int, int, int]"'], lambda r: '(%s)' % ''.join(v_int(r) + ', ' for _ in range(12)), ['5', '(1,)'], None),
    'tuple_13': (['tuple[int, int, int, int, int, int, int, int, int, int, int, int, int]', 'typing.Tuple[int, int, int, int, int, int, int, int, int, int, int, int, int]', '"tuple[int, int, int, int, int, int, int, int, int, int, int, int, int]"'], lambda r: '(%s)' % ''.join(v_int(r) + ', ' for _ in range(13)), ['5'], None),
    'list_tuple_14': (['list[tuple[int, int, int, int, int, int, int, int, int, int, int, int, int, int]]', '"list[tuple[int, int, int, int, int, int, int, int, int, int, int, int, int, int]]"'], lst(lambda r: '(%s)' % ''.join(v_int(r) + ', ' for _ in range(14))), ['5', '[5]'], None),
    'none': (['None'], lambda r: 'None', [], None),
}
COMMON = ['any', 'any', 'int', 'int', 'str', 'str', 'float', 'bool', 'bytes', 'list', 'list_int', 'list_str', 'dict', 'dict_str_int', 'set_int', 'tuple', 'tuple_int_str', 'opt_int', 'opt_str', 'union']
PNAMES = ['a', 'b', 'c', 'x', 'y', 'value', 'name', 'n', 'data', 'type', 'match', 'fn', 'impl', 'mut', 'ref', 'loop', 'async_', '_priv', 'args_', 'kwargs_', 'dyn', 'box', 'move', 'key', 'py_', 'obj', 'call', 'result', 'Upper', 'p_a', 'mod', 'use', 'where', 'static', '_', 'p_value', 'gr\u00f6\u00dfe', 'self_']
FNAMES = ['f', 'g', 'h', 'work', 'compute', 'match', 'fn', 'loop', 'impl', 'use', 'mod', 'update', 'fetch', 'send', 'call', 'new', 'get', 'item', 'Upper', 'mixedCase', 'move', 'where', 'unsafe', 'trait', 'enum', 'struct', 'box', 'dyn', 'extern', 'clone', 'drop', 'into', 'as_any', 'extract', 'getattr', 'len', 'main']
EXCS = ['ValueError', 'TypeError', 'KeyError', 'AttributeError', 'ImportError', 'ModuleNotFoundError', 'OSError', 'RuntimeError', 'StopIteration', 'KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'MemoryError', 'RecursionError', 'UnicodeError', 'AssertionError', 'MyErr', 'MyBase', 'Exception', 'LookupError', 'StopAsyncIteration', 'NotImplementedError', 'ArithmeticError']


class WorldGen:
    def __init__(self, rng, common=0.75, modules=None, single=None):
        self.r = rng
        self.common = common
        self.ops = []       # everything that can be called
        self.classes = []   # (module, class)
        self.mods = []
        self.nmods = modules
        self.single = single

    def typ(self, local=()):
        r = self.r
        if local and r.random() < 0.15:
            return 'cls:' + r.choice(local)
        return r.choice(COMMON) if r.random() < self.common else r.choice(sorted(T))

    def ann(self, t):
        if t.startswith('cls:'):
            c = t[4:].rsplit('.', 1)[1]
            return self.r.choice(['"%s"' % c, c])
        return self.r.choice(T[t][0])

    def params(self, local=(), method=False, maxn=4):
        r = self.r
        wide = r.random() < 0.03
        names = r.sample(PNAMES, 36 if wide else 8)
        out, src = [], []
        npos = r.randint(8, 24) if wide else r.choice([0, 1, 1, 2, 2, 3, maxn])
        nonly = r.randint(0, npos) if r.random() < 0.2 else 0
        default = False
        for j in range(npos):
            t = self.typ(local)
            n = names.pop()
            a = self.ann(t)
            s = n + (': ' + a if a else '')
            if default or r.random() < 0.3:
                default = True
                s += ' = %s' % (T[t][1](r) if t in T and t not in ('callable', 'module', 'date', 'datetime', 'time', 'timedelta') else 'None')
            src.append(s)
            out.append([n, 'p' if j < nonly else 'o', t])
            if nonly and j == nonly - 1:
                src.append('/')
        va = r.random() < 0.3
        if va:
            n = r.choice(['args', 'rest', 'more'])
            src.append('*' + n + (': int' if r.random() < 0.2 else ''))
            out.append([n, '*', 'tuple'])
        if r.random() < 0.35:
            if not va:
                src.append('*')
            for _ in range(r.randint(1, 12 if wide else 3)):
                t = self.typ(local)
                n = names.pop()
                a = self.ann(t)
                src.append(n + (': ' + a if a else '') + (' = None' if r.random() < 0.6 else ''))
                out.append([n, 'k', t])
        if r.random() < 0.3:
            n = r.choice(['kwargs', 'kw', 'options'])
            src.append('**' + n)
            out.append([n, '**', 'kwargs'])
        return out, src

    def body(self, site, indent, names, extra=''):
        """log the entry, change some state, maybe fail in between, reply"""
        r = self.r
        i = ' ' * indent
        out = i + '_P.enter(%r, locals())\n' % site
        if extra:
            out += ''.join(i + l + '\n' for l in extra.split('\n'))
        return out

    def function(self, mod, name, local):
        r = self.r
        site = mod + '.' + name
        ps, src = self.params(local)
        rt = self.typ(local)
        a = self.ann(rt)
        s = 'def %s(%s)%s:\n' % (name, ', '.join(src), ' -> ' + a if a else '')
        if r.random() < 0.25:
            s += '    %r\n' % r.choice(['Documentation.', 'multi\nline', 'a // b */ "q"'])
        s += self.body(site, 4, ps, 'STATE.append(%r)\n_P.point(%r)\nSTATE[0] += 1' % (name, site + ':mid'))
        s += '    return _P.reply(%r, %s)\n' % (site, self.default(rt))
        if r.random() < 0.15:
            s = r.choice(['@functools.wraps(_wrapped)\n', '']) and s or s
        self.ops.append({'do': 'fn', 'mod': mod, 'attr': name, 'params': ps, 'ret': rt})
        return s

    def default(self, rt):
        if rt.startswith('cls:'):
            return '_P.inst(%r)' % rt[4:]
        if rt == 'int':
            return 'STATE[0]'
        if rt == 'any':
            return self.r.choice(['STATE[0]', 'list(STATE[-3:])', 'None', 'STATE', '(STATE[0], "x")'])
        if rt in ('module', 'date', 'datetime', 'time', 'timedelta', 'callable'):
            return {'module': 'types', 'date': 'datetime.date(2021, 2, 3)', 'datetime': 'datetime.datetime(2021, 2, 3)', 'time': 'datetime.time(4)', 'timedelta': 'datetime.timedelta(5)', 'callable': '_helper'}[rt]
        return T[rt][1](self.r)

    def cls(self, mod, name, bases, local):
        r = self.r
        full = mod + '.' + name
        inh = [c for c in bases]
        s = 'class %s%s:\n' % (name, '(%s)' % ', '.join(bases) if bases else '')
        if r.random() < 0.2:
            s += '    "doc of %s"\n' % name
        n = 0
        mine = []
        # attributes
        used = set()
        for a in r.sample(['count', 'label', 'items', 'kind', 'extern_', 'size', 'ref', 'mut', 'priv'], r.randint(0, 2)):
            used.add(a)
            t = r.choice(['int', 'str', 'list_int', 'float', 'bool'])
            s += '    %s: %s = %s\n' % (a, self.ann(t), T[t][1](r))
            # the type of the attribute is derived from its value
            t2 = {'list_int': 'list'}.get(t, t)
            mine.append({'do': 'get', 'attr': a, 'ret': t2, 'cls': name, 'mod': mod})
            n += 1
        if r.random() < 0.8:
            ps, src = self.params(local)
            s += '    def __init__(%s):\n' % ', '.join(['self'] + src)
            s += self.body(full + '.__init__', 8, ps, 'self.seen = []\n_P.point(%r)\nself.seen.append(1)\nSTATE[0] += 1' % (full + ':init'))
            mine.append({'do': 'ctor', 'params': ps, 'ret': 'any', 'cls': name, 'mod': mod, 'attr': '__init__'})
            n += 1
        elif r.random() < 0.4 and not bases:
            s += '    def __new__(cls, *args, **kwargs):\n        _P.enter(%r, dict(args=args, kwargs=kwargs))\n        return object.__new__(cls)\n' % (full + '.__new__')
            mine.append({'do': 'ctor', 'params': [['args', '*', 'tuple'], ['kwargs', '**', 'kwargs']], 'ret': 'any', 'cls': name, 'mod': mod, 'attr': '__new__'})
            n += 1
        for _ in range(r.randint(1, 4)):
            m = r.choice([f for f in FNAMES if f not in used and f not in ('len', 'main') and f not in {x['attr'] for x in mine}])
            if m in ('new', 'call') and not self.r.random() < 0.5:
                continue
            if m == 'new' and not any(o['attr'] == '__init__' for o in mine):
                continue
            used.add(m)
            site = full + '.' + m
            ps, src = self.params(local)
            rt = self.typ(local)
            a = self.ann(rt)
            ret = ' -> ' + a if a else ''
            k = r.random()
            if k < 0.6:
                first = 'self' if r.random() < 0.9 else 'this'
                s += '    def %s(%s)%s:\n' % (m, ', '.join([first] + src), ret)
                s += self.body(site, 8, ps, '%s.__class__.hits = getattr(%s, "hits", 0) + 1\n_P.point(%r)\nSTATE[0] += 1' % (first, first, site + ':mid'))
                mine.append({'do': 'method', 'attr': m, 'params': ps, 'ret': rt, 'cls': name, 'mod': mod})
            elif k < 0.8:
                s += '    @classmethod\n    def %s(%s)%s:\n' % (m, ', '.join(['cls'] + src), ret) + self.body(site, 8, ps, 'STATE[0] += 1')
                mine.append({'do': 'static', 'attr': m, 'params': ps, 'ret': rt, 'cls': name, 'mod': mod})
            else:
                s += '    @staticmethod\n    def %s(%s)%s:\n' % (m, ', '.join(src), ret) + self.body(site, 8, ps, 'STATE[0] += 1')
                mine.append({'do': 'static', 'attr': m, 'params': ps, 'ret': rt, 'cls': name, 'mod': mod})
            s += '        return _P.reply(%r, %s)\n' % (site, self.default(rt))
            n += 1
        for k in r.sample(['bare', 'varself', 'underscore', 'alias', 'lambda', 'cached', 'setonly', 'setter2', 'partial', 'nested', 'deco', 'static_alias'], r.choice([0, 0, 0, 1, 2])):
            s2 = self.member(mod, name, full, k, mine, local)
            n += bool(s2)
            s += s2
        for p in r.sample([p for p in ['prop', 'total', 'state', 'refs', 'size2', 'enabled', 'match', 'impl', 'loop', 'fn', 'gr\u00f6\u00dfe', 'Mode'] if p not in used], r.randint(0, 2)):
            used.add(p)
            site = full + '.' + p
            t = self.typ(local)
            a = self.ann(t)
            s += '    @property\n    def %s(self)%s:\n        _P.enter(%r, locals())\n        return _P.reply(%r, %s)\n' % (p, ' -> ' + a if a else '', site, site, self.default(t))
            mine.append({'do': 'get', 'attr': p, 'ret': t, 'cls': name, 'mod': mod})
            if r.random() < 0.6:
                s += '    @%s.setter\n    def %s(self, value%s):\n' % (p, p, ': ' + a if a else '') + self.body(site + '.set', 8, [], 'self.__dict__["set_%s"] = value\nSTATE[0] += 1' % p)
                mine.append({'do': 'set', 'attr': p, 'params': [['value', 'o', t]], 'ret': 'none', 'cls': name, 'mod': mod})
            n += 1
        if r.random() < 0.3:
            ps, src = self.params(local)
            rt = self.typ(local)
            a = self.ann(rt)
            s += '    def __call__(%s)%s:\n' % (', '.join(['self'] + src), ' -> ' + a if a else '') + self.body(full + '.__call__', 8, ps, 'STATE[0] += 1') + '        return _P.reply(%r, %s)\n' % (full + '.__call__', self.default(rt))
            mine.append({'do': 'callable', 'attr': '__call__', 'params': ps, 'ret': rt, 'cls': name, 'mod': mod})
            n += 1
        if r.random() < 0.12:
            s += '    def __setattr__(self, k, v):\n        _P.enter(%r, dict(self=self, k=k, v=v))\n        object.__setattr__(self, k, v)\n' % (full + '.__setattr__')
        if r.random() < 0.12:
            s += '    def __getattr__(self, k):\n        if k.startswith("__"): raise AttributeError(k)\n        _P.enter(%r, dict(k=k))\n        raise AttributeError(k)\n' % (full + '.__getattr__')
        if not n:
            s += '    pass\n'
        # inherited operations are bound for the subclass as well
        for b in inh:
            have = {(o['do'], o['attr']) for o in mine}
            names = {o['attr'] for o in mine} | used
            for o in list(self.ops):
                if o['mod'] == mod and o.get('cls') == b and o['attr'] not in names and (o['do'], o['attr']) not in have and not (o['do'] == 'ctor' and any(d == 'ctor' for d, _ in have)):
                    mine.append(dict(o, cls=name))
        self.ops += mine
        self.classes.append((mod, name))
        return s

    def member(self, mod, name, full, k, mine, local):
        r = self.r
        site = full + '.' + k + '1'
        b = lambda a: '        _P.enter(%r, %s)\n        return _P.reply(%r, None)\n' % (site, a, site)
        o = lambda do, attr, ps, **kw: mine.append(dict({'do': do, 'attr': attr, 'params': ps, 'ret': 'any', 'cls': name, 'mod': mod}, **kw))
        if k == 'bare':
            o('static', 'bare1', [])
            return '    def bare1():\n' + b('{}')
        if k == 'varself':
            o('method', 'varself1', [['args', '*', 'tuple'], ['kw', '**', 'kwargs']])
            return '    def varself1(*args, **kw):\n' + b('locals()')
        if k == 'underscore':
            ps = [['_', 'o', 'any'], ['x', 'o', 'int']]
            o('method', 'underscore1', ps)
            return '    def underscore1(self, _, x: int):\n' + b('dict(self=self, x=x)')
        if k == 'alias':
            o('method', 'alias2', [['q', 'o', 'any'], ['w', 'k', 'int']])
            return '    def _orig(this, q, *, w: int = 5):\n' + b('locals()') + '    alias2 = _orig\n'
        if k == 'lambda':
            o('method', 'lambda2', [['q', 'o', 'any']])
            return '    lambda2 = lambda me, q: (_P.enter(%r, dict(me=me, q=q)), _P.reply(%r, None))[1]\n' % (site, site)
        if k == 'cached':
            o('get', 'cached1', [])
            return '    @functools.cached_property\n    def cached1(self):\n' + b('locals()')
        if k == 'setonly':
            o('get', 'setonly1', [])
            o('set', 'setonly1', [['value', 'o', 'any']], ret='none')
            return '    def _so(self, v):\n        _P.enter(%r, locals())\n    setonly1 = property(None, _so)\n' % site
        if k == 'setter2':
            o('get', 'setter2', [], ret='str')
            o('set', 'setter2', [['value', 'o', r.choice(['int', 'list_int'])]], ret='none')
            return '    @property\n    def setter2(self) -> str:\n' + b('locals()').replace('None)', '"v")') + '    @setter2.setter\n    def setter2(self, value: %s):\n        _P.enter(%r, locals())\n' % ('int' if mine[-1]['params'][0][2] == 'int' else 'list[int]', site + '.set')
        if k == 'nested':
            return '    class Nested:\n        def go(self): pass\n'
        if k == 'deco':
            o('method', 'deco2', [['q', 'o', 'int'], ['kw', '**', 'kwargs']])
            return '    def _d(f):\n        @functools.wraps(f)\n        def w(*a, **k):\n            return f(*a, **k)\n        return w\n    @_d\n    def deco2(self, q: int, **kw):\n' + b('locals()')
        if k == 'static_alias':
            o('static', 'sa1', [['a', '*', 'tuple']])
            return '    sa1 = staticmethod(_helper)\n'
        return ''

    def extra(self, mod, k, local):
        r = self.r
        fns = [o for o in self.ops if o['do'] == 'fn' and o['mod'] == mod and o['attr'].isidentifier()]
        if k == 'alias' and fns:
            o = r.choice(fns)
            self.ops.append(dict(o, attr='alias1'))
            return 'alias1 = %s\n' % o['attr']
        if k == 'partial':
            self.ops.append({'do': 'mget', 'mod': mod, 'attr': 'partial1', 'ret': 'any'})
            return 'partial1 = functools.partial(_helper, 1)\n'
        if k == 'lambda':
            self.ops.append({'do': 'fn', 'mod': mod, 'attr': 'lambda1', 'params': [['a', 'o', 'any'], ['b', 'o', 'any']], 'ret': 'any'})
            return 'lambda1 = lambda a, b=5: (_P.enter(%r, dict(a=a, b=b)), _P.reply(%r, None))[1]\n' % (mod + '.lambda1', mod + '.lambda1')
        if k == 'deco':
            ps, src = self.params(local)
            site = mod + '.deco1'
            self.ops.append({'do': 'fn', 'mod': mod, 'attr': 'deco1', 'params': ps, 'ret': 'any'})
            return 'def _deco(f):\n    @functools.wraps(f)\n    def w(*a, **k):\n        _P.enter(%r, dict(a=a, k=k))\n        return f(*a, **k)\n    return w\n@_deco\ndef deco1(%s):\n    _P.enter(%r, locals())\n    return _P.reply(%r, None)\n' % (site + ':w', ', '.join(src), site, site)
        if k == 'odd':
            n = r.choice(['odd-name', 'a b', '1st', 'd.ot'])
            if n == 'd.ot':
                n = 'x!'
            self.ops.append({'do': 'fn', 'mod': mod, 'attr': n, 'params': [['a', 'o', 'any']], 'ret': 'any'})
            return 'def _odd(a):\n    _P.enter(%r, locals())\n    return _P.reply(%r, None)\nglobals()[%r] = _odd\n' % (mod + '._odd', mod + '._odd', n)
        if k == 'self':
            first = r.choice(['self', 'cls', 'py', 'py_', 'this'])
            self.ops.append({'do': 'fn', 'mod': mod, 'attr': 'selfish', 'params': [[first, 'o', 'any'], ['b', 'o', 'int']], 'ret': 'any'})
            return 'def selfish(%s, b: int):\n    _P.enter(%r, locals())\n    return _P.reply(%r, None)\n' % (first, mod + '.selfish', mod + '.selfish')
        if k == 'instance' and local:
            c = r.choice(local)
            self.ops.append({'do': 'mget', 'mod': mod, 'attr': 'instance1', 'ret': 'cls:' + c})
            self.ops.append({'do': 'mset', 'mod': mod, 'attr': 'instance1', 'params': [['value', 'o', 'cls:' + c]], 'ret': 'none'})
            return 'instance1 = object.__new__(%s)\n' % c.rsplit('.', 1)[1]
        if k == 'obj':
            self.ops.append({'do': 'mget', 'mod': mod, 'attr': 'obj1', 'ret': 'any'})
            self.ops.append({'do': 'mset', 'mod': mod, 'attr': 'obj1', 'params': [['value', 'o', 'any']], 'ret': 'none'})
            return 'obj1 = types.SimpleNamespace(a=1)\n'
        if k == 'dataclass':
            self.ops.append({'do': 'ctor', 'mod': mod, 'cls': 'Data1', 'attr': '__init__', 'params': [['x', 'o', 'int'], ['y', 'o', 'str'], ['z', 'o', 'any']], 'ret': 'any'})
            self.ops.append({'do': 'get', 'mod': mod, 'cls': 'Data1', 'attr': 'y', 'ret': 'str'})
            self.ops.append({'do': 'method', 'mod': mod, 'cls': 'Data1', 'attr': 'total', 'params': [['n', 'o', 'int']], 'ret': 'int'})
            self.classes.append((mod, 'Data1'))
            return '@dataclasses.dataclass\nclass Data1:\n    x: int\n    y: str = "d"\n    z: object = None\n    def total(self, n: int) -> int:\n        _P.enter(%r, locals())\n        self.x += n\n        return _P.reply(%r, 5)\n' % (mod + '.Data1.total', mod + '.Data1.total')
        if k == 'enum':
            self.ops.append({'do': 'ctor', 'mod': mod, 'cls': 'Enum1', 'attr': '__new__', 'params': [['args', '*', 'enumvalue'], ['kwds', '**', 'kwargs']], 'ret': 'any'})
            return 'import enum as enum_\nclass Enum1(enum_.Enum):\n    A = 1\n    B = 2\n'
        return ''

    def module(self, mod, pkg, subs):
        r = self.r
        s = 'import typing, types, datetime, functools, pathlib, os, ipaddress, dataclasses\n'
        if r.random() < 0.3:
            s = '"""Module %s"""\n' % mod + s
        s += '_P.enter(%r, {})\nSTATE = [0]\ndef _helper(*a):\n    return None\n' % (mod + ':exec')
        local = []
        for c in r.sample(['C', 'D', 'Node', 'Store', 'Type'], r.randint(0, 2)):
            bases = [r.choice(local).rsplit('.', 1)[1]] if local and r.random() < 0.4 else []
            s += self.cls(mod, c, bases, list(local))
            local.append(mod + '.' + c)
        used = set()
        for _ in range(r.randint(1, 4)):
            f = r.choice([f for f in FNAMES if f not in used])
            used.add(f)
            s += self.function(mod, f, list(local))
        for k in r.sample(['alias', 'partial', 'lambda', 'deco', 'odd', 'instance', 'obj', 'dataclass', 'enum', 'nofunc', 'self'], r.choice([0, 0, 1, 2])):
            s += self.extra(mod, k, local)
        for v in r.sample(['number', 'text', 'flag', 'things', 'ratio', 'blob', 'limits', 'mode'], r.randint(0, 3)):
            if v == 'mode':
                v = r.choice([x for x in ['loop', 'impl', 'where', 'move', 'unsafe', 'ref', 'gr\u00f6\u00dfe', 'MAX_SIZE', 'x1'] if x not in used])
                t = r.choice(['int', 'str', 'float'])
            else:
                t = {'number': 'int', 'text': 'str', 'flag': 'bool', 'things': 'list', 'ratio': 'float', 'blob': 'bytes', 'limits': 'dict'}[v]
            s += '%s%s = %s\n' % (v, ': ' + self.ann(t) if r.random() < 0.5 and self.r.random() < 1 else '', T[t][1](r))
            self.ops.append({'do': 'mget', 'mod': mod, 'attr': v, 'ret': t})
            self.ops.append({'do': 'mset', 'mod': mod, 'attr': v, 'params': [['value', 'o', t]], 'ret': 'none'})
        if r.random() < 0.2:
            s += 'def __getattr__(n):\n    if n.startswith("__"): raise AttributeError(n)\n    _P.enter(%r, dict(n=n))\n    raise AttributeError("module has no " + n)\n' % (mod + '.__getattr__')
        for sub in subs:
            if r.random() < 0.4:
                s += 'from . import %s\n' % sub.rsplit('.', 1)[1]
        return s

    def world(self):
        r = self.r
        if self.single:
            names = [self.single]
        else:
            root = r.choice(['wa', 'wb', 'type', 'mod_', 'wmatch'])
            names = [root]
            for s in r.sample(['sa', 'sb', 'match', 'inner'], r.choice([0, 0, 1, 1, 2])):
                names.append(root + '.' + s)
            if len(names) > 1 and r.random() < 0.3:
                names.append(names[-1] + '.deep')
        mods = {}
        for n in reversed(names):
            subs = [x for x in names if x.rpartition('.')[0] == n]
            src = self.module(n, bool(subs), subs)
            mods[n] = {'src': src, 'pkg': bool(subs), 'list': [x.rsplit('.', 1)[1] for x in subs]}
        self.mods = names
        return mods


def value(r, t, objs):
    """expression for an argument of the given type; objs: {class: [slot]}"""
    if t.startswith('cls:'):
        have = objs.get(t[4:], [])
        return 'O[%r]' % r.choice(have) if have else '_P.inst(%r)' % t[4:]
    if t == 'enumvalue':
        return '(%d,)' % r.randint(1, 3)
    if t == 'kwargs':
        if r.random() < 0.25:
            return 'None'
        return '{%s}' % ', '.join('%r: %s' % (k, v_any(r)) for k in r.sample(['k1', 'k2', 'extra', 'zz', '\u00e9'], r.randint(0, 3)) + (['key%d' % j for j in range(r.randint(5, 30))] if r.random() < 0.03 else []))
    if t == 'any' and objs and r.random() < 0.2:
        c = r.choice(sorted(objs))
        if objs[c]:
            return 'O[%r]' % r.choice(objs[c])
    return T[t][1](r)


def history(r, w, n, threads=1, wild=True):
    """lists of operations for each thread; w = {'mods', 'ops'}"""
    ops = w['ops']
    classes = sorted({(o['mod'], o['cls']) for o in ops if o.get('cls')})
    out = [[] for _ in range(threads)]
    objs = [{} for _ in range(threads)]
    uid = 0
    for _ in range(n):
        th = r.randrange(threads)
        o = r.choice(ops)
        uid += 1
        op = {'op': 'px', 'id': uid, 'do': o['do'], 'mod': o['mod'], 'attr': o.get('attr')}
        if o.get('cls'):
            op['cls'] = o['cls']
        if wild and threads == 1 and r.random() < 0.1:
            out[th].append(dict(wildop(r, w), id=uid))
            continue
        if o['do'] in ('method', 'get', 'set', 'callable'):
            key = o['mod'] + '.' + o['cls']
            have = objs[th].get(key, [])
            if not have or r.random() < 0.1:
                # make an instance first
                slot = 's%d' % uid
                ctor = [c for c in ops if c['do'] == 'ctor' and c['mod'] == o['mod'] and c['cls'] == o['cls']]
                if ctor and r.random() < 0.85:
                    out[th].append(dict(call(r, ctor[0], objs[th], {'op': 'px', 'id': uid, 'do': 'ctor', 'mod': o['mod'], 'cls': o['cls'], 'attr': '__init__'}, 0.1), store=slot))
                else:
                    out[th].append({'op': 'px', 'id': uid, 'do': 'py', 'code': 'O[%r] = object.__new__(importlib.import_module(%r).%s)\n' % (slot, o['mod'], o['cls'])})
                objs[th].setdefault(key, []).append(slot)
                uid += 1
                op['id'] = uid
                have = objs[th][key]
            op['obj'] = r.choice(have)
        op = call(r, o, objs[th], op, 0.25)
        if o['do'] == 'ctor':
            op['store'] = 's%d' % uid
            objs[th].setdefault(o['mod'] + '.' + o['cls'], []).append(op['store'])
        out[th].append(op)
    return out


def call(r, o, objs, op, pf):
    ps = o.get('params', [])
    op['args'] = {n: value(r, t, objs) for n, k, t in ps}
    if ps and o['do'] not in ('set', 'mset'):
        op['params'] = [[n, k] for n, k, t in ps]
    rt = o.get('ret', 'any')
    if not rt.startswith('cls:') and T[rt][3]:
        op['norm'] = T[rt][3]
    x = r.random()
    if o['do'] in ('set', 'mset'):
        op['norm'] = 'void'
    if x < pf:
        op['fault'] = [r.choice([1, 1, 2, 2, 3, 4]), r.choice(EXCS)]
        if r.random() < 0.2:
            op['cause'] = True
    elif x < pf + 0.35 and not rt.startswith('cls:') and o['do'] != 'ctor':
        bad = T[rt][2]
        if bad and r.random() < 0.3:
            op['reply'] = r.choice(bad)
            op['ill'] = True
        else:
            op['reply'] = value(r, rt, objs)
    return op


def wildop(r, w):
    """something that happens to the modules between the calls"""
    mods = w['mods']
    m = r.choice(mods)
    fns = [o for o in w['ops'] if o['do'] == 'fn']
    k = r.randrange(9)
    if k == 0:
        return {'op': 'px', 'do': 'py', 'code': 'for n in [n for n in sys.modules if n == %r or n.startswith(%r)]: del sys.modules[n]\n' % (m, m + '.')}
    if k == 1:
        return {'op': 'px', 'do': 'py', 'code': 'SIM.modules[%r]["gone"] = True\nfor n in [n for n in sys.modules if n == %r or n.startswith(%r)]: del sys.modules[n]\n' % (m, m, m + '.')}
    if k == 2:
        return {'op': 'px', 'do': 'py', 'code': 'for n in %r: SIM.modules[n].pop("gone", None)\n' % mods}
    if k == 3 and fns:
        o = r.choice(fns)
        return {'op': 'px', 'do': 'py', 'code': 'def other(*a, **k):\n    _P.enter("patched", dict(a=a, k=k))\n    return _P.reply("patched", None)\nm = sys.modules.get(%r)\nif m is not None: setattr(m, %r, other)\n' % (o['mod'], o['attr'])}
    if k == 4 and fns:
        o = r.choice(fns)
        return {'op': 'px', 'do': 'py', 'code': 'm = sys.modules.get(%r)\nif m is not None: m.__dict__.pop(%r, None)\n' % (o['mod'], o['attr'])}
    if k == 5:
        cs = [o for o in w['ops'] if o.get('cls')]
        if cs:
            o = r.choice(cs)
            return {'op': 'px', 'do': 'py', 'code': 'class Other:\n    def __getattribute__(self, n): _P.odd(); return object.__getattribute__(self, n)\n    def __setattr__(self, n, v): _P.odd(); object.__setattr__(self, n, v)\n    def __init__(self, *a, **k): _P.odd(); _P.enter("Other.__init__", dict(self=self, a=a, k=k))\n    def __call__(self, *a, **k): _P.odd(); _P.enter("Other.__call__", dict(self=self, a=a, k=k))\nm = sys.modules.get(%r)\nif m is not None: setattr(m, %r, Other)\n' % (o['mod'], o['cls'])}
    if k == 6:
        return {'op': 'px', 'do': 'py', 'code': 'sys.modules[%r] = None\n' % m}
    if k == 7:
        return {'op': 'px', 'do': 'py', 'code': 'for n in %r:\n    if sys.modules.get(n, 1) is None: del sys.modules[n]\n' % mods}
    return {'op': 'px', 'do': 'py', 'code': 'import types\nm = types.ModuleType(%r)\nm.__getattr__ = lambda n: _P.throw("AttributeError") if n.startswith("__") else _P.odd() or (lambda *a, **k: (_P.enter("junk " + n, dict(a=a, k=k)), _P.reply("junk", None))[1])\nsys.modules[%r] = m\n' % (m, m)}


# ------------------------------------------------------------------ compilation
HEADER = r'''
#![allow(warnings)]
use pyo3::prelude::*;
use pyo3::types::PyDict;
use pyo3::ffi;

fn sim_error(kind: &str, what: String) -> PyErr {
    pyo3::exceptions::PySystemError::new_err(format!("SIM-{kind} {what}"))
}

pub fn arg<'py, T: FromPyObject<'py>>(args: &Bound<'py, PyDict>, key: &str) -> PyResult<T> {
    let v = args.get_item(key)?.ok_or_else(|| sim_error("ARGUMENT", format!("{key}: missing")))?;
    v.extract::<T>().map_err(|e| sim_error("ARGUMENT", format!("{key}: {e}")))
}

pub fn me<'py, T: pyo3::PyTypeInfo>(o: &Bound<'py, PyAny>) -> PyResult<Bound<'py, T>> {
    o.clone().downcast_into::<T>().map_err(|e| sim_error("SELF", PyErr::from(e).to_string()))
}

static HOOK: std::sync::Once = std::sync::Once::new();
thread_local! { static PANIC: std::cell::RefCell<String> = Default::default(); }

#[no_mangle]
pub unsafe extern "C" fn sim_call(k: i64, me: *mut ffi::PyObject, args: *mut ffi::PyObject) -> *mut ffi::PyObject {
    HOOK.call_once(|| std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string()))));
    Python::with_gil(|py| {
        let me = Bound::from_borrowed_ptr(py, me);
        let args = Bound::from_borrowed_ptr(py, args);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> PyResult<PyObject> {
            let args = args.downcast::<PyDict>()?;
            dispatch(py, k, &me, args)
        }));
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                let left = PyErr::take(py);
                Err(sim_error("PANIC", PANIC.with(|p| p.borrow().clone())))
            }
        };
        match r {
            Ok(o) => {
                if ffi::PyErr_Occurred().is_null() {
                    o.into_ptr()
                } else {
                    let e = PyErr::take(py).unwrap();
                    sim_error("LEFTOVER", e.to_string()).restore(py);
                    std::ptr::null_mut()
                }
            }
            Err(e) => {
                e.restore(py);
                std::ptr::null_mut()
            }
        }
    })
}
'''


def rustc_args():
    deps = os.path.join(TARGET, 'host/debug/deps')
    libs = sorted(glob.glob(os.path.join(deps, 'libpyo3-*.rlib')), key=os.path.getmtime)
    if not libs:
        raise HarnessError('no libpyo3 in ' + deps)
    return ['rustc', '--edition', '2021', '-L', 'dependency=' + deps, '-L', 'native=/usr/lib/x86_64-linux-gnu', '--extern', 'pyo3=' + libs[-1], '-C', 'opt-level=0', '-C', 'debuginfo=0', '-C', 'panic=unwind', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on', '--cap-lints', 'allow']




def crate_source(parts):
    """parts: [(wrapped text, table, base)]"""
    src = HEADER
    arms = ''
    for g, (text, table, base) in enumerate(parts):
        src += '\npub mod g%d {\n%s\n}\n' % (g, text)
        for k, t in enumerate(table):
            arms += '        %d => %s,\n' % (base + k, '::'.join(['crate', 'g%d' % g] + t['path'] + ['sim_call_%d' % (base + k)]) + '(py, me, args)')
    src += '\nfn dispatch<\'py>(py: Python<\'py>, k: i64, me: &Bound<\'py, PyAny>, args: &Bound<\'py, PyDict>) -> PyResult<PyObject> {\n    match k {\n%s        _ => Err(sim_error("ARGUMENT", "no such binding".into())),\n    }\n}\n' % arms
    return src


def compile_crate(src, out, check_only=False):
    """-> None or the messages of the compiler"""
    d = tempfile.mkdtemp(prefix='px.', dir=PXDIR)
    try:
        p = os.path.join(d, 'px.rs')
        with open(p, 'w') as f:
            f.write(src)
        args = rustc_args() + ['--crate-name', 'px', '--crate-type', 'cdylib' if not check_only else 'lib', '-o', os.path.join(d, 'px.so'), p]
        if check_only:
            args = rustc_args() + ['--crate-name', 'px', '--crate-type', 'lib', '--emit', 'metadata', '--out-dir', d, p]
        r = subprocess.run(args, env=dict(os.environ, TMPDIR=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            return r.stdout.decode('utf-8', 'replace')
        if not check_only:
            os.rename(os.path.join(d, 'px.so'), out)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def key_of(texts):
    h = hashlib.blake2b(digest_size=12)
    h.update(HEADER.encode())
    h.update(repr(rustc_args()).encode())
    for t in texts:
        h.update(t.encode())
    return h.hexdigest()


def build(parts):
    """compile several worlds into one library; parts: [(wrapped, table, base)] -> (path, None) or (None, messages)"""
    os.makedirs(PXDIR, exist_ok=True)
    key = key_of([p[0] for p in parts])
    so = os.path.join(PXDIR, key + '.so')
    with open(os.path.join(PXDIR, key + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            os.utime(so)
            return so, None
        msg = compile_crate(crate_source(parts), so)
        return (so, None) if msg is None else (None, msg)


def cleanup(keep=200):
    """old libraries of earlier runs"""
    fs = sorted(glob.glob(os.path.join(PXDIR, '*.so')), key=os.path.getmtime)
    for f in fs[:-keep]:
        os.unlink(f)
        try:
            os.unlink(f[:-3] + '.lock')
        except OSError:
            pass
