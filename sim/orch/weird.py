"""Hostile but importable modules: every way in which an inspected object can misreport itself or raise while it is looked at."""

WSTR = ['', 'a::b', 'None', '.', '..x', 'a..b', 'a.', '\u00e9.\u4e16', 'a b', '1x', 'r#type', 'self', 'super', 'crate', 'Self', '_', '__', '\\n', ' ', 'a-b', '<locals>', 'typing', 'builtins', '__future__', 'x' * 300,
        'super.super', 'self.crate', "'", '"', '{}', 'test', 'async', '::', ':', '\U0001f600', '$x', 'a[b]', '9']
WANN = ['dict[str]', 'dict[]', 'dict[,]', 'tuple[]', 'list[]', 'set[', 'x] | [y', '] | [', 'a | b]', '[[', ']]', 'Callable[]', 'Callable[[]]', 'Callable[[int], dict[str]]', 'None | None', 'None|', '|', '||', ' | ', 'Union', 'Optional', 'Union[]', 'type[]', 'type[',
        '<class \'>', "<class ''>", "<enum ''>", 'typing.', 'collections.', 'collections.abc.', 'a::b', 'a..b', '', ' ', 'dict[[a, b]', 'dict[a], b]', 'tuple[a], [b', 'list[dict[str]]', 'dict[str, list[int]', 'Callable[[int, str]', 'Literal["a|b", "c"]', 'Literal["[", "]"]', 'Annotated[int, "x]"]',
        'frozenset[]', 'Sequence[]', 'Iterable[', 'int | None | str', 'None | int', 'NoneType | None', 'Optional[None]', 'x | None]', '[x | None', 'a.b[c.d]', '.x', 'x.', '..', 'w.a::b | None', 'dict[int', 'tuple[]', 'tuple[...]', 'tuple[int, ...]', 'dict[...]', 'é', 'int[', 'super', 'self', '_', '\n', 'dict[str, ]', 'lambda: 0', 'dict[(a, b), [c]]',
        ']][[', 'tuple[a]b, c[d]', 'Callable[a]], [[b]', 'type[None]', 'ndarray[', 'numpy.ndarray', 'list[list[list[list[int]]]]', 'dict[dict[str], int]', 'set[dict[str]]', 'type[dict[str]]', '<class \'dict[str]\'>']
ANNEXPR = ['typing.Union[None]', 'typing.Union[int]', 'typing.Optional[None]', 'typing.Tuple[()]', 'typing.Callable[[], int]', 'typing.Callable[..., typing.Any]', 'typing.Literal[None]', 'typing.Annotated[int, "]["]', 'tuple[()]', 'dict[str, int][()] if False else dict', 'list[int | None]',
           'typing.Dict', 'typing.Type', 'typing.List', 'typing.ForwardRef("dict[str]")', 'typing.ForwardRef("x")', 'typing.Unpack[typing.Tuple[int]]', 'typing.TypeVar("Z")', 'typing.ParamSpec("P")', 'typing.TypeVarTuple("Ts")', 'typing.Generic', 'typing.Protocol', 'typing.NewType("N", int)', 'types.GenericAlias(dict, (int,))', 'types.GenericAlias(dict, ())', 'types.GenericAlias(list, ())', 'types.GenericAlias(set, ())',
           'types.GenericAlias(type, ())', 'types.GenericAlias(frozenset, ())', 'types.GenericAlias(tuple, ())', 'types.GenericAlias(int, (str,))', 'types.GenericAlias(dict, (int, str, float))', 'types.UnionType', 'int | None', 'int | str | None', 'None', '...', 'NotImplemented', '42', '[]', '{}', '[int, str]', '(int, str)', 'lambda: 1', 'object()', 'types', 'collections.abc.Callable[[], None]', 'collections.abc.Callable[..., int]',
           'collections.abc.Callable', 'collections.abc.Mapping[str, int]', 'typing.Mapping', 'typing.DefaultDict[str, int]', 'typing.OrderedDict[str, int]', 'typing.Counter[str]', 'typing.ChainMap[str, int]', 'typing.Literal["a|b"]', 'typing.Literal["["]', 'typing.Literal[1, None]', 'type(None)', 'typing.Iterable', 'typing.Generator[int, None, str]', 'typing.Optional["dict[str]"]', 'typing.List["x] | [y"]', 'typing.Dict[str, "a::b"]',
           'typing.ClassVar', 'typing.Final[int]', 'typing.Concatenate', 'typing.TypeAlias', 'typing.Self', 'typing.Never', 'typing.Required[int]', '_Bad()', '_BadOrigin()', '_BadArgs()', '_BadStr()']
# objects that misbehave when looked at; {E} is an exception name
HELP = '''
import typing, types, collections, collections.abc, functools, enum, inspect
class _Bad:
    def __getattr__(self, n): _S.hook("bad"); _S.raise_({E!r})
class _BadOrigin:
    @property
    def __origin__(self): _S.raise_({E!r})
class _BadArgs:
    __origin__ = dict
    @property
    def __args__(self): _S.raise_({E!r})
class _BadStr:
    def __str__(self): _S.raise_({E!r})
    def __repr__(self): _S.raise_({E!r})
    def __format__(self, s): _S.raise_({E!r})
class _BadHash:
    __hash__ = None
    def __eq__(self, o): _S.raise_({E!r})
class _BadBool:
    def __bool__(self): _S.raise_({E!r})
    def __len__(self): _S.raise_({E!r})
class _BadClass:
    @property
    def __class__(self): _S.raise_({E!r})
class _LieClass:
    def __init__(self, c): self.c = c
    @property
    def __class__(self): return self.__dict__['c']
class _BadIter:
    def __iter__(self): _S.raise_({E!r})
    def __getitem__(self, i): _S.raise_({E!r})
class _LateIter:
    def __iter__(self):
        yield 'one'
        _S.raise_({E!r})
class _OddParam(inspect.Parameter):
    def __init__(self, odd, val, *a, **k):
        self._odd = (odd, val)
        super().__init__(*a, **k)
    def __getattribute__(self, n):
        odd, val = object.__getattribute__(self, '_odd')
        if n == odd:
            if val == 'raise': _S.raise_({E!r})
            return val
        return super().__getattribute__(n)
    __slots__ = ('_odd',)
class _OddSig(inspect.Signature):
    __slots__ = ('_odd',)
    def __getattribute__(self, n):
        try: odd, val = object.__getattribute__(self, '_odd')
        except AttributeError: odd = None
        if n == odd:
            if val == 'raise': _S.raise_({E!r})
            return val
        return super().__getattribute__(n)
class _SurStr(str):
    def __str__(self): return '\\ud800'
'''
EXCS = ['Exception', 'ImportError', 'ValueError', 'AttributeError', 'TypeError', 'KeyError', 'OSError', 'RuntimeError', 'MemoryError', 'RecursionError', 'KeyboardInterrupt', 'SystemExit', 'StopIteration', 'UnicodeError', 'GeneratorExit', 'AssertionError']


def metadata(r):
    """a value expression for some dunder attribute"""
    k = r.random()
    if k < 0.55:
        return repr(r.choice(WSTR))
    return r.choice(['None', '1', '()', '[]', '{}', 'object()', '_Bad()', '_BadStr()', 'b"x"', '"\\ud800"', '_SurStr("x")', 'type', 'lambda: 0', '3.5', 'True', '_BadBool()', '_BadIter()', '_LateIter()', '_BadHash()', '_BadClass()', 'Ellipsis', 'types', '__name__', '__name__ + ".sub"', '"wother"'])


def ann(r):
    return repr(r.choice(WANN)) if r.random() < 0.5 else '(%s)' % r.choice(ANNEXPR)


def sigexpr(r):
    P = 'inspect.Parameter'
    ps = []
    for _ in range(r.randint(0, 3)):
        odd = ''
        if r.random() < 0.35:
            odd = '%r, %s, ' % (r.choice(['kind', 'kind', 'name', 'annotation', 'default', 'empty']), r.choice(['"raise"', '7', '-1', '300', '"x"', 'None', '""', '2.5', '[]', '_Bad()', '_BadStr()', '"a::b"', '"\\ud800"', 'True', '5', '"self"', 'int']))
        ps.append('%s(%s%r, %s.%s%s%s)' % ('_OddParam' if odd else P, odd, r.choice(['self', 'a', '_', 'type', 'b', 'args', 'crate', 'é', 'cls', 'kwargs']), P, r.choice(['POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'VAR_POSITIONAL', 'KEYWORD_ONLY', 'VAR_KEYWORD']),
                                         ', annotation=' + ann(r) if r.random() < 0.5 else '', ''))
    if r.random() < 0.2:
        return '(lambda s: [setattr(s, "_odd", (%r, %s)), s][1])(_OddSig([%s], __validate_parameters__=False))' % (
            r.choice(['parameters', 'parameters', 'return_annotation', 'empty']), r.choice(['"raise"', 'None', '{}', '{"a": 5}', '{1: None}', '[]', '7', '_Bad()', '_BadStr()', 'types.SimpleNamespace(values=lambda: _LateIter())', 'types.SimpleNamespace(values=lambda: 3)', '"dict["', '"a::b"']), ', '.join(ps))
    return 'inspect.Signature([%s], __validate_parameters__=False%s)' % (', '.join(ps), ', return_annotation=' + ann(r) if r.random() < 0.4 else '')


def item(r, n, mod):
    """one hostile top-level item; n = unique number"""
    E = r.choice(EXCS)
    k = r.randrange(41)
    nm = 'w%d' % n
    A = 'globals()[%r]' % r.choice(WSTR)
    if k == 0:
        return '%s = lambda: 0\n%s.__module__ = %s\n' % (nm, nm, metadata(r))
    if k == 1:
        return 'def %s(): ...\n%s.__name__ = %s\n' % (nm, nm, repr(r.choice(WSTR)))
    if k == 2:
        return 'class %s: ...\n%s.__module__ = %s\n' % (nm, nm, metadata(r))
    if k == 3:
        return 'class %s:\n    __module__ = %s\n    def m(self): ...\n' % (nm, metadata(r))
    if k == 4:
        return 'class %s: ...\n%s.__name__ = %s\n' % (nm, nm, repr(r.choice(WSTR)))
    if k == 5:
        return 'def %s(%s: %s = None, *, b: %s = 1) -> %s: ...\n' % (nm, r.choice(['a', 'self', '_', 'type', 'args']), ann(r), ann(r), ann(r))
    if k == 6:
        return 'class %s:\n    def __init__(%s): ...\n' % (nm, r.choice(['', '*args', '*a, **k', '**k', 'self, self_', '_', 'self, /', '*, self']))
    if k == 7:
        return 'class %s:\n    def __call__(%s): ...\n' % (nm, r.choice(['', '*args', '**k', '_', '*, self', 'this, self']))
    if k == 8:
        return 'class %s:\n    def m(%s) -> %s: ...\n' % (nm, r.choice(['', '*args', 'a, self', '*self', '**self', '_', '_, _2', '*, self']), ann(r))
    if k == 9:
        return 'class %s:\n    @property\n    def p(self) -> %s: ...\n    @p.setter\n    def p(%s): ...\n' % (nm, ann(r), r.choice(['', 'self', '*a', 'self, *a', 'self, v: %s' % ann(r), 'self, *, v', '**k', 'self, v, w']))
    if k == 10:
        return 'class %s:\n    p = property(%s, %s)\n' % (nm, r.choice(['None', 'len', '_Bad()', 'lambda: 1', '1', 'print', 'int', '_BadStr()']), r.choice(['None', 'len', '_Bad()', 'lambda: 1', '1', 'print', 'setattr', 'int', '_BadBool()']))
    if k == 11:
        return '%s = _Bad()\n' % nm
    if k == 12:
        return '%s = %s\n' % (nm, r.choice(['_BadStr()', '_BadHash()', '_BadBool()', '_BadClass()', '_BadIter()', '_LateIter()', '_SurStr("q")']))
    if k == 13:
        return '%s = _LieClass(%s)\n' % (nm, r.choice(['int', 'type', 'types.ModuleType', 'types.FunctionType', 'types.MethodType', 'property', 'dict', 'None', '3', 'functools.partial']))
    if k == 14:
        return 'def %s(): ...\n%s.__signature__ = %s\n' % (nm, nm, sigexpr(r) if r.random() < 0.7 else metadata(r))
    if k == 15:
        return 'class %s:\n    def m(self): ...\n    m.__signature__ = %s\n    def __init__(self): ...\n    __init__.__signature__ = %s\n' % (nm, sigexpr(r), sigexpr(r))
    if k == 16:
        return 'class _M%s(type):\n    def __getattr__(cls, n): _S.raise_(%r)\n    def __dir__(cls): return %s\nclass %s(metaclass=_M%s): ...\n' % (nm, E, r.choice(['["a", "b"]', '[1, 2]', '[""]', '["a.b"]', '["a::b"]', '["\\ud800"]', '_S.raise_(%r)' % E, '5', 'None', '[None]']), nm, nm)
    if k == 17:
        return 'class _M%s(type):\n    def __getattribute__(cls, n):\n        if n == %r: _S.raise_(%r)\n        return type.__getattribute__(cls, n)\nclass %s(metaclass=_M%s):\n    def m(self): ...\n' % (nm, r.choice(['__module__', '__module__', '__name__', '__doc__', '__dict__', '__mro__', '__class__', '__signature__', 'm', '__init__', '__call__', '__text_signature__', '__qualname__', '__bases__']), E, nm, nm)
    if k == 18:
        return 'class _F%s:\n    def __get__(self, o, t): _S.raise_(%r)\nclass %s:\n    a = _F%s()\n    __doc__ = _F%s()\n' % (nm, E, nm, nm, nm)
    if k == 19:
        return 'class %s:\n    __doc__ = %s\n' % (nm, metadata(r))
    if k == 20:
        return 'def %s(): ...\n%s.__doc__ = %s\n' % (nm, nm, metadata(r))
    if k == 21:
        return '%s = 1\n' % A
    if k == 22:
        return 'def _f%s(): ...\n%s = _f%s\n' % (nm, A, nm)
    if k == 23:
        return 'class _c%s: ...\n_c%s.__module__ = __name__\n%s = _c%s\n' % (nm, nm, A, nm)
    if k == 24:
        return 'globals()[%s] = 1\n' % r.choice(['1', 'None', '("a",)', 'b"x"', 'object()', '_SurStr("zz")', '"\\ud800"'])
    if k == 25:
        return '%s = types.ModuleType(%s)\n' % (nm, r.choice(['"a::b"', '""', '"."', '"x.y.z"', '"a..b"', '__name__', '__name__ + ".ghost"', '"\\ud800"', '"self"', '"wother"', '"é"']))
    if k == 26:
        return '%s = types.ModuleType("m")\n%s.__name__ = %s\n' % (nm, nm, metadata(r))
    if k == 27:
        return '%s = types.ModuleType(__name__ + ".%s")\n%s.__module__ = __name__\n%s.%s\n' % (nm, nm, nm, nm, r.choice(['__name__ = 3', '__path__ = None', '__path__ = "abc"', '__path__ = 5', '__all__ = 7', '__dir__ = 3', '__dir__ = lambda: 3', '__dir__ = lambda: _S.raise_(%r)' % E, '__doc__ = _BadStr()', '__path__ = _LateIter()', '__path__ = [1, None]']))
    if k == 28:
        return 'class _MM%s(types.ModuleType):\n    def __getattribute__(self, n):\n        if n in (%s): _S.raise_(%r)\n        return types.ModuleType.__getattribute__(self, n)\n%s = _MM%s(__name__ + ".%s")\n%s.__module__ = __name__\n' % (nm, r.choice(['"__name__",', '"__path__",', '"__all__",', '"__doc__",', '"__dict__",', '"__spec__",', '"__module__",', '"__class__",']), E, nm, nm, nm, nm)
    if k == 29:
        return '%s = functools.partial(%s)\n' % (nm, r.choice(['len', 'print, 1, 2', 'lambda: 0, 1', 'int, base=2', '_BadStr', 'lambda **k: 0, z=1', 'lambda self, b: 0', '_Bad()']) if r.random() < 0.99 else 'len')
    if k == 30:
        return 'class %s:\n    def m(self): ...\n%s.m.__module__ = %s\n' % (nm, nm, metadata(r))
    if k == 31:
        return 'class %s:\n    @classmethod\n    def m(%s): ...\n    @staticmethod\n    def s(%s): ...\n' % (nm, r.choice(['cls', 'self', '*a', '', 'cls, self']), r.choice(['', 'self', 'a, self', '*self', '_']))
    if k == 32:
        return 'class %s(%s): ...\n' % (nm, r.choice(['int', 'dict', 'type', 'types.ModuleType', 'BaseException', 'str', 'enum.Enum', 'enum.IntFlag', 'typing.NamedTuple', 'typing.TypedDict', 'typing.Protocol', 'object', 'property', 'functools.partial', 'typing.Generic[typing.TypeVar("T")]']))
    if k == 33:
        return '%s = %s\n' % (nm, r.choice(['types.SimpleNamespace(a=1)', 'types.MethodType(len, [])', 'type("X::Y", (), {})', 'type("", (), {})', 'type("a b", (), {})', 'type("X", (), {"__module__": ""})', 'type("X", (), {"__module__": 3})', '[].append', 'str.join', 'object.__init__', 'type.__call__', '(lambda: (yield))()', 'property()', 'classmethod(len)', 'staticmethod(len)',
                                        'weakref.ref(int) if False else 1', 'types.MappingProxyType({})', 'memoryview(b"")', 'inspect.Signature.empty', 'type(None)', 'typing.Any', 'typing.ForwardRef("a::b")', 'types.GenericAlias(list, (int,))', 'int | str', 'type("super", (), {})', 'type("Q", (), {"__str__": 3})', 'collections.namedtuple("N", [])']))
    if k == 34:
        return 'class %s:\n    pass\ntype.__setattr__(%s, %r, %s)\n' % (nm, nm, r.choice([w for w in WSTR if w and '\\' not in w]), r.choice(['1', 'lambda self: 0', 'property(lambda s: 1)', '_Bad()', 'staticmethod(len)', 'int']))
    if k == 35:
        return 'class _D%s(dict): ...\n%s = _D%s(a=1)\n%s.__module__ = %s\n' % (nm, nm, nm, nm, metadata(r))
    if k == 36:
        return 'class _T%s:\n    __module__ = "typing"\nclass %s(_T%s): ...\n%s_v = _T%s()\n' % (nm, nm, nm, nm, nm)
    if k == 37:
        who = r.choice(['__name__', '__name__', '__name__.rpartition(".")[0] or __name__', '__name__.split(".")[0]'])
        sub = r.choice([nm, 'sa', 'sb', 'sc', 'core'])
        out = 'import sys as _sys\n_self = _sys.modules[%s]\n' % who
        # a name below this module that leads back to it (or to a module around it)
        if r.random() < 0.5:
            out += '_sys.modules[__name__ + %r] = _self\n' % ('.' + sub)
        out += '%s = %s\n' % (sub, r.choice(['_self', '_self', 'collections.OrderedDict', 'len', '5']))
        if r.random() < 0.3:
            out += '__module__ = __name__\n'
        return out
    if k == 38:
        return 'class %s:\n    def m(self, a: %s, *args: %s, b: %s = 1, **kw: %s) -> %s: ...\n' % (nm, ann(r), ann(r), ann(r), ann(r), ann(r))
    if k == 39:
        return 'class _Fn%s:\n    __name__ = %s\n    __doc__ = %s\n    __module__ = __name__\n    def __call__(self): ...\n%s = _Fn%s()\n' % (nm, metadata(r), metadata(r), nm, nm)
    return 'def %s(): ...\n%s.__annotations__ = %s\n' % (nm, nm, r.choice(['{"return": 5}', 'None', '{1: 2}', '{"return": _BadStr()}', '{"return": _Bad()}', '{"return": _LieClass(type)}', '{}']))


def uses(r, n):
    """the hostile item seen through another one: an instance of it, a subclass, a default, an annotation, the value of a class attribute"""
    nm = 'w%d' % n
    return r.choice([
        '%s_i = %s()\n' % (nm, nm), '%s_i = object.__new__(%s)\n' % (nm, nm), 'class %s_s(%s): ...\n' % (nm, nm), 'class %s_h:\n    a = %s\n' % (nm, nm), 'class %s_h:\n    a = object.__new__(%s)\n' % (nm, nm),
        'def %s_f(a: %s, b=%s) -> %s: ...\n' % (nm, nm, nm, nm), 'def %s_f(a: object.__new__(%s), b=object.__new__(%s)): ...\n' % (nm, nm, nm), 'class %s_p:\n    @property\n    def p(self) -> %s: ...\n    @p.setter\n    def p(self, v: %s): ...\n' % (nm, nm, nm),
        '%s_m = %s.m\n' % (nm, nm), '%s_c = functools.partial(%s)\n' % (nm, nm), 'class %s_k(metaclass=%s): ...\n' % (nm, nm)])


def tail(r):
    """module-level metadata"""
    E = r.choice(EXCS)
    return r.choice([
        '__all__ = %s\n' % metadata(r), '__all__ = [%s]\n' % ', '.join(metadata(r) for _ in range(r.randint(1, 3))), '__name__ = %s\n' % metadata(r), '__name__ = %r\n' % r.choice(WSTR),
        '__doc__ = %s\n' % metadata(r), '__path__ = %s\n' % r.choice(['None', '5', '"abc"', '[]', '[1]', '[None]', '_BadIter()', '_LateIter()', '["\\ud800"]', '["\\0"]', '{"a": 1}', '()', '_Bad()']),
        'def __dir__(): return %s\n' % r.choice(['[]', '[1]', '[""]', '["a::b", "x.y"]', '5', 'None', '["ghost"]', '["\\ud800"]', '("a",)', '{"a"}', '["__name__", "__path__"]', '(x for x in "ab")', '_LateIter()', '["r#x", "self", "crate"]']),
        'def __dir__(): _S.raise_(%r)\n' % E,
        'def __getattr__(n): _S.raise_(%r)\n' % E, 'def __getattr__(n): return %s\n' % r.choice(['n', 'None', '_Bad()', 'lambda: 0', '5']),
        'import sys as _s\n_s.modules[__name__] = %s\n' % r.choice(['_Bad()', 'types.SimpleNamespace()', 'None', 'type("X", (), {"__name__": 5})()', 'types.ModuleType("other")', 'types.ModuleType("a::b")']),
        'import sys as _s\nclass _Mod(types.ModuleType):\n    @property\n    def w0(self): _S.raise_(%r)\n    def __dir__(self): return %s\n_s.modules[__name__].__class__ = _Mod\n' % (E, r.choice(['["w0"]', '_S.raise_(%r)' % E, '[3]', '3'])),
        'del __doc__\n', 'del __name__\n', '__module__ = __name__\n', '__module__ = %s\n' % metadata(r), '__spec__ = None\n', '__loader__ = None\n', '__file__ = None\n'])


def loops(world, r, density=0.5):
    """names below packages that lead back to the package, to a module around it or to one beside it"""
    names = [m['name'] for m in world['mods']]
    for m in world['mods']:
        if not m['pkg'] or r.random() >= density:
            continue
        n = m['name']
        kids = [x.rpartition('.')[2] for x in names if x.rpartition('.')[0] == n]
        c = r.choice(kids) if kids and r.random() < 0.7 else r.choice(['sa', 'sq', 'again'])
        if c not in kids and r.random() < 0.8:
            m.setdefault('extra_list', []).append(c)
        to = r.choice([n, n, n.rpartition('.')[0] or n, n.split('.')[0], r.choice(names)])
        src = 'import sys as _lsys, collections as _lcol\n_lmod = _lsys.modules.get(%r)\n' % to
        if r.random() < 0.8:
            src += 'if _lmod is not None: _lsys.modules[%r] = _lmod\n' % (n + '.' + c)
        # the same name can be something else as an attribute
        src += r.choice(['', '%s = _lmod\n' % c, '%s = _lcol.OrderedDict\n' % c, '%s = _lcol.namedtuple\n' % c, 'class %s:\n    __module__ = "elsewhere.mod"\n' % c, 'def %s(): ...\n%s.__module__ = %r\n' % (c, c, n + '.' + c), 'class %s: ...\n' % c, '%s = 5\n' % c])
        m['items'].append({'k': 'loop', 'n': [c], 'src': src})


def guarded(src):
    return 'try:\n' + ''.join('    ' + l + '\n' for l in src.rstrip('\n').split('\n')) + 'except BaseException: pass\n'


def hostile(world, r, density=0.5):
    """make modules of a world hostile"""
    n = 0
    for m in world['mods']:
        if r.random() < density:
            m['items'].insert(0, {'k': 'help', 'n': [], 'src': HELP.format(E=r.choice(EXCS))})
            for _ in range(r.randint(1, 4)):
                n += 1
                src = item(r, n, m['name'])
                if r.random() < 0.35:
                    src += uses(r, n)
                m['items'].append({'k': 'weird', 'n': [], 'src': guarded(src)})
            if r.random() < 0.3:
                src = tail(r)
                m['items'].append({'k': 'weird', 'n': [], 'src': src})
    return world
