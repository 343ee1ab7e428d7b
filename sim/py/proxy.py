"""Histories of calls, either through compiled bindings or as the same operations performed in Python.

Simulated modules report every entry of a body to `_P`; `_P` also decides what a body replies and whether
it raises. Both ways of performing a history must show the same log, results and state.
"""
import sys, ctypes, importlib, builtins, types, functools, datetime, pathlib, ipaddress, re, _thread
import json as _json

SIMDIR = __file__


class MyErr(Exception):
    pass


class MyBase(BaseException):
    pass


class Skip(Exception):
    pass


def candidates(op):
    """possible names of the binding for an operation"""
    a = op.get('attr')
    return {'fn': [a, 'f_' + re.sub(r'[^0-9a-zA-Z_]', '_', a or '')], 'method': [a], 'static': [a], 'get': ['get_%s' % a, a], 'mget': ['get_%s' % a, a], 'set': ['set_%s' % a], 'mset': ['set_%s' % a], 'ctor': ['new2', 'new1', 'new'], 'callable': ['call2', 'call1', 'call'], 'embed': ['pyo3_embed_python_source_code']}[op['do']]


class PX:
    def __init__(self, sim, plan):
        self.sim = sim
        self.slots = {}
        self.log = []
        self.names = {}
        self.keep = []
        self.cur = {}          # thread -> current op
        self.mode = plan['mode']
        self.plan = plan
        self.lib = None
        self.installed = {}
        if self.mode == 'rust':
            self.lib = ctypes.PyDLL(plan['so'])
            self.lib.sim_call.restype = ctypes.py_object
            self.lib.sim_call.argtypes = [ctypes.c_int64, ctypes.py_object, ctypes.py_object]
            self.table = {}
            for k, t in enumerate(plan['table']):
                path = '.'.join(p[2:] if p.startswith('r#') else p for p in t['path'])
                nm = t['name'][2:] if t['name'].startswith('r#') else t['name']
                c = t['class']
                self.table[(path, c[2:] if c and c.startswith('r#') else c, nm)] = (plan['base'] + k, t)
        import simcore
        self.EXC = dict(simcore.EXC, MyErr=MyErr, MyBase=MyBase)
        self.excs = {}
        builtins._P = RT(self)

    # ------------- canonical form of values
    def ident(self, o):
        n = self.names.get(id(o))
        if n is None:
            op = self.op()
            k = op['_seen'] = op.get('_seen', 0) + 1
            n = self.names[id(o)] = '%s#%s.%d' % (type(o).__name__, op['id'], k)
            self.keep.append(o)
        return n

    def canon(self, v, depth=6):
        t = type(v)
        if v is None or t in (bool, int, str):
            return [t.__name__, v if t is not str else v.encode('utf-8', 'backslashreplace').decode()]
        if t in (float, complex):
            return [t.__name__, repr(v)]
        if t in (bytes, bytearray):
            return [t.__name__, bytes(v).hex()]
        if depth <= 0:
            return [t.__name__, '...']
        if t in (list, tuple):
            return [t.__name__] + [self.canon(x, depth - 1) for x in v]
        if t in (set, frozenset):
            return [t.__name__] + sorted((self.canon(x, depth - 1) for x in v), key=repr)
        if t is dict:
            return [t.__name__] + sorted(([self.canon(a, depth - 1), self.canon(b, depth - 1)] for a, b in v.items()), key=repr)
        if isinstance(v, type):
            return ['type', v.__module__, v.__qualname__]
        if isinstance(v, types.ModuleType):
            return ['module', v.__name__]
        if isinstance(v, types.FunctionType):
            return ['function', v.__module__, v.__qualname__]
        if isinstance(v, types.MethodType):
            return ['method', v.__func__.__qualname__, self.canon(v.__self__, depth - 1)]
        if isinstance(v, types.BuiltinFunctionType):
            return ['builtin', v.__qualname__]
        if isinstance(v, BaseException):
            return self.exc(v)
        if t in (slice, datetime.date, datetime.datetime, datetime.time, datetime.timedelta, range, type(...), type(NotImplemented)):
            return [t.__name__, repr(v)]
        if isinstance(v, (pathlib.PurePath, ipaddress.IPv4Address, ipaddress.IPv6Address)):
            return [t.__name__, str(v)]
        if isinstance(v, functools.partial):
            return ['partial', self.canon(v.func, 1), self.canon(v.args, 2)]
        if isinstance(v, datetime.tzinfo):
            return ['tz', repr(v)]
        return ['object', self.ident(v)]

    def exc(self, e):
        n = self.names.get(id(e))
        return ['exception', type(e).__name__, [self.canon(a, 2) for a in e.args] if n is not None else self.message(e), n]

    def message(self, e):
        # exceptions of the interpreter: the type and what went wrong
        return [re.sub(r'(0x[0-9a-f]+|\d{9,})', '#', str(a)) for a in e.args]

    # ------------- current operation
    def op(self):
        return self.cur.get(_thread.get_ident()) or {'id': 'x'}

    def perform(self, op):
        """one operation of a history -> canonical outcome"""
        op = dict(op)
        self.cur[_thread.get_ident()] = op
        sim = self.sim
        try:
            try:
                self.cur[_thread.get_ident()] = None
                run = sim.muted(self.prepare, op)
                self.cur[_thread.get_ident()] = op
            except Skip as s:
                return {'outcome': 'skip', 'why': str(s)}
            me = sim.tid()
            if me is not None and me >= 0:
                sim.incall[me] += 1
            try:
                try:
                    v = run()
                finally:
                    if me is not None and me >= 0:
                        sim.incall[me] -= 1
            except BaseException as e:
                if op.get('store'):
                    self.slots.pop(op['store'], None)
                return sim.muted(self.failed, op, e)
            return sim.muted(self.done, op, v)
        finally:
            self.cur[_thread.get_ident()] = None

    def done(self, op, v):
        if op.get('store'):
            self.slots[op['store']] = v
        n = op.get('norm')
        if n:
            try:
                v = NORM[n](v)
            except (TypeError, ValueError, IndexError, AttributeError):
                pass
        return {'outcome': 'ok', 'value': self.canon(v), 'odd': bool(op.get('_odd')), 'args': {k: self.canon(v) for k, v in op['_args'].items()}}

    def failed(self, op, e):
        if type(e).__name__ == 'SystemError' and str(e).startswith('SIM-'):
            return {'outcome': str(e)[4:].split(' ')[0].lower(), 'detail': str(e)}
        r = {'outcome': 'exc', 'odd': bool(op.get('_odd')), 'exc': self.exc(e), 'thrown': op.get('_thrown') is not None, 'args': {k: self.canon(v) for k, v in op['_args'].items()}}
        if op.get('_thrown') is not None:
            r['same'] = e is op['_thrown']
            r['cause'] = [None if x is None else self.exc(x) for x in (e.__cause__,)]
        return r

    def value(self, x):
        ns = {'O': self.slots, '_P': builtins._P, 'datetime': datetime, 'types': types, 'sys': sys, 'pathlib': pathlib, 'ipaddress': ipaddress}
        try:
            return eval(x, ns)
        except BaseException as e:
            raise Skip('no object: %s' % ' '.join(self.message(e)))

    def prepare(self, op):
        """-> function without arguments that performs the operation"""
        do = op['do']
        args = {k: self.value(v) for k, v in op.get('args', {}).items()}
        op['_args'] = args
        obj = None
        if op.get('obj'):
            obj = self.slots.get(op['obj'])
            if obj is None:
                raise Skip('no object ' + op['obj'])
        if do == 'py':
            code = compile(op['code'], '<simop>', 'exec')
            return lambda: exec(code, {'O': self.slots, 'SIM': self.sim, '_P': builtins._P, 'sys': sys, 'importlib': importlib})
        if self.mode == 'rust':
            return self.binding(op, do, obj, args)
        return self.reference(op, do, obj, args)

    # ------------- through the bindings
    def binding(self, op, do, obj, args):
        attr = op.get('attr')
        cands = candidates(op)
        cls = op.get('cls')
        hit = None
        for c in cands:
            hit = self.table.get((op['mod'], cls, c))
            if hit is not None and not (do == 'ctor' and hit[1]['method']):
                break
            hit = None
        if hit is None:
            raise Skip('no binding')
        k, t = hit
        a = {'value': args['value']} if do in ('set', 'mset') else args
        b = {}
        for n, _ in t['params']:
            m = n[2:] if n.startswith('p_') and n[2:] in a else n if n in a else 'self' if 'unknown_self' in n and 'self' in a else None
            if m is None:
                return self.mismatch([p[0] for p in t['params']], sorted(a))
            b[n] = a[m]
        if len(b) != len(a):
            return self.mismatch([p[0] for p in t['params']], sorted(a))
        a = b
        call = self.lib.sim_call
        return lambda: call(k, obj, a)

    def mismatch(self, want, have):
        def run():
            raise SystemError('SIM-PARAMS binding has the parameters %s, the Python object has %s' % (want, have))
        return run

    # ------------- the same operation in Python
    def reference(self, op, do, obj, args):
        def target():
            __import__(op['mod'], {}, {}, [], 0)
            m = sys.modules[op['mod']]
            return getattr(m, op['cls']) if op.get('cls') else m

        def split():
            pos, kw = [], {}
            for name, kind in op.get('params', ()):
                v = args[name]
                if kind in ('p', 'o'):
                    pos.append(v)
                elif kind == '*':
                    pos.extend(v)
                elif kind == 'k':
                    kw[name] = v
            for name, kind in op.get('params', ()):
                if kind == '**' and args[name] is not None:
                    kw.update(args[name])
            return pos, kw

        def call(f):
            pos, kw = split()
            return f(*pos, **kw)
        attr = op.get('attr')
        if do in ('fn', 'static'):
            return lambda: call(getattr(target(), attr))
        if do == 'embed':
            return lambda: self.install(op['mod'], op['text'])
        if do == 'ctor':
            return lambda: call(target())
        if do == 'method':
            return lambda: call(getattr(obj, attr))
        if do == 'callable':
            return lambda: call(obj)
        if do == 'get':
            return lambda: getattr(obj, attr)
        if do == 'set':
            return lambda: setattr(obj, attr, args['value'])
        if do == 'mget':
            return lambda: getattr(target(), attr)
        if do == 'mset':
            return lambda: setattr(target(), attr, args['value'])
        raise KeyError(do)

    def install(self, name, text):
        """what embedding a source text is to do"""
        m = sys.modules.get(name)
        if m is None or m is not self.installed.get(name) and not (self.plan.get('reuse') and isinstance(m, types.ModuleType)):
            m = types.ModuleType(name)
        m.__file__ = name + '/__init__.py'
        m.__builtins__ = builtins
        sys.modules[name] = self.installed[name] = m       # embedding it again is like reloading it
        try:
            exec(compile(text.encode(), m.__file__, 'exec', dont_inherit=True), m.__dict__)
        except BaseException:
            sys.modules.pop(name, None)
            raise
        sys.modules[name]

    # ------------- state after a history
    def state(self, mods):
        self.cur[_thread.get_ident()] = {'id': 'end'}
        out = {}
        for n in mods:
            m = sys.modules.get(n)
            if m is None:
                out[n] = None
                continue
            out[n] = {k: self.deep(v) for k, v in sorted(vars(m).items()) if not k.startswith('__') and not isinstance(v, types.ModuleType) and k not in ('_P', '_S')}
        out['slots'] = {k: self.deep(v) for k, v in sorted(self.slots.items())}
        return out

    def deep(self, v):
        c = self.canon(v)
        if c[0] == 'object':
            d = dict(getattr(v, '__dict__', {}))
            for s in getattr(type(v), '__slots__', ()):
                if hasattr(v, s):
                    d[s] = getattr(v, s)
            c = c + [{k: self.canon(x) for k, x in sorted(d.items())}]
        elif isinstance(v, type):
            c = c + [{k: self.canon(x) for k, x in sorted(vars(v).items()) if not k.startswith('__')}]
        return c


def _set(v):
    return v if v is None else set(v)


NORM = {'bytes': lambda v: bytes(v) if isinstance(v, (list, bytes, bytearray)) else v, 'set': lambda v: set(v) if isinstance(v, (set, frozenset)) else v, 'list': lambda v: list(v) if isinstance(v, (list, tuple)) else v, 'float': lambda v: float(v) if type(v) in (int, float) else v,
        'blist': lambda v: [bytes(x) for x in v], 'path': lambda v: v if v is None else str(v), 'plist': lambda v: [str(x) for x in v], 'bdict': lambda v: {k: bytes(x) for k, x in v.items()}, 'btuple': lambda v: (v[0], bytes(v[1]), set(v[2])), 'fslist': lambda v: [set(x) for x in v], 'void': lambda v: None}


class RT:
    """what simulated modules see as _P"""
    def __init__(self, px):
        self._px = px

    def enter(self, site, args, *hide):
        px = self._px
        op = px.op()
        args = {k: v for k, v in args.items() if k not in hide and k not in ('__class__', '_')}
        px.log.append([op['id'], site, {k: px.canon(v) for k, v in sorted(args.items())}])
        self.point(site)

    def point(self, site):
        """a place where a body may fail"""
        px = self._px
        op = px.op()
        px.sim.point('px', site)
        n = op['_n'] = op.get('_n', 0) + 1
        f = op.get('fault')
        if f and f[0] == n:
            self.throw(f[1], site)

    def throw(self, exc, site=''):
        px = self._px
        op = px.op()
        args = ('injected', site)
        if exc in ('SystemExit',):
            args = (7,)
        e = px.EXC[exc](*args)
        op['_thrown'] = e
        op['_k'] = op.get('_k', 0) + 1
        px.names[id(e)] = 'exc#%s.%d' % (op['id'], op['_k'])
        px.keep.append(e)
        px.sim.worldfaults[exc] = px.sim.worldfaults.get(exc, 0) + 1
        c = op.get('cause')
        if c:
            raise e from ValueError('the cause')
        raise e

    def reply(self, site, default):
        px = self._px
        op = px.op()
        self.point(site + ':reply')
        r = op.get('reply')
        if site in ('patched', 'junk'):
            self.odd()
        if r is not None and not op.get('_replied'):
            op['_replied'] = True
            return px.sim.muted(px.value, r)
        return default

    def odd(self):
        """what is replied may be of any type"""
        self._px.op()['_odd'] = True

    def raise_(self, exc):
        self.throw(exc)

    def inst(self, name, *a):
        """an instance of a class of the simulated world"""
        mod, _, cls = name.rpartition('.')
        return object.__new__(getattr(sys.modules.get(mod) or importlib.import_module(mod), cls))
