"""Leg executor: runs one simulated execution ("leg") of the real engine inside this process.

Everything the engine can observe of the outside world is decided here: the module forest (virtual
importer), the interleaving of caller threads (token scheduler driven by interpreter events), the point
at which a fault strikes, the standard streams, simulated object addresses and entropy. A leg is a pure
function of its JSON plan and the code under test.
"""
import sys, os, _thread, json, hashlib, random, types, io, importlib, importlib.abc, importlib.machinery, importlib.util
import importlib._bootstrap as _bs
import builtins, ctypes, _imp
import inspect, pkgutil, typing, functools, enum, dataclasses, collections, abc, warnings, traceback, threading  # preloaded
import ipaddress, pathlib, datetime, string, keyword, logging, contextlib, operator, weakref, re, copyreg, tokenize, linecache
import _engine

MON = sys.monitoring
TOOL = 3
SIMDIR = os.path.dirname(os.path.abspath(__file__))
REAL_OUT, REAL_ERR = sys.stdout, sys.stderr
REAL_IMPORT = builtins.__import__
PANIC = _engine.panic_exception()
try:
    SHIM = ctypes.CDLL(None)
    SHIM.sim_io_count, SHIM.sim_io_arm, SHIM.sim_io_disarm, SHIM.sim_io_log, SHIM.sim_rand_calls
except AttributeError:
    SHIM = None

MAX_EVENTS = 400000         # a leg that needs more simulated events than this is an endless loop


class SimFault(Exception):
    pass


class SimAbort(BaseException):
    pass


EXC = {
    'Exception': Exception, 'ImportError': ImportError, 'ModuleNotFoundError': ModuleNotFoundError, 'ValueError': ValueError,
    'AttributeError': AttributeError, 'TypeError': TypeError, 'KeyError': KeyError, 'OSError': OSError,
    'RuntimeError': RuntimeError, 'MemoryError': MemoryError, 'RecursionError': RecursionError,
    'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'GeneratorExit': GeneratorExit,
    'StopIteration': StopIteration, 'SyntaxError': SyntaxError, 'UnicodeError': UnicodeError,
    'LookupError': LookupError, 'AssertionError': AssertionError, 'NotImplementedError': NotImplementedError,
    'StopAsyncIteration': StopAsyncIteration, 'ArithmeticError': ArithmeticError, 'Panic': PANIC, 'SimFault': SimFault,
}


# ------------------------------------------------------------------ streams
class RawRecorder(io.RawIOBase):
    def __init__(self, sim, label):
        super().__init__()
        self.sim, self.label, self.name, self.mode = sim, label, '<%s>' % label, 'wb'

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        return 1 if self.label == 'stdout' else 2

    def write(self, b):
        sim = self.sim
        me = sim.tid()
        sim.outlog.append([self.label, bytes(b).decode('utf-8', 'backslashreplace'), me, 0 if me is None else sim.curop.get(me, 0), bool(me is not None and me >= 0 and sim.incall[me])])
        return len(b)

    def close(self):
        pass


class Recorder(io.TextIOWrapper):
    """The 'real' stdout/stderr of the simulated program; everything that reaches it is logged."""
    def __init__(self, sim, label):
        super().__init__(RawRecorder(sim, label), encoding='utf-8', errors='backslashreplace', write_through=True)
        self.mode = 'w'


class OddStream:
    """a stream of the caller that supports nothing but what it has to"""
    def __init__(self, kind):
        self.__dict__['kind'] = kind

    def __getattr__(self, n):
        if self.kind == 'noattr' and not (n.startswith('__') and n.endswith('__')):
            raise AttributeError(n)
        if n in ('write', 'writelines', 'flush', 'isatty', 'fileno', 'close'):
            def f(*a):
                if self.kind == 'failing':
                    raise OSError('stream is broken')
                return 0
            return f
        raise AttributeError(n)

    def __bool__(self):
        if self.kind == 'nobool':
            raise ValueError('no truth value')
        return self.kind != 'falsy'

    def __eq__(self, o):
        if self.kind == 'noeq':
            raise TypeError('cannot be compared')
        return self.kind == 'eqall'

    __hash__ = None


def caller_stream(sim, label, kind):
    if kind is None:
        return None
    if kind == 'new':
        return Recorder(sim, label)
    if kind == 'missing':
        return 'missing'
    if kind == 'closed':
        f = io.StringIO()
        f.close()
        return f
    if kind == 'stringio':
        return io.StringIO()
    if kind == 'wrapper':
        return io.TextIOWrapper(io.BytesIO(), encoding='ascii')
    if kind == 'detached':
        f = io.TextIOWrapper(io.BytesIO())
        f.detach()
        return f
    if kind == 'devnull':
        return open('/dev/null', 'w')
    if kind == 'original':
        return sys.__stdout__
    if kind == 'int':
        return 5
    return OddStream(kind)


# ------------------------------------------------------------------ virtual importer
class _Loader(importlib.abc.Loader):
    def __init__(self, sim, name):
        self.sim, self.name = sim, name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        sim = self.sim
        m = sim.modules[self.name]
        sim.point('exec', self.name)
        sim.exec_counts[self.name] = sim.exec_counts.get(self.name, 0) + 1
        sim.exec_log.append(self.name)
        code = compile(m['src'], sim.filename(self.name), 'exec', dont_inherit=True)
        if sim.line_events:
            MON.set_local_events(TOOL, code, MON.events.LINE)
        ns = module.__dict__
        ns['_S'] = sim.rt
        if m.get('nopath'):
            del module.__path__
        exec(code, ns)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, sim):
        self.sim = sim

    def find_spec(self, name, path=None, target=None):
        sim = self.sim
        m = sim.modules.get(name)
        if m is None or m.get('gone'):
            return None
        sim.point('find', name)
        if m.get('findflag') and sim.flags.get(m['findflag'][0]):
            sim.rt.tagged(*m['findflag'])
        if m.get('unfindable'):
            raise EXC[m['unfindable']](name)
        spec = importlib.machinery.ModuleSpec(name, _Loader(sim, name), origin=sim.filename(name), is_package=bool(m.get('pkg')))
        spec.has_location = True
        if m.get('pkg'):
            spec.submodule_search_locations = list(m.get('path') or ['sim://' + name])
        return spec

    def invalidate_caches(self):
        pass


class _PathEntry:
    """path entry finder for pkgutil.iter_modules"""
    def __init__(self, sim, pkg):
        self.sim, self.pkg = sim, pkg

    def find_spec(self, name, target=None):
        return None

    def iter_modules(self, prefix=''):
        sim = self.sim
        sim.point('list', self.pkg)
        m = sim.modules.get(self.pkg)
        names = list((m or {}).get('list', ()))
        if m is not None and m.get('list_raise'):
            raise EXC[m['list_raise']]('listing ' + self.pkg)
        order = sim.plan.get('list_seed')
        if order:
            names.sort(key=lambda n: hashlib.blake2b(('%s/%s/%s' % (order, self.pkg, n)).encode()).digest())
        for n in names:
            full = self.pkg + '.' + n
            yield prefix + n, bool(sim.modules.get(full, {}).get('pkg'))


# ------------------------------------------------------------------ runtime helpers visible to simulated modules (as _S)
class RT:
    def __init__(self, sim):
        self._sim = sim

    def call(self, label, *a, **k):
        """every simulated callable reports its invocation here"""
        self._sim.calls.append(label)

    def hook(self, label):
        """describing hooks (__dir__, __getattr__, __repr__ ...) report here"""
        self._sim.hooks.append(label)

    def nth(self, key):
        c = self._sim.counters
        c[key] = c.get(key, 0) + 1
        return c[key]

    def raise_(self, exc, msg=''):
        raise EXC[exc](msg)

    def fail(self, key, when, exc, msg=''):
        """when: 'always' | 'first' | n  (the n-th time)"""
        n = self.nth(key)
        if when == 'always' or (when == 'first' and n == 1) or when == n:
            self._sim.worldfaults[exc] = self._sim.worldfaults.get(exc, 0) + 1
            raise EXC[exc](msg or key)

    def tagged(self, key, exc):
        """an exception that can be recognised as this very object"""
        e = EXC[exc]('cause ' + key)
        e.sim_tag = key
        self._sim.worldfaults[exc] = self._sim.worldfaults.get(exc, 0) + 1
        raise e

    def bad(self, exc, when='always', key=''):
        """a class attribute that cannot be read"""
        rt = self

        class Bad:
            def __get__(self, obj, typ=None):
                rt.fail('bad' + key, when, exc)
                return 5
        Bad.__module__ = 'builtins'
        return Bad()

    def addr(self, key):
        """simulated memory address of an object"""
        s = self._sim.plan.get('addr_seed', 0)
        return int.from_bytes(hashlib.blake2b(('%s/%s' % (s, key)).encode(), digest_size=6).digest(), 'big') | 0x7f0000000000

    def flag(self, name):
        return self._sim.flags.get(name)

    def out(self, stream, mode, text):
        s = getattr(sys, stream)
        self._sim.said.append([stream, mode, text, self._sim.tid()])
        if mode == 'print':
            print(text, file=s)
        elif mode == 'printflush':
            print(text, file=s, end='', flush=True)
        elif mode == 'write':
            s.write(text)
        elif mode == 'writelines':
            s.writelines([text, '\n'])
        elif mode == 'surrogate':
            # text of undecodable bytes; only the error stream takes it (backslashreplace)
            print(text + '\udc80', file=sys.stderr)
        elif mode == 'flush':
            s.flush()
        elif mode == 'isatty':
            s.isatty()
        elif mode == 'encoding':
            str(s.encoding).lower()
        elif mode == 'writable':
            s.writable()
        elif mode == 'buffer':
            s.buffer.write(text.encode())
            s.buffer.flush()
        elif mode == 'reconfigure':
            s.reconfigure(line_buffering=True)
        elif mode == 'attrs':
            str((s.name, s.mode, s.newlines, s.line_buffering, s.readable(), s.seekable()))
        elif mode == 'fileno':
            int(s.fileno())
        elif mode == 'late':
            print(text, file=s)
            s.write('')
            s.flush()
        elif mode == 'closed':
            if s.closed:
                raise ValueError('closed')
        elif mode == 'len':
            if s.write(text) != len(text):
                raise ValueError('short write')
        elif mode == 'errors':
            str(s.errors)
        elif mode == 'warn':
            warnings.warn(text, UserWarning, stacklevel=2)
        elif mode == 'log':
            h = logging.StreamHandler(s)
            h.emit(logging.LogRecord('sim', 50, 'f', 1, text, (), None))
        elif mode == 'traceback':
            try:
                raise ValueError(text)
            except ValueError:
                traceback.print_exc(file=s)
        elif mode == 'ctx':
            with contextlib.redirect_stdout(s):
                print(text)
        elif mode == 'real':
            (sys.__stdout__ if stream == 'stdout' else sys.__stderr__)
        else:
            raise KeyError(mode)


def dir_state(d):
    """what is on the simulated disk: names, types, contents"""
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                out[rel] = 'link ' + os.readlink(p)
            elif os.path.isdir(p):
                out[rel] = 'dir'
            else:
                with io.FileIO(p) as f:
                    out[rel] = 'file ' + hashlib.blake2b(f.readall(), digest_size=10).hexdigest()
    return out


def read_file(path):
    try:
        with io.FileIO(path) as f:
            return f.readall()
    except OSError:
        return None


def prepare_path(d, pre):
    """[kind, name, argument] below the scratch directory d"""
    kind, name, arg = pre
    p = os.path.join(d, name)
    if kind == 'file':
        with open(p, 'wb') as f:
            f.write(arg.encode('utf-8', 'surrogateescape'))
    elif kind == 'dir':
        os.makedirs(p, exist_ok=True)
    elif kind == 'link':
        os.symlink(arg, p)
    elif kind == 'rm' and os.path.lexists(p):
        os.unlink(p)


class Snap:
    """attribute dictionaries of modules, classes (nested ones too) and functions; content of plain containers"""
    PLAIN = (list, dict, set, frozenset, tuple, bytearray, collections.OrderedDict)

    @staticmethod
    def take(mods):
        out = {}
        keep = []

        def value(v):
            if type(v) in Snap.PLAIN and not isinstance(v, type):
                try:
                    return '%d %s' % (id(v), repr(v)[:500])
                except BaseException:
                    pass
            return id(v)

        def cls(c, where, depth):
            if where in out or depth > 3:
                return
            out[where] = {a: value(b) for a, b in vars(c).items() if a != '__annotations__' or b}
            for a, b in list(vars(c).items()):
                obj(b, where + '.' + a, depth + 1)

        def obj(v, where, depth):
            keep.append(v)
            if isinstance(v, type):
                if v.__module__ in mods:
                    cls(v, where, depth)
            elif type(v) is types.FunctionType:
                if v.__module__ in mods:
                    out[where] = {a: value(b) for a, b in v.__dict__.items()}
                    out[where].update({a: value(getattr(v, a)) for a in ('__defaults__', '__kwdefaults__', '__code__', '__doc__', '__name__', '__module__')})
        for name in mods:
            m = sys.modules.get(name)
            if m is None or type(m) is not types.ModuleType:
                continue
            out[name] = {k: value(v) for k, v in vars(m).items()}
            for k, v in list(vars(m).items()):
                obj(v, name + ':' + k, 0)
        Snap.keep = keep        # (identities stay meaningful)
        return out


# ------------------------------------------------------------------ the simulator
class Sim:
    def __init__(self, plan):
        self.plan = plan
        self.modules = plan.get('world', {})
        self.flags = dict(plan.get('flags', {}))
        self.outlog = []          # text that reached the real streams
        self.calls, self.hooks = [], []
        self.said = []            # text the inspected code wrote, as it saw it
        self.curop = {}
        self.counters = {}
        self.exec_counts, self.exec_log = {}, []
        self.worldfaults = {}
        self.rt = RT(self)
        self.events = 0
        self.fired = {}
        self.digest = hashlib.blake2b(digest_size=12)
        self.sites = []
        self.want_sites = bool(plan.get('want_sites'))
        self.want_trace = bool(plan.get('want_trace'))
        self.trace = []
        self.switches = []
        self.armed = False
        self.line_events = bool(plan.get('line_events'))
        self.faults = {}
        for f in plan.get('faults', ()):
            self.faults[f[0]] = f[1]
        self.sitefaults = {s: e for s, e in plan.get('sitefaults', ())}
        self.lasting = {s: e for s, e in plan.get('lasting', ())}
        # per-thread faults: {tid: [[local event, exc], ...]}: strike at the first event from there on that is not part of an import
        self.tfaults = {int(t): sorted([int(k), v] for k, v in fs) for t, fs in plan.get('tfaults', {}).items()}
        s = plan.get('sched')
        self.sched_mode = None
        self.only = plan.get('only')    # the only kind of events that count
        if s:
            if 'explicit' in s:
                self.sched_mode = 'explicit'
                self.explicit = {int(k): int(t) for k, t in s['explicit']}
            else:
                self.sched_mode = 'random'
                self.srng = random.Random(s['seed'])
                self.sp = s.get('p', 0.1)
        self.nthreads = max(1, len(plan.get('threads', ())))
        self.locks = []
        self.tlocal = [0] * self.nthreads
        self.mute = [0] * self.nthreads     # >0: harness code is running on that thread
        self.importing = [0] * self.nthreads    # >0: that thread is inside an import
        self.incall = [0] * self.nthreads   # >0: that thread is inside an engine call; faults strike only there
        self.alive = set()
        self.blocked = {}
        self.native, self.ntid, self.native_passes = set(), {}, 0
        self.cur = None
        self.tid_of = {}
        self.handles = {}
        self.problem = None
        self.results = {}
        self.inv = []             # invariant violations seen while the run proceeds
        self.busy = 0             # engine calls in progress
        self.done_lock = None
        self.watch = plan.get('watch')   # file that must not change while events happen (C07)
        self.last_token = 0

    def filename(self, name):
        return 'sim://' + name + ('/__init__.py' if self.modules[name].get('pkg') else '.py')

    # ---------------- events
    def tid(self):
        return self.tid_of.get(_thread.get_ident())

    def on_start(self, code, off):
        fn = code.co_filename
        if fn.startswith(SIMDIR):
            return MON.DISABLE
        if fn.startswith('<frozen importlib') or fn.endswith('/threading.py'):
            return MON.DISABLE
        if not self.armed:
            return
        self.point('py', fn.rsplit('/', 2)[-1] if not fn.startswith('sim:') else fn, code.co_qualname)

    def on_line(self, code, line):
        if self.armed:
            self.point('line', code.co_filename, line)

    def point(self, kind, a, b=''):
        """a point at which the interpreter could switch threads and at which a fault may strike"""
        if not self.armed or self.only and kind != self.only and kind != 'op':
            return
        me = self.tid_of.get(_thread.get_ident())
        if me is None or self.mute[me]:
            return
        if self.cur != me and me >= 0:
            self.park(me)
        k = self.events
        self.events = k + 1
        lk = self.tlocal[me]
        self.tlocal[me] = lk + 1
        if k > MAX_EVENTS:
            self.abort('endless', 'more than %d simulated events' % MAX_EVENTS)
        site = '%s %s %s' % (kind, a, b)
        self.digest.update(b'%d %s\n' % (me, site.encode('utf-8', 'backslashreplace')))
        if self.want_sites:
            self.sites.append(site)
        if self.want_trace:
            self.trace.append([me, site])
        if self.watch:
            self.check_watch(site)
        if self.sched_mode:
            self.maybe_switch(me, k)
        if self.lasting and site in self.lasting:
            self.fire(self.lasting[site], kind, a)
        if kind == 'op' or not self.incall[me]:
            return
        exc = self.faults.pop(k, None)
        if not exc and self.tfaults and not self.importing[me]:
            tf = self.tfaults.get(me)
            if tf and tf[0][0] <= lk and kind == 'py':
                exc = tf.pop(0)[1]
        if not exc and self.sitefaults:
            exc = self.sitefaults.pop(site, None)
        if exc:
            self.fire(exc, kind, a)

    def fire(self, exc, kind, a):
        self.digest.update(b'!%s\n' % exc.encode())
        if self.want_trace:
            self.trace.append(['fault', exc])
        if exc.startswith('@'):
            # state fault: change the import system instead of raising
            self.fired[exc.split(':')[0]] = self.fired.get(exc.split(':')[0], 0) + 1
            op, _, arg = exc[1:].partition(':')
            if op == 'die':
                os._exit(137)
            elif op == 'forget':
                sys.modules.pop(arg, None)
            elif op == 'gone':
                sys.modules.pop(arg, None)
                if arg in self.modules:
                    self.modules[arg]['gone'] = True
            elif op == 'junk':
                sys.modules[arg] = types.SimpleNamespace(__name__=arg)
            elif op == 'none':
                sys.modules[arg] = None
            elif op == 'delattr':
                mod, _, at = arg.rpartition('.')
                try:
                    delattr(sys.modules[mod], at)
                except (KeyError, AttributeError):
                    pass
            return
        self.fired[exc] = self.fired.get(exc, 0) + 1
        if exc == 'ModuleNotFoundError' and kind in ('import', 'find'):
            raise ModuleNotFoundError('injected', name=a)
        raise EXC[exc]('injected')

    def check_watch(self, site):
        path, want = self.watch
        try:
            with io.FileIO(path) as f:
                now = f.readall()
        except OSError:
            now = None
        if now != want and not self.inv:
            self.inv.append(['touched', site])

    # ---------------- scheduling
    def maybe_switch(self, me, k):
        if _imp.lock_held():     # finders run under the global import lock: no other thread could import now
            return
        others = [t for t in self.alive if t != me and self.runnable(t)]
        if not others:
            return
        if self.sched_mode == 'explicit':
            t = self.explicit.get(k)
            if t is None or t not in others:
                return
        else:
            if self.srng.random() >= self.sp:
                return
            t = sorted(others)[int(self.srng.random() * len(others))]
        self.switches.append([k, t])
        self.hand_to(t, me)

    def runnable(self, t):
        if t in self.native:
            return False
        c = self.blocked.get(t)
        return c is None or c()

    def park(self, me):
        """a thread that was blocked in foreign native code (its token was passed on) is back"""
        self.native.discard(me)
        if self.cur is None:
            self.cur = me
        else:
            self.locks[me].acquire()

    def monitor(self):
        """wait for the end of the run; pass the token on if its holder blocks in code that the simulator does not control"""
        if self.done_lock.acquire(True, 0.4):
            return
        last, same = None, 0
        while not self.done_lock.acquire(True, 0.05):
            t = self.cur
            if t is None:
                continue
            try:
                with io.FileIO('/proc/self/task/%d/status' % self.ntid[t]) as f:
                    st = f.readall().decode()
            except (OSError, KeyError):     # it is gone, or has not started yet
                continue
            key = (t, self.events, re.search(r'voluntary_ctxt_switches:\s*(\d+)', st).group(1))
            same = same + 1 if key == last and re.search(r'State:\s*S', st) else 0
            last = key
            if same >= 4:
                cand = sorted(o for o in self.alive if o != t and self.runnable(o))
                if cand:
                    self.native.add(t)
                    self.native_passes += 1
                    self.cur = cand[0]
                    self.digest.update(b'~%d\n' % cand[0])
                    self.locks[cand[0]].release()
                    same = 0
                elif same >= 100:
                    self.abort('deadlock', 'no simulated thread can make progress')

    def hand_to(self, t, me):
        self.digest.update(b'>%d\n' % t)
        self.cur = t
        self.locks[t].release()
        self.locks[me].acquire()

    def pick(self, me):
        """the current thread cannot go on: choose another one"""
        cand = sorted(t for t in self.alive if t != me and self.runnable(t))
        if not cand:
            return None
        if self.sched_mode == 'random':
            return cand[int(self.srng.random() * len(cand))]
        if self.sched_mode == 'explicit':
            t = self.explicit.get(-1 - len(self.switches))
            if t in cand:
                return t
        return cand[0]

    def wait_for(self, cond):
        """block the calling simulated thread until cond() holds"""
        me = self.tid()
        if me is None or not self.alive or len(self.locks) == 0:
            return False
        while not cond():
            self.blocked[me] = cond
            t = self.pick(me)
            if t is None and self.native:
                self.cur = None
                self.locks[me].acquire()
                continue
            if t is None:
                self.abort('deadlock', 'no simulated thread can make progress')
            self.switches.append([-1 - len(self.switches), t])
            self.hand_to(t, me)
            self.blocked.pop(me, None)
        return True

    def finish_thread(self, me):
        self.alive.discard(me)
        t = self.pick(me)
        if t is None and self.alive and self.native:
            self.cur = None
        elif t is None:
            if self.alive:
                self.abort('deadlock', 'no simulated thread can make progress')
            self.done_lock.release()
        else:
            self.switches.append([-1 - len(self.switches), t])
            self.digest.update(b'>%d\n' % t)
            self.cur = t
            self.locks[t].release()

    def abort(self, kind, detail):
        self.armed = False
        self.problem = [kind, detail]
        emit(self.report())
        os._exit(0)

    # ---------------- ops
    def engine(self, fn, *a):
        me = self.tid()
        f = getattr(_engine, fn)
        self.busy += 1
        if me is not None and me >= 0:
            self.incall[me] += 1
        try:
            return f(*a)
        finally:
            if me is not None and me >= 0:
                self.incall[me] -= 1
            self.busy -= 1

    def muted(self, fn, *a):
        me = self.tid()
        if me is None or me < 0:
            return fn(*a)
        self.mute[me] += 1
        try:
            return fn(*a)
        finally:
            self.mute[me] -= 1

    def pack(self, r, op):
        return self.muted(self._pack, r, op)

    def _pack(self, r, op):
        o = {k: r[k] for k in ('outcome', 'err', 'kind', 'errno', 'io') if k in r}
        e = r.get('exc')
        if e is not None:
            chain = []
            try:
                s = str(e)
            except BaseException:
                s = '<unprintable>'
            o['exc'] = [type(e).__name__, s]
            o['exc_is_tagged'] = getattr(e, 'sim_tag', None)
        if r.get('leftover') is not None:
            o['leftover'] = repr(type(r['leftover']).__name__)
        t = r.get('text')
        if t is not None:
            o['len'] = len(t)
            if op.get('text', self.plan.get('text', True)):
                o['text'] = t
            if op.get('pretty'):
                try:
                    o['pretty'] = _engine.pretty(t)
                except ValueError as ex:
                    o['pretty_error'] = str(ex)
            if op.get('items', self.plan.get('items')):
                try:
                    o['items'] = _engine.items(t)
                except ValueError as ex:
                    o['items_error'] = str(ex)
        return o

    def streams_ok(self):
        return [sys.__dict__.get('stdout', 'missing') is self.expect_out, sys.__dict__.get('stderr', 'missing') is self.expect_err]

    def note_streams(self, where):
        if self.busy == 0:
            so, se = self.streams_ok()
            if not so or not se:
                bad = [n for n, ok in (('stdout', so), ('stderr', se)) if not ok]
                self.inv.append(['streams', where, bad])
                if self.plan.get('reset_streams'):
                    self.install_streams()

    def install_streams(self):
        if self.plan.get('streams') == 'none':
            sys.stdout, sys.stderr = self.expect_out, self.expect_err
        else:
            sys.stdout, sys.stderr = self.expect_out, self.expect_err

    def do(self, op, me, idx):
        k = op['op']
        if me >= 0:
            self.curop[me] = idx
        self.point('op', k)
        if op.get('wait') and me >= 0:      # a generator handed over by another thread
            self.wait_for(lambda: op['h'] in self.handles)
        if k == 'gen':
            h = _engine.new(op.get('cfg', {}))
            r = None
            for rq in op['req']:
                r = self.add(h, rq)
                if r['outcome'] != 'ok':
                    break
                h = r['handle']
                self.note_streams([me, idx])
                self.point('op', 'between')
            if r is None or r['outcome'] == 'ok':
                end = op.get('end', 'generate')
                if end == 'generate':
                    r = self.engine('generate', h)
                elif end == 'build':
                    r = self.build(h, op)
                elif end == 'keep':
                    self.handles[op['h']] = h
            res = self.pack(r, op) if r is not None else {'outcome': 'ok'}
        elif k == 'new':
            self.handles[op['h']] = _engine.new(op.get('cfg', {}))
            res = {'outcome': 'ok'}
        elif k == 'clone':
            if self.handles.get(op['h']) is None:
                res = {'outcome': 'skip'}
            else:
                self.handles[op['to']] = _engine.clone(self.handles[op['h']])
                res = {'outcome': 'ok'}
        elif k == 'add':
            h = self.handles.pop(op['h'], None)
            to = op.get('to', op['h'])
            if h is None:
                res = {'outcome': 'skip'}
                self.handles[to] = None
            else:
                r = self.add(h, op['req'])
                self.handles[to] = r['handle'] if r['outcome'] == 'ok' and 'handle' in r else None
                res = self.pack(r, op)
        elif k == 'generate':
            h = self.handles.pop(op['h'], None)
            res = {'outcome': 'skip'} if h is None else self.pack(self.engine('generate', h), op)
        elif k == 'build':
            h = self.handles.pop(op['h'], None)
            res = {'outcome': 'skip'} if h is None else self.pack(self.build(h, op), op)
        elif k == 'import':
            try:
                importlib.import_module(op['name'])
                res = {'outcome': 'ok'}
            except BaseException as e:
                res = {'outcome': 'err', 'exc': [type(e).__name__, str(e)], 'exc_is_tagged': getattr(e, 'sim_tag', None)}
        elif k == 'forget':
            for n in list(sys.modules):
                if n == op['name'] or n.startswith(op['name'] + '.'):
                    del sys.modules[n]
            res = {'outcome': 'ok'}
        elif k == 'flag':
            self.flags[op['name']] = op['value']
            res = {'outcome': 'ok'}
        elif k == 'world':
            self.modules.update(op['modules'])
            res = {'outcome': 'ok'}
        elif k == 'py':
            ns = {'_S': self.rt, 'SIM': self, '_engine': _engine}
            try:
                exec(compile(op['code'], '<simop>', 'exec'), ns)
                res = {'outcome': 'ok', 'value': ns.get('RESULT')}
            except BaseException as e:
                res = {'outcome': 'err', 'exc': [type(e).__name__, str(e)], 'exc_is_tagged': getattr(e, 'sim_tag', None)}
        elif k == 'snap':
            self.snap0 = Snap.take(op['mods'])
            self.calls.clear()
            res = {'outcome': 'ok'}
        elif k == 'snapdiff':
            res = {'outcome': 'ok', 'diff': self.snapdiff(op['mods'])}
        elif k == 'streams':
            self.expect_out = caller_stream(self, 'stdout', op.get('out'))
            self.expect_err = self.expect_out if op.get('err') == 'same' else caller_stream(self, 'stderr', op.get('err'))
            for n, v in (('stdout', self.expect_out), ('stderr', self.expect_err)):
                if type(v) is str:
                    sys.__dict__.pop(n, None)
                else:
                    setattr(sys, n, v)
            res = {'outcome': 'ok'}
        elif k == 'px':
            res = self.px.perform(op)
        elif k == 'pxstate':
            res = {'outcome': 'ok', 'state': self.px.state(op['mods']), 'log': self.px.log}
        elif k == 'drive':
            res = {'outcome': 'ok', 'drive': _engine.drive(op['text'], op['root'], op['first'])}
        elif k == 'outmark':
            res = {'outcome': 'ok', 'n': len(self.outlog)}
        else:
            raise KeyError(k)
        self.note_streams([me, idx])
        return res

    def snapdiff(self, mods):
        now = Snap.take(mods)
        diff = []
        for name, old in self.snap0.items():
            new = now.get(name)
            if new is None:
                diff.append([name, 'vanished'])
                continue
            for a in old:
                if a not in new:
                    diff.append([name, 'removed', a])
                elif old[a] != new[a]:
                    diff.append([name, 'rebound', a])
            for a in new:
                if a not in old:
                    sub = sys.modules.get(name + '.' + a) if ':' not in name else None
                    if sub is None or id(sub) != new[a]:
                        diff.append([name, 'added', a])
        return diff

    def build(self, h, op):
        """write bindings to a file on the simulated disk: a scratch directory behind the libc seam"""
        d = self.plan['dir']
        path = op['path'].replace('@DIR', d)
        r = {}
        watch, before = self.muted(self.disk_begin, d, path, op)
        self.watch = watch
        try:
            r = self.engine('build', h, path)
        finally:
            self.watch = None
            self.muted(self.disk_end, d, path, before, r)
        return r

    def disk_begin(self, d, path, op):
        for pre in op.get('prepare', ()):
            prepare_path(d, pre)
        before = dir_state(d)
        watch = (path, read_file(path)) if op.get('watch') and '\0' not in path else None
        if SHIM is not None:
            SHIM.sim_io_arm(d.encode(), (op.get('io') or '').encode(), 0)
        return watch, before

    def disk_end(self, d, path, before, r):
        log = []
        if SHIM is not None:
            SHIM.sim_io_disarm()
            buf = ctypes.create_string_buffer(1 << 16)
            n = SHIM.sim_io_log(buf, 1 << 16)
            log = buf.raw[:n].decode('utf-8', 'replace').splitlines()
        data = read_file(path.replace('\0', '?'))
        r['io'] = {'log': log, 'before': before, 'after': dir_state(d), 'file': None if data is None else data.decode('utf-8', 'surrogateescape')}
        self.digest.update(repr([log, r['io']['file']]).encode('utf-8', 'surrogatepass'))

    def add(self, h, rq):
        k = rq[0]
        if k == 'n':
            return self.engine('module_name', h, rq[1])
        if k == 'b':
            return self.engine('module_names', h, rq[1])
        if k == 's':
            return self.engine('module_from_str', h, rq[1], rq[2])
        if k in ('o', 'ob'):
            # by module object: the caller imports the module itself first (outside the engine)
            try:
                ms = self.muted(lambda: [importlib.import_module(n) for n in ([rq[1]] if k == 'o' else rq[1])])
            except BaseException as e:
                _engine.drop(h)
                return {'outcome': 'caller', 'err': repr(e)}
            if not all(isinstance(m, types.ModuleType) for m in ms):
                _engine.drop(h)
                return {'outcome': 'caller', 'err': 'not a module object'}
            return self.engine('module', h, ms[0]) if k == 'o' else self.engine('modules', h, ms)
        if k == 'attr':     # module object reachable as expression
            ns = {}
            exec('import sys\nM = ' + rq[1], ns)
            if not isinstance(ns['M'], types.ModuleType):
                _engine.drop(h)
                return {'outcome': 'caller', 'err': 'not a module object'}
            return self.engine('module', h, ns['M'])
        raise KeyError(k)

    def body(self, me):
        self.tid_of[_thread.get_ident()] = me
        self.ntid[me] = _thread.get_native_id()
        self.locks[me].acquire()
        out = []
        try:
            for i, op in enumerate(self.plan['threads'][me]):
                out.append(self.do(op, me, i))
            self.results[me] = out
            self.point('op', 'end')
            self.mute[me] += 1
            self.finish_thread(me)
        except BaseException as e:      # a harness error, not a finding
            self.armed = False
            self.problem = ['harness', ''.join(traceback.format_exception(e))[-3000:]]
            emit(self.report())
            os._exit(0)

    def report(self):
        return {
            'results': [self.results.get(i) for i in range(self.nthreads)], 'problem': self.problem, 'inv': self.inv,
            'events': self.events, 'digest': self.digest.hexdigest(), 'fired': self.fired, 'worldfaults': self.worldfaults,
            'switches': self.switches, 'sites': self.sites, 'trace': self.trace, 'outlog': self.outlog, 'said': self.said, 'calls': self.calls, 'hooks': self.hooks,
            'exec_log': self.exec_log, 'final_streams': self.streams_ok(),
            'native_passes': self.native_passes,
            'rand_calls': SHIM.sim_rand_calls() if SHIM is not None else 0,
        }

    def run(self):
        plan = self.plan
        sys.meta_path.insert(0, _Finder(self))
        sys.path_hooks.insert(0, self.path_hook)
        sys.path_importer_cache.clear()
        builtins.__import__ = self.import_
        _bs._ModuleLock.acquire = _mk_acquire(self)
        if plan.get('rand') is not None and SHIM is not None:
            SHIM.sim_rand(ctypes.c_uint64(plan['rand']), 1)
        junk = [object() for _ in range(plan.get('junk', 0))]
        mode = plan.get('streams', 'rec')
        if mode == 'none':
            self.expect_out = self.expect_err = None
        else:
            self.expect_out, self.expect_err = Recorder(self, 'stdout'), Recorder(self, 'stderr')
        self.install_streams()
        MON.use_tool_id(TOOL, 'sim')
        MON.register_callback(TOOL, MON.events.PY_START, self.on_start)
        MON.register_callback(TOOL, MON.events.LINE, self.on_line)
        if plan.get('mon', True):
            MON.set_events(TOOL, MON.events.PY_START)
        if plan.get('px'):
            import proxy
            self.px = proxy.PX(self, plan['px'])
        # history: operations before the simulated part, fault-free and on the main thread
        pre = []
        for i, op in enumerate(plan.get('pre', ())):
            pre.append(self.do(op, -1, i))
        self.calls.clear()
        if plan.get('clear_out', True):
            self.outlog.clear()
            self.said.clear()
        self.locks = [_thread.allocate_lock() for _ in range(self.nthreads)]
        for l in self.locks:
            l.acquire()
        self.done_lock = _thread.allocate_lock()
        self.done_lock.acquire()
        self.alive = set(range(self.nthreads))
        self.armed = True
        _thread.stack_size(int(plan.get('stack', 16 << 20)))
        for t in range(self.nthreads):
            _thread.start_new_thread(self.body, (t,))
        self.cur = 0
        self.locks[0].release()
        self.monitor()
        self.armed = False
        if plan.get('mon', True):
            MON.set_events(TOOL, 0)
        post = []
        for i, op in enumerate(plan.get('post', ())):
            post.append(self.do(op, -2, i))
        r = self.report()
        r['pre'], r['post'] = pre, post
        return r

    def path_hook(self, path):
        if isinstance(path, str) and path.startswith('sim://'):
            return _PathEntry(self, path[6:])
        raise ImportError(path)

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        self.point('import', name)
        me = self.tid_of.get(_thread.get_ident())
        if me is None or me < 0:
            return REAL_IMPORT(name, globals, locals, fromlist, level)
        self.importing[me] += 1
        try:
            return REAL_IMPORT(name, globals, locals, fromlist, level)
        finally:
            self.importing[me] -= 1


def _mk_acquire(sim):
    mgr = _bs._BlockingOnManager

    def acquire(self):
        tid = _thread.get_ident()
        with mgr(tid, self):
            while True:
                with self.lock:
                    if not self.count or self.owner == tid:
                        self.owner = tid
                        self.count.append(True)
                        return True
                    if self.has_deadlock():
                        raise _bs._DeadlockError('deadlock detected by %r' % self)
                if not sim.wait_for(lambda: not self.count):
                    with self.lock:
                        if self.wakeup.acquire(False):
                            self.waiters.append(None)
                    self.wakeup.acquire()
                    self.wakeup.release()
    return acquire


_emit_fd = None


def emit(obj):
    data = json.dumps(obj, ensure_ascii=True, default=repr).encode()
    mv = memoryview(data)
    while mv:
        n = os.write(_emit_fd, mv[:1 << 20])
        mv = mv[n:]


def child(plan, fd):
    global _emit_fd
    _emit_fd = fd
    if plan.get("dump"):
        import faulthandler
        faulthandler.dump_traceback_later(3, file=2)
    try:
        emit(Sim(plan).run())
    except BaseException as e:
        emit({'problem': ['harness', ''.join(traceback.format_exception(e))[-3000:]], 'results': []})
    os._exit(0)
