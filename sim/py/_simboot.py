"""Worker loop: read a leg plan, fork, run it in the child, write its report."""
import sys, os, json, select, signal, struct, gc, time
import simcore


def warm():
    """touch lazily initialised parts of the engine and the standard library once, before forking"""
    import _engine
    import types, typing, functools
    m = types.ModuleType('simwarm')
    exec('import typing, functools\ndef f(a: "int|None", b: typing.Optional[int]=None, *c, d: typing.List[int], **e) -> typing.Dict[str, int]: ...\n'
         'class Q: ...\nq = Q()\nclass C:\n    x = 1\n    y = q\n    def k(self, q: Q) -> Q: ...\n    def __init__(self): pass\n    def m(self, q: "list[int]"): ...\n    @property\n    def p(self) -> int: ...\n', m.__dict__)
    sys.modules['simwarm'] = m
    r = _engine.module(_engine.new({'suppress_python_stdout': False, 'suppress_python_stderr': False}), m)
    assert _engine.generate(r['handle'])['outcome'] == 'ok'
    del sys.modules['simwarm']


def readn(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def main():
    rfd, wfd = int(sys.argv[1]), int(sys.argv[2])
    sys.setswitchinterval(1e6)
    sys.meta_path[:] = [f for f in sys.meta_path if 'Distutils' not in type(f).__name__ and 'Distutils' not in getattr(f, '__name__', '')]
    warm()
    gc.collect()
    gc.freeze()
    gc.disable()
    devnull = os.open('/dev/null', os.O_RDWR)
    while True:
        h = readn(rfd, 4)
        if h is None:
            return 0
        job = json.loads(readn(rfd, struct.unpack('<I', h)[0]))
        pr, pw = os.pipe()
        errfd = os.memfd_create('err')
        t0 = time.monotonic()
        pid = os.fork()
        if pid == 0:
            os.close(pr)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            os.dup2(errfd, 2)
            simcore.child(job['plan'], pw)
            os._exit(0)
        os.close(pw)
        buf = []
        limit = job.get('timeout', 60)
        hang = False
        while True:
            left = limit - (time.monotonic() - t0)
            if left <= 0:
                hang = True
                break
            r, _, _ = select.select([pr], [], [], left)
            if r:
                b = os.read(pr, 1 << 20)
                if not b:
                    break
                buf.append(b)
        if hang:
            os.kill(pid, signal.SIGKILL)
        os.close(pr)
        _, st = os.waitpid(pid, 0)
        n = os.lseek(errfd, 0, os.SEEK_END)
        err = os.pread(errfd, 4000, max(0, n - 4000)) if (hang or st != 0 or job.get('stderr')) else b''
        os.close(errfd)
        data = b''.join(buf)
        env = {'hang': hang, 'status': st, 'stderr': err.decode('utf-8', 'replace')}
        head = json.dumps(env).encode()
        os_write_all(wfd, struct.pack('<II', len(head), len(data)) + head + data)


def os_write_all(fd, data):
    mv = memoryview(data)
    while mv:
        n = os.write(fd, mv[:1 << 20])
        mv = mv[n:]
