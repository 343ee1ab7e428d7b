"""C08: the exit status of the command-line tool tells the truth. The real program runs on real files; the libc seam decides the outcome of its system calls."""
from .common import *
from .c07 import state, near, NEAR
from .c02 import noisy
import weird, hashlib, fcntl

CLI = os.path.join(TARGET, 'cli/debug/pyo3_bindgen')
SITE = '''import builtins, sys
class _RT:
    def call(self, *a, **k): pass
    hook = call
    def raise_(self, exc, msg=''): raise getattr(builtins, exc)(msg)
    def tagged(self, key, exc): raise getattr(builtins, exc)('cause ' + key)
    def flag(self, n): return True
    def out(self, stream, mode, text):
        s = getattr(sys, stream)
        if mode == 'flush': s.flush()
        elif mode in ('isatty', 'writable'): getattr(s, mode)()
        elif mode in ('encoding', 'errors', 'closed'): str(getattr(s, mode))
        elif mode == 'surrogate': print(text + '\\udc80', file=sys.stderr)
        elif mode == 'buffer': s.buffer.write(text.encode()); s.buffer.flush()
        elif mode == 'traceback':
            import traceback
            try: raise ValueError(text)
            except ValueError: traceback.print_exc(file=s)
        elif mode == 'printflush': print(text, file=s, end='', flush=True)
        else: print(text, file=s)
builtins._S = _RT()
'''
OHARD = [13, 28, 5, 24, 30, 122, 12]
WHARD = [28, 5, 122, 27, 11, 32]


class C08(Check):
    id = 'C08'
    cases = {'quick': 2500, 'thorough': 40000}
    budget = {'quick': 120, 'thorough': 1800}
    rule = ('case = modules as real files (some missing, failing, noisy, hostile or ending the process) + arguments of the real command-line tool + destination (pipe, file, full device, closed pipe, old, new, linked, missing parents, directory ...) + script of outcomes of its system calls on the destination and the standard streams; '
            'exit status, standard output, standard error and disk are compared with the bindings that the library gives for the same request; non-trivial = the tool ran; distinct by outcome and system call log')
    real = 'pyo3_bindgen command-line program (whole process), pyo3_bindgen_engine, CPython 3.12 with its file system importer, real files and pipes'
    stub = 'outcome of libc open/write/close/mkdir/rename/... on the destination and the standard streams, entropy, hash seed'
    assumptions = ['the three standard streams are open (Rust treats writes to a closed standard stream as successful)', 'inspected code neither ends the process with a chosen exit status nor writes to file descriptor 1 directly', 'the outcome of close() is not reported by Rust']

    def setup(self, tier):
        if not os.path.exists(CLI):
            raise HarnessError('command-line tool is not built')

    def gen(self, rng, tier, i):
        g = wg.Gen(rng, roots=(1, 3), items=(1, 3), fan=(0, 2), depth=rng.choice([0, 1, 1, 2]), stdlib=0.05)
        w = g.world()
        names = [m['name'] for m in w['mods']]
        if rng.random() < 0.35:
            for m in w['mods']:
                if rng.random() < 0.5:
                    noisy(rng, m, '<%s>' % m['name'])
        if rng.random() < 0.2:
            weird.hostile(w, rng, 0.25)
        req = [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.06:
            req = [rng.choice(names) for _ in range(rng.choice([9, 17, 33, 65, 130]))]
        bad = rng.random()
        if bad < 0.12:
            req.insert(rng.randint(0, len(req)), rng.choice(['wmissing', names[0] + '.nosuch', '', '.', 'a b', names[0] + '.', '\u00e9\u00e9', names[0] + '..x', '-']))
        elif bad < 0.25:
            m = rng.choice(w['mods'])
            m['items'].insert(rng.choice([0, len(m['items'])]), {'k': 'fault', 'n': [], 'src': '_S.raise_(%r)\n' % rng.choice([e for e in EXC_ANY])})
        elif bad < 0.27:
            rng.choice(w['mods'])['items'].append({'k': 'fault', 'n': [], 'src': 'def (:\n'})
        elif bad < 0.31:
            m = rng.choice(w['mods'])
            m['items'].append({'k': 'die', 'n': [], 'src': 'import os, signal\nos.kill(os.getpid(), signal.SIGKILL)\n'})
        elif bad < 0.35:
            # generation fails although everything can be parsed: the name is not an identifier
            m = rng.choice(w['mods'])
            m['pkg'] = True
            w['mods'].append({'name': m['name'] + '.' + 'da-sh', 'pkg': False, 'doc': None, 'items': [{'k': 'fn', 'n': ['z'], 'src': 'def z(): ...\n'}], 'all': None})
        spec = {'world': w, 'req': req, 'style': rng.randint(0, 2), 'hash': rng.randint(1, 1000), 'rand': rng.randrange(1 << 30), 'prep': [], 'io': '', 'out': None, 'stdout': 'pipe'}
        r = rng.random()
        if r < 0.4:
            spec['stdout'] = rng.choice(["pipe"] * 8 + ["file", "file", "file", "full", "closed"])
            if spec['stdout'] in ('pipe', 'file') and rng.random() < 0.6:
                spec['io'] = self.std_script(rng)
        else:
            spec['out'], spec['prep'] = self.target(rng)
            if rng.random() < 0.55:
                spec['io'] = self.file_script(rng)
        return spec

    def target(self, rng):
        return rng.choice([
            ('out.rs', []), ('out.rs', [['file', 'out.rs', 'old']]), ('out.rs', [['file', 'out.rs', 'x' * 200000]]), ('out.rs', [['near', 'out.rs', rng.choice(NEAR)]]), ('a/out.rs', [['dir', 'a', ''], ['near', 'a/out.rs', rng.choice(NEAR)]]), ('@D/out.rs', []), ('@D/out.rs', [['file', 'out.rs', 'old']]), ('./out.rs', []), ('a/b/c/out.rs', []), ('@D/a/b/out.rs', []), ('@D/a/b/out.rs', [['dir', 'a', '']]),
            ('a/../out.rs', [['dir', 'a', '']]), ('a/../out.rs', []), ('out.rs', [['file', 'real.rs', 'old'], ['link', 'out.rs', 'real.rs']]), ('out.rs', [['link', 'out.rs', 'later.rs']]), ('l/out.rs', [['dir', 'real', ''], ['link', 'l', 'real']]), ('l/x/out.rs', [['dir', 'real', ''], ['link', 'l', 'real']]),
            ('out.rs', [['dir', 'out.rs', '']]), ('plain/out.rs', [['file', 'plain', 'p']]), ('plain/b/out.rs', [['file', 'plain', 'p']]), ('l/out.rs', [['link', 'l', 'nowhere']]), ('n' * 300, []), ('n' * 300 + '/out.rs', []), ('a/', []), ('', []), ('.', []), ('\u00e9 \u4e16/out.rs', []), ('/dev/full', []), ('/dev/stdout', []), ('-', []), ('a//b//out', []), ('..', [])])

    def std_script(self, rng):
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            out.append(rng.choice(['w%d:E%d' % (rng.choice([0, 0, 1, 2]), rng.choice(WHARD)), 'w%d:I' % rng.randint(0, 2), 'w%d:S%d' % (rng.randint(0, 2), rng.choice([1, 5, 700, 4096])), 'w0+:S%d' % rng.choice([50, 333, 1024]), 'w%d+:E28' % rng.choice([0, 1, 3]), 'w%d:X' % rng.randint(0, 1), 'w0:D%d' % rng.choice([1, 100])]))
        return ','.join(out)

    def file_script(self, rng):
        out = []
        for _ in range(rng.choice([1, 1, 2])):
            out.append(rng.choice(['o0:E%d' % rng.choice(OHARD), 'o0:I', 'w%d:E%d' % (rng.choice([0, 0, 1]), rng.choice(WHARD)), 'w%d:I' % rng.randint(0, 2), 'w%d:S%d' % (rng.randint(0, 2), rng.choice([1, 5, 700])), 'w0+:S%d' % rng.choice([50, 333, 1024]), 'w%d+:E28' % rng.choice([0, 1]),
                                   'm%d:E%d' % (rng.choice([0, 0, 1]), rng.choice([13, 28, 30, 5])), 'c0:E5', 'o0:X', 'o0:Y', 'w0:X', 'w0:D%d' % rng.choice([1, 100]), 'm0:X']))
        return ','.join(out)

    def expected(self, spec, wd, ex):
        """what the library says about the same request"""
        ops = [{'op': 'py', 'code': 'import sys, builtins, importlib.machinery\nsys.path.insert(0, %r)\nexec(open(%r).read(), {"__name__": "site"})\nif importlib.machinery.PathFinder not in sys.meta_path: sys.meta_path.append(importlib.machinery.PathFinder)\nimport importlib; importlib.invalidate_caches()\n' % (wd, os.path.join(wd, 'sitecustomize.py'))},
               {'op': 'gen', 'cfg': {}, 'req': [['n', n] for n in spec['req']], 'pretty': True}]
        r = ex.leg({'world': {}, 'threads': [ops], 'line_events': False}, timeout=30)
        if r.get('problem'):
            return {'outcome': 'died'}
        if r['results'][0][0]['outcome'] != 'ok':
            raise HarnessError(str(r['results'][0][0]))
        return r['results'][0][1]

    def run(self, spec, ex):
        base = tempfile.mkdtemp(dir=ex.scratch())
        wd, d = os.path.join(base, 'py'), os.path.join(base, 'disk')
        try:
            return self.tool(spec, ex, base, wd, d)
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def tool(self, spec, ex, base, wd, d):
        os.makedirs(wd)
        os.makedirs(d)
        with open(os.path.join(wd, 'sitecustomize.py'), 'w') as f:
            f.write(SITE)
        w = spec['world']
        for m in w['mods']:
            rel = m['name'].replace('.', '/')
            p = os.path.join(wd, rel + '/__init__.py' if m['pkg'] else rel + '.py')
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', encoding='utf-8', errors='surrogatepass') as f:
                f.write(wg.source(m))
        want = self.expected(spec, wd, ex)
        for kind, name, arg in spec['prep']:
            p = os.path.join(d, name)
            if kind in ('file', 'near'):
                with open(p, 'w', newline='', errors='surrogateescape') as f:
                    f.write(near(want.get('pretty') or 'old', arg) if kind == 'near' else arg)
            elif kind == 'dir':
                os.makedirs(p)
            else:
                os.symlink(arg, p)
        before = state(d)
        out = None if spec['out'] is None else spec['out'].replace('@D', d)
        args = []
        if spec['style'] == 0:
            args += ['-m'] + spec['req']
        elif spec['style'] == 1:
            for n in spec['req']:
                args += ['--module-name', n]
        else:
            args += ['-m'] + spec['req']
        if out is not None:
            args = (['--output=' + out] + args) if spec['style'] == 1 else args + ['-o', out]
        log = os.path.join(base, 'log')
        env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LANG': 'C.UTF-8', 'PYTHONPATH': wd, 'PYTHONHASHSEED': str(spec['hash']), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'LD_PRELOAD': SHIM, 'SIM_IO_PREFIX': d + '/', 'SIM_IO_REL': '1', 'SIM_IO_LOG': log,
               'SIM_IO_SCRIPT': spec['io'], 'SIM_IO_STD': '2' if out is None else '0', 'SIM_RAND': str(spec['rand'])}
        rfd = None
        if spec['stdout'] == 'pipe':
            so = subprocess.PIPE
        elif spec['stdout'] == 'file':
            so = open(os.path.join(base, 'stdout'), 'wb')
        elif spec['stdout'] == 'full':
            so = open('/dev/full', 'wb')
        else:
            rfd, wfd = os.pipe()
            os.close(rfd)
            so = os.fdopen(wfd, 'wb')
        try:
            p = subprocess.run([CLI] + args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            return [viol('hang', 'hang', 'the tool does not end: %s' % args)]
        finally:
            if so is not subprocess.PIPE:
                so.close()
        if spec['stdout'] == 'file':
            with open(os.path.join(base, 'stdout'), 'rb') as f:
                stdout = f.read()
        else:
            stdout = p.stdout or b''
        iolog = open(log).read().splitlines() if os.path.exists(log) else []
        hits = [l.split() for l in iolog]
        hard = [h for h in hits if len(h) > 3 and h[3][0] == 'E' and h[1] != 'close']
        died = 'die' in iolog
        for h in hits:
            if len(h) > 3:
                ex.fault('disk:%s:%s' % (h[1], h[3][0] + (h[3][1:] if h[3][0] == 'E' else '')))
        for k in ('full', 'closed'):
            if spec['stdout'] == k:
                ex.fault('stdout:' + k)
        rc = p.returncode
        err = p.stderr.decode('utf-8', 'replace')
        after = state(d)
        ex.stats['legs'] += 1
        ex.stats['events'] += len(hits)
        ex.probe('exit_%d' % rc)
        ex.probe('library_' + want['outcome'])
        dig = hashlib.blake2b(repr([rc, stdout, iolog, sorted(after.items()), want.get('outcome')]).encode(), digest_size=12).hexdigest()
        ex.digests.add(dig)
        ex.case_digest.update(dig.encode())
        where = 'arguments %s, standard output %s, script %r, calls %s, exit status %d, stderr %r' % (args, spec['stdout'], spec['io'], iolog[:8], rc, err[-400:])
        # what was delivered
        if out is None or out == '/dev/stdout':
            got = stdout
        else:
            try:
                with open(os.path.join(d, out), 'rb') as f:
                    got = f.read() if out != '/dev/full' else None
            except (OSError, ValueError):
                got = None
        pretty = want.get('pretty')
        if rc == 0:
            if want['outcome'] != 'ok':
                return [viol('lie', 'failure', 'exit status 0 although %s: %s' % (want.get('err') or 'the inspected code ends the process', where))]
            if got is None or got.decode('utf-8', 'replace') != pretty:
                return [viol('lie', 'content', 'exit status 0, but %s was delivered instead of the %d bytes of bindings: %s' % (None if got is None else '%d bytes' % len(got), len(pretty or ''), where))]
            if out not in (None, '/dev/stdout') and stdout:
                return [viol('lie', 'noise', 'text on standard output although the bindings go to a file: %r: %s' % (stdout[:200], where))]
            ex.probe('delivered')
            return []
        if not [l for l in err.splitlines() if l.strip() and not l.startswith('WARN')] and not died and want['outcome'] != 'died':
            return [viol('silent', 'message', 'fails without a message on standard error: %s' % where)]
        if want['outcome'] != 'ok':
            ex.probe('generation_failed')
            if stdout:
                return [viol('touched', 'stdout', 'generation failed, but standard output has %r: %s' % (stdout[:200], where))]
            new = {k: v for k, v in after.items() if v != 'dir' or k in before}
            if new != before:
                return [viol('touched', 'disk', 'generation failed, but the disk changed: %s -> %s: %s' % (before, after, where))]
            return []
        if pretty is None:
            return []
        if hard or died or spec['stdout'] in ('full', 'closed') and out in (None, '/dev/stdout'):
            return []
        if out is not None and not self.possible(spec, base):
            return []
        if out is not None and (out.startswith('-') or not out):
            return []
        return [viol('spurious', 'status', 'fails although the bindings can be generated and delivered: %s' % where)]

    def possible(self, spec, base):
        """can the parents be created and the target be opened? tried on a copy of the disk"""
        d = os.path.join(base, 'copy')
        os.makedirs(d)
        for kind, name, arg in spec['prep']:
            p = os.path.join(d, name)
            if kind in ('file', 'near'):
                open(p, 'w').close()
            elif kind == 'dir':
                os.makedirs(p)
            else:
                os.symlink(arg, p)
        if spec['out'].startswith('/dev/'):
            return spec['out'] == '/dev/stdout'
        # the parent directory as the operating system names it
        p = os.path.join(d, spec['out'].replace('@D/', ''))
        par = os.path.dirname(p)
        try:
            if '..' in spec['out']:
                return False if not os.path.isdir(os.path.join(d, 'a')) else True
            os.makedirs(par, exist_ok=True)
            open(p, 'w').close()
            return True
        except OSError:
            return False

    def nontrivial(self, spec, ex):
        return True

    def shrinks(self, spec):
        if spec['io']:
            parts = spec['io'].split(',')
            for k in range(len(parts)):
                yield with_(spec, ['io'], ','.join(parts[:k] + parts[k + 1:]))
        if len(spec['req']) > 1:
            for q in drop_chunks(spec['req']):
                if q:
                    yield with_(spec, ['req'], q)
        yield from shrink_world_in(spec)


CHECK = C08()
