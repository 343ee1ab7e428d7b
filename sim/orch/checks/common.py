"""helpers shared by the checks"""
import sys, os, random, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib import *
import worldgen as wg

EXC_ANY = ['Exception', 'ImportError', 'ValueError', 'AttributeError', 'TypeError', 'KeyError', 'OSError', 'RuntimeError', 'MemoryError', 'RecursionError', 'KeyboardInterrupt', 'SystemExit', 'StopIteration', 'UnicodeError', 'GeneratorExit', 'SyntaxError', 'ModuleNotFoundError', 'AssertionError']
EXC_COMMON = ['Exception', 'ImportError', 'ValueError', 'AttributeError', 'TypeError', 'OSError', 'RuntimeError', 'SystemExit', 'KeyboardInterrupt']


def flags(rng, p=0.7):
    c = {}
    if rng.random() > p:
        c['suppress_python_stdout'] = False
    if rng.random() > p:
        c['suppress_python_stderr'] = False
    return c


def any_cfg(rng, p=0.25):
    """random configuration without the suppression flags"""
    c = {}
    for k, d in (('generate_preludes', True), ('generate_imports', True), ('generate_classes', True), ('generate_type_vars', True), ('generate_functions', True), ('generate_properties', True), ('generate_docs', True), ('include_private', False), ('generate_dependencies', False), ('traverse_submodules', True)):
        if rng.random() < p:
            c[k] = not d
    if rng.random() < p:
        c['blocklist_names'] = rng.choice([[], ['core'], ['test', 'sa', 'f1'], ['builtins', 'testing', 'tests', 'test', 'type']])
    return c


def requests(rng, world, names=None, n=None, by=('n', 'b', 'o', 'ob')):
    names = names or [m['name'] for m in world['mods']]
    out = []
    for _ in range(n or rng.randint(1, 3)):
        k = rng.choice(by)
        if k in ('n', 'o'):
            out.append([k, rng.choice(names)])
        else:
            out.append([k, [rng.choice(names) for _ in range(rng.randint(1, 3))]])
    return out


def pick_faults(rng, sites, n, excs, allow=None):
    """positions for n faults: uniform over distinct sites first (rare sites are reached as often as frequent ones), then over occurrences"""
    by = {}
    for i, s in enumerate(sites):
        if not s.startswith('op ') and (allow is None or allow(s)):
            by.setdefault(s, []).append(i)
    keys = sorted(by)
    out = []
    for _ in range(n):
        if not keys:
            break
        s = rng.choice(keys)
        occ = by[s]
        i = occ[0] if rng.random() < 0.3 else rng.choice(occ)
        out.append([i, rng.choice(excs)])
    return sorted({i: [i, e] for i, e in out}.values())


def shrink_faults(spec, key='faults'):
    for smaller in drop_chunks(spec.get(key, [])):
        yield with_(spec, [key], smaller)


def shrink_threads(spec, key='threads'):
    th = spec[key]
    if len(th) > 1:
        for i in range(len(th)):
            yield with_(spec, [key], th[:i] + th[i + 1:])
    for i in range(len(th)):
        if len(th[i]) > 1:
            for j in range(len(th[i])):
                yield with_(spec, [key, i], th[i][:j] + th[i][j + 1:])
    for i in range(len(th)):
        for j, op in enumerate(th[i]):
            rq = op.get('req')
            if rq and isinstance(rq[0], list) and len(rq) > 1:
                for k in range(len(rq)):
                    yield with_(spec, [key, i, j, 'req'], rq[:k] + rq[k + 1:])
            if op.get('cfg'):
                for k in list(op['cfg']):
                    c = dict(op['cfg'])
                    del c[k]
                    yield with_(spec, [key, i, j, 'cfg'], c)


def shrink_sched(spec):
    s = spec.get('sched')
    if s and 'explicit' in s:
        for smaller in drop_chunks(s['explicit']):
            yield with_(spec, ['sched'], {'explicit': smaller})


def shrink_world_in(spec, key='world'):
    for w in wg.shrink_world(spec[key]):
        yield with_(spec, [key], w)
