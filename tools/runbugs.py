"""Runs the check of a planted bug's property (or the given checks) on /repo with the bug applied, and restores /repo."""
import json, os, subprocess, sys, time
ids = [a for a in sys.argv[1:] if not a.startswith('C')] or sorted(os.listdir('/verif/seeded'))
checks = [a for a in sys.argv[1:] if a.startswith('C')]
def git(*a): return subprocess.run(['git', '-C', '/repo', *a], capture_output=True, text=True)
assert not git('status', '--porcelain').stdout.strip(), 'dirty'
for i in ids:
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    r = git('apply', d + '/patch.diff')
    if r.returncode: print(i, 'does not apply', r.stderr); continue
    try:
        for c in checks or [prop]:
            t = time.time()
            p = subprocess.run(['bash', '/verif/check.sh', c], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'), cwd='/verif')
            v = [l for l in p.stdout.splitlines() if 'VIOLATION' in l]
            print(i, c, 'rc', p.returncode, '%.0fs' % (time.time() - t), v[:2] or p.stdout[-300:] + p.stderr[-500:], flush=True)
    finally:
        git('checkout', '--', '.')
