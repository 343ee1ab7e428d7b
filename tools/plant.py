"""Plants a bug: writes /verif/seeded/<id>/ and confirms in a scratch copy of /repo that the change builds, passes the
stable tests, and that the demonstration fails with it and passes without it. (Development tool; no check uses it.)"""
import json, os, subprocess, shutil, sys
SEEDED = '/verif/seeded'
COPY = '/tmp/plant/repo'
ENV = dict(os.environ, HOME='/root', PATH='/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_PROFILE_TEST_DEBUG='line-tables-only', PYO3_PYTHON='/usr/bin/python3.12')
HEAD = '''#!/bin/bash
# exit 0: the property holds; run with the repository as working directory, after its build
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3; trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1
'''
CLI = HEAD + 'B=$R/target/debug/pyo3_bindgen\n'
RUST = HEAD + '''export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true PYO3_PYTHON=/usr/bin/python3.12
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && cp "$R/Cargo.lock" "$T/Cargo.lock" || exit 3
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pyo3_bindgen = { path = "$R/pyo3_bindgen" }
pyo3 = { version = "0.21", default-features = false }
EOF
CARGO_TARGET_DIR="$T/target" cargo build --offline -q --manifest-path "$T/Cargo.toml" 2>"$T/log" || { cat "$T/log"; exit 3; }
mkdir -p "$T/work" && cd "$T/work" || exit 3
timeout 120 "$T/target/debug/demo" "$@"
'''


def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def sync():
    if not os.path.isdir(COPY):
        os.makedirs('/tmp/plant', exist_ok=True)
        sh('cp -a /repo ' + COPY, '/')
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', COPY)


def tests():
    rc, out = sh('cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 > /tmp/plant/test.log 2>&1; python3 /opt/vp/results.py /tmp/plant/out.json cargo:/tmp/plant/test.log', COPY)
    res = json.load(open('/tmp/plant/out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('stable') or base.get('passed') or base.get('pass') or [])
    passed = set(res.get('passed') or res.get('pass') or [])
    return len(stable), sorted(stable - passed)


def plant(id, prop, edits, demo, needs, breaks, files={}):
    sync()
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    for path, old, new in edits:
        p = os.path.join(COPY, path)
        s = open(p).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh('git diff', COPY)
    for line in diff.splitlines():
        if line.startswith('-') and not line.startswith('---'):
            pass
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(demo)
    for n, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # original lines only?
    for path, old, new in edits:
        rc, bl = sh('git blame -s HEAD -- ' + path, COPY)
        olds = {l.strip() for l in old.splitlines()} - {l.strip() for l in new.splitlines()}
        hit = [l[:8] for l in bl.splitlines() if l.split(') ', 1)[-1].strip() in olds]
        print(id, 'changed lines come from', sorted(set(hit)))
    return verify(id)


def verify(id):
    d = os.path.join(SEEDED, id)
    sync()
    rc, out = sh('cargo test --workspace --all-targets --no-run --locked --offline', COPY)
    assert rc == 0, out[-2000:]
    rc0, out0 = sh('bash %s/demo.sh' % d, COPY)
    rc, out = sh('git apply %s/patch.diff' % d, COPY)
    assert rc == 0, out
    rc, out = sh('cargo test --workspace --all-targets --no-run --locked --offline', COPY)
    if rc:
        print(id, 'DOES NOT BUILD', out[-3000:])
        return False
    n, missing = tests()
    rc1, out1 = sh('bash %s/demo.sh' % d, COPY)
    ok = rc0 == 0 and rc1 != 0 and not missing
    print(id, 'OK' if ok else 'BAD', 'unchanged rc', rc0, 'patched rc', rc1, 'stable', n, 'failing', missing)
    if not ok:
        print('--- unchanged:', out0[-1500:], '\n--- patched:', out1[-1500:])
    else:
        print('   ', out1.strip()[-300:])
    sync()
    return ok


if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(os.listdir(SEEDED)):
        verify(i)
