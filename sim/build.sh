#!/bin/bash
# builds the simulation host around the engine in /repo's working tree (and, for C08, the real command-line tool)
cd "$(dirname "$0")/.." || exit 2
. sim/env.sh
mkdir -p target evidence
exec 9>target/.lock
flock 9
log=target/build-$1.log
run() { "$@" >"$log" 2>&1 9>&- || { tail -40 "$log" >&2; echo "build failed: $*" >&2; exit 2; }; }
if [ ! -e target/simshim.so ] || [ sim/shim/shim.c -nt target/simshim.so ]; then
  run gcc -O2 -w -shared -fPIC -o target/simshim.so.tmp sim/shim/shim.c -ldl
  mv target/simshim.so.tmp target/simshim.so
fi
run cargo build --offline --locked --manifest-path sim/host/Cargo.toml --target-dir target/host
case "$1" in
C08|C17|all) run cargo build --offline --locked --manifest-path /repo/Cargo.toml -p pyo3_bindgen_cli -p pyo3_bindgen_macros --target-dir target/cli ;;
esac
exit 0
