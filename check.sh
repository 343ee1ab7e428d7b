#!/bin/bash
# bash check.sh <property> [check|replay FILE|case N|selftest [N]]  -- builds from /repo's working tree, then runs the simulator
cd "$(dirname "$0")" || exit 2
. sim/env.sh
id=$1; shift
bash sim/build.sh "$id" || exit 2
exec python3 sim/orch/main.py "$id" "${@:-check}"
