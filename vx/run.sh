#!/bin/bash
# dev helper: vx/run.sh UNIT [verus args]
u=$1; shift
mkdir -p /tmp/vx
/verif/vx/target/debug/vx --repo ${REPO:-/repo} --template /verif/proofs/$u.vt --out /tmp/vx/$u.rs --map /tmp/vx/$u.json && cat /tmp/vx/$u.json | python3 -c "import json,sys; print(json.load(sys.stdin)['problems'])"
verus /tmp/vx/$u.rs --num-threads 8 "$@"
