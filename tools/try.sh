#!/bin/bash
# extract one unit and verify it: tools/try.sh UNIT [verus options]
u=$1; shift
cd /verif/vx && cargo build --release --offline -q 2>/dev/null || exit 1
mkdir -p /tmp/try; cd /tmp/try
/verif/vx/target/release/vx --repo ${REPO:-/repo} --template /verif/proofs/$u.vt --out $u.rs --map $u.json || exit 1
python3 - $u.json <<'P'
import json,sys
for p in json.load(open(sys.argv[1]))["problems"]: print("PROBLEM", p)
P
verus $u.rs --triggers-mode silent --num-threads 8 "$@" 2>&1
