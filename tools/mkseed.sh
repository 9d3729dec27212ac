#!/bin/bash
# mkseed.sh ID : takes the edit made in /tmp/seed/repo as /verif/seeded/ID/patch.diff, verifies build, tests, demo
id=$1; d=/verif/seeded/$id; mkdir -p $d
cd /tmp/seed/repo || exit 1
git diff -- src > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cp /verif/tools/demo_template.sh $d/demo.sh; chmod +x $d/demo.sh
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/seed/repo/target CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E "^test result|error|FAILED|failed" | head
bash $d/demo.sh > /tmp/seed/demo.out 2>&1; r1=$?; tail -3 /tmp/seed/demo.out
git checkout -q -- src
cargo test --workspace --no-run --offline 2>&1 | tail -1
bash $d/demo.sh > /tmp/seed/demo.out 2>&1; r0=$?; tail -2 /tmp/seed/demo.out
echo "$id: with patch exit $r1 (want nonzero), without exit $r0 (want 0)"
