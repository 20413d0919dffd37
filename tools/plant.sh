#!/bin/bash
exec 9>/tmp/plant.lock; flock -n 9 || { echo "already running"; exit 1; }
# tools/plant.sh ID [nocheck]: validates the planted change seeded/ID in a scratch copy of /repo and runs its property's check on it.
id=$1; d=/verif/seeded/$id; pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -d /tmp/b ] || cp -a /repo /tmp/b
cd /tmp/b && git checkout -q -- . && git fetch -q /repo main 2>/dev/null; git reset -q --hard $(git -C /repo rev-parse HEAD)
export CARGO_TARGET_DIR=/tmp/b/target CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.90.0 TERM=xterm
b() { find cli/src pfp/src -name '*.rs' -exec touch {} +; cargo build --workspace --locked --offline -q 2>&1 | grep -E '^error' -A6; }
tmp=/tmp/plant-demo; rm -rf /tmp/plant-demo; mkdir -p $tmp; cp $d/* $tmp; rm -f /tmp/plant-demo/patch.diff /tmp/plant-demo/meta.json
b; bash $tmp/demo.sh > /tmp/plant-clean.log 2>&1; echo "$id clean demo: $? (0 expected)"
git apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
b; bash $tmp/demo.sh > /tmp/plant-bug.log 2>&1; echo "$id bug demo: $? (nonzero expected): $(tail -1 /tmp/plant-bug.log)"
cargo nextest run --workspace --locked --offline --no-fail-fast 2>&1 | grep -E 'FAIL|Summary' | sort -u | head; 
unset CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
if [ -z "$2" ]; then cd /verif && PFP_REPO=/tmp/b VERIF_SEED=1 python3 check.py $pid; echo "$id check exit: $?"; fi
cd /tmp/b && git checkout -q -- .
