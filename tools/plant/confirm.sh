#!/bin/bash
# confirm.sh ID...: demo without and with the patch and the stable tests, in a
# scratch clone of /repo (leaves /repo alone).
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu LIBCLANG_PATH=/usr/lib/llvm-14/lib CARGO_NET_OFFLINE=true
w=$(mktemp -d /tmp/confirm.XXXXXX)
trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/r"
cp /repo/Cargo.lock "$w/r/" 2>/dev/null
for id in "$@"; do
  d=/verif/seeded/$id
  cd "$w/r" || exit 1
  git checkout -q -- .
  timeout 300 bash "$d/demo.sh" >/tmp/try.$id.0 2>&1; c=$?
  git apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
  timeout 300 bash "$d/demo.sh" >/tmp/try.$id.1 2>&1; b=$?
  CARGO_TARGET_DIR="$w/t" cargo test --workspace --features mpi --no-fail-fast --locked --offline -- --test-threads 8 >"$w/log" 2>&1
  python3 /opt/vp/results.py "$w/out.json" "cargo:$w/log" >/dev/null 2>&1
  t=$(python3 - "$w/out.json" <<'P'
import json, sys
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x,k):
    v=x.get(k,[]); return set(v if isinstance(v,list) else v)
w=names(base,'stable') or names(base,'passed') or names(base,'tests')
print('tests-ok' if w and w<=names(r,'passed') else 'TESTS-FAIL %s' % sorted(w-names(r,'passed'))[:3])
P
)
  echo "$id demo-clean=$c demo-bug=$b $t"
done
