#!/bin/bash
# Which regions of the crate one eighth of the quick workloads reaches (no check uses this).  Output: a report per file.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
d=$(mktemp -d /tmp/cov.XXXXXX)
trap 'rm -rf "$d"' EXIT
export CARGO_TARGET_DIR=$d/t RUSTFLAGS=-Cinstrument-coverage LLVM_PROFILE_FILE=$d/p/%m-%p.profraw
(cd "$here/harness" && cargo build --release --offline --bins --features serde,rayon,typed_all 2> "$d/build.log")
bin=$(rustc --print sysroot)/lib/rustlib/$(rustc -vV | sed -n 's/host: //p')/bin
cd "$d"
for b in t/release/c[0-9][0-9]; do
  timeout 900 $b --seed 1 --tier quick --shard 0 --nshards 8 --out $d/o.json > $d/log 2>&1 || echo "$b: $?"
done
for m in c01 c07 c08 c09 c10 c11 c12 c13 c16 c17 c20 c21 c22 c23 c24; do
  timeout 900 t/release/wide --mode $m --seed 1 --tier quick --shard 0 --nshards 8 --out $d/o.json > $d/log 2>&1 || echo "wide $m: $?"
done
"$bin/llvm-profdata" merge -sparse p/*.profraw -o m.profdata
objs=$(ls t/release/c[0-9][0-9] t/release/wide | sed 's/^/-object /' | tr '\n' ' ')
"$bin/llvm-cov" report ${objs#-object } -instr-profile m.profdata 2> /dev/null | grep -E 'Filename|repo/src' | awk '{print $1, $2, $3, $4}'
"$bin/llvm-cov" show ${objs#-object } -instr-profile m.profdata -show-instantiations=false /repo/src 2> /dev/null | grep -E '^/repo|^ +[0-9]+\| +0\|' | grep -B1 -E '\| +0\|' || true
