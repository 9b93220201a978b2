#!/bin/bash
# Which lines of svdtools do the generated cases reach, undisturbed?
# usage: coverage.sh [CASES]; writes a report per file, and the lines not reached to $OUT/missing
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=${OUT:-/tmp/coverage}
rm -rf "${OUT:?}"
mkdir -p "$OUT"
export LLVM_PROFILE_FILE=$OUT/prof/%4m.profraw
B=$(dirname "$(rustc --print target-libdir)")/bin
(cd /repo && env -u RUSTC_WRAPPER RUSTFLAGS=-Cinstrument-coverage cargo build -q --offline --bin svdtools --target-dir "$OUT/target")
export VERIF_ROOT=$V BIN=$OUT/target/debug/svdtools
"$V/target/release/driver" export "${1:-1000}" "$OUT/cases"
export LLVM_PROFILE_FILE=$OUT/prof/%4m.profraw
find "$OUT/cases" -maxdepth 2 -name cmd.sh | xargs -P 8 -I{} timeout 20 bash {} || true
"$B/llvm-profdata" merge -o "$OUT/all.profdata" "$OUT"/prof/*.profraw
"$B/llvm-cov" report "$BIN" -instr-profile="$OUT/all.profdata" /repo/src > "$OUT/report"
"$B/llvm-cov" show "$BIN" -instr-profile="$OUT/all.profdata" /repo/src > "$OUT/show"
rm -rf "$OUT/cases" "$OUT/prof"
cut -c1-180 "$OUT/report"
