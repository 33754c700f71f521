#!/bin/bash
# sysroot.sh TARGET...: builds the interpreter's standard library for each target below port/target (once).
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
unset MIRI_SYSROOT CARGO_TARGET_DIR RUSTFLAGS
mkdir -p target; r=0; ps=()
for t in "$@"; do
  [ -e "target/sysroot-$t/done" ] && continue
  ( XDG_CACHE_HOME="$PWD/target/sysroot-$t" cargo +nightly miri setup --target "$t" >"target/sysroot-$t.log" 2>&1 && touch "target/sysroot-$t/done" || { cat "target/sysroot-$t.log" >&2; exit 1; } ) & ps+=($!)
done
for p in "${ps[@]}"; do wait $p || r=1; done; exit $r
