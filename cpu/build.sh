#!/bin/bash
# Builds the instruction explorer: once against the library with the standard library, and once per set of features
# enabled at compile time against the library without it.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
one() { RUSTFLAGS="$2" CARGO_TARGET_DIR="$PWD/target/$1" cargo build -q --offline --locked --release $3 2>"target/$1.log" || { cat "target/$1.log" >&2; return 1; }; }
mkdir -p target
one std "" "--features std" & p1=$!
one base "" & p2=$!
one avx "-Ctarget-feature=+avx" & p3=$!
one fma "-Ctarget-feature=+avx,+fma" & p4=$!
one avx2 "-Ctarget-feature=+avx2,+fma" & p5=$!
r=0; for p in $p1 $p2 $p3 $p4 $p5; do wait $p || r=1; done; exit $r
