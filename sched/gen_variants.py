#!/usr/bin/env python3
"""Generates v/<name>/: the repository's crate (its working tree) built again with another block configuration."""
import os
here = os.path.dirname(os.path.abspath(__file__))
def blk(s, c):
    e = {}
    for p in "SDCZ":
        mc, kc, nc = s if p in "SD" else c
        e[f"MATMUL_{p}GEMM_MC"] = mc; e[f"MATMUL_{p}GEMM_KC"] = kc; e[f"MATMUL_{p}GEMM_NC"] = nc
    return e
K1 = blk((8, 1024, 1024), (4, 1024, 1024))
V = {
  "none": dict(K1, MMTEST_FEATURE="none"),                    # portable kernels
  "sse2": dict(K1, MMTEST_FEATURE="sse2"),                    # 16-byte vector kernels where there are any
  "best": dict(K1),                                           # what the CPU offers
  "nblk": dict(blk((8, 4096, 4096), (4, 4096, 4096)), MMTEST_FEATURE="none"),  # one depth block
  "deft": {"MMTEST_FEATURE": "none"},                         # default blocks
}
for name, env in V.items():
    d = os.path.join(here, "v", name); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write(f'''[package]
name = "sm_{name}"
version = "0.0.0"
edition = "2018"
build = "build.rs"

[lib]
path = "/repo/src/lib.rs"
test = false
doctest = false
bench = false

[dependencies]
rawpointer = "0.2"
thread-tree = {{ version = "0.3.2", optional = true }}
once_cell = {{ version = "1.7", optional = true }}
num_cpus = {{ version = "1.13", optional = true }}

[features]
default = ["std", "cgemm", "threading", "constconf"]
cgemm = []
threading = ["thread-tree", "std", "once_cell", "num_cpus"]
std = []
constconf = []
''')
    with open(os.path.join(d, "build.rs"), "w") as f:
        f.write("fn main() {\n    println!(\"cargo:rerun-if-changed=build.rs\");\n")
        for k, v in sorted(env.items()): f.write(f'    println!("cargo:rustc-env={k}={v}");\n')
        f.write("}\n")
open(os.path.join(here, "Cargo.toml"), "w").write('''[workspace]
resolver = "2"
members = ["harness"]

[profile.release]
opt-level = 2
debug = "line-tables-only"
panic = "unwind"
''')
with open(os.path.join(here, "harness", "Cargo.toml"), "w") as f:
    f.write('[package]\nname = "sched"\nversion = "0.0.0"\nedition = "2021"\npublish = false\nbuild = "build.rs"\n\n[dependencies]\nlibc = "0.2"\n')
    for n in V: f.write(f'sm_{n} = {{ path = "../v/{n}" }}\n')
