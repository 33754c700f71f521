#!/usr/bin/env python3
"""Generates v/<name>/{Cargo.toml,build.rs}: the repository's crate (its working tree, /repo/src/lib.rs)
compiled again with another set of features / compile-time environment."""
import os
here = os.path.dirname(os.path.abspath(__file__))
# name: (features, env)
def blk(s, d, c, z):
    e = {}
    for p, (mc, kc, nc) in zip("SDCZ", (s, d, c, z)):
        e[f"MATMUL_{p}GEMM_MC"] = mc; e[f"MATMUL_{p}GEMM_KC"] = kc; e[f"MATMUL_{p}GEMM_NC"] = nc
    return e
TINY = blk((8, 8, 8), (8, 8, 8), (4, 4, 4), (4, 4, 4))
ODD = blk((9, 11, 13), (10, 13, 17), (5, 7, 9), (6, 9, 11))
MID = blk((16, 24, 40), (24, 32, 48), (12, 20, 28), (8, 16, 36))
THR = blk((8, 512, 512), (8, 512, 512), (4, 512, 512), (4, 512, 512))
MAX = blk(*[(65536, 65536, 65536)] * 4)
DEEP = blk((8, 65536, 65536), (8, 65536, 65536), (4, 65536, 65536), (4, 65536, 65536))
V = {
  "fma":     (["std", "cgemm"], {"MMTEST_FEATURE": "fma"}),
  "avx":     (["std", "cgemm"], {"MMTEST_FEATURE": "avx"}),
  "sse2":    (["std", "cgemm"], {"MMTEST_FEATURE": "sse2"}),
  "none":    (["std", "cgemm"], {"MMTEST_FEATURE": "none"}),
  "nostd":   (["cgemm"], {}),
  "dbg":     (["std", "cgemm", "threading"], {}),
  "dbgavx":  (["std", "cgemm"], {"MMTEST_FEATURE": "avx"}),
  "dbgnone": (["std", "cgemm"], {"MMTEST_FEATURE": "none"}),
  "dbgtiny": (["std", "cgemm", "threading", "constconf"], TINY),
  "tiny":    (["std", "cgemm", "threading", "constconf"], TINY),
  "odd":     (["std", "cgemm", "threading", "constconf"], ODD),
  "mid":     (["std", "cgemm", "threading", "constconf"], MID),
  "tinynone":(["std", "cgemm", "threading", "constconf"], dict(TINY, MMTEST_FEATURE="none")),
  "oddavx":  (["std", "cgemm", "threading", "constconf"], dict(ODD, MMTEST_FEATURE="avx")),
  "thr":     (["std", "cgemm", "threading", "constconf"], THR),
  "thrnone": (["std", "cgemm", "threading", "constconf"], dict(THR, MMTEST_FEATURE="none")),
  "dbgthr":  (["std", "cgemm", "threading", "constconf"], THR),
  "oddnone": (["cgemm", "constconf"], ODD),   # no_std, odd blocks
  "real":    (["std"], {}),                   # without the complex functions
  "realthr": (["std", "threading", "constconf"], THR),
  "realnostd": ([], {}),
  "max":     (["std", "cgemm", "threading", "constconf"], MAX),   # as large as the library admits
  "maxnone": (["std", "cgemm", "threading", "constconf"], dict(MAX, MMTEST_FEATURE="none")),
  "deepavx": (["std", "cgemm", "threading", "constconf"], dict(DEEP, MMTEST_FEATURE="avx")),
}
for name, (feats, env) in V.items():
    d = os.path.join(here, "v", name); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(f'''[package]
name = "mm_{name}"
version = "0.0.0"
edition = "2018"
build = "build.rs"

[lib]
path = "/repo/src/lib.rs"
test = false
doctest = false
bench = false

[dependencies]
rawpointer = "0.2"
thread-tree = {{ version = "0.3.2", optional = true }}
once_cell = {{ version = "1.7", optional = true }}
num_cpus = {{ version = "1.13", optional = true }}

[features]
default = [{", ".join('"%s"' % x for x in feats)}]
cgemm = []
threading = ["thread-tree", "std", "once_cell", "num_cpus"]
std = []
constconf = []
''')
    with open(os.path.join(d, "build.rs"), "w") as f:
        f.write("fn main() {\n    println!(\"cargo:rerun-if-changed=build.rs\");\n")
        for k, v in sorted(env.items()):
            f.write(f'    println!("cargo:rustc-env={k}={v}");\n')
        f.write("}\n")
names = list(V)
with open(os.path.join(here, "Cargo.toml"), "w") as f:
    f.write("[workspace]\nresolver = \"2\"\nmembers = [\"explorer\"]\n\n")
    f.write("[profile.release]\nopt-level = 3\ndebug = false\npanic = \"unwind\"\ncodegen-units = 4\n\n")
    for n in names:
        if n.startswith("dbg"):
            f.write(f"[profile.release.package.mm_{n}]\nopt-level = 1\ndebug-assertions = true\noverflow-checks = true\n\n")
with open(os.path.join(here, "explorer", "Cargo.toml"), "w") as f:
    f.write('[package]\nname = "explorer"\nversion = "0.0.0"\nedition = "2021"\npublish = false\n\n[dependencies]\n')
    f.write('libc = "0.2"\nmatrixmultiply = { path = "/repo", features = ["cgemm", "threading"] }\n')
    for n in names: f.write(f'mm_{n} = {{ path = "../v/{n}" }}\n')
