#!/usr/bin/env python3
"""C17: runs the bounded space of calls in the interpreter (Miri) for every target and instruction set of the plan.
port.py check TIER | port.py replay FILE | port.py plan TIER (the targets needed, one line)"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VD = os.environ.get("VERIF_DIR", os.path.dirname(HERE))
A, R, I, S, P, X = "aarch64-unknown-linux-gnu", "armv7-unknown-linux-gnueabihf", "i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "x86_64-unknown-linux-gnu"
TYPES = "sdcz"; FULL = "std,threading"
SMALL = {f"MATMUL_{t}GEMM_{p}": v for t in "SDCZ" for p, v in (("MC", "8"), ("KC", "16"), ("NC", "16"))}
# name, target, enabled instruction sets, library features, block sizes, interpreter flags
def conf(name, target, tf="", feat=FULL, env=SMALL, flags="", profile="dev"): return {"name": name, "target": target, "tf": tf, "features": feat, "env": env, "flags": flags, "profile": profile}
QUICK = [conf("AArch64, NEON", A), conf("ARMv7, 32 bit", R), conf("i686, 32 bit", I), conf("s390x, big endian, no_std", S, "", ""), conf("PowerPC, 32 bit, big endian", P),
         conf("x86-64 AVX", X, "+avx"), conf("x86-64 FMA", X, "+avx,+fma"), conf("x86-64 AVX2 and FMA, no_std", X, "+avx2,+fma", "")]
DEEP = QUICK + [conf("AArch64, NEON, default blocks", A, env={}), conf("AArch64, NEON, no_std", A, "", ""), conf("x86-64 SSE2, default blocks", X, env={}), conf("x86-64 AVX2 and FMA, default blocks", X, "+avx2,+fma", env={}),
        conf("x86-64 AVX, no_std", X, "+avx", ""), conf("i686 AVX2 and FMA", I, "+avx2,+fma"), conf("i686 AVX", I, "+avx"), conf("i686, default blocks, no_std", I, "", "", {}), conf("s390x, big endian", S),
        conf("AArch64, NEON, tree borrows", A, flags="-Zmiri-tree-borrows"), conf("x86-64 AVX2 and FMA, tree borrows", X, "+avx2,+fma", flags="-Zmiri-tree-borrows"), conf("x86-64 AVX2 and FMA, std", X, "+avx2,+fma")]

# sizes near the limits of a 32-bit address space: with the usual blocks (nothing may be refused), and with the largest blocks the crate admits
BIG = {f"MATMUL_{t}GEMM_{p}": "65536" for t in "SDCZ" for p in ("MC", "KC", "NC")}
LIMITS = [(conf("i686, sizes near the limits", I, env={}), "no", ["65536x65536x1", "1x65536x65536", "46341x92683x1", "32768x32768x32768"]), (conf("ARMv7, sizes near the limits", R, env={}), "no", ["65536x65536x1", "1x65536x65536"]),
          (conf("i686, largest blocks, as released", I, feat="std", env=BIG, profile="unchecked"), "refuse", ["65536x65536x1", "32768x16384x1", "1x32768x65536", "1x65536x8192"])]
DEEP += [conf("AArch64, NEON, as released", A, profile="unchecked"), conf("i686, as released", I, profile="unchecked"), conf("x86-64 AVX2 and FMA, as released", X, "+avx2,+fma", profile="unchecked")]

class Broken(Exception): pass
def miri(c, args, threads=False, seed=0, env=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("MATMUL_", "MMTEST", "RUSTFLAGS", "CARGO_TARGET", "MIRI"))}
    e.update(c["env"]); e["CARGO_NET_OFFLINE"] = "true"
    tag = re.sub(r"\W+", "-", c["name"])
    e["CARGO_TARGET_DIR"] = f"{HERE}/target/p-{tag}"; e["MIRI_SYSROOT"] = f"{HERE}/target/sysroot-{c['target']}/miri"
    e["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-strict-provenance -Zmiri-seed={seed} {c['flags']}" + (" -Zmiri-ignore-leaks" if threads else "")
    if c["tf"]: e["RUSTFLAGS"] = "-Ctarget-feature=" + c["tf"]
    if env: e.update(env)
    f = ["--features", c["features"]] if c["features"] else []
    return subprocess.run(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--profile", c["profile"], "--target", c["target"], *f, "--", *args], cwd=HERE, env=e, capture_output=True, text=True)
def judge(c, r):
    """-> (verdict, text): ok, bad or skip"""
    if r.returncode == 0 and "DONE" in r.stdout: return "ok", ""
    err = r.stderr
    m = re.search(r"^WRONG.*$", r.stdout, re.M)
    if m: return "bad", "wrong result: " + m.group(0)[6:]
    m = re.search(r"^error: (Undefined Behavior|abnormal termination|memory leaked|the evaluated program deadlocked|deadlock|the program aborted)(.*)$", err, re.M)
    if m: 
        at = re.search(r"^\s*--> (\S+)", err[m.start():], re.M)
        return "bad", m.group(1) + m.group(2) + (f" at {at.group(1)}" if at else "")
    m = re.search(r"panicked at (\S+)\s*\n?(.*)", err)
    if m: return "bad", f"the call panics at {m.group(1)} {m.group(2)}"
    m = re.search(r"^error: (unsupported operation.*|resource exhaustion.*)$", err, re.M)
    if m: return "skip", m.group(1)
    raise Broken(f"{c['name']}: exit {r.returncode}: {err[-1500:]}")
def last(r):
    x = [l for l in r.stdout.splitlines() if l.startswith("CASE")]
    return x[-1][5:] if x else "?"

def tiles(th):
    """Part of C05: the edge-tile buffers (thread-local or on the stack) of many threads, whose addresses the interpreter varies and whose ends it watches."""
    t0 = time.time(); confs = [c for c in DEEP if c["name"] in ("AArch64, NEON", "x86-64 AVX", "x86-64 AVX2 and FMA, no_std") or th and not c["flags"] and c["target"] in (A, X)]
    jobs = [(c, {"args": ["threads", "tiles"], "threads": True, "seed": s, "env": {"MATMUL_NUM_THREADS": "1"}}) for c in confs for s in range(8 if th else 2)]
    def work(j): return judge(j[0], miri(j[0], j[1]["args"], True, j[1]["seed"], j[1]["env"]))
    try:
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            first = list(ex.map(work, jobs[::len(jobs) // len(confs)])); res = list(ex.map(work, jobs))
    except Broken as e: print("engine error:", e, file=sys.stderr); return 2
    bad = [(j, t) for j, (v, t) in zip(jobs, res) if v == "bad"]; skipped = sorted({f"{j[0]['name']}: {t}" for j, (v, t) in zip(jobs, res) if v == "skip"})
    print(f"C05 [{'thorough' if th else 'quick'}]: edge-tile buffers of {24 * (len(jobs) - sum(v == 'skip' for v, _ in res))} threads interpreted, {time.time()-t0:.1f} s")
    for s in skipped: print("not interpretable:", s)
    f = f"{VD}/evidence/C05.json"
    try: ev = json.load(open(f))
    except (OSError, ValueError): ev = None
    if ev:
        ev["coverage"]["edge_tile_buffers_interpreted"] = 24 * sum(v != "skip" for v, _ in res); ev["violations"] = max(int(bool(bad)), ev.get("violations", 0)); ev["wall_s"] = round(ev.get("wall_s", 0) + time.time() - t0, 2)
        json.dump(ev, open(f, "w"))
    if not bad: return 0
    (c, job), text = bad[0]; f = f"{VD}/evidence/replay_C05_tiles.txt"
    open(f, "w").write("C05\n" + json.dumps(c) + "\n" + json.dumps(job) + "\n" + text + "\n")
    print(f"C05: {c['name']}: {' '.join(job['args'])}: {text}"); print(f"VIOLATION property=C05 replay={f}"); return 1

def main():
    t0 = time.time(); mode, arg = sys.argv[1:3]
    if mode == "plan": print(A, X) if arg == "tiles" else print(*dict.fromkeys(c["target"] for c in (DEEP if arg == "thorough" else QUICK))); return 0
    if mode == "replay":
        l = open(arg).read().splitlines(); c = {"profile": "dev", **json.loads(l[1])}; c["name"] = "replay"; job = json.loads(l[2])
        v, text = judge(c, miri(c, job["args"], job["threads"], job["seed"], job["env"]))
        print(f"{l[0]}: {json.loads(l[1])['name']}: {' '.join(job['args'])}: {v} {text}")
        if v == "bad": print(f"VIOLATION property={l[0]} replay={arg}"); return 1
        return 0
    th = arg == "thorough"
    if mode == "tiles": return tiles(th)
    confs = DEEP if th else QUICK; par = os.cpu_count() or 4
    bad, rows, runs, skipped, steps = [], [], 0, [], 0
    # jobs: a slice of the calls of one type for one configuration, or a scenario with threads
    PARTS = 12 if th else 4
    jobs = []
    for c in confs:
        for t in TYPES:
            for i in range(PARTS): jobs.append((c, {"args": [arg, t, str(i), str(PARTS)], "threads": False, "seed": 0, "env": {"MATMUL_NUM_THREADS": "1"}}))
    jobs.sort(key=lambda j: int(j[1]["args"][2]))
    tj = []
    for c in confs:
        if "threading" not in c["features"]: continue
        for s in range(4 if th else 1):
            tj.append((c, {"args": ["threads", "first"], "threads": True, "seed": s, "env": {"MATMUL_NUM_THREADS": "2"}}))
            if s == 0 and not c["flags"] and (th or c["target"] == R): tj.append((c, {"args": ["threads", "armcall" if c["target"] == R else "call"], "threads": True, "seed": s, "env": {"MATMUL_NUM_THREADS": "2"}}))
    for c in confs: tj.append((c, {"args": ["threads", "tiles"], "threads": True, "seed": 0, "env": {"MATMUL_NUM_THREADS": "1"}}))
    for c, refuse, shapes in LIMITS:
        for t in TYPES:
            for x in shapes if th or t == "s" else shapes[:2]: tj.append((c, {"args": ["limits", t, x, refuse], "threads": True, "seed": 0, "env": {"MATMUL_NUM_THREADS": "4"}}))
    jobs = tj + jobs
    def build(c):
        r = miri(c, ["one", "s", "1x1x1:rrr:10"], env={"MATMUL_NUM_THREADS": "1"}); v, text = judge(c, r)
        if v == "bad": bad.append((c, {"args": ["one", "s", "1x1x1:rrr:10"], "threads": False, "seed": 0, "env": {"MATMUL_NUM_THREADS": "1"}}, text))
    def work(j):
        c, job = j
        if bad: return None
        t1 = time.time(); r = miri(c, job["args"], job["threads"], job["seed"], job["env"]); v, text = judge(c, r)
        if os.environ.get("MC_VERBOSE"): print(round(time.time() - t1, 1), c["name"], *job["args"], flush=True)
        n = sum(1 for l in r.stdout.splitlines() if l.startswith("CASE")) if not job["threads"] else 1
        if v == "skip": skipped.append(f"{c['name']}: {' '.join(job['args'])}: {last(r)}: {text}")
        if v == "bad":
            k = dict(job)
            if not job["threads"]: k["args"] = ["one", job["args"][1], last(r)]
            bad.append((c, k, text))
        return n, r.stdout
    cases = {}
    try:
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(build, confs + [c for c, _, _ in LIMITS]))
            for (c, job), o in zip(jobs, ex.map(work, jobs)):
                if o: runs += o[0]; k = f"{c['name']}, {job['args'][1]}"; cases[k] = cases.get(k, 0) + o[0]
    except Broken as e: print("engine error:", e, file=sys.stderr); return 2
    ev = {"property": "C17", "tier": arg, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration",
          "coverage": {"evaluations": runs, "distinct_nontrivial": runs, "exhaustive": not bad and not skipped, "configurations": len(confs), "not_interpretable": skipped[:20],
                       "rule": "every call of the bounded space (layouts, shapes, scalars, block crossings) interpreted for every configuration; every one is distinct", "samples": [f"{k}: {n} calls interpreted" for k, n in sorted(cases.items())]},
          "assumptions": ["the interpreter's definition of undefined behaviour (Stacked Borrows, strict provenance; tree borrows in the thorough tier)", "scenarios with threads are single schedules here; C08 and C09 explore schedules"], "wall_s": round(time.time() - t0, 2), "violations": int(bool(bad))}
    os.makedirs(f"{VD}/evidence", exist_ok=True); json.dump(ev, open(f"{VD}/evidence/C17.json", "w"))
    print(f"C17 [{arg}]: {len(confs)} configurations, {runs} calls interpreted, {len(skipped)} slices not interpretable, {time.time()-t0:.1f} s")
    for s in skipped[:5]: print("not interpretable:", s)
    if bad:
        c, job, text = bad[0]; f = f"{VD}/evidence/replay_C17.txt"
        open(f, "w").write("C17\n" + json.dumps(c) + "\n" + json.dumps(job) + "\n" + text + "\n")
        print(f"C17: {c['name']}: {' '.join(job['args'])}: {text}"); print(f"VIOLATION property=C17 replay={f}"); return 1
    return 0
try: sys.exit(main())
except Exception:
    import traceback; traceback.print_exc(); print("engine error", file=sys.stderr); sys.exit(2)
