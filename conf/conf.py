#!/usr/bin/env python3
"""C16: builds the library once per block-size configuration, observes the memory its calls request, and compares with
what the configuration says. conf.py check TIER | conf.py replay FILE"""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.abspath(__file__)); VD = os.environ.get("VERIF_DIR", os.path.dirname(HERE))
TYPES = "sdcz"; NAME = {"s": "SGEMM", "d": "DGEMM", "c": "CGEMM", "z": "ZGEMM"}; PAR = ["MC", "KC", "NC"]
LIMIT = 65536; HUGE = 70000

# A configuration: environment variables, kernel mask (MMTEST_FEATURE or None), feature on or off, where it runs.
def cfg(env, mask=None, feature=True, target=None): return {"env": env, "mask": mask, "feature": feature, "target": target}
def var(t, p): return f"MATMUL_{NAME[t]}_{p}"
def all_env(f): return {var(t, p): str(f(t, i)) for t in TYPES for i, p in enumerate(PAR)}
BIG = all_env(lambda t, i: LIMIT)

slots = Queue()
class Broken(Exception): pass
class Bad(Exception):
    """a call of an accepted configuration that does not return or takes the process down"""
def desc(c): return f"{' '.join(f'{k}={v}' for k, v in sorted(c['env'].items()))[:200] or 'no settings'}; {'kernels ' + c['mask'] if c['mask'] else 'best kernels'}"
def parse(out):
    return {f"{w[0]}:{w[1]}x{w[2]}x{w[3]}": w[4:] for w in map(str.split, out.splitlines()) if len(w) > 4}
def observe(c, binary, calls):
    """-> {call: result line words}"""
    try: r = subprocess.run([binary, *calls], capture_output=True, text=True, timeout=150); out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x: out, rc = (x.stdout or b"").decode(), None
    res = parse(out)
    if rc == 0: return res
    call = next((x for x in calls if x not in res), calls[-1])
    if rc is not None and rc >= 0: raise Broken(f"{desc(c)}: the observer ended with {rc}: {r.stderr[-500:]}")
    raise Bad(c, call, f"call {call} {'does not return' if rc is None else f'ends the process with signal {-rc}'} ({desc(c)})")
def base_env(c):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("MATMUL_", "MMTEST", "RUSTFLAGS", "CARGO_TARGET", "MIRI"))}
    e.update(c["env"]); e["CARGO_NET_OFFLINE"] = "true"
    if c["mask"]: e["MMTEST_FEATURE"] = c["mask"]
    return e
def build_run(c, calls):
    """-> None if the build was refused, else {call: result line words}"""
    e = base_env(c)
    feat = ["--features", "constconf"] if c["feature"] else []
    slot = slots.get()
    try:
        if c["target"]:
            e["CARGO_TARGET_DIR"] = f"{HERE}/target/m{slot}"; e["MIRI_SYSROOT"] = f"{VD}/port/target/sysroot-{c['target']}/miri"; e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
            r = subprocess.run(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--target", c["target"], *feat, "--", *calls], cwd=HERE, env=e, capture_output=True, text=True)
            if r.returncode:
                if "E0080" in r.stderr and "Undefined Behavior" not in r.stderr: return None
                raise Broken(f"{c}: {r.stderr[-1500:]}")
            out = r.stdout
        else:
            e["CARGO_TARGET_DIR"] = f"{HERE}/target/w{slot}"
            b = subprocess.run(["cargo", "build", "-q", "--offline", "--locked", "--release", *feat], cwd=HERE, env=e, capture_output=True, text=True)
            if b.returncode:
                if "E0080" in b.stderr or "evaluation" in b.stderr or "could not compile `matrixmultiply`" in b.stderr: return None
                raise Broken(f"{c}: {b.stderr[-1500:]}")
            return observe(c, f"{HERE}/target/w{slot}/release/conf", calls)
    finally: slots.put(slot)
    return parse(out)

def admissible(b, mr=1): return mr <= b[0] <= b[1] <= b[2] <= LIMIT
def natural(s):
    """the number a setting means, or None if it is not a decimal number"""
    t = s.strip(" \t\n")
    if t.startswith("+"): t = t[1:]
    return int(t) if t and all(x in "0123456789" for x in t) else None

class Checker:
    def __init__(self): self.probes = 0; self.rows = []; self.bad = None; self.refused = 0; self.panics = 0; self.distinct = set()
    def fail(self, c, call, msg):
        if os.environ.get('MC_VERBOSE'): print(msg); return
        if not self.bad: self.bad = (c, call, msg)
    def mem(self, w): return w[2] if w and w[0] == "ok" else None

def total(mem): return sum(map(int, mem[4:].split("+")))

def dims(b, huge):
    """calls that show each block size on its own, and one that crosses all three"""
    mc, kc, nc = b; o = []
    for i, v in enumerate(b):
        for x in sorted({max(v - 1, 1), v, v + 1, v + 8, huge}):
            if x <= huge: d = [1, 1, 1]; d[i] = x; o.append(tuple(d))
    if mc * kc < 3_000_000 and kc * nc < 3_000_000 and mc * kc * nc < 60_000_000 and huge > 1000: o.append((mc + 1, kc + 1, nc + 1))
    elif huge <= 1000: o.append((min(mc, 30) + 1, min(kc, 30) + 1, min(nc, 30) + 1))
    return o

def examine(ck, c, strict):
    """One configuration. strict: every setting is a plain decimal number, so the build must succeed."""
    huge = 100 if c["target"] else HUGE
    vals = {}
    for t in TYPES:
        for i, p in enumerate(PAR):
            s = c["env"].get(var(t, p)) if c["feature"] else None
            vals[t, i] = ("default", None) if s is None else ("num", natural(s)) if natural(s) is not None else ("bad", s)
    d = ck.defaults.get((c["mask"], c["target"]))
    b = {}
    for t in TYPES: b[t] = [vals[t, i][1] if vals[t, i][0] == "num" else None for i in range(3)]
    anybad = any(v[0] == "bad" for v in vals.values())
    calls, ref = [], []
    info = {}
    for t in TYPES:
        full = [b[t][i] if b[t][i] is not None else ck.default_block(c, t)[i] for i in range(3)]
        ok = admissible(full); info[t] = (full, ok)
        ds = dims([min(x, LIMIT) for x in full], huge) if ok else [(1, 1, 1), (9, 9, 9), (min(70, huge), 30, 3), (3, 2, min(600, huge))]
        for x in ds: calls.append(f"{t}:{x[0]}x{x[1]}x{x[2]}")
        if ok:
            for x in ds: ref.append(f"{t}:{min(x[0], full[0])}x{min(x[1], full[1])}x{min(x[2], full[2])}")
    r = build_run(c, calls)
    name = " ".join(f"{k}={v!r}" for k, v in sorted(c["env"].items())) or "no settings"
    where = f"{'kernels ' + c['mask'] if c['mask'] else 'best kernels'}{', ' + c['target'] if c['target'] else ''}{'' if c['feature'] else ', feature off'}"
    ck.probes += max(len(calls), 1)
    if r is None:
        ck.refused += 1
        if strict: ck.fail(c, "", f"the build is refused although every setting is a decimal number ({name})")
        ck.rows.append(f"{where}: {name[:160]}: build refused"); ck.distinct.add(("refused", name)); return
    if anybad: ck.fail(c, "", f"a setting that is not a decimal number does not fail the build ({name}; {where})"); return
    big = ck.reference(c, ref)
    obs = []
    for call in calls:
        t, x = call.split(":"); x = tuple(map(int, x.split("x"))); full, ok = info[t]; w = r[call]
        if not ok:
            ck.panics += 1
            if w[0] != "panic": ck.fail(c, call, f"call {call} does not panic although MC, KC, NC = {full} is inadmissible ({where}; {name})")
            elif w[1] != "touched=0": ck.fail(c, call, f"call {call} with inadmissible MC, KC, NC = {full} has modified C before it panics ({w[1]}; {where})")
        else:
            key = f"{t}:{min(x[0], full[0])}x{min(x[1], full[1])}x{min(x[2], full[2])}"
            if w[0] == "panic": ck.fail(c, call, f"call {call} panics although MC, KC, NC = {full} is admissible ({where}; {name})")
            elif w[1] != "wrong=0": ck.fail(c, call, f"call {call} gives {w[1][6:]} wrong elements with MC, KC, NC = {full} ({where}; {name})")
            elif w[2] != big[key][2]: ck.fail(c, call, f"call {call} requests {w[2][4:]} bytes of scratch memory, but blocks MC, KC, NC = {full} need {big[key][2][4:]} ({where}; {name})")
            ck.distinct.add((t, where, tuple(full), w[2]))
            if max(x) == huge: obs.append(w[2][4:])
    ck.rows.append(f"{where}: {name[:160]}: {len(calls)} calls, scratch " + ",".join(obs[:12]))

class Full(Checker):
    def __init__(self): super().__init__(); self.defaults = {}; self.big = {}; self.lock = __import__("threading").Lock()
    def reference(self, c, calls):
        """results of the same kernels built with the largest block sizes"""
        k = (c["mask"], c["target"])
        known = self.big.setdefault(k, {}); need = [x for x in dict.fromkeys(calls) if x not in known]
        if need:
            b = self.bigbin[k]
            if c["target"]: r = build_run(cfg(BIG, c["mask"], True, c["target"]), need)
            else: r = observe(cfg(BIG, c["mask"]), b, need)
            for x, w in r.items():
                if w[:2] != ["ok", "wrong=0"]: raise Bad(cfg(BIG, c["mask"], True, c["target"]), x, f"the build with all block sizes at {LIMIT} fails on {x}: {' '.join(w)} ({desc(c)})")
            self.big[k].update(r)
        return self.big[k]
    def default_block(self, c, t): return self.defblk[t]
    def prepare(self, masks, targets):
        """builds with the largest blocks; the defaults, read off a build without settings"""
        self.bigbin = {}
        def one(m):
            e = base_env(cfg(BIG, m)); td = f"{HERE}/target/big-{m}"; e["CARGO_TARGET_DIR"] = td
            b = subprocess.run(["cargo", "build", "-q", "--offline", "--locked", "--release", "--features", "constconf"], cwd=HERE, env=e, capture_output=True, text=True)
            if b.returncode: raise Broken(f"build with MC = KC = NC = {LIMIT}: {b.stderr[-1500:]}")
            self.bigbin[m, None] = f"{td}/release/conf"
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, masks))
        for t in targets: self.bigbin[None, t] = None
        probe = [f"{t}:{x}" for t in TYPES for x in (f"{HUGE}x1x1", f"1x{HUGE}x1", f"1x1x{HUGE}")]
        r = build_run(cfg({}, "none"), probe)
        if r is None: raise Broken("the build without settings fails")
        self.defblk = {}
        for t in TYPES:
            blk = []
            for i in range(3):
                d = [1, 1, 1]; d[i] = HUGE; want = r[f"{t}:{d[0]}x{d[1]}x{d[2]}"][2]
                lo, hi = 1, LIMIT  # smallest size for which unblocked calls request as much, rounded to a whole panel below
                def req(v):
                    x = list(d); x[i] = v; key = f"{t}:{x[0]}x{x[1]}x{x[2]}"
                    return total(self.reference(cfg({}, "none"), [key])[key][2])
                w = total(want)
                while lo < hi:
                    mid = (lo + hi) // 2
                    if req(mid) >= w: hi = mid
                    else: lo = mid + 1
                # all sizes in the same panel look alike: take the last one, which is the multiple
                v = lo
                while v < LIMIT and i != 1 and v < lo + 16 and req(v + 1) == w: v += 1
                blk.append(v)
            self.defblk[t] = blk

def plan(ck, th):
    p = []
    D = ck.defblk
    # each variable alone, every other size at its default
    for t in TYPES:
        mc, kc, nc = D[t]
        for i, vs in enumerate([[mc + 8, kc] + ([mc // 2, mc + 3, 17] if th else []), [kc - 24, nc] + ([kc + 1, mc] if th else []), [nc + 8, kc] + ([nc - 1, LIMIT] if th else [])]):
            for v in vs: p.append((cfg({var(t, PAR[i]): str(v)}), True))
    # all twelve at once, all different, for every kernel
    A = all_env(lambda t, i: [[24, 40, 64], [32, 48, 80], [16, 56, 96], [8, 72, 112]][TYPES.index(t)][i])
    B = all_env(lambda t, i: [[20, 35, 51], [13, 44, 59], [27, 31, 47], [9, 37, 61]][TYPES.index(t)][i])
    for m in [None, "fma", "avx", "sse2", "none"]:
        p.append((cfg(A, m), True))
        if th: p.append((cfg(B, m), True)); p.append((cfg({}, m), True))
    p.append((cfg(B), True)); p.append((cfg({}), True))
    p.append((cfg(A, None, False), True)) # without the feature the variables mean nothing
    # edges of what is admissible
    for e in [all_env(lambda t, i: 8), all_env(lambda t, i: [8, 8, LIMIT][i]), all_env(lambda t, i: [8, LIMIT, LIMIT][i]), all_env(lambda t, i: 64)]: p.append((cfg(e), True))
    # inadmissible in every way, in turn for every type
    kinds = [lambda b: {0: b[1] + 1}, lambda b: {1: b[2] + 1}, lambda b: {1: b[0] - 1}, lambda b: {2: b[1] - 1}, lambda b: {2: LIMIT + 1}, lambda b: {0: 0}, lambda b: {1: 0}, lambda b: {2: 0}, lambda b: {}, lambda b: {1: LIMIT + 1, 2: LIMIT + 1}, lambda b: {0: LIMIT + 1, 1: LIMIT + 1, 2: LIMIT + 1}]
    n = len(kinds)
    for s in range(n):
        e = {}
        for x, t in enumerate(TYPES):
            for i, v in kinds[(s + 3 * x) % n](D[t]).items(): e[var(t, PAR[i])] = str(v)
        p.append((cfg(e), True))
        if th:
            for m in ["fma", "avx", "sse2", "none"]: p.append((cfg(e, m), True))
    # settings that are not plain decimal numbers, for one variable each in turn
    strings = ["", "abc", "6x4", "64x", "x64", "0x40", "6_4", "64.0", "1e3", "-64", "+64", " 64", "64 ", "\u0666\u0664", "6/4", "6:4", "0064", "0" * 18 + "64",
               str(2**64), str(2**64 + 64), str(2**64 + 256), str(2 * 10**19), str(2**65 + 64), "1" + "0" * 19, "9" * 20, "9" * 21, "0" * 30 + "64", str(2**32 + 64)]
    vs = [(t, i) for i in range(3) for t in TYPES]
    for n, s in enumerate(strings):
        for t, i in (vs if th else [vs[(n * 5) % 12]]): p.append((cfg({var(t, PAR[i]): s}), False))
    if not th:
        for t, i in vs: p.append((cfg({var(t, PAR[i]): "x"}), False))
    # other architectures, interpreted: NEON kernels; 32-bit numbers
    for tg in ["aarch64-unknown-linux-gnu", "i686-unknown-linux-gnu"]:
        p.append((cfg(A, None, True, tg), True))
        if th: p.append((cfg(B, None, True, tg), True))
    for n, s in enumerate([str(2**32), str(2**32 + 64), str(10**10 + 64), str(10**19 + 64), str(2**64 + 64), "5" + "0" * 9]): p.append((cfg({var(*[(t, q) for t in TYPES for q in PAR][n]): s}, None, True, "i686-unknown-linux-gnu"), False))
    return p

def go(items, ck, par):
    order = sorted(items, key=lambda x: 0 if x[0]["target"] else 1)
    with ThreadPoolExecutor(par) as ex:
        fs = [ex.submit(lambda it=it: None if ck.bad else examine(ck, *it)) for it in order]
        for f in fs: f.result()
def main():
    t0 = time.time(); mode, arg = sys.argv[1:3]
    par = os.cpu_count() or 4
    for i in range(par): slots.put(i)
    ck = Full(); targets = ["aarch64-unknown-linux-gnu", "i686-unknown-linux-gnu"]
    try:
        ck.prepare([None, "fma", "avx", "sse2", "none"], targets)
        if mode == "replay": items = [(json.loads(open(arg).read().splitlines()[1]), json.loads(open(arg).read().splitlines()[2]))]
        else: items = plan(ck, arg == "thorough")
        go(items, ck, par)
    except Bad as e:
        if mode == "check" and "items" not in locals(): items = []
        ck.bad = ck.bad or e.args; ck.defblk = getattr(ck, "defblk", None)
    except Broken as e: print("engine error:", e, file=sys.stderr); return 2
    if mode == "check":
        ev = {"property": "C16", "tier": arg, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration",
              "coverage": {"evaluations": ck.probes, "distinct_nontrivial": len(ck.distinct), "exhaustive": ck.bad is None, "builds": len(items), "builds_refused": ck.refused, "inadmissible_calls": ck.panics,
                           "rule": "one build of the library per configuration of the plan; distinct = combinations of type, kernel, block sizes and memory requested, and refused settings", "samples": ck.rows[:60]},
              "assumptions": ["the scratch memory of a call depends on its dimensions and the block sizes only through the smaller of the two, dimension by dimension; what it is then is read off a build of the same kernel with the largest admissible blocks", "sizes that round up to the same whole panel cannot be told apart for MC and NC"], "wall_s": round(time.time() - t0, 2), "violations": int(ck.bad is not None)}
        os.makedirs(f"{VD}/evidence", exist_ok=True); json.dump(ev, open(f"{VD}/evidence/C16.json", "w"))
        print(f"C16 [{arg}]: {len(items)} builds, {ck.probes} calls, {ck.refused} builds refused, {time.time()-t0:.1f} s; defaults {ck.defblk}")
    if ck.bad:
        c, call, msg = ck.bad; f = arg if mode == "replay" else f"{VD}/evidence/replay_C16.txt"
        if mode == "check":
            strict = next((s for x, s in items if x is c), True)
            open(f, "w").write("C16\n" + json.dumps(c) + "\n" + json.dumps(strict) + "\n" + msg + "\n")
        print("C16:", msg); print(f"VIOLATION property=C16 replay={f}"); return 1
    return 0
try: sys.exit(main())
except Exception:
    import traceback; traceback.print_exc(); print("engine error", file=sys.stderr); sys.exit(2)
