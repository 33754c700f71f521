//! C05: accesses. A native part (inaccessible pages, junk scratch with minimal alignment) and a part
//! that runs under valgrind's memcheck with byte-exact addressability and definedness.
use crate::alloc;
use crate::by_type;
use crate::case::Case;
use crate::checks::*;
use crate::elem::*;
use crate::exec::*;
use crate::layout::*;
use crate::runner::*;
use crate::variants::*;
use std::sync::atomic::Ordering::Relaxed;

/// data: scratch contents / alignment: 0 = NaN minimal, 1 = huge values minimal, 2 = zero bytes, page aligned, 3 = NaN page aligned
pub fn eval_junk(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> {
    alloc::JUNK.store([0xff, 0x7f, 0x00, 0xff][c.data as usize & 3], Relaxed);
    alloc::OVERALIGN.store((c.data >= 2) as usize, Relaxed);
    let mut c = *c; c.data = 0;
    by_type!(c.ty, run_exact(cx, &c))
}
const ZZ: (u8, u8) = (7, 1);
const GG: (u8, u8) = (7, 6);

pub fn c05_native(t: bool) -> Check {
    let mut v = vec![];
    let r = if t { rng(1, 24) } else { rng(1, 13) };
    let mut s = Slice::new("all small shapes, flush against inaccessible pages", OPT, Dims::Cross(r.clone(), rng(1, if t { 14 } else { 9 }), r.clone()));
    s.place = vec![0, 1]; s.ab = vec![ZZ, GG]; s.data = vec![0, 1, 2]; s.la = vec![ROW, COL]; s.lb = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("debug builds", DBGS, Dims::Cross(rng(1, 9), rng(1, 5), rng(1, 9)));
    s.place = vec![0, 1]; s.data = vec![0, 3]; v.push(s);
    let mut s = Slice::new("layouts", &[DEF, AVX, NONE], Dims::List(vec![(8, 4, 8), (9, 5, 5), (3, 6, 17), (16, 3, 4)]));
    s.la = ALL_AB.to_vec(); s.lb = ALL_AB.to_vec(); s.lc = vec![ROW, COL, GENC, NEGB]; s.place = vec![0, 1]; s.ab = vec![ZZ, GG]; v.push(s);
    let mut s = Slice::new("configured blocks", BLK, Dims::Cross(vec![1, 7, 8, 9, 17, 25], vec![1, 4, 8, 9, 12, 23, 25], vec![1, 8, 9, 14, 18, 41]));
    s.place = vec![0, 1]; s.data = vec![0, 1, 3]; s.ab = vec![ZZ, GG]; s.la = vec![ROW, COL]; s.lb = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("default blocks", &[DEF, AVX, SSE2, NONE, NOSTD], Dims::List(vec![(64, 256, 9), (65, 257, 9), (129, 2, 3), (5, 255, 1023), (5, 257, 1025), (9, 513, 513), (64, 256, 1024), (33, 300, 511)]));
    s.place = vec![0, 1]; s.data = vec![0, 1]; s.ab = vec![ZZ]; s.la = vec![ROW, COL]; s.lb = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("depth sweep", ALLDEF, Dims::Cross(vec![4, 8], rng(1, 40), vec![4, 8]));
    s.place = vec![0, 1]; s.la = vec![ROW, COL]; s.lb = vec![ROW, COL]; s.data = vec![0, 1]; v.push(s);
    for nt in [2, 4] {
        let mut s = Slice::new("multithreaded", &[VTHR, THRNONE, VMID], thread_dims(&[9, 12, 17], &[1, 9, 17]));
        s.data = vec![0, 1]; s.place = vec![0, 1]; s.nt = nt; v.push(s);
    }
    Check { slices: v, eval: eval_junk, assumptions: std_assumptions(),
        rule: "" }
}
/// run inside valgrind
pub fn c05_memcheck(t: bool) -> Vec<Slice> {
    let mut v = vec![];
    let vars: &[u8] = &[DEF, FMA, AVX, SSE2, NONE];
    let r = if t { rng(1, 18) } else { vec![1, 2, 3, 4, 5, 7, 8, 9] };
    let mut s = Slice::new("memcheck: small shapes", vars, Dims::Cross(r.clone(), if t { rng(1, 11) } else { vec![1, 2, 3, 5] }, r.clone()));
    s.ab = vec![ZZ, GG]; s.lc = vec![ROWPAD, COLPAD, GENC]; s.la = vec![ROWPAD]; s.lb = vec![COLPAD]; v.push(s);
    let mut s = Slice::new("memcheck: layouts of A and B", vars, Dims::List(if t { vec![(8, 4, 8), (9, 5, 5), (3, 2, 11), (16, 7, 4)] } else { vec![(8, 3, 8), (9, 5, 5)] }));
    let l = if t { ALL_AB.to_vec() } else { vec![ROW, COL, ROWPAD, COLPAD, GENC, NEGB, COLNEGB, UNITWILD, ZEROR, OVERLAP] };
    s.la = l.clone(); s.lb = l; s.lc = vec![ROWPAD, COLPAD]; v.push(s);
    let mut s = Slice::new("memcheck: layouts of C", vars, Dims::Cross(vec![1, 4, 8, 9, 12], vec![1, 4], vec![1, 4, 5, 8, 9]));
    s.lc = ALL_C.to_vec(); s.ab = vec![ZZ, GG, (0, 0)]; v.push(s);
    let mut s = Slice::new("memcheck: depth sweep", vars, Dims::Cross(vec![4, 8], rng(1, if t { 36 } else { 18 }), vec![4, 8]));
    s.la = vec![ROW, COL]; s.lb = vec![ROW, COL]; s.ab = vec![ZZ]; v.push(s);
    let mut s = Slice::new("memcheck: empty dimensions", &[DEF, NONE], Dims::Cross(vec![0, 1, 9], vec![0, 2], vec![0, 1, 9])); s.ab = vec![ZZ, GG, (0, 0)]; s.lc = vec![ROWPAD, GENC]; v.push(s);
    let mut s = Slice::new("memcheck: configured blocks", &[VTINY, VODD, ODDAVX, ODDNONE], Dims::Cross(vec![1, 8, 9, 17, 25], vec![1, 4, 8, 9, 12, 23], vec![1, 8, 9, 14, 18]));
    s.ab = vec![ZZ, GG]; s.lc = vec![ROWPAD, COL]; s.la = vec![ROW]; s.lb = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("memcheck: default blocks", &[DEF, AVX, NONE], Dims::List(vec![(65, 5, 9), (9, 257, 9), (5, 3, 1025), (33, 3, 513)]));
    s.ab = vec![ZZ, GG]; s.lc = vec![ROWPAD]; v.push(s);
    let mut s = Slice::new("memcheck: multithreaded", &[VTHR, THRNONE], thread_dims(&[12], &[9])); s.nt = 4; s.lc = vec![ROWPAD, COLPAD]; s.ab = vec![ZZ, GG]; v.push(s);
    v
}
pub fn c04_memcheck(t: bool) -> Vec<Slice> {
    let r = if t { rng(1, 18) } else { vec![1, 2, 3, 4, 5, 8, 9] };
    let mut v = vec![];
    let mut s = Slice::new("memcheck: layouts of C", &[DEF, FMA, AVX, SSE2, NONE], Dims::Cross(r.clone(), vec![2], r));
    s.lc = vec![ROWPAD, COLPAD, GENC, GENR, NEGB, COPRIME]; s.ab = vec![ZZ, GG]; v.push(s);
    let mut s = Slice::new("memcheck: configured blocks", &[VTINY, VODD, ODDNONE], Dims::Cross(vec![8, 9, 17, 20], vec![1, 9], vec![8, 9, 14, 18]));
    s.lc = vec![ROWPAD, COLPAD, GENC, NEGB]; s.ab = vec![ZZ, GG]; v.push(s);
    let mut s = Slice::new("memcheck: multithreaded", &[VTHR, THRNONE], thread_dims(&[12, 13], &[9])); s.nt = 4; s.lc = vec![ROWPAD, COLPAD]; s.ab = vec![ZZ, GG]; v.push(s);
    v
}
/// Body of the valgrind run: enumerate and print a machine readable summary.
pub fn vg_main(id: &str, t: bool) -> i32 {
    if !crate::vg::running() { eprintln!("engine error: not running under valgrind"); return 2; }
    let sl = if id == "C04" { c04_memcheck(t) } else { c05_memcheck(t) };
    let mut r = Runner::new(id);
    r.memcheck = true; r.guard_alloc = false; r.chunk = 8; r.timeout_s = 600;
    let (o, _) = r.run(&sl, eval_exact);
    println!("VGSUM {} {} {}", o.evals, o.distinct, o.enumerated);
    for (n, l) in &o.slices { println!("VGSLICE {l} {n}"); }
    for s in &o.samples { println!("VGSAMPLE {s}"); }
    if let Some((c, m)) = o.violation { println!("VGVIOL {}\t{}", c.text(&variants()), m); }
    0
}
pub fn run_valgrind(id: &str, t: bool) -> Outcome {
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new("valgrind")
        .args(["-q", "--tool=memcheck", "--error-limit=no", "--partial-loads-ok=no", "--undef-value-errors=yes", "--leak-check=no", "--log-file=/dev/null", "--child-silent-after-fork=yes", "--num-callers=4"])
        .arg(&exe).args(["vg", id, if t { "thorough" } else { "quick" }]).stderr(std::process::Stdio::inherit()).output();
    let out = match out { Ok(o) => o, Err(e) => { eprintln!("engine error: valgrind: {e}"); std::process::exit(2) } };
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut o = Outcome { evals: 0, distinct: 0, nontrivial: 0, enumerated: 0, slices: vec![], violation: None, samples: vec![], groups: vec![] };
    let mut ok = false;
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("VGSUM ") {
            let f: Vec<u64> = x.split(' ').map(|y| y.parse().unwrap()).collect();
            o.evals = f[0]; o.distinct = f[1]; o.enumerated = f[2]; ok = true;
        } else if let Some(x) = l.strip_prefix("VGSLICE ") {
            let (n, s) = x.split_once(' ').unwrap();
            o.slices.push((s.to_string(), n.parse().unwrap()));
        } else if let Some(x) = l.strip_prefix("VGSAMPLE ") { o.samples.push(format!("memcheck {x}")); }
        else if let Some(x) = l.strip_prefix("VGVIOL ") {
            let (c, m) = x.split_once('\t').unwrap();
            o.violation = Some((Case::parse(c, &variants()).unwrap(), format!("memcheck: {m}")));
        }
    }
    if !ok || !out.status.success() { eprintln!("engine error: valgrind run ended with {}\n{text}", out.status); std::process::exit(2); }
    o
}
