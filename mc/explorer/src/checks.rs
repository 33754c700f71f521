//! The explored spaces, one function per property.
use crate::by_type;
use crate::case::Case;
use crate::elem::*;
use crate::exec::*;
use crate::layout::*;
use crate::runner::*;
use crate::variants::*;
use std::time::Instant;

pub fn eval_exact(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> { by_type!(c.ty, run_exact(cx, c)) }

/// General (non-integer) data, result compared across thread limits by the caller: returns the bit hash.
pub fn eval_bits(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> { by_type!(c.ty, run_bits(cx, c)) }
pub fn real_data(seed: u64, o: i64) -> f64 {
    let h = mix(seed.wrapping_mul(77).wrapping_add(o as u64));
    let f = (h >> 12) as f64 / (1u64 << 52) as f64 * 2. - 1.;
    f * [0.25, 1., 3., 17.][(h & 3) as usize]
}
fn run_bits<T: Elem>(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> {
    cx.warm(c.var);
    let p = match prepare::<T>(cx, c, |o| (real_data(1, o), real_data(2, o)), |o| (real_data(3, o), real_data(4, o)))? { Some(p) => p, None => return Ok(None) };
    unsafe {
        for i in 0..p.c.r { for j in 0..p.c.c { let o = p.c.off(i, j); p.c.set(i, j, real_data(5, o), real_data(6, o)); } }
        call(cx, c, &p)?;
        let mut h = 1u64;
        for i in 0..p.c.r { for j in 0..p.c.c {
            let b = p.c.get(i, j).bits();
            h = mix(h ^ b[0]).wrapping_add(b[1]);
            std::ptr::write_bytes(p.c.at(i, j) as *mut u8, FILL_C, std::mem::size_of::<T>());
        } }
        check_window(&p.c)?;
        Ok(Some(h))
    }
}

pub fn rng(a: u32, b: u32) -> Vec<u32> { (a..=b).collect() }
pub const OPT: &[u8] = &[DEF, FMA, AVX, SSE2, NONE, NOSTD];
pub const DBGS: &[u8] = &[DBG, DBGAVX, DBGNONE];
pub const ALLDEF: &[u8] = &[DEF, FMA, AVX, SSE2, NONE, NOSTD, DBG, DBGAVX, DBGNONE];
pub const BLK: &[u8] = &[VTINY, VODD, VMID, TINYNONE, ODDAVX, ODDNONE, DBGTINY];
pub const THRS: &[u8] = &[VTHR, THRNONE, VTINY, VODD, VMID, DEF];
pub const DIRECT: &[u8] = &[ROW, COL, GENC];

/// One dimension crosses a default block boundary, the others stay at a few small values.
fn boundary_slices(vars: &[u8], thorough: bool) -> Vec<Slice> {
    let small = if thorough { vec![1, 5, 8, 9, 13] } else { vec![1, 9] };
    let mut v = vec![];
    let ms = vec![31, 32, 33, 63, 64, 65, 95, 97, 127, 128, 129, 193];
    let ks = vec![127, 128, 129, 255, 256, 257, 258, 259, 260, 511, 512, 513, 769];
    let ns = vec![511, 512, 513, 1023, 1024, 1025, 1029];
    let mk = |name: &str, d: Dims| { let mut s = Slice::new(name, vars, d); s.lc = vec![ROW, COL, ROWPAD]; s };
    v.push(mk("row-block boundaries", Dims::Cross(ms, small.clone(), small.clone())));
    v.push(mk("depth-block boundaries", Dims::Cross(small.clone(), ks, small.clone())));
    v.push(mk("column-block boundaries", Dims::Cross(small.clone(), small.clone(), ns)));
    let mut s = Slice::new("two block boundaries", vars, Dims::List(vec![(65, 257, 9), (65, 9, 1025), (9, 257, 1025), (33, 513, 5), (129, 257, 17)]));
    s.lc = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("all three block boundaries", if thorough { vars } else { &vars[..1] }, Dims::List(if thorough { vec![(65, 257, 1025), (65, 257, 513), (33, 257, 513), (129, 513, 1030)] } else { vec![(65, 257, 1025)] }));
    s.lc = vec![ROW]; v.push(s);
    v
}

/// Every extent of one dimension up to and beyond the default block sizes, the others small.
fn sweeps(vars: &[u8], deep: bool) -> Vec<Slice> {
    let sm = || if deep { vec![1, 2, 3, 5, 8, 9, 17] } else { vec![1, 3, 9] };
    let mut v = vec![];
    let mut s = Slice::new("every m up to 280", vars, Dims::Cross(rng(1, 280), sm(), sm())); s.lc = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("every k up to 1100", vars, Dims::Cross(sm(), rng(1, 1100), sm())); s.lc = vec![ROW]; v.push(s);
    let mut s = Slice::new("every n up to 1100", vars, Dims::Cross(sm(), sm(), rng(1, 1100))); s.lc = if deep { vec![ROW, COL] } else { vec![ROW] }; v.push(s);
    v
}

pub struct Check { pub slices: Vec<Slice>, pub eval: Eval, pub rule: &'static str, pub assumptions: Vec<String> }

pub fn std_assumptions() -> Vec<String> {
    vec!["operands hold hashed integers small enough for every intermediate value to be exact; a defect visible only for other finite values is left to C13/C15".into(),
         "the machine runs the kernels of its CPU (fma+avx2) and, by the crate's own compile-time test feature mask, those of fma, avx, sse2 and portable; NEON is covered by C17".into()]
}

pub fn c01(deep: bool) -> Check {
    let t = true;
    let mut v = vec![];
    let d = |a: u32, b: u32, c: u32| Dims::Cross(rng(1, a), rng(1, b), rng(1, c));
    let mut s = Slice::new("all small shapes, all CPU paths", OPT, if t { d(26, 22, 26) } else { d(17, 11, 17) });
    s.lc = DIRECT.to_vec(); s.ab = vec![(7, 6), (0, 1)]; v.push(s);
    let mut s = Slice::new("all small shapes, debug-assertion builds", DBGS, if t { d(18, 14, 18) } else { d(10, 7, 10) });
    s.lc = DIRECT.to_vec(); s.ab = vec![(7, 6), (0, 1)]; v.push(s);
    let mut s = Slice::new("depth sweep (unrolling)", ALLDEF, Dims::Cross(vec![4, 8, 9], rng(1, if t { 140 } else { 70 }), vec![4, 8, 5]));
    s.lc = DIRECT.to_vec(); v.push(s);
    let mut s = Slice::new("all small shapes, tiny and odd blocks", BLK, if t { d(20, 20, 20) } else { d(10, 10, 10) });
    s.lc = vec![ROW, COL]; s.ab = vec![(7, 6), (0, 1)]; v.push(s);
    let mut s = Slice::new("wide and tall", OPT, Dims::Cross(vec![1, 2, 7, 24, 31, 32, 33, 40, 47], vec![1, 3, 8, 33], vec![1, 3, 24, 31, 32, 33, 40, 47]));
    s.lc = DIRECT.to_vec(); s.la = vec![ROW, COL]; s.lb = vec![ROW, COL]; v.push(s);
    v.extend(sweeps(if deep { ALLDEF } else { &[DEF, AVX, SSE2, NONE] }, deep));
    let mut s = Slice::new("middle-sized shapes", if deep { OPT } else { &[DEF, AVX, NONE] }, Dims::Cross(vec![20, 40, 65, 100, 130], vec![20, 100, 257, 260, 300], vec![20, 33, 64, 100, 130])); s.lc = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("large shapes", &[DEF, AVX, NONE, NOSTD, REAL], Dims::List(if deep { vec![(200, 200, 200), (257, 257, 257), (300, 300, 300), (130, 520, 1030), (1030, 30, 1030), (1030, 520, 1030), (3, 5000, 3), (5000, 3, 3), (3, 3, 5000), (2000, 9, 2000)] } else { vec![(200, 200, 200), (257, 257, 257), (130, 520, 1030), (1030, 30, 1030), (3, 5000, 3), (5000, 3, 3), (3, 3, 5000)] })); s.tys = vec![0, 1]; v.push(s);
    let mut s = Slice::new("large shapes, complex", &[DEF, NONE, NOSTD], Dims::List(vec![(200, 200, 200), (70, 520, 530), (520, 30, 520), (3, 5000, 3), (5000, 3, 3), (3, 3, 5000)])); s.tys = vec![2, 3]; v.push(s);
    if deep {
        let mut s = Slice::new("all small shapes up to 40", &[DEF, FMA, AVX, SSE2, NONE, NOSTD], d(40, 33, 40)); s.lc = vec![ROW, COL]; v.push(s);
        let mut s = Slice::new("all operand layouts x small shapes", ALLDEF, d(17, 9, 17)); s.la = vec![ROW, COL]; s.lb = vec![ROW, COL]; s.lc = DIRECT.to_vec(); v.push(s);
    }
    for mut s in boundary_slices(if t { OPT } else { &[DEF, AVX, NONE] }, t) { s.name = format!("{} (default blocks)", s.name); v.push(s); }
    let mut s = Slice::new("multithreaded", &[VTHR, THRNONE, DEF], thread_dims(&[1, 9, 12, 17, 24], &[1, 9, 16, 23]));
    s.nt = 4; v.push(s);
    for (name, dims, nt) in [("no complex functions: small shapes", if t { d(18, 12, 18) } else { d(10, 9, 10) }, 1), ("no complex functions: block boundaries", Dims::List(vec![(65, 3, 9), (9, 257, 5), (5, 3, 1025), (65, 257, 9), (129, 1, 1)]), 1), ("no complex functions: multithreaded", thread_dims(&[9, 17], &[9, 23]), 4)] {
        let mut s = Slice::new(name, if nt == 4 { &[REALTHR] } else { &[REAL, REALTHR, REALNOSTD] }, dims);
        s.tys = vec![0, 1]; s.lc = DIRECT.to_vec(); s.ab = vec![(7, 6), (0, 1)]; s.nt = nt; v.push(s);
    }
    let mut s = Slice::new("dimensions beyond 16 bits", ALLDEF, Dims::List(vec![(65537, 1, 1), (70001, 2, 3), (1, 65537, 1), (3, 70001, 2), (1, 1, 65537), (2, 3, 70001)])); s.lc = vec![ROW, COL]; s.ab = vec![(7, 6), (0, 1)]; v.push(s);
    let mut s = Slice::new("one dimension beyond 22 bits", if deep { ALLDEF } else { OPT }, Dims::List(vec![(4_300_009, 1, 1), (1, 4_300_009, 1), (1, 1, 4_300_009), (2_200_003, 2, 2), (2, 2, 2_200_003), (2, 2_200_003, 2)])); s.lc = vec![COL]; s.ab = vec![(7, 6)]; v.push(s);
    let mut s = Slice::new("more than 2^24 elements", if deep { &[DEF, AVX, NONE, NOSTD] } else { &[DEF, NONE] }, Dims::List(vec![(4100, 1, 4100), (17_000_003, 1, 1), (1, 17_000_003, 1), (1, 1, 17_000_003)])); s.lc = vec![ROW]; if !deep { s.tys = vec![0, 3]; } v.push(s);
    let mut s = Slice::new("depth 2^32 + 5, broadcast operands", if deep { &[DEF, AVX, SSE2, NONE] } else { &[DEF] }, Dims::List(vec![(1, u32::MAX, 1)])); s.la = vec![ZEROB]; s.lb = vec![ZEROB]; s.lc = vec![ROW]; s.tys = vec![1]; s.ab = vec![(7, 6)]; v.insert(0, s);
    Check { slices: v, eval: eval_exact, assumptions: std_assumptions(),
        rule: "every point of each listed cross product of build x type x (m,k,n) x layout of C x (alpha,beta): result compared element by element with exact integer arithmetic; distinct_nontrivial counts distinct effective parameter tuples with m,k,n > 0" }
}

/// shapes that reach the thresholds for 2 and 4 threads
pub fn thread_dims(ms: &[u32], ns: &[u32]) -> Dims {
    let mut l = vec![];
    for &m in ms { for &n in ns { for t in [32768u32, 65536] { l.push((m, t.div_ceil(m + n), n)); } } }
    l.sort(); l.dedup();
    Dims::List(l)
}

/// One dimension far beyond every block and buffer, the others small.
pub fn far_dims(deep: bool) -> Dims {
    let far: &[u32] = if deep { &[700, 2051, 4099, 8195, 16387, 33013, 66001, 140009] } else { &[1031, 4099, 66001] };
    let few: &[u32] = if deep { &[1, 2, 4, 5, 8, 9] } else { &[1, 9] };
    let mut l = vec![];
    for &f in far { for &a in few { for &b in few { l.push((f, a, b)); l.push((a, f, b)); l.push((a, b, f)); } } }
    Dims::List(l)
}
pub fn c02(deep: bool) -> Check {
    let t = true;
    let mut v = vec![];
    let vars: &[u8] = &[DEF, FMA, AVX, SSE2, NONE, DBG];
    let dims = if t { vec![(1, 1, 1), (1, 5, 9), (9, 5, 1), (2, 3, 2), (4, 4, 4), (5, 3, 3), (8, 4, 4), (8, 8, 8), (9, 10, 5), (16, 6, 8), (17, 9, 13)] }
               else { vec![(1, 1, 1), (1, 3, 9), (5, 3, 1), (2, 3, 2), (8, 5, 8), (9, 6, 13)] };
    let mut s = Slice::new("all layouts of A, B and C", vars, Dims::List(dims));
    s.la = ALL_AB.to_vec(); s.lb = ALL_AB.to_vec(); s.lc = ALL_C.to_vec(); v.push(s);
    let mut s = Slice::new("all layouts x all small shapes", &[DEF, AVX, NONE], Dims::Cross(vec![1, 3, 4, 5, 8, 9, 12, 17], vec![1, 4, 7], vec![1, 2, 3, 4, 5, 8, 9, 16]));
    s.la = vec![ROW, COL, GENC, NEGB, HANKEL]; s.lb = vec![ROW, COL, GENR, COLNEGR, ZEROC]; s.lc = ALL_C.to_vec(); v.push(s);
    let mut s = Slice::new("base misalignment", &[DEF, FMA, AVX, SSE2, NONE, DBG], Dims::List(vec![(8, 4, 8), (9, 3, 5), (16, 5, 12)]));
    s.la = vec![ROW, COL]; s.lb = vec![ROW, COL]; s.lc = vec![ROW, COL, COLPAD, ROWPAD];
    let om = if t { 8 } else { 4 };
    s.offs = (0..om).flat_map(|a| (0..om).flat_map(move |b| (0..8u8).map(move |c| [a, b, c]))).collect();
    s.place = vec![0, 1]; v.push(s);
    let mut s = Slice::new("A and B share memory", vars, Dims::Cross(vec![1, 2, 4, 5, 8, 9], vec![1, 2, 4, 5, 8, 9], vec![1, 2, 4, 5, 8, 9]));
    s.la = ALL_AB.to_vec(); s.lb = ALL_AB.to_vec(); s.lc = vec![ROW, COL]; s.alias = vec![1]; v.push(s);
    let mut s = Slice::new("layouts across block boundaries (tiny, odd and mid blocks)", BLK, Dims::List(vec![(9, 9, 9), (19, 23, 29), (33, 9, 17)]));
    s.la = vec![ROW, COL, GENC, GENR, NEGB, COLNEGB, ZEROR, HANKEL, OVERLAP]; s.lb = s.la.clone(); s.lc = ALL_C.to_vec(); v.push(s);
    let mut s = Slice::new("layouts across default block boundaries", if t { ALLDEF } else { &[DEF, AVX, NONE] }, Dims::List(vec![(65, 3, 5), (9, 257, 5), (5, 3, 1025)]));
    s.la = vec![ROW, COL, NEGB, COLNEGB, HANKEL, ZEROR, ZEROC]; s.lb = s.la.clone(); s.lc = vec![ROW, COL, NEGB, GENR, COPRIME]; v.push(s);
    let mut s = Slice::new("layouts, multithreaded", &[VTHR, THRNONE], thread_dims(&[17], &[23]));
    s.la = vec![ROW, COL, NEGB, HANKEL]; s.lb = vec![ROW, COL, NEGB, ZEROC]; s.lc = vec![ROW, COL, NEGB, GENR, COPRIME]; s.nt = 4; v.push(s);
    if deep {
        let mut s = Slice::new("all layouts, tile remainders", vars, Dims::Cross(vec![1, 3, 4, 5, 8, 9, 12, 17], vec![1, 4, 7, 10], vec![1, 3, 4, 5, 8, 9, 12, 17]));
        s.la = ALL_AB.to_vec(); s.lb = vec![ROW, COL, GENC, NEGB, HANKEL, ZEROC, GEN64]; s.lc = ALL_C.to_vec(); v.push(s);
        let mut s = Slice::new("all layouts of B, tile remainders", vars, Dims::Cross(vec![1, 3, 4, 5, 8, 9, 12, 17], vec![1, 4, 7, 10], vec![1, 3, 4, 5, 8, 9, 12, 17]));
        s.lb = ALL_AB.to_vec(); s.la = vec![ROW, COL, GENC, NEGB, HANKEL, ZEROC, GEN64]; s.lc = ALL_C.to_vec(); v.push(s);
    }
    // where a special case for vectors, outer products or plain scalars would be tempting
    let sc = || -> Vec<(u8, u8)> { [0u8, 1, 3, 7].iter().flat_map(|&a| [0u8, 1, 3, 6].map(move |b| (a, b))).collect() };
    let mut s = Slice::new("layouts x scalars x thin shapes", OPT, Dims::Cross(vec![1, 2, 8, 9, 17], vec![1, 2, 7, 9, 33], vec![1, 2, 8, 9, 17]));
    s.la = vec![ROW, COL, GENC, NEGB, ZEROR, ROWPAD]; s.lb = vec![ROW, COL, GENR, NEGB, ZEROC, COLPAD]; s.lc = vec![ROW, COL, GENC, NEGB, ROWPAD, COLPAD]; s.ab = sc(); v.push(s);
    let mut s = Slice::new("layouts x scalars, long vectors and outer products", &[DEF, FMA, AVX, SSE2, NONE, NOSTD], Dims::List(vec![(1, 300, 1100), (1100, 300, 1), (300, 1, 1100), (1, 1100, 1), (1100, 1, 1), (1, 1, 1100), (40, 1100, 1), (1, 1100, 40), (130, 1, 130), (260, 260, 1), (1, 260, 260), (2, 600, 2), (500, 2, 2), (2, 2, 500)]));
    s.la = vec![ROW, COL, NEGB]; s.lb = vec![ROW, COL, NEGB]; s.lc = vec![ROW, COL, GENC]; s.ab = vec![(0, 0), (0, 1), (3, 0), (7, 6)]; v.push(s);
    let mut s = Slice::new("layouts x scalars, multithreaded", &[VTHR, THRNONE], thread_dims(&[1, 17, 40], &[1, 9, 23]));
    s.la = vec![ROW, COL, NEGB]; s.lb = vec![ROW, COL, NEGB]; s.lc = vec![ROW, COL, GENC]; s.ab = vec![(0, 0), (0, 1)]; s.nt = 4; v.push(s);
    let hv: &[u8] = if t { ALLDEF } else { &[DEF, FMA, AVX, SSE2, NONE, DBG] };
    let hd = || Dims::List(vec![(2, 2, 2), (3, 2, 9), (9, 3, 5), (8, 4, 8), (4, 9, 4)]);
    let mut s = Slice::new("distances beyond 32 bits: A", hv, hd()); s.la = huge(); s.lb = vec![ROW, COL]; s.lc = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("distances beyond 32 bits: B", hv, hd()); s.lb = huge(); s.la = vec![ROW, COL]; s.lc = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("distances beyond 32 bits: C", hv, hd()); s.lc = huge(); s.ab = vec![(7, 6), (4, 1)]; v.push(s);
    let mut s = Slice::new("distances beyond 32 bits: several blocks", &[VTINY, VODD, TINYNONE], Dims::List(vec![(10, 9, 10), (17, 12, 18)])); s.la = huge(); s.lb = vec![HUGE0 + 10, HUGE0 + 16]; s.lc = vec![HUGE0 + 11, HUGE0 + 15]; v.push(s);
    Check { slices: v, eval: eval_exact, assumptions: std_assumptions(),
        rule: "every point of each listed cross product of layouts of A, B and C (strides resolved for the extents; combinations with equal strides evaluated once) x build x type x shape; integer-exact comparison plus untouched gaps; gaps of A and B hold NaN" }
}

pub fn c03(deep: bool) -> Check {
    let t = true;
    let mut v = vec![];
    let ab: Vec<(u8, u8)> = (0..12).flat_map(|a| (0..12).map(move |b| (a, b))).collect();
    let zb: Vec<(u8, u8)> = (0..12).flat_map(|a| [1, 2, 10].map(move |b| (a, b))).collect();
    let dm = |x: &[u32]| x.to_vec();
    let mut s = Slice::new("all alpha x beta", ALLDEF, Dims::Cross(dm(&[1, 4, 5, 8, 9]), dm(&[1, 3, 8]), dm(&[1, 3, 4, 8, 9])));
    s.ab = ab.clone(); s.lc = vec![ROW, COL, GENC]; v.push(s);
    let mut s = Slice::new("alpha and beta very small or very large", ALLDEF, Dims::Cross(dm(&[1, 4, 5, 8, 9]), dm(&[0, 1, 3, 8]), dm(&[1, 3, 4, 8, 9])));
    s.ab = ab.clone(); s.data = vec![1, 2, 3, 4, 5]; s.lc = vec![ROW, COL, GENC]; v.push(s);
    let mut s = Slice::new("alpha and beta very small or very large, several depth blocks", BLK, Dims::Cross(dm(&[1, 9]), dm(&[9, 17, 33]), dm(&[1, 9, 20])));
    s.ab = vec![(0, 0), (7, 4), (4, 3), (1, 4), (0, 1), (3, 0)]; s.data = vec![1, 2, 3, 4, 5]; s.lc = vec![ROW, COL, GENC]; v.push(s);
    let mut s = Slice::new("beta zero, garbage in C", ALLDEF, if t { Dims::Cross(rng(1, 17), dm(&[1, 4, 7]), rng(1, 17)) } else { Dims::Cross(dm(&[1, 3, 4, 5, 8, 9, 16]), dm(&[1, 5]), dm(&[1, 2, 3, 4, 5, 8, 9, 12])) });
    s.ab = if t { zb.clone() } else { vec![(0, 1), (4, 2), (7, 10), (1, 1), (2, 2)] }; s.cinit = vec![1, 2, 3]; s.lc = vec![ROW, COL, GENC, NEGB]; v.push(s);
    let mut s = Slice::new("beta zero, garbage in C, one long dimension", &[DEF, NONE], far_dims(deep)); s.ab = vec![(0, 1), (7, 2)]; s.cinit = vec![1, 3]; s.lc = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("alpha and beta, one long dimension", &[DEF, NONE], far_dims(deep)); s.ab = vec![(0, 0), (7, 6), (4, 3), (1, 4)]; s.lc = vec![ROW]; v.push(s);
    let mut s = Slice::new("empty dimensions", ALLDEF, Dims::List({
        let mut l = vec![];
        for m in [0, 1, 2, 8, 9, 70] { for k in [0, 1, 3, 300] { for n in [0, 1, 2, 8, 9, 1030] { if m * k * n == 0 { l.push((m, k, n)); } } } }
        l }));
    s.ab = ab.clone(); s.lc = vec![ROW, COL, GENC, NEGB]; v.push(s);
    let mut s = Slice::new("empty matrices with one huge extent", ALLDEF, Dims::List(vec![(3_000_000_001, 0, 0), (0, 3_000_000_001, 0), (0, 0, 3_000_000_001)]));
    s.ab = vec![(7, 6), (0, 1)]; s.lc = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("beta zero, garbage in C, layouts x thin shapes", OPT, Dims::Cross(vec![1, 2, 8, 9, 17], vec![1, 2, 7, 9, 33], vec![1, 2, 8, 9, 17]));
    s.la = vec![ROW, COL, GENC, NEGB, ZEROR, ROWPAD]; s.lb = vec![ROW, COL, GENR, NEGB, ZEROC, COLPAD]; s.lc = vec![ROW, COL, GENC, NEGB, ROWPAD, COLPAD]; s.ab = vec![(0, 1), (1, 1), (7, 2)]; s.cinit = vec![1, 3]; v.push(s);
    let mut s = Slice::new("empty dimensions, garbage in C", ALLDEF, Dims::Cross(dm(&[0, 1, 5, 9]), dm(&[0]), dm(&[0, 1, 5, 9])));
    s.ab = zb.clone(); s.cinit = vec![1, 2, 3]; s.lc = ALL_C.to_vec(); v.push(s);
    let mut s = Slice::new("beta once over several depth blocks (tiny, odd, mid)", BLK, Dims::Cross(dm(&[1, 8, 9, 20]), dm(&[7, 8, 9, 16, 17, 24, 25, 33, 65]), dm(&[1, 8, 9, 20])));
    s.ab = if t { ab.clone() } else { vec![(0, 0), (7, 6), (4, 3), (1, 4), (2, 5), (0, 7), (6, 9), (8, 11), (9, 8)] }; s.lc = vec![ROW, COL, GENC]; v.push(s);
    let mut s = Slice::new("garbage in C over several depth blocks", BLK, Dims::Cross(dm(&[1, 8, 9, 20]), dm(&[7, 9, 17, 25, 33, 65]), dm(&[1, 8, 9, 20])));
    s.ab = vec![(0, 1), (7, 2), (4, 10)]; s.cinit = vec![1, 2, 3]; s.lc = vec![ROW, COL, GENC]; v.push(s);
    let mut s = Slice::new("default depth blocks", if t { ALLDEF } else { &[DEF, AVX, NONE] }, Dims::Cross(dm(&[1, 8, 9]), dm(&[255, 256, 257, 513, 769]), dm(&[1, 8, 9])));
    s.ab = vec![(0, 0), (7, 6), (4, 3), (1, 4), (2, 5), (0, 1), (0, 2)]; s.lc = vec![ROW, COL, GENC]; v.push(s);
    let mut s = Slice::new("default depth blocks, garbage in C", &[DEF, FMA, AVX, SSE2, NONE], Dims::Cross(dm(&[1, 8, 9]), dm(&[256, 257, 513]), dm(&[1, 8, 9])));
    s.ab = vec![(0, 1), (7, 2), (4, 10)]; s.cinit = vec![1, 2, 3]; s.lc = vec![ROW, COL, GENC]; v.push(s);
    let mut s = Slice::new("row and column blocks", &[DEF, AVX, NONE, NOSTD], Dims::List(vec![(65, 3, 9), (129, 257, 5), (9, 3, 1025), (33, 2, 513)]));
    s.ab = vec![(0, 1), (7, 6), (4, 3), (1, 4), (2, 5)]; s.lc = vec![ROW, COL]; v.push(s);
    if deep {
        let mut s = Slice::new("all alpha x beta, all tile remainders", ALLDEF, Dims::Cross(rng(1, 17), dm(&[1, 2, 4, 9]), rng(1, 17))); s.ab = ab.clone(); s.lc = vec![ROW, COL, GENC]; v.push(s);
        let mut s = Slice::new("all alpha x beta, configured blocks", BLK, Dims::Cross(dm(&[1, 5, 9, 13, 20]), rng(1, 40), dm(&[1, 5, 9, 14, 20]))); s.ab = ab.clone(); s.lc = vec![ROW]; v.push(s);
    }
    let mut s = Slice::new("multithreaded", &[VTHR, THRNONE, VMID], thread_dims(&[9, 16, 17], &[1, 16, 23]));
    s.ab = vec![(0, 1), (7, 6), (4, 3), (1, 4), (0, 0)]; s.lc = vec![ROW, COL]; s.nt = 4; v.push(s);
    let mut s = Slice::new("multithreaded, garbage in C", &[VTHR, THRNONE, VMID], thread_dims(&[9, 16, 17], &[1, 16, 23]));
    s.ab = vec![(0, 1), (7, 2), (4, 10)]; s.cinit = vec![1, 2]; s.lc = vec![ROW, COL]; s.nt = 4; v.push(s);
    Check { slices: v, eval: eval_exact, assumptions: std_assumptions(),
        rule: "every point of each listed cross product of (alpha, beta) over a 12-value alphabet (signed zeros, +-1, halves, complex scalars with zero parts), also scaled together by powers of two down to the smallest subnormal and up to 2^100 / 2^900, old contents of C (integers; NaN, infinity, all bits set when beta is zero), shapes including every pattern of empty dimensions (operands without elements are pointers to an inaccessible page); compared with exact arithmetic" }
}

pub fn c04(deep: bool) -> Check {
    let t = true;
    let mut v = vec![];
    let r = if t { rng(1, 26) } else { rng(1, 17) };
    let mut s = Slice::new("all tile remainders x layouts of C x placement", OPT, Dims::Cross(r.clone(), vec![1, 5], r.clone()));
    s.lc = ALL_C.to_vec(); s.place = vec![0, 1]; v.push(s);
    let mut s = Slice::new("one long dimension", &[DEF, NONE], far_dims(deep)); s.lc = vec![ROWPAD, COLPAD, GENC]; s.place = vec![0, 1]; s.ab = vec![(7, 6), (0, 1)]; v.push(s);
    let mut s = Slice::new("debug builds", DBGS, Dims::Cross(rng(1, 10), vec![2], rng(1, 10)));
    s.lc = ALL_C.to_vec(); s.place = vec![0, 1]; v.push(s);
    let mut s = Slice::new("empty dimensions", ALLDEF, Dims::Cross(vec![0, 1, 5, 9], vec![0, 1], vec![0, 1, 5, 9]));
    s.lc = ALL_C.to_vec(); s.place = vec![0, 1]; s.ab = vec![(0, 1), (7, 6)]; v.push(s);
    let mut s = Slice::new("beta zero / one", &[DEF, FMA, AVX, NONE], Dims::Cross(vec![3, 4, 8, 9, 12, 17], vec![1, 6], vec![1, 3, 4, 5, 8, 12, 13]));
    s.lc = ALL_C.to_vec(); s.place = vec![0, 1]; s.ab = vec![(0, 1), (0, 0), (7, 4)]; v.push(s);
    let mut s = Slice::new("block boundaries, configured blocks", BLK, Dims::Cross(vec![8, 9, 10, 17, 18, 19, 20, 25, 33], vec![5, 23], vec![8, 9, 10, 13, 14, 17, 18, 26, 27, 35, 41]));
    s.lc = ALL_C.to_vec(); s.place = vec![0, 1]; v.push(s);
    let mut s = Slice::new("block boundaries, default blocks", &[DEF, AVX, NONE], Dims::List(vec![(63, 2, 3), (65, 2, 9), (129, 2, 5), (5, 257, 5), (9, 2, 1023), (9, 2, 1025), (3, 2, 513), (65, 257, 9)]));
    s.lc = ALL_C.to_vec(); s.place = vec![0, 1]; v.push(s);
    for nt in [2, 3, 4] {
        let mut s = Slice::new("multithreaded", &[VTHR, THRNONE], thread_dims(&[1, 11, 12, 15, 16, 17, 25], &[1, 4, 5, 8, 9, 16, 17, 25]));
        s.lc = if nt == 4 { vec![ROW, COL, ROWPAD, COLPAD, NEGB, GENC, COPRIME] } else { vec![ROWPAD, COLPAD, NEGB] }; s.place = vec![0]; s.nt = nt; v.push(s);
    }
    if deep {
        let mut s = Slice::new("all tile remainders x layouts of C x placement, deeper", ALLDEF, Dims::Cross(rng(1, 33), vec![1, 4, 7], rng(1, 33)));
        s.lc = ALL_C.to_vec(); s.place = vec![0, 1]; v.push(s);
        let mut s = Slice::new("every extent around the default blocks", &[DEF, AVX, NONE], Dims::List((1..140).map(|m| (m, 2, 5)).chain((1..1100).map(|n| (5, 2, n))).collect())); s.lc = vec![ROWPAD, COLPAD, NEGB]; s.place = vec![0, 1]; v.push(s);
    }
    let mut a = std_assumptions();
    a.push("a store that puts back the value just read is invisible here; the memcheck slices of C05 and C04 flag any access to a gap".into());
    Check { slices: v, eval: eval_exact, assumptions: a,
        rule: "every point of each listed cross product; the operand arenas end at inaccessible pages on both sides, A and B are mapped read-only for the code under test, and 2 KiB on either side of C plus all gaps inside C are compared byte by byte" }
}

pub fn c06(deep: bool) -> Check {
    let t = true;
    let mut v = vec![];
    let r = if t { rng(1, 30) } else { vec![1, 3, 4, 5, 7, 8, 9, 10, 11, 13, 14, 16, 17, 18, 19, 20, 24, 25, 27] };
    let rk = if t { rng(1, 30) } else { vec![1, 4, 5, 7, 8, 9, 11, 12, 13, 14, 16, 17, 22, 23, 24, 27] };
    let mut s = Slice::new("all dimensions up to three tiny/odd blocks", &[VTINY, VODD, TINYNONE, ODDAVX, ODDNONE], Dims::Cross(r.clone(), rk.clone(), r.clone()));
    s.lc = vec![ROW, COL]; s.ab = vec![(7, 6), (4, 1)]; v.push(s);
    let rm = vec![7, 8, 9, 12, 13, 15, 16, 17, 24, 25, 32, 33, 49];
    let mut s = Slice::new("mid blocks", &[VMID, VTHR, DBGTINY], Dims::Cross(rm.clone(), vec![1, 15, 16, 17, 20, 23, 24, 25, 32, 33, 49, 65], vec![8, 9, 20, 27, 28, 29, 36, 37, 40, 41, 48, 49, 57, 81]));
    s.lc = vec![ROW, COL]; s.ab = vec![(7, 6)]; v.push(s);
    let mut s = Slice::new("debug build, tiny blocks", &[DBGTINY], Dims::Cross(rng(1, 18), vec![1, 4, 7, 8, 9, 17], rng(1, 18)));
    s.lc = vec![ROW, COL]; s.ab = vec![(7, 6)]; v.push(s);
    let mut s = Slice::new("layouts at block boundaries", &[VTINY, VODD, ODDAVX, TINYNONE], Dims::List(vec![(9, 12, 14), (17, 17, 17), (25, 33, 35)]));
    s.la = vec![ROW, COL, GENC, NEGB, ZEROC]; s.lb = vec![ROW, COL, GENC, NEGB, ZEROR]; s.lc = ALL_C.to_vec(); v.push(s);
    for mut s in boundary_slices(if t { ALLDEF } else { &[DEF, AVX, NONE, NOSTD] }, t) { s.name = format!("{} (default blocks)", s.name); s.ab = vec![(7, 6), (0, 1)]; v.push(s); }
    v.extend(sweeps(if deep { ALLDEF } else { &[DEF, NONE] }, deep));
    let mut s = Slice::new("every extent up to several blocks", BLK, Dims::List((1..130).flat_map(|x| [(x, 9, 9), (9, x, 9), (9, 9, x), (x, 1, 20), (1, x, 20), (20, 1, x), (20, x, 1), (x, 20, 1), (1, 20, x)]).collect())); s.lc = vec![ROW, COL]; s.ab = vec![(7, 6), (0, 1)]; v.push(s);
    if deep {
        let mut s = Slice::new("all dimensions up to four tiny/odd blocks", &[VTINY, VODD, TINYNONE, ODDAVX, ODDNONE], Dims::Cross(rng(1, 40), rng(1, 40), rng(1, 40))); s.lc = vec![ROW, COL]; v.push(s);
    }
    for nt in [2, 4] {
        let mut s = Slice::new("multithreaded, tiny/odd/mid blocks", &[VTINY, VODD, VMID], thread_dims(if t { &[1, 9, 12, 13, 17, 25, 33] } else { &[9, 12, 17, 25] }, if t { &[1, 5, 8, 9, 13, 17, 25, 33] } else { &[1, 8, 13, 25] }));
        s.nt = nt; v.push(s);
    }
    let big: &[u8] = &[VMAX, MAXNONE, DEEPAVX];
    let mut s = Slice::new("largest blocks: small shapes", big, Dims::Cross(rng(1, 18), vec![1, 2, 3, 4, 7, 8, 9, 17], rng(1, 18))); s.lc = vec![ROW, COL]; s.ab = vec![(7, 6), (0, 1)]; v.push(s);
    let mut s = Slice::new("largest blocks: everything in one block", big, Dims::Cross(vec![1, 9, 60, 130, 290], vec![1, 9, 260, 520], vec![1, 9, 60, 130, 290])); s.lc = vec![ROW, COL]; s.ab = vec![(7, 6)]; v.push(s);
    let mut l = vec![];
    for x in [32767, 32768, 32769, 65535, 65536, 65537, 65544, 131073] { l.extend([(x, 2, 3), (2, x, 3), (3, 2, x), (x, 1, 1), (1, x, 1), (1, 1, x), (9, x, 5)]) }
    let mut s = Slice::new("largest blocks: one dimension at the block size", big, Dims::List(l)); s.lc = vec![ROW, COL]; s.ab = vec![(7, 6)]; v.push(s);
    for nt in [2, 4] {
        let mut s = Slice::new("largest blocks: multithreaded", big, Dims::List(vec![(98303, 3, 2), (98304, 3, 2), (98305, 2, 9), (131073, 2, 3), (200000, 1, 2), (2, 9, 70000), (5, 65537, 9), (17, 2000, 23), (13, 65540, 11), (300, 200, 300)])); s.lc = vec![ROW, COL]; s.nt = nt; v.push(s);
    }
    Check { slices: v, eval: eval_exact, assumptions: std_assumptions(),
        rule: "every point of each listed cross product of block-size configuration (builds of the crate with compile-time block sizes 4..48, the largest admitted (65536) and the defaults) x type x (m,k,n) spanning up to three blocks in each dimension; integer-exact comparison" }
}

pub fn run_simple(id: &str, c: Check, tier: &str) -> i32 {
    let t0 = Instant::now();
    let r = Runner::new(id);
    let (o, _) = r.run(&c.slices, c.eval);
    Report { id: id.into(), tier: tier.into(), t0, rule: c.rule.into(), assumptions: c.assumptions, extra: vec![] }.finish(&[o], None)
}

/// Native enumeration followed by an enumeration under memcheck.
pub fn run_with_memcheck(id: &str, c: Check, tier: &str) -> i32 {
    let t0 = Instant::now();
    let (o, _) = Runner::new(id).run(&c.slices, c.eval);
    let mut outs = vec![o];
    let mut extra = vec![];
    if outs[0].violation.is_none() {
        let v = crate::mem::run_valgrind(id, tier == "thorough");
        extra.push(("memcheck_evaluations".to_string(), v.evals.to_string()));
        outs.push(v);
    }
    let rule = if id == "C05" { "native: every point of each listed cross product with operands flush against inaccessible pages, gaps of A and B and all scratch filled with NaN or huge junk, scratch exactly as aligned as requested; memcheck: every point of the listed cross products with everything but the logical elements of A, B, C marked inaccessible (whole loads checked) and C undefined when beta is zero, no invalid access or use of an undefined value during the call and a fully defined C after it" } else { c.rule };
    Report { id: id.into(), tier: tier.into(), t0, rule: rule.into(), assumptions: c.assumptions, extra }.finish(&outs, None)
}

/// C07: the same space under each thread limit; bit-for-bit comparison between the limits.
pub fn c07(tier: &str) -> i32 {
    let t = tier == "thorough";
    let t0 = Instant::now();
    let mut base = vec![];
    let ms: &[u32] = if t { &[1, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 18, 19, 20, 23, 24, 25, 27, 31, 32, 33, 40, 41, 47] } else { &[1, 5, 8, 11, 12, 13, 16, 17, 20, 24, 25, 33] };
    let ns: &[u32] = if t { &[1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 20, 23, 24, 25, 32, 33, 40] } else { &[1, 4, 5, 8, 9, 13, 16, 17, 24, 33] };
    let mut s = Slice::new("row/column splits", if t { &[VTHR, THRNONE, VMID, DBGTHR] } else { &[VTHR, THRNONE] }, thread_dims(ms, ns));
    s.lc = vec![ROW, COL]; base.push(s);
    let mut s = Slice::new("tiny and odd blocks", &[VTINY, VODD], thread_dims(&[9, 12, 17, 25], &[1, 8, 13, 25])); s.lc = vec![ROW]; base.push(s);
    let mut s = Slice::new("below the thread threshold", &[VTHR, DEF], Dims::Cross(vec![1, 12, 24], vec![1, 100, 600], vec![1, 12, 24])); s.lc = vec![ROW]; base.push(s);
    let mut s = Slice::new("default blocks", if t { &[DEF, DBG] } else { &[DEF] }, Dims::List(vec![(64, 260, 64), (95, 257, 33), (96, 128, 160), (97, 300, 140), (128, 256, 128), (130, 513, 70), (47, 600, 60), (48, 600, 60), (49, 600, 64), (1, 600, 60), (64, 512, 1), (200, 200, 200), (193, 257, 1025)]));
    s.lc = vec![ROW, COL]; s.ab = vec![(7, 6), (4, 1)]; base.push(s);
    let mut s = Slice::new("layouts", &[VTHR, THRNONE], thread_dims(&[13, 17], &[9, 23])); s.la = vec![COL, NEGB]; s.lb = vec![COL, GENR]; s.lc = vec![ROWPAD, COLPAD, NEGB, GENC]; base.push(s);
    // far longer in one dimension than any block or buffer (a special path for one of these shapes has to round like the others)
    let far: &[u32] = if t { &[2051, 4099, 8195, 12301, 16387, 20011, 33013, 40009, 66001, 140009] } else { &[4099, 8195, 20011, 66001] };
    let few: &[u32] = if t { &[1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17] } else { &[1, 3, 4, 8, 9, 17] };
    let mut s = Slice::new("deep and small", if t { &[DEF, VTHR, THRNONE, DBG] } else { &[DEF, THRNONE] }, Dims::Cross(few.to_vec(), far.to_vec(), few.to_vec())); s.lc = vec![ROW]; base.push(s);
    let mut s = Slice::new("tall", &[DEF, VTHR], Dims::Cross(far.to_vec(), vec![1, 2, 9, 17], vec![1, 4, 9])); s.lc = vec![ROW, COL]; base.push(s);
    let mut s = Slice::new("wide", &[DEF, VTHR], Dims::Cross(vec![1, 4, 9], vec![1, 2, 9, 17], far.to_vec())); s.lc = vec![ROW, COL]; base.push(s);
    let mid: &[u32] = if t { &[37, 64, 100, 129, 260, 301, 520] } else { &[37, 100, 260, 520] };
    let mut s = Slice::new("middle", &[DEF], Dims::Cross(mid.to_vec(), mid.to_vec(), mid.to_vec())); s.lc = vec![ROW, COL]; s.ab = vec![(7, 6), (7, 1)]; base.push(s);
    let limits: &[u8] = if t { &[1, 2, 3, 4, 5, 8] } else { &[1, 2, 3, 4] };
    let nb = base.len();
    let mut slices: Vec<Slice> = vec![];
    for &nt in limits { for b in &base {
        slices.push(Slice { name: format!("{} / limit {nt}", b.name), vars: b.vars.clone(), tys: b.tys.clone(),
            dims: match &b.dims { Dims::Cross(x, y, z) => Dims::Cross(x.clone(), y.clone(), z.clone()), Dims::List(l) => Dims::List(l.clone()) },
            la: b.la.clone(), lb: b.lb.clone(), lc: b.lc.clone(), ab: b.ab.clone(), offs: b.offs.clone(), place: b.place.clone(), cinit: b.cinit.clone(),
            data: b.data.clone(), x: b.x.clone(), alias: b.alias.clone(), nt });
    } }
    let mut r = Runner::new("C07"); r.keep_results = true; r.chunk = 4;
    let (mut o, res) = r.run(&slices, eval_bits);
    let mut compared = 0u64;
    if o.violation.is_none() {
        let res = res.unwrap();
        let mut start = vec![]; let mut p = 0; for s in &slices { start.push(p); p += s.len(); }
        'o: for (bi, b) in base.iter().enumerate() {
            for i in 0..b.len() {
                let r1 = res[(start[bi] + i) as usize];
                for li in 1..limits.len() {
                    let q = li * nb + bi;
                    let r2 = res[(start[q] + i) as usize];
                    compared += 1;
                    if r1 != r2 {
                        o.violation = Some((slices[q].case(i), format!("the result with thread limit {} differs bit-wise from the one with limit 1", limits[li])));
                        break 'o;
                    }
                }
            }
        }
    }
    // and once more with exact data against the reference
    let mut outs = vec![];
    if o.violation.is_none() {
        let mut sl = vec![];
        for nt in [2, 3, 4] {
            let mut s = Slice::new("exact result", &[VTHR, THRNONE, VODD], thread_dims(if t { ms } else { &[8, 12, 13, 17, 25] }, if t { ns } else { &[1, 4, 8, 9, 17] })); s.nt = nt; sl.push(s);
            let mut s = Slice::new("exact result, default blocks", &[DEF], Dims::List(vec![(96, 180, 96), (97, 300, 140), (130, 513, 70), (48, 600, 65)])); s.nt = nt; s.lc = vec![ROW, COL]; sl.push(s);
        }
        let mut r = Runner::new("C07"); r.chunk = 4;
        outs.push(r.run(&sl, eval_exact).0);
    }
    outs.insert(0, o);
    Report { id: "C07".into(), tier: tier.into(), t0,
        rule: "every point of each listed cross product evaluated in one process per thread limit; bit hashes of C compared between limits, then integer data compared with the exact reference".into(),
        assumptions: vec!["within one limit the operating system's schedule is whatever it was; schedules are explored by C08".into()],
        extra: vec![("bitwise_comparisons".into(), compared.to_string())] }.finish(&outs, None)
}
/// C07 replay: the case under its limit against limit 1, in two processes.
pub fn replay_c07(c: &Case, vs: &[Variant]) -> Result<(), String> {
    let h = |nt: u8| -> Result<u64, String> {
        let exe = std::env::current_exe().unwrap();
        let mut c = *c; c.nt = nt;
        let o = std::process::Command::new(exe).args(["bits", &c.text(vs)]).output().map_err(|e| e.to_string())?;
        if !o.status.success() { return Err(format!("limit {nt}: {} {}", o.status, String::from_utf8_lossy(&o.stdout))); }
        String::from_utf8_lossy(&o.stdout).trim().parse::<u64>().map_err(|e| e.to_string())
    };
    let (a, b) = (h(1)?, h(c.nt)?);
    if a != b { return Err(format!("bit-wise different results with limits 1 and {}", c.nt)); }
    let exe = std::env::current_exe().unwrap();
    let o = std::process::Command::new(exe).args(["exact", &c.text(vs)]).output().map_err(|e| e.to_string())?;
    if !o.status.success() { return Err(format!("{} {}", o.status, String::from_utf8_lossy(&o.stdout))); }
    Ok(())
}
