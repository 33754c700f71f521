//! C13 (non-finite values) and C15 (rounding) evaluators and spaces.
use crate::by_type;
use crate::case::Case;
use crate::checks::*;
use crate::elem::*;
use crate::exec::*;
use crate::layout::*;
use crate::runner::*;
use crate::variants::*;

// ---------------------------------------------------------------- C13
const VAL: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

/// x[0]: where (0 A, 1 B, 2 C, 3 A+A, 4 A+B, 5 A+C, 6 B+C, 7 B+B, 8 alpha, 9 beta); x[1], x[2]: positions; x[3]: values (v1 + 3 v2)
/// data: 0 = non-zero integers elsewhere, 1 = a third of them zero, 2 (complex): special imaginary part, 3: both parts,
/// 4 and 5 = A or B zero everywhere else, 6 and 7 = in the second half of the depth, 8 and 9 = in odd rows of A or columns of B
pub fn eval_special(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> { by_type!(c.ty, special(cx, c)) }
fn special<T: Elem>(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> {
    cx.warm(c.var);
    let (m, k, n) = (c.m as usize, c.k as usize, c.n as usize);
    let cplx = T::N == 2;
    if !cplx && matches!(c.data, 2 | 3) { return Ok(None); }
    let (sal, sbe) = (c.x[0] == 8, c.x[0] == 9);
    if (sal || sbe) && (c.x[1] != 0 || c.x[2] != 0 || c.x[3] >= 3) || k == 0 && sal { return Ok(None); }
    let bz = scalar_is_zero(scalar::<T>(c.be)) && !sbe;
    let (w1, w2) = match c.x[0] { 0 => (0, 9), 1 => (1, 9), 2 => (2, 9), 3 => (0, 0), 4 => (0, 1), 5 => (0, 2), 6 => (1, 2), 7 => (1, 1), _ => (9, 9) };
    if bz && (w1 == 2 || w2 == 2) { return Ok(None); }
    let cnt = |w: usize| match w { 0 => m * k, 1 => k * n, 2 => m * n, _ => 1 };
    let (p1, p2) = (c.x[1] as usize, c.x[2] as usize);
    if p1 >= cnt(w1) || p2 >= cnt(w2) || (w1 == w2 && w1 != 9 && p2 <= p1) { return Ok(None); }
    let (v1, v2) = (VAL[c.x[3] as usize % 3], VAL[c.x[3] as usize / 3]);
    if w2 == 9 && (p2 != 0 || c.x[3] >= 3) { return Ok(None); }
    let r = 9i64;
    let z = c.data == 1;
    let gen = |seed: u64, o: i64| -> (f64, f64) {
        if z && mix(seed * 3 + o as u64) % 3 == 0 { return (0., 0.); }
        (hint(seed, o, r) as f64, if cplx { hint(seed ^ 0xabcdef, o, r) as f64 } else { 0. })
    };
    let mut p = match prepare::<T>(cx, c, |o| gen(SA, o), |o| gen(SB, o))? { Some(p) => p, None => return Ok(None) };
    let put = |old: (f64, f64), v: f64| -> (f64, f64) {
        if !cplx || c.data < 2 || c.data > 3 { (v, old.1) } else if c.data == 2 { (old.0, v) } else { (v, v) }
    };
    if sal { p.al = put(p.al, v1); }
    if sbe { p.be = put(p.be, v1); }
    let zero = |w: usize, x: usize, l: usize| match c.data { 4 => w == 0, 5 => w == 1, 6 => w == 0 && 2 * l >= k, 7 => w == 1 && 2 * l >= k, 8 => w == 0 && x % 2 == 1, 9 => w == 1 && x % 2 == 1, _ => false };
    // logical matrices of the reference
    let mut a = vec![(0., 0.); m * k]; let mut b = vec![(0., 0.); k * n]; let mut cc = vec![(0., 0.); m * n];
    unsafe {
        for i in 0..m { for l in 0..k { if zero(0, i, l) { p.a.set(i, l, 0., 0.); } let v = p.a.get(i, l); a[i * k + l] = (v.get(0), if cplx { v.get(1) } else { 0. }); } }
        for l in 0..k { for j in 0..n { if zero(1, j, l) { p.b.set(l, j, 0., 0.); } let v = p.b.get(l, j); b[l * n + j] = (v.get(0), if cplx { v.get(1) } else { 0. }); } }
        for i in 0..m { for j in 0..n { cc[i * n + j] = gen(SC, p.c.off(i, j)); } }
        for (w, q, v) in [(w1, p1, v1), (w2, p2, v2)] {
            match w {
                0 => { a[q] = put(a[q], v); p.a.set(q / k, q % k, a[q].0, a[q].1); }
                1 => { b[q] = put(b[q], v); p.b.set(q / n, q % n, b[q].0, b[q].1); }
                2 => { cc[q] = put(cc[q], v); }
                _ => {}
            }
        }
        for i in 0..m { for j in 0..n { p.c.set(i, j, cc[i * n + j].0, cc[i * n + j].1); } }
    }
    call(cx, c, &p)?;
    let mut h = 0u64;
    for i in 0..m { for j in 0..n {
        let got = unsafe { p.c.get(i, j) };
        if !cplx {
            let mut s = 0f64;
            for l in 0..k { s += a[i * k + l].0 * b[l * n + j].0; }
            let mut e = p.al.0 * s;
            if !bz { e += p.be.0 * cc[i * n + j].0; }
            let g = got.get(0);
            // with an infinite alpha the depth blocks may add up infinities of both signs
            let ok = if sal && !v1.is_nan() { !g.is_finite() } else if e.is_nan() { g.is_nan() } else { g == e };
            if !ok { return Err(format!("C[{i},{j}] = {g}, IEEE arithmetic gives {e}")); }
            h = mix(h ^ (g.is_nan() as u64) ^ (g.is_infinite() as u64) << 1);
        } else {
            let dep = sal || sbe || (0..k).any(|l| !fin(a[i * k + l]) || !fin(b[l * n + j])) || (!bz && !fin(cc[i * n + j]));
            let g = (got.get(0), got.get(1));
            if dep {
                if fin(g) { return Err(format!("C[{i},{j}] = {}{:+}i is finite although an input it depends on is not", g.0, g.1)); }
            } else {
                let (mut sr, mut si) = (0f64, 0f64);
                for l in 0..k { let (x, y) = (a[i * k + l], b[l * n + j]); sr += x.0 * y.0 - x.1 * y.1; si += x.0 * y.1 + x.1 * y.0; }
                let mut e = (p.al.0 * sr - p.al.1 * si, p.al.0 * si + p.al.1 * sr);
                if !bz { let q = cc[i * n + j]; e.0 += p.be.0 * q.0 - p.be.1 * q.1; e.1 += p.be.0 * q.1 + p.be.1 * q.0; }
                if g != e { return Err(format!("C[{i},{j}] = {}{:+}i, expected {}{:+}i (it depends on no special value)", g.0, g.1, e.0, e.1)); }
            }
            h = mix(h ^ (fin(g) as u64));
        }
        unsafe { std::ptr::write_bytes(p.c.at(i, j) as *mut u8, FILL_C, std::mem::size_of::<T>()); }
    } }
    unsafe { check_window(&p.c)?; }
    Ok(Some(h.wrapping_add(1)))
}
fn fin(z: (f64, f64)) -> bool { z.0.is_finite() && z.1.is_finite() }

pub fn c13(deep: bool) -> Check {
    let t = true;
    let mut v = vec![];
    let singles = |max: u16| -> Vec<[u16; 4]> { let mut x = vec![]; for w in 0..3 { for q in 0..max { for s in 0..3 { x.push([w, q, 0, s]); } } } x };
    let vars: &[u8] = ALLDEF;
    let mut s = Slice::new("one special value at every position", vars, Dims::List(
        if t { vec![(1, 1, 1), (3, 2, 2), (4, 4, 4), (5, 3, 5), (8, 4, 4), (8, 3, 8), (9, 5, 5), (7, 4, 9), (12, 2, 9), (17, 3, 5), (9, 8, 9)] }
        else { vec![(1, 1, 1), (3, 2, 2), (4, 4, 4), (5, 3, 5), (8, 4, 4), (8, 3, 8), (9, 5, 5), (7, 4, 9)] }));
    s.x = singles(if t { 160 } else { 81 }); s.lc = vec![ROW, COL, GENC]; s.data = (0..10).collect(); s.ab = vec![(7, 6), (4, 1), (0, 0)]; v.push(s);
    let mut s = Slice::new("one special value, operand layouts", &[DEF, AVX, NONE], Dims::List(vec![(9, 5, 5), (8, 4, 8)]));
    s.x = singles(72); s.la = vec![COL, NEGB, GENC]; s.lb = vec![COL, NEGB, GENR]; s.lc = vec![ROW, COL]; s.data = vec![0]; v.push(s);
    let sx: Vec<[u16; 4]> = (0..6).map(|i| [8 + i % 2, 0, 0, i / 2]).collect();
    let mut s = Slice::new("special alpha or beta", ALLDEF, Dims::Cross(vec![1, 3, 4, 5, 8, 9], vec![0, 1, 2, 5], vec![1, 2, 4, 5, 8, 9]));
    s.x = sx.clone(); s.lc = DIRECT.to_vec(); s.data = (0..10).collect(); s.ab = vec![(7, 6), (4, 1), (0, 0)]; v.push(s);
    let mut s = Slice::new("special alpha or beta across blocks", BLK, Dims::List(vec![(9, 13, 10), (10, 9, 14), (5, 33, 6), (20, 20, 20)]));
    s.x = sx.clone(); s.lc = DIRECT.to_vec(); s.data = vec![0, 2, 3]; s.ab = vec![(7, 6), (4, 1)]; v.push(s);
    let mut s = Slice::new("special alpha or beta, multithreaded", &[VTHR, THRNONE], thread_dims(&[9, 17], &[9, 17]));
    s.x = sx; s.lc = vec![ROW, COL]; s.data = vec![0, 3]; s.nt = 4; v.push(s);
    // pairs
    let mut x = vec![];
    for w in 3..8u16 { for q in 0..if t { 40 } else { 20 } { for q2 in 0..if t { 40 } else { 20 } { for s in 0..9 { x.push([w, q, q2, s]); } } } }
    let mut s = Slice::new("pairs of special values", if t { ALLDEF } else { &[DEF, AVX, SSE2, NONE, NOSTD] }, Dims::List(if t { vec![(5, 3, 4), (3, 4, 5), (9, 4, 2), (1, 5, 8), (8, 3, 4)] } else { vec![(5, 3, 4), (3, 4, 5), (9, 2, 2)] }));
    s.x = x; s.data = vec![0, 1, 3, 4, 7]; s.lc = vec![ROW]; v.push(s);
    let mut x = singles(if t { 320 } else { 130 }); x.retain(|x| x[0] != 2);
    let mut s = Slice::new("special values across blocks (tiny, odd)", BLK, Dims::List(vec![(9, 13, 10), (10, 9, 14), (5, 20, 6)]));
    s.x = x; s.data = vec![0, 4, 5, 6, 7, 8, 9]; s.lc = vec![ROW, COL]; v.push(s);
    let mut x = vec![];
    for w in 0..3u16 { for q in [0, 1, 7, 8, 15, 63, 64, 255, 256, 257, 300, 511, 512, 513, 600, 769] { for s in 0..3 { x.push([w, q, 0, s]); } } }
    let mut s = Slice::new("special values across default blocks", &[DEF, AVX, NONE, NOSTD], Dims::List(vec![(2, 257, 2), (65, 3, 5), (5, 2, 1025), (1, 513, 1)]));
    s.x = x.clone(); s.data = vec![0, 4, 5, 6, 7]; s.lc = vec![ROW, COL]; v.push(s);
    let mut y = vec![];
    for w in 0..3u16 { for q in [0, 3, 300, 1030, 4098, 9000, 20010] { for s in 0..3 { y.push([w, q, 0, s]); } } }
    let mut s = Slice::new("special values, one long dimension", &[DEF, NONE], Dims::List(if deep { vec![(1, 20011, 1), (3, 4099, 2), (9, 20011, 5), (20011, 1, 3), (4099, 3, 9), (1, 1, 20011), (2, 5, 20011), (8, 4099, 8)] } else { vec![(1, 20011, 1), (5, 4099, 3), (4099, 2, 3), (3, 2, 4099)] }));
    s.x = y; s.data = vec![0, 4, 5, 6, 7]; s.lc = vec![ROW]; v.push(s);
    let mut s = Slice::new("special values, multithreaded", &[VTHR, THRNONE], thread_dims(&[9, 17], &[9, 17]));
    s.x = x; s.data = vec![0, 4, 5, 6, 7]; s.nt = 4; v.push(s);
    if deep {
        let mut s = Slice::new("one special value at every position, all small shapes", ALLDEF, Dims::Cross(rng(1, 13), vec![1, 2, 5, 9], rng(1, 13)));
        s.x = singles(169); s.lc = vec![ROW, COL]; s.data = vec![0, 1, 2, 3]; s.ab = vec![(7, 6), (0, 1)]; v.push(s);
    }
    Check { slices: v, eval: eval_special, assumptions: vec!["alpha is not zero; for the complex types 'non-finite' means that at least one component is not finite".into()],
        rule: "every position of one special value (NaN, +inf, -inf) in A, B, C, alpha or beta and every pair of positions and values for small shapes, other entries non-zero, one third zero, or zero in all of A or B, in half of the depth or in every other row or column; real types compared with IEEE arithmetic (NaN-ness, sign of infinity, exact finite values), complex types by dependency; whole C compared" }
}

// ---------------------------------------------------------------- C15
const RS: [(f64, f64); 9] = [(0.1, 0.7), (-0.7123456789, 0.3333333333333333), (1.0, 0.0), (0.0, 0.0), (1.0 / 3.0, -0.1), (-1e-3, 1e3), (0.0, 0.3), (3.7e-9, -2.1e-9), (3.3e6 / 7.0, -1.7e7 / 3.0)];
fn two_sum(a: f64, b: f64) -> (f64, f64) { let s = a + b; let bb = s - a; (s, (a - (s - bb)) + (b - bb)) }
fn two_prod(a: f64, b: f64) -> (f64, f64) { let p = a * b; (p, a.mul_add(b, -p)) }
#[derive(Clone, Copy)]
struct DD(f64, f64);
impl DD {
    fn add_prod(self, a: f64, b: f64) -> DD { let (p, e) = two_prod(a, b); self.add(DD(p, e)) }
    fn add(self, o: DD) -> DD { let (s, e) = two_sum(self.0, o.0); let (s, e) = two_sum(s, e + (self.1 + o.1)); DD(s, e) }
    fn mul(self, x: f64) -> DD { let (p, e) = two_prod(self.0, x); let (s, e) = two_sum(p, e + self.1 * x); DD(s, e) }
    fn neg(self) -> DD { DD(-self.0, -self.1) }
}
/// data: class (0 uniform mantissa, 1 wide exponents, 2 cancelling pairs, 3 all slightly above a power of two, 4/5 A and B scaled by opposite large powers of two)
pub fn eval_round(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> { by_type!(c.ty, round(cx, c)) }
fn round<T: Elem>(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> {
    cx.warm(c.var);
    let (m, k, n) = (c.m as usize, c.k as usize, c.n as usize);
    let cplx = T::N == 2;
    let cls = c.data;
    let gen1 = |seed: u64, o: i64| -> f64 {
        let h = mix(seed.wrapping_mul(77).wrapping_add(o as u64));
        let f = (h >> 12) as f64 / (1u64 << 52) as f64;
        let s = if h & 1 == 0 { 1. } else { -1. };
        match cls {
            0 => s * (0.5 + f / 2.),
            1 => s * (0.5 + f / 2.) * 2f64.powi((h % 25) as i32 - 12),
            2 => { let g = (mix(seed.wrapping_mul(77).wrapping_add((o / 2) as u64)) >> 12) as f64 / (1u64 << 52) as f64; (if o & 1 == 0 { 1. } else { -1. }) * (0.5 + g / 2.) * (1. + f * 1e-3) }
            // factors of very different magnitude whose products are ordinary (far from overflow and underflow)
            4 => s * (0.5 + f / 2.) * if seed % 1000 == 1 { 2f64.powi(40) } else if seed % 1000 == 2 { 2f64.powi(-40) } else { 1. },
            5 => s * (0.5 + f / 2.) * if seed % 1000 == 1 { 2f64.powi(-40) } else if seed % 1000 == 2 { 2f64.powi(40) } else { 1. },
            _ => 1. + f * 1e-6,
        }
    };
    let gen = |seed: u64, o: i64| (gen1(seed, o), gen1(seed + 1000, o));
    let mut p = match prepare::<T>(cx, c, |o| gen(1, o), |o| gen(2, o))? { Some(p) => p, None => return Ok(None) };
    let tr = |x: (f64, f64)| { let v = T::mk(x.0, x.1); (v.get(0), if cplx { v.get(1) } else { 0. }) };
    p.al = tr(RS[c.al as usize]); p.be = tr(RS[c.be as usize]);
    let bz = scalar_is_zero(p.be);
    let mut cc = vec![(0., 0.); m * n];
    unsafe { for i in 0..m { for j in 0..n { let v = tr(gen(3, p.c.off(i, j))); cc[i * n + j] = v; p.c.set(i, j, v.0, v.1); } } }
    call(cx, c, &p)?;
    let mink = match cx.vs[c.var as usize].blocks { Some(b) => b[c.ty as usize].1, None => 256 };
    let nb = k.div_ceil(mink).max(1);
    let fac = (T::N * k + 10 + 2 * nb) as f64 * T::EPS * 1.01;
    let g2 = |v: T| (v.get(0), if cplx { v.get(1) } else { 0. });
    for i in 0..m { for j in 0..n {
        let (mut sr, mut si) = (DD(0., 0.), DD(0., 0.));
        let mut mag = 0f64;
        for l in 0..k {
            let (x, y) = unsafe { (g2(p.a.get(i, l)), g2(p.b.get(l, j))) };
            sr = sr.add_prod(x.0, y.0);
            if cplx { sr = sr.add_prod(-x.1, y.1); si = si.add_prod(x.0, y.1).add_prod(x.1, y.0); }
            mag += (x.0.abs() + x.1.abs()) * (y.0.abs() + y.1.abs());
        }
        let q = if bz { (0., 0.) } else { cc[i * n + j] };
        let er = sr.mul(p.al.0).add(si.mul(p.al.1).neg()).add_prod(p.be.0, q.0).add_prod(-p.be.1, q.1);
        let ei = si.mul(p.al.0).add(sr.mul(p.al.1)).add_prod(p.be.0, q.1).add_prod(p.be.1, q.0);
        let mag = mag * (p.al.0.abs() + p.al.1.abs()) + (p.be.0.abs() + p.be.1.abs()) * (q.0.abs() + q.1.abs());
        let g = unsafe { g2(p.c.get(i, j)) };
        for (what, g, e) in [("", g.0, er), ("imaginary part of ", g.1, ei)] {
            let d = ((g - e.0) - e.1).abs();
            if !(d <= fac * mag) { return Err(format!("{what}C[{i},{j}] = {g:e} is off by {d:e} from the exact {:e}, allowed {:e}", e.0, fac * mag)); }
        }
        unsafe { std::ptr::write_bytes(p.c.at(i, j) as *mut u8, FILL_C, std::mem::size_of::<T>()); }
    } }
    unsafe { check_window(&p.c)?; }
    Ok(Some(1))
}
pub fn c15(t: bool) -> Check {
    let mut v = vec![];
    let ab: Vec<(u8, u8)> = (0..9).flat_map(|a| (0..9).map(move |b| (a, b))).collect();
    let mut s = Slice::new("small shapes x scalars x data classes", ALLDEF, if t { Dims::Cross(vec![1, 3, 4, 5, 7, 8, 9, 12, 16, 17], rng(0, 20), vec![1, 2, 4, 5, 7, 8, 9, 12, 17]) } else { Dims::Cross(vec![1, 4, 5, 8, 9], vec![0, 1, 2, 3, 4, 5, 7, 8, 9], vec![1, 3, 4, 8, 9]) });
    s.ab = ab.clone(); s.data = vec![0, 1, 2, 3, 4, 5]; s.lc = vec![ROW, COL, GENC]; v.push(s);
    let mut s = Slice::new("deep products", ALLDEF, Dims::Cross(vec![1, 8, 9], vec![31, 64, 100, 255, 256, 257, 513, 1025], vec![1, 4, 9]));
    s.ab = vec![(0, 1), (1, 0), (2, 2), (4, 3), (5, 5), (6, 6), (0, 7), (7, 0), (8, 8)]; s.data = vec![0, 1, 2, 3, 4, 5]; s.lc = vec![ROW, COL, GENC]; v.push(s);
    let mut s = Slice::new("very deep products", ALLDEF, Dims::Cross(vec![1, 9], vec![2048, 4097, 20_000, 66_000], vec![1, 5]));
    s.ab = vec![(0, 1), (1, 0)]; s.data = vec![0, 1]; v.push(s);
    let mut s = Slice::new("one long dimension", &[DEF, AVX, NONE], far_dims(false)); s.ab = vec![(0, 1), (1, 0), (4, 3)]; s.data = vec![0, 2]; v.push(s);
    let mut s = Slice::new("configured blocks", BLK, Dims::Cross(vec![1, 9, 17], vec![5, 8, 9, 17, 23, 40, 70], vec![1, 9, 18]));
    s.ab = ab.clone(); s.data = vec![0, 1, 2]; s.lc = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("default row/column blocks", &[DEF, AVX, NONE], Dims::List(vec![(65, 5, 9), (129, 3, 3), (9, 5, 1025), (65, 257, 70)]));
    s.ab = vec![(0, 1), (4, 3), (2, 2)]; s.data = vec![0, 1]; s.lc = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("multithreaded", &[VTHR, THRNONE], thread_dims(&[9, 17], &[9, 17])); s.ab = vec![(0, 1), (4, 3)]; s.nt = 4; v.push(s);
    Check { slices: v, eval: eval_round,
        assumptions: vec!["no overflow or underflow (factors between 2^-41 and 2^40, products between 2^-26 and 2^26)".into(), "complex error bounds are on components against |re|+|im| magnitudes".into()],
        rule: "every point of each listed cross product of shape x scalars with full mantissas x data class x build x type; each component compared with a double-double reference against (N k + 10 + 2 ceil(k/KC)) eps (|alpha||A||B| + |beta||C|)" }
}
