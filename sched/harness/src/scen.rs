//! What is run under the scheduler: one call that uses several threads, or several callers at once.
use std::sync::OnceLock;
type G<T> = unsafe fn(usize, usize, usize, T, *const T, isize, isize, *const T, isize, isize, T, *mut T, isize, isize);
#[derive(Clone, Copy)]
pub struct Var { pub name: &'static str, pub s: G<f32>, pub d: G<f64>, pub c: G<[f32; 2]>, pub z: G<[f64; 2]> }
macro_rules! var { ($n:expr, $k:ident) => {{
    unsafe fn c(m: usize, k: usize, n: usize, al: [f32; 2], a: *const [f32; 2], ra: isize, ca: isize, b: *const [f32; 2], rb: isize, cb: isize, be: [f32; 2], c: *mut [f32; 2], rc: isize, cc: isize) {
        $k::cgemm($k::CGemmOption::Standard, $k::CGemmOption::Standard, m, k, n, al, a, ra, ca, b, rb, cb, be, c, rc, cc) }
    unsafe fn z(m: usize, k: usize, n: usize, al: [f64; 2], a: *const [f64; 2], ra: isize, ca: isize, b: *const [f64; 2], rb: isize, cb: isize, be: [f64; 2], c: *mut [f64; 2], rc: isize, cc: isize) {
        $k::zgemm($k::CGemmOption::Standard, $k::CGemmOption::Standard, m, k, n, al, a, ra, ca, b, rb, cb, be, c, rc, cc) }
    Var { name: $n, s: $k::sgemm, d: $k::dgemm, c, z }
}} }
pub fn vars() -> Vec<Var> { vec![var!("none", sm_none), var!("sse2", sm_sse2), var!("best", sm_best), var!("nblk", sm_nblk), var!("deft", sm_deft)] }

/// `data`: an integer and a little more, so that no sum is exact and results depend on every rounding; `off`: distance from the integer value.
pub trait El: Copy + PartialEq + 'static { const W: usize; fn of(re: i64, im: i64) -> Self; fn data(re: i64, im: i64, h: u64) -> Self; fn off(self, w: Self) -> f64; fn bits(self) -> u64; fn f(v: &Var) -> G<Self>; fn show(self) -> String; }
fn f32d(x: i64, h: u64) -> f32 { x as f32 + ((h % 64) as f32 - 31.5) * (1.0 / 4194304.0) }
fn f64d(x: i64, h: u64) -> f64 { x as f64 + ((h % 64) as f64 - 31.5) * (1.0 / (1u64 << 51) as f64) }
impl El for f32 { const W: usize = 1; fn of(r: i64, _: i64) -> f32 { r as f32 } fn data(r: i64, _: i64, h: u64) -> f32 { f32d(r, h) } fn off(self, w: f32) -> f64 { (self as f64 - w as f64).abs() } fn bits(self) -> u64 { self.to_bits() as u64 }
    fn f(v: &Var) -> G<f32> { v.s } fn show(self) -> String { format!("{self}") } }
impl El for f64 { const W: usize = 1; fn of(r: i64, _: i64) -> f64 { r as f64 } fn data(r: i64, _: i64, h: u64) -> f64 { f64d(r, h) } fn off(self, w: f64) -> f64 { (self - w).abs() } fn bits(self) -> u64 { self.to_bits() }
    fn f(v: &Var) -> G<f64> { v.d } fn show(self) -> String { format!("{self}") } }
impl El for [f32; 2] { const W: usize = 2; fn of(r: i64, i: i64) -> Self { [r as f32, i as f32] } fn data(r: i64, i: i64, h: u64) -> Self { [f32d(r, h), f32d(i, h >> 8)] } fn off(self, w: Self) -> f64 { self[0].off(w[0]) + self[1].off(w[1]) } fn bits(self) -> u64 { self[0].bits() | self[1].bits() << 32 }
    fn f(v: &Var) -> G<Self> { v.c } fn show(self) -> String { format!("{:?}", self) } }
impl El for [f64; 2] { const W: usize = 2; fn of(r: i64, i: i64) -> Self { [r as f64, i as f64] } fn data(r: i64, i: i64, h: u64) -> Self { [f64d(r, h), f64d(i, h >> 8)] } fn off(self, w: Self) -> f64 { self[0].off(w[0]) + self[1].off(w[1]) } fn bits(self) -> u64 { self[0].to_bits() ^ self[1].to_bits().rotate_left(29).wrapping_mul(0x9e3779b97f4a7c15) }
    fn f(v: &Var) -> G<Self> { v.z } fn show(self) -> String { format!("{:?}", self) } }

/// One call: element type, shape, layout of C (r row major, c column major, p padded) and flags: A, B column major (A, B),
/// all rows of A (R) or columns of B (C) the same memory, A and B with gaps (G) or scattered (W), A and B backwards (V),
/// rows of C in descending order (N), alpha = 1 or 0 (a, z), beta = 0 or 1 (0, 1).
#[derive(Clone, Debug, PartialEq)]
pub struct Call { pub ty: char, pub m: usize, pub k: usize, pub n: usize, pub lc: char, pub fl: String }
impl Call {
    pub fn text(&self) -> String { format!("{}:{}x{}x{}:{}{}", self.ty, self.m, self.k, self.n, self.lc, self.fl) }
    pub fn parse(c: &str) -> Call {
        let p: Vec<&str> = c.split(':').collect(); let d: Vec<usize> = p[1].split('x').map(|x| x.parse().unwrap()).collect();
        Call { ty: p[0].chars().next().unwrap(), m: d[0], k: d[1], n: d[2], lc: p[2].chars().next().unwrap(), fl: p[2][1..].into() }
    }
    pub fn has(&self, f: char) -> bool { self.fl.contains(f) }
    /// Strides of A and of B and the distance of their first elements from the start of their memory.
    fn strides_ab(&self) -> (isize, isize, isize, isize, isize, isize) {
        let (m, k, n) = (self.m as isize, self.k as isize, self.n as isize);
        let (mut ra, mut ca) = if self.has('A') { (1, m) } else { (k, 1) };
        let (mut rb, mut cb) = if self.has('B') { (1, k) } else { (n, 1) };
        let f = if self.has('W') { 37 } else if self.has('G') { 2 } else { 1 };
        ra *= f; ca *= f; rb *= f; cb *= f;
        if self.has('R') { ra = 0; ca = 1; }
        if self.has('C') { rb = 1; cb = 0; }
        let (mut oa, mut ob) = (0, 0);
        if self.has('V') { oa = (m - 1) * ra + (k - 1) * ca; ob = (k - 1) * rb + (n - 1) * cb; ra = -ra; ca = -ca; rb = -rb; cb = -cb; if k == 0 { oa = 0; ob = 0; } }
        (ra, ca, rb, cb, oa, ob)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Scen {
    pub var: String,
    pub nt: String,          // MATMUL_NUM_THREADS
    pub warm: bool,          // a call was made before exploration starts
    pub users: Vec<Vec<Call>>, // per application thread the calls it makes; one entry: the main thread itself calls
    pub share: bool,         // the callers read the same A and B
}
impl Scen {
    pub fn text(&self) -> String {
        let u: Vec<String> = self.users.iter().map(|u| u.iter().map(|c| c.text()).collect::<Vec<_>>().join("+")).collect();
        format!("var={} nt={} {} {} calls={}", self.var, self.nt, if self.warm { "warm" } else { "cold" }, if self.share { "shared" } else { "own" }, u.join(","))
    }
    pub fn parse(s: &str) -> Scen {
        let w: Vec<&str> = s.split(' ').collect();
        let users = w[4].strip_prefix("calls=").unwrap().split(',').map(|u| u.split('+').map(Call::parse).collect()).collect();
        Scen { var: w[0][4..].into(), nt: w[1][3..].into(), warm: w[2] == "warm", share: w[3] == "shared", users }
    }
}

fn val(seed: usize, i: usize) -> i64 { let mut x = (i as u64).wrapping_mul(0x9e3779b97f4a7c15) ^ (seed as u64 * 0x2545f4914f6cdd1d); x ^= x >> 31; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x ^= x >> 29; (x % 7) as i64 - 3 }

fn low(seed: usize, i: usize) -> u64 { let mut x = (i as u64 ^ (seed as u64) << 40).wrapping_mul(0xd6e8feb86659fd93); x ^= x >> 32; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x >> 20 }
/// Everything a call needs, prepared before the execution starts.
pub trait Job { fn run(&mut self) -> Result<(), String>; fn warm(&mut self); fn warm_only(&mut self); fn verify(&self) -> Result<(), String>; fn hash(&self) -> u64; fn reset(&mut self); fn c_range(&self) -> (u64, u64); fn regions(&self) -> Vec<(&'static str, u64, u64)>; }
struct J<E: El> { call: Call, v: Var, a: *const E, b: *const E, c: Vec<E>, c0: Vec<E>, want: Vec<E>, gap: Vec<bool>, rsc: isize, csc: isize, base: usize, na: usize, nb: usize, al: (i64, i64), be: (i64, i64), id: u64 }
impl<E: El> J<E> {
    unsafe fn go(&mut self) {
        let Call { m, k, n, .. } = self.call;
        let (ra, ca, rb, cb, oa, ob) = self.call.strides_ab();
        E::f(&self.v)(m, k, n, E::of(self.al.0, self.al.1), self.a.offset(oa), ra, ca, self.b.offset(ob), rb, cb, E::of(self.be.0, self.be.1), self.c.as_mut_ptr().add(self.base), self.rsc, self.csc);
    }
}
impl<E: El> Job for J<E> {
    fn warm(&mut self) { unsafe { self.go() } self.c.copy_from_slice(&self.c0); }
    fn warm_only(&mut self) { unsafe { self.go() } }
    fn reset(&mut self) { self.c.copy_from_slice(&self.c0); }
    fn run(&mut self) -> Result<(), String> { unsafe { self.go() } self.verify() }
    fn verify(&self) -> Result<(), String> {
        for i in 0..self.c.len() {
            if !(self.c[i].off(self.want[i]) < 0.4) || self.gap[i] && self.c[i] != self.c0[i] { return Err(format!("element {i} of C (storage order) of the {:?} call is {}, expected about {}", self.call, self.c[i].show(), self.want[i].show())) }
        }
        Ok(())
    }
    fn hash(&self) -> u64 { let mut h = self.id.wrapping_mul(0x2545f4914f6cdd1d) ^ 0x9e3779b97f4a7c15; for x in &self.c { h = (h ^ x.bits()).wrapping_mul(0xbf58476d1ce4e5b9); h ^= h >> 29; } h }
    fn c_range(&self) -> (u64, u64) { let p = self.c.as_ptr() as u64; (p, p + (self.c.len() * std::mem::size_of::<E>()) as u64) }
    fn regions(&self) -> Vec<(&'static str, u64, u64)> {
        let s = std::mem::size_of::<E>() as u64;
        let (a, b, c) = (self.a as u64, self.b as u64, self.c_range());
        vec![("A", a, a + self.na as u64 * s), ("B", b, b + self.nb as u64 * s), ("C", c.0, c.1)]
    }
}
static AB: OnceLock<std::sync::Mutex<std::collections::HashMap<(char, usize, usize, usize), usize>>> = OnceLock::new();
fn mk<E: El>(call: &Call, v: &Var, user: usize, share: bool) -> Box<dyn Job> {
    let Call { ty, m, k, n, lc, .. } = *call;
    let su = if share { 0 } else { user };
    let gen = |which: usize, len: usize| -> *const E {
        let len = len.next_power_of_two();
        let mut g = AB.get_or_init(Default::default).lock().unwrap();
        *g.entry((ty, which, su, len)).or_insert_with(|| (0..len).map(|i| E::data(val(which + 10 * su, 2 * i), val(which + 10 * su, 2 * i + 1), low(which + 10 * su, i))).collect::<Vec<E>>().leak().as_ptr() as usize) as *const E
    };
    let (ra, ca, rb, cb, oa, ob) = call.strides_ab();
    let (na, nb) = if k == 0 { (1, 1) } else { (((m - 1) as isize * ra + (k - 1) as isize * ca).unsigned_abs() + 1, ((k - 1) as isize * rb + (n - 1) as isize * cb).unsigned_abs() + 1) };
    let (a, b) = (gen(1, na), gen(2, nb));
    let (rsc, csc, len) = match lc { 'r' => (n, 1, m * n), 'c' => (1, m, m * n), _ => (2 * n + 3, 2, m * (2 * n + 3)) };
    let c0: Vec<E> = (0..len).map(|i| E::data(val(3 + user, 2 * i), val(3 + user, 2 * i + 1), low(3 + user, i))).collect();
    let (mut want, mut gap) = (c0.clone(), vec![true; len]);
    let w = E::W == 2;
    let g = |seed: usize, i: usize| (val(seed, 2 * i), if w { val(seed, 2 * i + 1) } else { 0 });
    let mul = |x: (i64, i64), y: (i64, i64)| (x.0 * y.0 - x.1 * y.1, x.0 * y.1 + x.1 * y.0);
    let at = |o: isize, s: isize, i: usize, t: isize, j: usize| (o + s * i as isize + t * j as isize) as usize;
    let neg = call.has('N');
    let (mut al, mut be) = if w { ((2, 1), (3, -1)) } else { ((2, 0), (3, 0)) };
    if call.has('a') { al = (1, 0) } else if call.has('z') { al = (0, 0) }
    if call.has('0') { be = (0, 0) } else if call.has('1') { be = (1, 0) }
    for i in 0..m { for j in 0..n {
        let mut s = (0i64, 0i64);
        for l in 0..k { let p = mul(g(1 + 10 * su, at(oa, ra, i, ca, l)), g(2 + 10 * su, at(ob, rb, l, cb, j))); s.0 += p.0; s.1 += p.1; }
        let e = (if neg { m - 1 - i } else { i }) * rsc + j * csc;
        let c = g(3 + user, e);
        let (x, y) = (mul(al, s), mul(be, c));
        want[e] = E::of(x.0 + y.0, x.1 + y.1); gap[e] = false;
    } }
    let (rs, base) = if neg { (-(rsc as isize), (m - 1) * rsc) } else { (rsc as isize, 0) };
    Box::new(J::<E> { call: call.clone(), v: *v, a, b, c: c0.clone(), c0, want, gap, id: user as u64, rsc: rs, csc: csc as isize, base, na, nb, al, be })
}
pub fn prepare(call: &Call, v: &Var, user: usize, share: bool) -> Box<dyn Job> {
    match call.ty { 's' => mk::<f32>(call, v, user, share), 'd' => mk::<f64>(call, v, user, share), 'c' => mk::<[f32; 2]>(call, v, user, share), _ => mk::<[f64; 2]>(call, v, user, share) }
}
