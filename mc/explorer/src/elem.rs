//! Element types, scalars and the deterministic data the operands are filled with.
use crate::variants::Variant;

pub type GemmFn<T> = unsafe fn(usize, usize, usize, T, *const T, isize, isize,
                               *const T, isize, isize, T, *mut T, isize, isize);

pub trait Elem: Copy + 'static {
    /// number of real components
    const N: usize;
    /// size of a component
    const W: usize;
    /// exact integers stay below 2^BITS in this precision (with head room)
    const BITS: u32;
    const EPS: f64;
    const NAME: char;
    fn f(v: &Variant) -> GemmFn<Self>;
    fn mk(re: f64, im: f64) -> Self;
    fn get(self, i: usize) -> f64;
    fn bits(self) -> [u64; 2];
}
impl Elem for f32 {
    const N: usize = 1; const W: usize = 4; const BITS: u32 = 22; const EPS: f64 = 5.960464477539063e-8; const NAME: char = 's';
    fn f(v: &Variant) -> GemmFn<f32> { v.s }
    fn mk(re: f64, _im: f64) -> f32 { re as f32 }
    fn get(self, _i: usize) -> f64 { self as f64 }
    fn bits(self) -> [u64; 2] { [self.to_bits() as u64, 0] }
}
impl Elem for f64 {
    const N: usize = 1; const W: usize = 8; const BITS: u32 = 50; const EPS: f64 = 1.1102230246251565e-16; const NAME: char = 'd';
    fn f(v: &Variant) -> GemmFn<f64> { v.d }
    fn mk(re: f64, _im: f64) -> f64 { re }
    fn get(self, _i: usize) -> f64 { self }
    fn bits(self) -> [u64; 2] { [self.to_bits(), 0] }
}
impl Elem for [f32; 2] {
    const N: usize = 2; const W: usize = 4; const BITS: u32 = 22; const EPS: f64 = 5.960464477539063e-8; const NAME: char = 'c';
    fn f(v: &Variant) -> GemmFn<[f32; 2]> { v.c }
    fn mk(re: f64, im: f64) -> [f32; 2] { [re as f32, im as f32] }
    fn get(self, i: usize) -> f64 { self[i] as f64 }
    fn bits(self) -> [u64; 2] { [self[0].to_bits() as u64, self[1].to_bits() as u64] }
}
impl Elem for [f64; 2] {
    const N: usize = 2; const W: usize = 8; const BITS: u32 = 50; const EPS: f64 = 1.1102230246251565e-16; const NAME: char = 'z';
    fn f(v: &Variant) -> GemmFn<[f64; 2]> { v.z }
    fn mk(re: f64, im: f64) -> [f64; 2] { [re, im] }
    fn get(self, i: usize) -> f64 { self[i] }
    fn bits(self) -> [u64; 2] { [self[0].to_bits(), self[1].to_bits()] }
}

/// The scalar alphabet: (re, im) for the complex types, re only for the real ones. All are exact
/// multiples of 1/2 and at most 3 in magnitude.
pub const SCAL: [(f64, f64, f64); 12] = [
    // real,  complex re, im
    (1.0, 1.0, 0.0),    // 0  one
    (0.0, 0.0, 0.0),    // 1  zero
    (-0.0, -0.0, -0.0), // 2  minus zero
    (-1.0, -1.0, 0.0),  // 3  minus one
    (2.0, 2.0, 1.0),    // 4
    (0.5, 0.0, 1.0),    // 5  (i for complex)
    (-1.5, -0.5, 1.5),  // 6
    (3.0, 3.0, -2.0),   // 7
    (-2.0, 0.5, 0.0),   // 8  (real non-unit for complex)
    (2.5, 0.0, -1.0),   // 9  (-i)
    (-0.5, 0.0, -0.0),  // 10 (another complex zero)
    (1.5, 1.0, 1.0),    // 11
];
pub fn scalar<T: Elem>(i: u8) -> (f64, f64) {
    let s = SCAL[i as usize];
    if T::N == 1 { (s.0, 0.0) } else { (s.1, s.2) }
}

#[inline(always)]
pub fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
/// hashed non-zero integer in [-r, r]
#[inline(always)]
pub fn hint(seed: u64, off: i64, r: i64) -> i64 {
    let h = mix(seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(off as u64 ^ 0x5851f42d4c957f2d));
    // multiply-shift instead of a modulo
    let v = (((h >> 32) * (2 * r as u64 + 1)) >> 32) as i64 - r;
    if v == 0 { r } else { v }
}
/// data range such that every intermediate value of alpha*A*B + beta*C is exact
pub fn data_range<T: Elem>(k: usize) -> i64 {
    let cap = if T::W == 4 { 1 << 10 } else { 1 << 20 };
    let l = (1u64 << T::BITS) as f64 / (k.max(1) as f64 * 40.0);
    let r = l.sqrt().floor() as i64;
    r.clamp(1, cap)
}
