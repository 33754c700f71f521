//! Observes one build of the library (C16): reads calls "type m k n" from the arguments and prints, for each, the memory
//! it requested, whether it panicked, whether C was modified and whether the result is right.
use matrixmultiply as mm;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
struct Rec;
static ON: AtomicBool = AtomicBool::new(false); static N: AtomicUsize = AtomicUsize::new(0);
static SIZES: [AtomicUsize; 64] = [const { AtomicUsize::new(0) }; 64];
unsafe impl GlobalAlloc for Rec {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if ON.load(Relaxed) { let i = N.fetch_add(1, Relaxed); if i < 64 { SIZES[i].store(l.size(), Relaxed) } } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if ON.load(Relaxed) { let i = N.fetch_add(1, Relaxed); if i < 64 { SIZES[i].store(l.size(), Relaxed) } } System.alloc_zeroed(l) }
}
#[global_allocator] static A: Rec = Rec;

trait El: Copy + PartialEq { fn of(x: i64) -> Self; unsafe fn go(m: usize, k: usize, n: usize, al: Self, a: *const Self, b: *const Self, be: Self, c: *mut Self); }
macro_rules! el { ($t:ty, $of:expr, $f:ident $($o:expr),*) => { impl El for $t { fn of(x: i64) -> Self { ($of)(x) }
    unsafe fn go(m: usize, k: usize, n: usize, al: Self, a: *const Self, b: *const Self, be: Self, c: *mut Self) { mm::$f($($o,)* m, k, n, al, a, k as isize, 1, b, n as isize, 1, be, c, n as isize, 1) } } } }
el!(f32, |x| x as f32, sgemm); el!(f64, |x| x as f64, dgemm);
el!([f32; 2], |x| [x as f32, 0.], cgemm mm::CGemmOption::Standard, mm::CGemmOption::Standard); el!([f64; 2], |x| [x as f64, 0.], zgemm mm::CGemmOption::Standard, mm::CGemmOption::Standard);

fn h(i: usize, s: u64) -> i64 { let mut x = (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15) ^ s.wrapping_mul(0x2545f4914f6cdd1d); x ^= x >> 31; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x ^= x >> 29; (x % 5) as i64 - 2 }
/// A(i,l) = p(i) q(l), B(l,j) = r(l) s(j): every entry of the product is a multiple of one small sum.
fn run<E: El>(ty: char, m: usize, k: usize, n: usize) {
    let a: Vec<E> = (0..m * k).map(|x| E::of(h(x / k, 1) * h(x % k, 2))).collect();
    let b: Vec<E> = (0..k * n).map(|x| E::of(h(x / n, 3) * h(x % n, 4))).collect();
    let c0: Vec<E> = (0..m * n).map(|x| E::of(h(x, 5))).collect();
    let mut c = c0.clone();
    let sum: i64 = (0..k).map(|l| h(l, 2) * h(l, 3)).sum();
    N.store(0, Relaxed);
    let (pa, pb, pc) = (a.as_ptr() as usize, b.as_ptr() as usize, c.as_mut_ptr() as usize);
    ON.store(true, Relaxed);
    let r = std::panic::catch_unwind(move || unsafe { E::go(m, k, n, E::of(2), pa as *const E, pb as *const E, E::of(3), pc as *mut E) });
    ON.store(false, Relaxed);
    let nalloc = N.load(Relaxed).min(64);
    let (mut touched, mut wrong) = (0, 0);
    for x in 0..m * n { if c[x] != c0[x] { touched += 1 } let want = E::of(2 * h(x / n, 1) * h(x % n, 4) * sum + 3 * h(x, 5)); if c[x] != want { wrong += 1 } }
    let sizes: Vec<String> = SIZES[..nalloc].iter().map(|s| s.load(Relaxed).to_string()).collect();
    if r.is_err() { println!("{ty} {m} {k} {n} panic touched={touched}") }
    else { println!("{ty} {m} {k} {n} ok wrong={wrong} mem={}", sizes.join("+")) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for a in std::env::args().skip(1) {
        let w: Vec<&str> = a.split(':').collect(); let d: Vec<usize> = w[1].split('x').map(|x| x.parse().unwrap()).collect();
        match w[0] { "s" => run::<f32>('s', d[0], d[1], d[2]), "d" => run::<f64>('d', d[0], d[1], d[2]), "c" => run::<[f32; 2]>('c', d[0], d[1], d[2]), _ => run::<[f64; 2]>('z', d[0], d[1], d[2]) }
    }
}
