//! Runs a slice of the bounded space of calls in the interpreter (C17). Arguments: tier type part parts, or: one CASE.
use matrixmultiply as mm;
use std::mem::MaybeUninit as U;
trait El: Copy + std::fmt::Debug { const W: usize; fn of(r: i64, i: i64) -> Self; fn is(self, r: i64, i: i64) -> bool; unsafe fn go(m: usize, k: usize, n: usize, al: Self, a: *const Self, ra: isize, ca: isize, b: *const Self, rb: isize, cb: isize, be: Self, c: *mut Self, rc: isize, cc: isize); }
macro_rules! el { ($t:ty, $w:expr, $of:expr, $is:expr, $f:ident $($o:expr),*) => { impl El for $t { const W: usize = $w; fn of(r: i64, i: i64) -> Self { ($of)(r, i) } fn is(self, r: i64, i: i64) -> bool { ($is)(self, r, i) }
    unsafe fn go(m: usize, k: usize, n: usize, al: Self, a: *const Self, ra: isize, ca: isize, b: *const Self, rb: isize, cb: isize, be: Self, c: *mut Self, rc: isize, cc: isize) { mm::$f($($o,)* m, k, n, al, a, ra, ca, b, rb, cb, be, c, rc, cc) } } } }
el!(f32, 1, |r, _| r as f32, |x: f32, r, _| x == r as f32, sgemm); el!(f64, 1, |r, _| r as f64, |x: f64, r, _| x == r as f64, dgemm);
el!([f32; 2], 2, |r, i| [r as f32, i as f32], |x: [f32; 2], r, i| x[0] == r as f32 && x[1] == i as f32, cgemm mm::CGemmOption::Standard, mm::CGemmOption::Standard); el!([f64; 2], 2, |r, i| [r as f64, i as f64], |x: [f64; 2], r, i| x[0] == r as f64 && x[1] == i as f64, zgemm mm::CGemmOption::Standard, mm::CGemmOption::Standard);

/// Layouts: r row major, c column major, g gaps in both directions, n both strides negative, m rows negative.
#[derive(Clone, Copy, PartialEq)]
struct Case { m: usize, k: usize, n: usize, lay: [char; 3], beta: u8, alpha: u8 }
impl Case {
    fn text(&self) -> String { format!("{}x{}x{}:{}:{}{}", self.m, self.k, self.n, self.lay.iter().collect::<String>(), self.alpha, self.beta) }
    fn parse(s: &str) -> Case {
        let p: Vec<&str> = s.split(':').collect(); let d: Vec<usize> = p[0].split('x').map(|x| x.parse().unwrap()).collect(); let l: Vec<char> = p[1].chars().collect(); let b = p[2].as_bytes();
        Case { m: d[0], k: d[1], n: d[2], lay: [l[0], l[1], l[2]], alpha: b[0] - b'0', beta: b[1] - b'0' }
    }
}
/// Element (i, j) of a matrix is u[i] + w[j]: the exact product is then cheap to compute (the interpreter is slow), yet every element matters.
fn tab(s: usize, n: usize, w: bool) -> Vec<[i64; 2]> {
    let mut v = Vec::with_capacity(n); let mut i = 0;
    while i < n { v.push([((i * i * 5 + i * 3 + s) % 7) as i64 - 3, if w { ((i * i * 3 + i * 4 + s * 2) % 5) as i64 - 2 } else { 0 }]); i += 1 }
    v
}
fn mul(x: [i64; 2], y: [i64; 2]) -> [i64; 2] { [x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]] }
fn add(x: [i64; 2], y: [i64; 2]) -> [i64; 2] { [x[0] + y[0], x[1] + y[1]] }
/// Memory of exactly the extent of an r x c matrix; elements of the matrix initialised unless `init` is None, gaps never.
struct Mat<E> { mem: Vec<U<E>>, base: usize, rs: isize, cs: isize }
impl<E: El> Mat<E> {
    fn new(l: char, r: usize, c: usize, init: Option<(&[[i64; 2]], &[[i64; 2]])>) -> Self {
        let (rs, cs): (isize, isize) = match l { 'r' => (c.max(1) as isize, 1), 'c' => (1, r.max(1) as isize), 'g' => (2 * c.max(1) as isize + 1, 2), 'n' => (-1, -(r.max(1) as isize) - 1), _ => (-(c.max(1) as isize) - 2, 1) };
        let ext = |s: isize, n: usize| s.unsigned_abs() * n.saturating_sub(1);
        let len = if r == 0 || c == 0 { 0 } else { ext(rs, r) + ext(cs, c) + 1 };
        let base = if len == 0 { 0 } else { (if rs < 0 { ext(rs, r) } else { 0 }) + if cs < 0 { ext(cs, c) } else { 0 } };
        let mut mem: Vec<U<E>> = Vec::with_capacity(len);
        unsafe { mem.set_len(len) }
        let s0 = Mat { mem, base, rs, cs };
        let mut s = s0;
        if let Some((u, w)) = init { if len > 0 {
            let p = s.mem.as_mut_ptr() as *mut E; let mut i = 0;
            while i < r {
                let [ur, ui] = u[i]; let mut x = s.at(i, 0) as isize; let mut j = 0;
                while j < c { unsafe { let v = *w.as_ptr().wrapping_add(j); *p.wrapping_offset(x) = E::of(ur + v[0], ui + v[1]) } x += cs; j += 1 }
                i += 1
            }
        } }
        s
    }
    fn at(&self, i: usize, j: usize) -> usize { (self.base as isize + i as isize * self.rs + j as isize * self.cs) as usize }
}
fn run<E: El>(c: &Case) {
    let w = E::W == 2; let (m, k, n) = (c.m, c.k, c.n);
    let sc = |x: u8| -> [i64; 2] { match x { 0 => [0, 0], 1 => [1, 0], x => [x as i64, if w { 1 } else { 0 }] } };
    let (al, be) = (sc(c.alpha), sc(c.beta));
    let (ar, ac, br, bc, cr, cc) = (tab(1, m, w), tab(2, k, w), tab(4, k, w), tab(5, n, w), tab(3, m, w), tab(6, n, w));
    let a = Mat::<E>::new(c.lay[0], m, k, Some((&ar, &ac))); let b = Mat::<E>::new(c.lay[1], k, n, Some((&br, &bc)));
    let mut d = Mat::<E>::new(c.lay[2], m, n, if c.beta == 0 { None } else { Some((&cr, &cc)) });
    unsafe { E::go(m, k, n, E::of(al[0], al[1]), a.mem.as_ptr().add(a.base) as *const E, a.rs, a.cs, b.mem.as_ptr().add(b.base) as *const E, b.rs, b.cs, E::of(be[0], be[1]), d.mem.as_mut_ptr().add(d.base) as *mut E, d.rs, d.cs) }
    // sum over l of (ar[i] + ac[l]) (br[l] + bc[j])
    let (mut sa, mut sb, mut sab) = ([0, 0], [0, 0], [0, 0]); let mut l = 0;
    while l < k { sa = add(sa, ac[l]); sb = add(sb, br[l]); sab = add(sab, mul(ac[l], br[l])); l += 1 }
    let mut i = 0;
    while i < m {
        let (p, q) = (mul(al, add(sab, mul(ar[i], sb))), mul(al, add(sa, [ar[i][0] * k as i64, ar[i][1] * k as i64])));
        let (mut x, mut j) = (if n > 0 { d.at(i, 0) } else { 0 } as isize, 0); let dp = d.mem.as_ptr() as *const E; let y = if c.beta == 0 { [0, 0] } else { cr[i] };
        while j < n {
            let v = bc[j]; let z = if c.beta == 0 { v } else { cc[j] };
            let (mut wr, mut wi) = (p[0] + q[0] * v[0], p[1]);
            if w { wr -= q[1] * v[1]; wi += q[0] * v[1] + q[1] * v[0] }
            if c.beta != 0 { let (zr, zi) = (y[0] + z[0], y[1] + z[1]); wr += be[0] * zr; if w { wr -= be[1] * zi; wi += be[0] * zi + be[1] * zr } }
            let got = unsafe { *dp.wrapping_offset(x) };
            if !got.is(wr, wi) { println!("WRONG element {i},{j} is {got:?}, expected {:?}", E::of(wr, wi)); std::process::exit(3) }
            x += d.cs; j += 1
        }
        i += 1
    }
}
fn cases(tier: &str) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let mut put = |c: Case| v.push(c);
    // layouts: every combination on one shape with partial and full tiles
    let ls = ['r', 'c', 'g', 'n', 'm'];
    for (xi, &x) in ls.iter().enumerate() { for (yi, &y) in ls.iter().enumerate() { for (zi, &z) in ls.iter().enumerate() { if tier == "thorough" || zi == (xi + yi) % 5 { put(Case { m: 9, k: 3, n: 9, lay: [x, y, z], beta: 2, alpha: 1 }) } } } }
    // shapes: every combination of a few sizes around the tiles
    let (ms, ks): (&[usize], &[usize]) = if tier == "thorough" { (&[0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 17], &[0, 1, 2, 3, 7, 8, 9, 17]) } else { (&[0, 1, 3, 8, 9], &[0, 1, 9]) };
    for &m in ms { for &n in ms { for &k in ks { put(Case { m, k, n, lay: [['r', 'c', 'g'][m % 3], ['c', 'n', 'r'][n % 3], ['c', 'r', 'g', 'm'][(m + n + k) % 4]], beta: [0, 2, 1][(m + k) % 3], alpha: 2 }) } } }
    // scalars
    for alpha in 0..3 { for beta in 0..3 { for &z in if tier == "thorough" { &ls[..] } else { &ls[..3] } { for (m, n) in [(8, 8), (5, 3)] { put(Case { m, k: 2, n, lay: ['r', 'r', z], beta, alpha }) } } } }
    // depths: every remainder of the unrolled loops
    for k in 2..if tier == "thorough" { 40 } else { 17 } { put(Case { m: 8 + k % 2, k, n: 9 - k % 3, lay: [['r', 'c'][k % 2], 'r', ['c', 'r', 'g'][k % 3]], beta: [2, 0][k % 2], alpha: 2 }) }
    // many blocks, where block sizes are small
    for (m, k, n) in [(17, 17, 17), (26, 9, 10), (9, 26, 10), (10, 9, 26)] { put(Case { m, k, n, lay: ['c', 'g', 'r'], beta: 2, alpha: 2 }); put(Case { m, k, n, lay: ['r', 'c', 'g'], beta: 0, alpha: 1 }) }
    v
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let go = |ty: &str, c: &Case| match ty { "s" => run::<f32>(c), "d" => run::<f64>(c), "c" => run::<[f32; 2]>(c), _ => run::<[f64; 2]>(c) };
    if a[1] == "one" { go(&a[2], &Case::parse(&a[3])); println!("DONE 1"); return }
    if a[1] == "limits" { let d: Vec<usize> = a[3].split('x').map(|x| x.parse().unwrap()).collect(); let f = a[4] == "refuse"; match &a[2][..] { "s" => limits::<f32>(d[0], d[1], d[2], f), "d" => limits::<f64>(d[0], d[1], d[2], f), "c" => limits::<[f32; 2]>(d[0], d[1], d[2], f), _ => limits::<[f64; 2]>(d[0], d[1], d[2], f) } println!("DONE 1"); return }
    if a[1] == "threads" { threads(&a[2]); println!("DONE 1"); return }
    let (part, parts): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let mut n = 0;
    for (i, c) in cases(&a[1]).iter().enumerate() { if i % parts == part { println!("CASE {}", c.text()); go(&a[2], c); n += 1 } }
    println!("DONE {n}");
}
/// Watches for the request of scratch memory of one call and ends the program there with success: the sizes of `limits` are too large to compute.
struct Watch; static ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[global_allocator] static WATCH: Watch = Watch;
unsafe impl std::alloc::GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= 8192 && ON.swap(false, std::sync::atomic::Ordering::SeqCst) { println!("SCRATCH {}", l.size()); println!("DONE 1"); std::process::exit(0) }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
}
/// One element broadcast to an m x k matrix and one to a k x n matrix, near the limits of the address space: the call asks for its scratch
/// memory (or, when that cannot exist, may refuse by a panic that leaves C alone); it must not miscalculate.
fn limits<E: El>(m: usize, k: usize, n: usize, may_refuse: bool) {
    use std::sync::atomic::Ordering::SeqCst;
    run::<E>(&Case { m: 2, k: 2, n: 2, lay: ['r', 'r', 'r'], beta: 2, alpha: 1 }); // the worker threads exist from here on
    let (a, b, mut c) = (E::of(1, 0), E::of(1, 0), vec![E::of(7, 0); if m == n { 1 } else { m.max(n) }]);
    std::panic::set_hook(Box::new(|i| if !ON.load(SeqCst) { println!("{i}") } else { println!("REFUSED {i}") }));
    ON.store(true, SeqCst);
    let (rc, cc) = if m >= n { (1, m as isize) } else { (n as isize, 1) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { E::go(m, k, n, E::of(1, 0), &a, 0, 0, &b, 0, 0, E::of(2, 0), c.as_mut_ptr(), rc, cc) }));
    ON.store(false, SeqCst);
    let what = match r { Ok(()) => "returns without scratch memory of the size it needs", Err(_) if !may_refuse => "panics although nothing is wrong with it", Err(_) if c.iter().any(|x| !x.is(7, 0)) => "refuses after it has written to C", _ => return };
    println!("WRONG {m}x{k}x{n}: the call {what}"); std::process::exit(3)
}
/// A call large enough for two threads, and two callers at once making the first calls of the process.
fn threads(what: &str) {
    match what {
        // the edge-tile buffer of many threads (the interpreter places each at another address), every element type
        "tiles" => for i in 0..24 {
            std::thread::spawn(move || {
                let pad = vec![0u8; 1 + i * 8]; // another place for what comes next
                run::<f32>(&Case { m: 1 + i % 3 * 4, k: 2, n: 1, lay: ['r', 'r', 'r'], beta: 2, alpha: 1 }); run::<[f64; 2]>(&Case { m: 1, k: 2, n: 1 + i % 2, lay: ['r', 'c', 'c'], beta: 0, alpha: 1 });
                run::<f64>(&Case { m: 1, k: 1, n: 3, lay: ['r', 'r', 'r'], beta: 0, alpha: 1 }); run::<[f32; 2]>(&Case { m: 3, k: 1, n: 1, lay: ['r', 'c', 'c'], beta: 2, alpha: 1 });
                drop(pad);
            }).join().unwrap()
        },
        // 32-bit ARM uses several threads from much smaller sizes on
        "armcall" => run::<f32>(&Case { m: 1, k: 420, n: 5, lay: ['r', 'r', 'r'], beta: 2, alpha: 1 }),
        "call" => run::<f32>(&Case { m: 1, k: 5600, n: 5, lay: ['r', 'r', 'r'], beta: 2, alpha: 1 }),
        _ => {
            let h: Vec<_> = (0..2).map(|i| std::thread::spawn(move || if i == 0 { run::<f32>(&Case { m: 9, k: 3, n: 5, lay: ['r', 'c', 'g'], beta: 2, alpha: 2 }) } else { run::<[f64; 2]>(&Case { m: 5, k: 3, n: 3, lay: ['c', 'c', 'r'], beta: 0, alpha: 2 }) })).collect();
            for t in h { t.join().unwrap() }
        }
    }
}
