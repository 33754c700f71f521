//! Explorer of machines (C12). Every call runs single-stepped in a process of its own; CPUID and XGETBV are answered for
//! the machine under consideration, and every instruction of the program is classified before it executes.
mod decode;
use decode::*;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::Instant;
use matrixmultiply as mm;

// ------------------------------------------------------------------------------------------- machines
const OS_NONE: u32 = 0; const OS_SSE: u32 = 1; const OS_YMM: u32 = 2; const OS_ZMM: u32 = 3;
/// What CPUID reports and which register state the operating system has enabled.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Machine { feat: u32, os: u32 }
const OLD: u32 = SSE3 | SSSE3 | SSE41 | SSE42 | POPCNT | LZCNT | MOVBE | CRYPTO | BMI | F16C;
impl Machine {
    /// Extensions a program may use: AVX and what builds on it needs the operating system's consent.
    fn usable(self) -> u32 {
        let mut f = self.feat;
        if self.os < OS_YMM { f &= !(AVX | FMA | AVX2 | AVX512 | F16C) }
        if self.os < OS_ZMM { f &= !AVX512 }
        f
    }
    fn text(self) -> String { format!("{}/{}", names(self.feat), ["noxsave", "sse", "ymm", "zmm"][self.os as usize]) }
    fn parse(s: &str) -> Machine {
        let (f, o) = s.rsplit_once('/').unwrap();
        Machine { feat: NAMES.iter().filter(|n| f.split('+').any(|x| x == n.1)).map(|n| n.0).sum::<u32>() | if f.contains("AES") { CRYPTO } else { 0 }, os: ["noxsave", "sse", "ymm", "zmm"].iter().position(|x| *x == o).unwrap() as u32 }
    }
}
fn host() -> u32 {
    use core::arch::x86_64::*;
    let (c1, c7) = (__cpuid(1), __cpuid_count(7, 0));
    let (x1, ) = (unsafe { __cpuid(0x80000001) }, );
    let b = |w: u32, i: u32| w >> i & 1 == 1;
    let mut f = 0;
    for (w, i, x) in [(c1.ecx, 0, SSE3), (c1.ecx, 9, SSSE3), (c1.ecx, 19, SSE41), (c1.ecx, 20, SSE42), (c1.ecx, 23, POPCNT), (x1.ecx, 5, LZCNT), (c1.ecx, 22, MOVBE), (c1.ecx, 25, CRYPTO), (c7.ebx, 3, BMI), (c1.ecx, 29, F16C)] { if b(w, i) { f |= x } }
    if b(c1.ecx, 27) {
        let (lo, hi): (u32, u32); unsafe { core::arch::asm!("xgetbv", in("ecx") 0, out("eax") lo, out("edx") hi) }; let _ = hi;
        if lo & 6 == 6 { for (w, i, x) in [(c1.ecx, 28, AVX), (c1.ecx, 12, FMA), (c7.ebx, 5, AVX2)] { if b(w, i) { f |= x } } if lo & 0xe6 == 0xe6 && b(c7.ebx, 16) { f |= AVX512 } }
    }
    f
}

// ------------------------------------------------------------------------------------------- the stepper
static FEAT: AtomicU32 = AtomicU32::new(0); static OS: AtomicU32 = AtomicU32::new(0); static ALLOW: AtomicU32 = AtomicU32::new(0);
static FLAGS: AtomicU32 = AtomicU32::new(0); static STEPS: AtomicU64 = AtomicU64::new(0); static DISTINCT: AtomicU64 = AtomicU64::new(0); static CPUIDS: AtomicU64 = AtomicU64::new(0);
static TEXT_LO: AtomicUsize = AtomicUsize::new(0); static TEXT_HI: AtomicUsize = AtomicUsize::new(0); static CACHE: AtomicUsize = AtomicUsize::new(0);
static SLOT: AtomicUsize = AtomicUsize::new(0);
#[repr(C)] struct Slot { status: AtomicI32, msg: [u8; 1000], n: u32, steps: u64, distinct: u64, calls: u64, cpuids: u64, seen: u32 }

fn emulate(g: &mut [i64; 23], s: Special) {
    use core::arch::x86_64::*;
    const RAX: usize = libc::REG_RAX as usize; const RBX: usize = libc::REG_RBX as usize; const RCX: usize = libc::REG_RCX as usize; const RDX: usize = libc::REG_RDX as usize;
    let (f, os) = (FEAT.load(Relaxed), OS.load(Relaxed));
    let has = |x: u32| (f & x != 0) as u32;
    if s == Special::Xgetbv {
        if os == OS_NONE { die("XGETBV executed on a machine whose operating system has not enabled XSAVE") }
        g[RAX] = [0, 3, 7, 0xe7][os as usize]; g[RDX] = 0; return;
    }
    CPUIDS.fetch_add(1, Relaxed);
    let (leaf, sub) = (g[RAX] as u32, g[RCX] as u32);
    let mut r = __cpuid_count(leaf, sub);
    match (leaf, sub) {
        (1, _) => {
            let keep = !(1 << 0 | 1 << 1 | 1 << 9 | 1 << 12 | 1 << 19 | 1 << 20 | 1 << 22 | 1 << 23 | 1 << 25 | 1 << 26 | 1 << 27 | 1 << 28 | 1 << 29 | 1 << 30);
            let xs = (os != OS_NONE) as u32;
            r.ecx = r.ecx & keep | has(SSE3) | has(CRYPTO) << 1 | has(SSSE3) << 9 | has(FMA) << 12 | has(SSE41) << 19 | has(SSE42) << 20 | has(MOVBE) << 22 | has(POPCNT) << 23 | has(CRYPTO) << 25 | 1 << 26 | xs << 27 | has(AVX) << 28 | has(F16C) << 29;
        }
        (7, 0) => { r.eax = 0; r.ebx = r.ebx & 0x1 | has(BMI) << 3 | has(BMI) << 8 | has(AVX2) << 5 | if f & AVX512 != 0 { r.ebx & (1 << 16 | 1 << 17 | 1 << 28 | 1 << 30 | 1 << 31) } else { 0 }; r.ecx = 0; r.edx = 0 }
        (7, _) => { r.eax = 0; r.ebx = 0; r.ecx = 0; r.edx = 0 }
        (0x80000001, _) => r.ecx = r.ecx & 1 | has(LZCNT) << 5,
        _ => {}
    }
    g[RAX] = r.eax as i64; g[RBX] = r.ebx as i64; g[RCX] = r.ecx as i64; g[RDX] = r.edx as i64;
}
extern "C" fn on_step(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let g = unsafe { &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs };
    let (lo, hi) = (TEXT_LO.load(Relaxed), TEXT_HI.load(Relaxed));
    loop {
        STEPS.fetch_add(1, Relaxed);
        let rip = g[libc::REG_RIP as usize] as usize;
        let inside = rip >= lo && rip < hi;
        let (c, s) = if inside {
            let e = unsafe { &mut *((CACHE.load(Relaxed) as *mut u32).add(rip - lo)) };
            if *e == 0 {
                let (c, s) = classify(unsafe { std::slice::from_raw_parts(rip as *const u8, 16) });
                DISTINCT.fetch_add(1, Relaxed);
                *e = 1 << 31 | c | match s { Special::Cpuid => 1 << 29, Special::Xgetbv => 1 << 28, _ => 0 };
            }
            (*e & !(7 << 28 | 1 << 31), if *e >> 29 & 1 == 1 { Special::Cpuid } else if *e >> 28 & 1 == 1 { Special::Xgetbv } else { Special::No })
        } else {
            let b = unsafe { std::slice::from_raw_parts(rip as *const u8, 3) };
            (0, if b[..2] == [0x0f, 0xa2] { Special::Cpuid } else if b == [0x0f, 0x01, 0xd0] { Special::Xgetbv } else { Special::No })
        };
        let bad = c & 0xfffff & !ALLOW.load(Relaxed);
        if bad != 0 { report(rip, bad) }
        FLAGS.fetch_or(c, Relaxed);
        match s {
            Special::Cpuid => { emulate(g, s); g[libc::REG_RIP as usize] += 2 }
            Special::Xgetbv => { emulate(g, s); g[libc::REG_RIP as usize] += 3 }
            _ => return,
        }
    }
}
fn report(rip: usize, bad: u32) -> ! {
    extern "C" { static __executable_start: u8; }
    let base = unsafe { &__executable_start as *const u8 as usize };
    die(&format!("an instruction of {} is executed, which the machine or build does not have [pc +0x{:x}]", names(bad), rip - base))
}
fn die(m: &str) -> ! {
    let s = unsafe { &mut *(SLOT.load(Relaxed) as *mut Slot) };
    let n = m.len().min(999); s.msg[..n].copy_from_slice(&m.as_bytes()[..n]); s.msg[n] = 0; s.status.store(2, Relaxed);
    unsafe { libc::syscall(libc::SYS_exit_group, 0) }; unreachable!()
}
#[inline(always)] unsafe fn step_on() { core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
#[inline(always)] unsafe fn step_off() { core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }

// worker threads are stepped from their first instruction on
type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
static THREADS: AtomicU32 = AtomicU32::new(0);
extern "C" fn stepped(p: *mut libc::c_void) -> *mut libc::c_void {
    let (f, a) = *unsafe { Box::from_raw(p as *mut (Start, usize)) };
    THREADS.fetch_add(1, Relaxed);
    unsafe { step_on(); let r = f(a as *mut _); step_off(); r }
}
#[no_mangle] pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, at: *const libc::pthread_attr_t, f: Start, a: *mut libc::c_void) -> i32 {
    let real: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32 = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
    // the C library blocks all signals for a moment here
    let fl: u64; core::arch::asm!("pushfq", "pop {}", out(reg) fl);
    step_off();
    let r = real(t, at, stepped, Box::into_raw(Box::new((f, a as usize))) as *mut _);
    if fl & 0x100 != 0 { step_on() }
    r
}

// ------------------------------------------------------------------------------------------- calls
type C = [f32; 2]; type Z = [f64; 2];
trait El: Copy + PartialEq + std::fmt::Debug { const W: usize; fn of(r: i64, i: i64) -> Self; unsafe fn go(m: usize, k: usize, n: usize, al: Self, a: *const Self, ra: isize, ca: isize, b: *const Self, rb: isize, cb: isize, be: Self, c: *mut Self, rc: isize, cc: isize); }
macro_rules! el { ($t:ty, $w:expr, $of:expr, $f:ident $($o:expr),*) => { impl El for $t { const W: usize = $w; fn of(r: i64, i: i64) -> Self { ($of)(r, i) }
    unsafe fn go(m: usize, k: usize, n: usize, al: Self, a: *const Self, ra: isize, ca: isize, b: *const Self, rb: isize, cb: isize, be: Self, c: *mut Self, rc: isize, cc: isize) { mm::$f($($o,)* m, k, n, al, a, ra, ca, b, rb, cb, be, c, rc, cc) } } } }
el!(f32, 1, |r, _| r as f32, sgemm); el!(f64, 1, |r, _| r as f64, dgemm);
el!(C, 2, |r, i| [r as f32, i as f32], cgemm mm::CGemmOption::Standard, mm::CGemmOption::Standard); el!(Z, 2, |r, i| [r as f64, i as f64], zgemm mm::CGemmOption::Standard, mm::CGemmOption::Standard);

/// Shape, layouts of A, B and C (r row major, c column major, g with gaps), beta zero or not.
#[derive(Clone, Copy)]
struct Call { ty: char, m: usize, k: usize, n: usize, lay: [char; 3], beta0: bool }
impl Call {
    fn text(&self) -> String { format!("{}:{}x{}x{}:{}{}", self.ty, self.m, self.k, self.n, self.lay.iter().collect::<String>(), if self.beta0 { "0" } else { "" }) }
    fn parse(s: &str) -> Call {
        let p: Vec<&str> = s.split(':').collect(); let d: Vec<usize> = p[1].split('x').map(|x| x.parse().unwrap()).collect(); let l: Vec<char> = p[2].chars().collect();
        Call { ty: p[0].chars().next().unwrap(), m: d[0], k: d[1], n: d[2], lay: [l[0], l[1], l[2]], beta0: l.len() > 3 }
    }
}
fn val(s: usize, i: usize) -> i64 { let mut x = (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15) ^ (s as u64).wrapping_mul(0x2545f4914f6cdd1d); x ^= x >> 31; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x ^= x >> 29; (x % 7) as i64 - 3 }
fn lay(l: char, r: usize, c: usize) -> (usize, usize, usize) { match l { 'r' => (c.max(1), 1, r * c), 'c' => (1, r.max(1), r * c), _ => (2 * c + 3, 2, r * (2 * c + 3) + 1) } }
fn run<E: El>(c: &Call) -> Result<(), String> {
    let ((ra, ca, la), (rb, cb, lb), (rc, cc, lc)) = (lay(c.lay[0], c.m, c.k), lay(c.lay[1], c.k, c.n), lay(c.lay[2], c.m, c.n));
    let cplx = E::W == 2;
    let v = |s: usize, i: usize| (val(s, 2 * i), if cplx { val(s, 2 * i + 1) } else { 0 });
    let gen = |s: usize, l: usize| (0..l).map(|i| { let x = v(s, i); E::of(x.0, x.1) }).collect::<Vec<E>>();
    let (a, b, mut d) = (gen(1, la), gen(2, lb), gen(3, lc));
    let mut want = d.clone();
    let mul = |x: (i64, i64), y: (i64, i64)| (x.0 * y.0 - x.1 * y.1, x.0 * y.1 + x.1 * y.0);
    let (al, be) = if cplx { ((2, 1), (3, -1)) } else { ((2, 0), (3, 0)) };
    let be = if c.beta0 { (0, 0) } else { be };
    for i in 0..c.m { for j in 0..c.n {
        let mut s = (0, 0);
        for l in 0..c.k { let p = mul(v(1, i * ra + l * ca), v(2, l * rb + j * cb)); s.0 += p.0; s.1 += p.1 }
        let (x, y) = (mul(al, s), mul(be, v(3, i * rc + j * cc)));
        want[i * rc + j * cc] = E::of(x.0 + y.0, x.1 + y.1);
    } }
    let (al, be) = (E::of(al.0, al.1), E::of(be.0, be.1));
    unsafe {
        step_on();
        E::go(c.m, c.k, c.n, al, a.as_ptr(), ra as isize, ca as isize, b.as_ptr(), rb as isize, cb as isize, be, d.as_mut_ptr(), rc as isize, cc as isize);
        step_off();
    }
    for i in 0..lc { if d[i] != want[i] { return Err(format!("element {i} of C (storage order) is {:?}, expected {:?}", d[i], want[i])) } }
    Ok(())
}

#[derive(Clone)]
struct Item { mach: Machine, nt: u32, calls: Vec<Call> }
impl Item {
    fn text(&self) -> String { format!("{} nt={} {}", self.mach.text(), self.nt, self.calls.iter().map(|c| c.text()).collect::<Vec<_>>().join(",")) }
    fn parse(s: &str) -> Item { let w: Vec<&str> = s.split(' ').collect(); Item { mach: Machine::parse(w[0]), nt: w[1][3..].parse().unwrap(), calls: w[2].split(',').map(Call::parse).collect() } }
}
/// Extensions enabled when this program was compiled.
fn built() -> u32 { (if cfg!(target_feature = "avx") { AVX } else { 0 }) | (if cfg!(target_feature = "fma") { FMA } else { 0 }) | (if cfg!(target_feature = "avx2") { AVX2 } else { 0 })
    | if cfg!(target_feature = "avx") { SSE3 | SSSE3 | SSE41 | SSE42 | POPCNT } else { 0 } }
fn child(it: &Item) -> ! {
    let slot = unsafe { &mut *(SLOT.load(Relaxed) as *mut Slot) };
    std::env::set_var("MATMUL_NUM_THREADS", it.nt.to_string());
    let allow = if cfg!(feature = "std") { it.mach.usable() | built() } else { built() };
    FEAT.store(it.mach.feat, Relaxed); OS.store(it.mach.os, Relaxed); ALLOW.store(allow, Relaxed);
    unsafe {
        libc::alarm(120);
        let n = TEXT_HI.load(Relaxed) - TEXT_LO.load(Relaxed);
        CACHE.store(libc::mmap(std::ptr::null_mut(), n * 4, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as usize, Relaxed);
        let mut sa: libc::sigaction = std::mem::zeroed(); sa.sa_sigaction = on_step as *const () as usize; sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    for c in &it.calls {
        FLAGS.store(0, Relaxed);
        let r = match c.ty { 's' => run::<f32>(c), 'd' => run::<f64>(c), 'c' => run::<C>(c), _ => run::<Z>(c) };
        if let Err(e) = r { die(&format!("call {}: {e}", c.text())) }
        let f = FLAGS.load(Relaxed);
        slot.seen |= f & 0xfffff | f & (W256 | PACKED); slot.calls += 1;
        if c.m >= 8 && c.n >= 8 && c.k >= 8 {
            let real = c.ty == 's' || c.ty == 'd';
            // the complex functions have a fused path for AVX2 machines and, without fusing, one for FMA machines;
            // without the standard library there is no fused operation for them
            if allow & FMA != 0 && (real || (allow & AVX2 != 0 && cfg!(feature = "std"))) && f & FMA == 0 { die(&format!("call {}: no fused multiply-add instruction is executed although FMA is available", c.text())) }
            if !real && allow & FMA != 0 && f & AVX == 0 { die(&format!("call {}: no vector-extension instruction is executed although FMA is available", c.text())) }
            if real && allow & (AVX | FMA) == AVX && f & W256 == 0 { die(&format!("call {}: no 32-byte vector instruction is executed although AVX is available", c.text())) }
        }
    }
    slot.steps = STEPS.load(Relaxed); slot.distinct = DISTINCT.load(Relaxed); slot.cpuids = CPUIDS.load(Relaxed);
    slot.status.store(1, Relaxed);
    unsafe { libc::syscall(libc::SYS_exit_group, 0) }; unreachable!()
}
fn text_range() {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let exe = std::fs::read_link("/proc/self/exe").unwrap(); let exe = exe.to_str().unwrap();
    for l in maps.lines() { if l.ends_with(exe) && l.contains("r-xp") {
        let (a, b) = l.split(' ').next().unwrap().split_once('-').unwrap();
        TEXT_LO.store(usize::from_str_radix(a, 16).unwrap(), Relaxed); TEXT_HI.store(usize::from_str_radix(b, 16).unwrap(), Relaxed);
    } }
}
unsafe fn shared(n: usize) -> *mut u8 { let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0); assert!(p != libc::MAP_FAILED); p as *mut u8 }
fn one(it: &Item, slot: *mut Slot) -> Option<String> {
    unsafe {
        SLOT.store(slot as usize, Relaxed);
        (*slot).status.store(0, Relaxed);
        let p = libc::fork(); assert!(p >= 0, "fork");
        if p == 0 { child(it) }
        let mut st = 0; libc::waitpid(p, &mut st, 0);
        match (*slot).status.load(Relaxed) {
            1 => None,
            2 => { let s = &*slot; let n = s.msg.iter().position(|&c| c == 0).unwrap(); Some(symbolise(&String::from_utf8_lossy(&s.msg[..n]))) }
            _ => Some(if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM { "the call does not finish".into() } else if libc::WIFSIGNALED(st) { format!("the process died of signal {}", libc::WTERMSIG(st)) } else { format!("the process exited with status {}", libc::WEXITSTATUS(st)) }),
        }
    }
}
fn symbolise(m: &str) -> String {
    let Some(i) = m.find("[pc +0x") else { return m.into() };
    let hex: String = m[i + 7..].chars().take_while(|c| c.is_ascii_hexdigit()).collect();
    match std::process::Command::new("addr2line").args(["-Cfi", "-e"]).arg(std::env::current_exe().unwrap()).arg(format!("0x{hex}")).output() {
        Ok(o) => format!("{} {}", &m[..i], String::from_utf8_lossy(&o.stdout).lines().take(6).collect::<Vec<_>>().join(" ")), _ => m.into() }
}

// ------------------------------------------------------------------------------------------- what is explored
fn machines(th: bool) -> Vec<Machine> {
    let h = host(); let mut v = vec![];
    for noise in [0, OLD & h] { for vecs in [0, AVX, AVX | FMA, AVX | AVX2, AVX | FMA | AVX2, AVX | FMA | AVX2 | AVX512] { for os in [OS_NONE, OS_SSE, OS_YMM, OS_ZMM] {
        if vecs & !h == 0 && (noise == 0 || os == OS_ZMM || th) { v.push(Machine { feat: vecs | noise, os }) }
    } } }
    v
}
fn calls(ty: char, th: bool) -> Vec<Call> {
    let mut v = vec![];
    let dims: &[(usize, usize, usize)] = if th { &[(0, 3, 4), (4, 0, 3), (1, 1, 1), (2, 1, 3), (3, 5, 2), (1, 9, 8), (8, 2, 1), (4, 4, 4), (5, 3, 9), (8, 8, 8), (9, 8, 10), (16, 9, 8), (17, 10, 9), (8, 17, 25), (9, 24, 13), (25, 8, 8)] }
        else { &[(0, 3, 4), (3, 0, 2), (1, 1, 1), (3, 5, 2), (1, 9, 8), (8, 8, 8), (9, 9, 13), (17, 8, 8)] };
    let lays: &[[char; 3]] = if th { &[['r', 'r', 'r'], ['c', 'c', 'c'], ['g', 'g', 'g'], ['r', 'c', 'r'], ['c', 'r', 'c'], ['r', 'g', 'c'], ['c', 'r', 'r']] } else { &[['r', 'r', 'r'], ['c', 'c', 'c'], ['g', 'c', 'g'], ['c', 'r', 'r']] };
    for &(m, k, n) in dims { for (i, &lay) in lays.iter().enumerate() { v.push(Call { ty, m, k, n, lay, beta0: i % 2 == 1 }) } }
    // large enough for anything that is done only beyond small sizes (a fast path that is chosen by size must ask the CPU too)
    for (i, &(m, k, n)) in [(70, 33, 9), (9, 40, 41)].iter().enumerate() { v.push(Call { ty, m, k, n, lay: lays[i], beta0: i == 1 }) }
    v
}
fn plan(th: bool) -> Vec<Item> {
    let mut v = vec![];
    let std = cfg!(feature = "std");
    let ms = if std { machines(th) } else { let h = host(); vec![Machine { feat: 0, os: OS_NONE }, Machine { feat: h, os: if h & AVX512 != 0 { OS_ZMM } else if h & AVX != 0 { OS_YMM } else { OS_SSE } }] };
    let t = ['s', 'd', 'c', 'z'];
    for &mach in &ms {
        // every type from a fresh process
        for ty in t { v.push(Item { mach, nt: 1, calls: calls(ty, th) }) }
        // every order of the types: what one call found out about the machine serves the next
        if std { for a in 0..4 { for b in 0..4 { for c in 0..4 { if a != b && b != c && a != c {
            v.push(Item { mach, nt: 1, calls: [a, b, c, 6 - a - b - c].iter().map(|&i| Call { ty: t[i], m: 8, k: 8, n: 8, lay: ['r', 'c', 'r'], beta0: false }).collect() })
        } } } } }
        // worker threads
        if std && (th || (mach.feat & OLD == 0 && mach.os == OS_ZMM)) { for ty in if th { vec!['s', 'd', 'c', 'z'] } else { vec!['d', 'c'] } {
            for nt in if th { vec![2, 4] } else { vec![2] } { v.push(Item { mach, nt, calls: vec![Call { ty, m: 8, k: if nt == 4 { 4400 } else { 2200 }, n: 9, lay: ['r', 'r', 'r'], beta0: false }] }) }
        } }
    }
    v
}
fn js(s: &str) -> String { let mut o = String::from("\""); for ch in s.chars() { match ch { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }

/// Prints one line for the driver: items calls steps distinct cpuids extensions, or VIOL text.
fn explore(tier: &str, build: &str) -> i32 {
    let t0 = Instant::now();
    let mut items = plan(tier == "thorough");
    items.sort_by_key(|i| std::cmp::Reverse(i.nt)); // long ones first
    let np = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    #[repr(C)] struct Sh { next: AtomicUsize, stop: AtomicU32, steps: AtomicU64, distinct: AtomicU64, calls: AtomicU64, cpuids: AtomicU64, seen: AtomicU32, done: AtomicU64, lock: AtomicU32, msg: [u8; 4096], item: AtomicUsize }
    let sh = unsafe { &mut *(shared(std::mem::size_of::<Sh>()) as *mut Sh) };
    let mut kids = vec![];
    for _ in 0..np {
        let slot = unsafe { shared(std::mem::size_of::<Slot>()) } as *mut Slot;
        let p = unsafe { libc::fork() }; assert!(p >= 0);
        if p == 0 {
            loop {
                let i = sh.next.fetch_add(1, Relaxed);
                if i >= items.len() || sh.stop.load(Relaxed) != 0 { break }
                unsafe { (*slot).steps = 0; (*slot).distinct = 0; (*slot).calls = 0; (*slot).cpuids = 0; (*slot).seen = 0 }
                let r = one(&items[i], slot);
                let s = unsafe { &*slot };
                sh.steps.fetch_add(s.steps, Relaxed); sh.distinct.fetch_add(s.distinct, Relaxed); sh.calls.fetch_add(s.calls, Relaxed); sh.cpuids.fetch_add(s.cpuids, Relaxed); sh.seen.fetch_or(s.seen, Relaxed); sh.done.fetch_add(1, Relaxed);
                if let Some(m) = r { if sh.lock.swap(1, Relaxed) == 0 { let n = m.len().min(4095); sh.msg[..n].copy_from_slice(&m.as_bytes()[..n]); sh.item.store(i, Relaxed); sh.stop.store(1, Relaxed) } }
            }
            unsafe { libc::_exit(0) }
        }
        kids.push(p);
    }
    for k in kids { unsafe { libc::waitpid(k, std::ptr::null_mut(), 0) }; }
    println!("ROW {} {} {} {} {} {} {:.1} {}", build, sh.done.load(Relaxed), sh.calls.load(Relaxed), sh.steps.load(Relaxed), sh.distinct.load(Relaxed), sh.cpuids.load(Relaxed), t0.elapsed().as_secs_f64(), names(sh.seen.load(Relaxed) & 0xfffff));
    if sh.stop.load(Relaxed) != 0 {
        let n = sh.msg.iter().position(|&c| c == 0).unwrap();
        println!("VIOL {build}\t{}\t{}", items[sh.item.load(Relaxed)].text(), String::from_utf8_lossy(&sh.msg[..n])); return 1
    }
    if sh.done.load(Relaxed) != items.len() as u64 { println!("ENGINE {} of {} items", sh.done.load(Relaxed), items.len()); return 2 }
    0
}
/// Runs the programs for all builds and combines what they found.
fn check(tier: &str, dir: &str) -> i32 {
    let t0 = Instant::now();
    let h = host();
    let (mut rows, mut bad, mut steps, mut distinct, mut calls) = (vec![], None, 0u64, 0u64, 0u64);
    for (b, need) in [("std", 0), ("base", 0), ("avx", AVX), ("fma", AVX | FMA), ("avx2", AVX | FMA | AVX2)] {
        if need & !h != 0 { rows.push(format!("{b}: not runnable on this machine")); continue }
        let o = std::process::Command::new(format!("{dir}/target/{b}/release/cpu")).args(["explore", tier, b]).output().expect("explorer");
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        if !matches!(o.status.code(), Some(0) | Some(1)) { eprintln!("engine error: {b}: {out} {}", String::from_utf8_lossy(&o.stderr)); return 2 }
        for l in out.lines() {
            if let Some(r) = l.strip_prefix("ROW ") { let w: Vec<&str> = r.split(' ').collect(); calls += w[2].parse::<u64>().unwrap(); steps += w[3].parse::<u64>().unwrap(); distinct += w[4].parse::<u64>().unwrap();
                rows.push(format!("build {}: {} processes, {} calls, {} instructions stepped, {} distinct per process summed, {} CPUID answered, {} s, extensions executed: {}", w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7])) }
            if let Some(v) = l.strip_prefix("VIOL ") { bad = Some(v.to_string()) }
        }
        if bad.is_some() { break }
    }
    let vdir = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    std::fs::create_dir_all(format!("{vdir}/evidence")).ok();
    std::fs::write(format!("{vdir}/evidence/C12.json"), format!("{{\"property\": \"C12\", \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\", \"coverage\": {{\"states\": {distinct}, \"transitions\": {steps}, \"traces_validated_against_impl\": {calls}, \"exhaustive\": {}, \"rule\": {}, \"samples\": [{}]}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        js(tier), bad.is_none(), js("every machine (combination of extensions reported by CPUID and register state enabled by the operating system) x first calls of every type x every order of types x the shapes and layouts of the plan, each in a fresh process; states = distinct program counters per process, transitions = instructions executed one at a time and classified, traces = calls of the real library"),
        rows.iter().map(|r| js(r)).collect::<Vec<_>>().join(", "),
        ["only extensions the machine running the check has can be offered", "code outside the program (C library, kernel) is stepped but not judged", "32-bit x86 is covered by C17 only"].iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64(), bad.is_some() as u32)).expect("evidence");
    println!("C12 [{tier}]: {calls} calls, {steps} instructions, {:.1} s", t0.elapsed().as_secs_f64());
    for r in &rows { println!("  {r}") }
    match bad { None => 0, Some(v) => {
        let w: Vec<&str> = v.split('\t').collect(); let f = format!("{vdir}/evidence/replay_C12.txt");
        std::fs::write(&f, format!("C12\n{}\n{}\n{}\n", w[0], w[1], w[2])).unwrap();
        println!("C12: {}\n  build {}, {}", w[2], w[0], w[1]); println!("VIOLATION property=C12 replay={f}"); 1 } }
}
fn main() {
    text_range();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], &a[3]),
        Some("explore") => explore(&a[2], &a[3]),
        Some("one") => { let slot = unsafe { shared(std::mem::size_of::<Slot>()) } as *mut Slot; let r = one(&Item::parse(&a[2]), slot); let s = unsafe { &*slot }; println!("{r:?} steps {} distinct {} cpuids {} {}", s.steps, s.distinct, s.cpuids, names(s.seen & 0xfffff)); r.is_some() as i32 }
        Some("decode") => { // one instruction in hex per line; to compare the decoder with a disassembler
            for l in std::io::stdin().lines() { let l = l.unwrap(); let mut b: Vec<u8> = l.split(' ').filter_map(|x| u8::from_str_radix(x, 16).ok()).collect(); b.resize(20, 0); println!("{}", names(classify(&b).0 & 0xfffff)) } 0 }
        Some("replay") => { let t = std::fs::read_to_string(&a[2]).unwrap(); let l: Vec<&str> = t.lines().collect(); let slot = unsafe { shared(std::mem::size_of::<Slot>()) } as *mut Slot;
            match one(&Item::parse(l[2]), slot) { None => { println!("no violation"); 0 } Some(m) => { println!("C12: {m}\nVIOLATION property=C12 replay={}", a[2]); 1 } } }
        _ => 2,
    };
    std::process::exit(code);
}
