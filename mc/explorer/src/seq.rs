//! C14: all call sequences up to a length, each in a fresh process, against each call made first in a
//! fresh process (bit-for-bit).
use crate::alloc;
use crate::case::Case;
use crate::checks::real_data;
use crate::elem::*;
use crate::exec::*;
use crate::layout::*;
use crate::runner::*;
use crate::variants::*;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Instant;

pub const NOPS: usize = 23;
pub const OPN: [&str; NOPS] = ["s 3x5x2 edge", "s 8x8x8 full tiles", "s 13x3x13 mixed", "d 9x4x7 edge", "d 8x6x8 row major", "c 5x3x3", "z 5x2x7",
    "s NaN everywhere 11x3x11", "z NaN everywhere 5x5x5", "empty (k=0, m=0)", "s large (multithreaded)", "d several default blocks", "s 3x5x2 on a new thread", "d large (multithreaded), C column major",
    "s 8x8x8 full tiles, other contents at the same place", "c 5x3x3, other contents at the same place",
    "s 9x4x7, subnormal products", "d 9x4x7 edge, again with the mode set to round upwards and flush subnormals", "s 3x5x2 by an exiting thread (destructor of a thread-local value), after another call",
    "s 8x8x8 full tiles, one element of B changed", "s 8x8x8 full tiles, one element of A changed", "c 5x3x3, one element of B changed",
    "s, d, c, z and several blocks on a thread with a small stack"];

/// pairs of operations that are the same call and must give the same bits
const TWINS: [(usize, usize); 2] = [(12, 0), (18, 0)];
fn op_case(var: u8, op: usize) -> Case {
    let mut c = Case { var, al: 7, be: 6, ..Case::default() };
    let d = |c: &mut Case, t: u8, m, k, n| { c.ty = t; c.m = m; c.k = k; c.n = n; };
    match op {
        0 | 12 | 18 => d(&mut c, 0, 3, 5, 2),
        1 => { d(&mut c, 0, 8, 8, 8); c.lc = COL; }
        14 => { d(&mut c, 0, 8, 8, 8); c.lc = COL; c.data = 2; }
        15 => { d(&mut c, 2, 5, 3, 3); c.data = 2; }
        19 | 20 => { d(&mut c, 0, 8, 8, 8); c.lc = COL; c.data = op as u8; }
        21 => { d(&mut c, 2, 5, 3, 3); c.data = 19; }
        16 => { d(&mut c, 0, 9, 4, 7); c.lc = COL; c.data = 3; }
        2 => { d(&mut c, 0, 13, 3, 13); c.be = 1; c.cinit = 1; }
        3 | 17 => { d(&mut c, 1, 9, 4, 7); c.lc = GENC; }
        4 => d(&mut c, 1, 8, 6, 8),
        5 => d(&mut c, 2, 5, 3, 3),
        6 => { d(&mut c, 3, 5, 2, 7); c.lc = COL; }
        7 => { d(&mut c, 0, 11, 3, 11); c.data = 1; }
        8 => { d(&mut c, 3, 5, 5, 5); c.data = 1; }
        9 => d(&mut c, 0, 3, 0, 4),
        10 => d(&mut c, 0, 25, 1500, 21),
        11 => d(&mut c, 1, 70, 260, 11),
        _ => { d(&mut c, 1, 26, 1450, 22); c.lc = COL; c.la = COL; }
    }
    c
}
/// Control bits (rounding, exception masks, flushing of subnormal values) of the vector and of the x87 unit.
fn fp_mode() -> (u32, u16) {
    let (mut m, mut f) = (0u32, 0u16);
    unsafe { std::arch::asm!("stmxcsr [{}]", "fnstcw [{}]", in(reg) &mut m, in(reg) &mut f); }
    (m & !0x3f, f)
}
fn run_op_t<T: Elem>(cx: &mut Ctx, c: &Case) -> Result<u64, String> {
    let nan = c.data == 1;
    let sh = if c.data == 2 { 100 } else { 0 };
    let tiny = if c.data == 3 { 2f64.powi(-66) } else { 1. };
    let g = |s: u64, o: i64| if nan { (f64::NAN, f64::INFINITY) } else { (real_data(s + sh, o) * tiny, real_data(s + sh + 9, o) * tiny) };
    let p = prepare::<T>(cx, c, |o| g(1, o), |o| g(3, o))?.ok_or("no such case")?;
    unsafe {
        // neither at the ends nor at a round position
        if c.data == 19 { p.b.set(1, 2, 3., 1.); }
        if c.data == 20 { p.a.set(5, 1, 3., 1.); }
        for i in 0..p.c.r { for j in 0..p.c.c { let o = p.c.off(i, j); let v = if c.cinit == 1 { (f64::NAN, f64::NAN) } else { (real_data(5, o) * tiny * tiny, real_data(6, o) * tiny * tiny) }; p.c.set(i, j, v.0, v.1); } }
        let mode = fp_mode();
        call(cx, c, &p)?;
        if fp_mode() != mode { return Err(format!("the call changes the floating-point mode of its thread from {:x?} to {:x?}", mode, fp_mode())); }
        let mut h = 7u64;
        for i in 0..p.c.r { for j in 0..p.c.c {
            let x = p.c.get(i, j);
            // any NaN counts as the same NaN
            for q in 0..T::N { let v = x.get(q); h = mix(h ^ if v.is_nan() { 0x7ff8 } else { v.to_bits() }).wrapping_add(17); }
            std::ptr::write_bytes(p.c.at(i, j) as *mut u8, FILL_C, std::mem::size_of::<T>());
        } }
        check_window(&p.c)?;
        Ok(h.max(1))
    }
}
pub fn run_op(cx: &mut Ctx, var: u8, op: usize) -> Result<u64, String> {
    let c = op_case(var, op);
    let go = move |cx: &mut Ctx| match c.ty { 0 => run_op_t::<f32>(cx, &c), 1 => run_op_t::<f64>(cx, &c), 2 => run_op_t::<[f32; 2]>(cx, &c), _ => run_op_t::<[f64; 2]>(cx, &c) };
    let a = cx as *mut Ctx as usize;
    match op {
        12 => std::thread::spawn(move || go(unsafe { &mut *(a as *mut Ctx) })).join().unwrap(),
        // the mode is the caller's: it has to be the same after the call, whatever it is
        17 => unsafe {
            go(cx)?; // (the worker threads, which inherit the mode, exist from here on)
            let mode = fp_mode();
            let m = mode.0 | 0x8040 | 0x4000;
            std::arch::asm!("ldmxcsr [{}]", in(reg) &m);
            let r = go(cx);
            std::arch::asm!("ldmxcsr [{}]", in(reg) &mode.0);
            r
        },
        18 => {
            struct AtExit(usize, *mut Option<Result<u64, String>>, u8);
            impl Drop for AtExit { fn drop(&mut self) { unsafe { if !self.1.is_null() { *self.1 = Some(run_op(&mut *(self.0 as *mut Ctx), self.2, 0)); } } } }
            thread_local! { static END: std::cell::RefCell<AtExit> = std::cell::RefCell::new(AtExit(0, std::ptr::null_mut(), 0)); }
            let mut out: Option<Result<u64, String>> = None;
            let o = &mut out as *mut _ as usize;
            let first = std::thread::spawn(move || {
                // set up before the library's own thread-local data, so destroyed after them
                END.with(|e| { let mut e = e.borrow_mut(); e.0 = a; e.1 = o as *mut _; e.2 = var; });
                run_op(unsafe { &mut *(a as *mut Ctx) }, var, 1)
            }).join().unwrap();
            first?;
            out.ok_or("the call did not return")?
        }
        // 96 KiB: a hundred times what the library needs, far less than a packed block
        22 => std::thread::Builder::new().stack_size(min_stack() + (96 << 10)).spawn(move || {
            let cx = unsafe { &mut *(a as *mut Ctx) };
            let mut h = 3;
            for o in [0, 3, 5, 6, 11] { h = mix(h ^ run_op(cx, var, o)?); }
            Ok(h.max(1))
        }).unwrap().join().unwrap(),
        _ => go(cx),
    }
}
/// What a thread needs before it has any stack of its own (thread-local data of all builds linked here).
fn min_stack() -> usize {
    unsafe {
        let f = libc::dlsym(libc::RTLD_DEFAULT, c"__pthread_get_minstack".as_ptr());
        if f.is_null() { return 256 << 10; }
        let f: unsafe extern "C" fn(*const libc::pthread_attr_t) -> usize = std::mem::transmute(f);
        let mut at: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut at);
        let n = f(&at);
        libc::pthread_attr_destroy(&mut at);
        n
    }
}
fn set_junk(j: usize) { alloc::JUNK.store([0xff, 0x7f, 0x00][j % 3], Relaxed); alloc::OVERALIGN.store((j >= 3) as usize, Relaxed); }

pub struct Cfg { pub var: u8, pub nt: u8 }
fn in_child(var: u8, nt: u8, junk: usize, ops: &[usize], out: *const AtomicU64, msg: *mut u8) -> Result<(), String> {
    unsafe {
        let pid = libc::fork();
        if pid < 0 { return Err("engine: fork".into()); }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(if ops.iter().any(|o| o >> 8 > 0) { 400 } else { 30 });
            std::env::set_var("MATMUL_NUM_THREADS", nt.to_string());
            std::panic::set_hook(Box::new(|_| {}));
            let mut cx = Ctx::new(variants());
            set_junk(junk);
            let mut pooled = !cx.vs[var as usize].threading;
            for (i, &op) in ops.iter().enumerate() {
                // the first non-empty call may create the thread pool, whose allocations must not live in the arena
                cx.guard_alloc = pooled;
                let (op, times) = (op & 255, (op >> 8).max(1));
                pooled |= op != 9;
                let mut res = run_op(&mut cx, var, op);
                cx.guard_alloc = pooled;
                for t in 1..times { if let Ok(h) = res { res = match run_op(&mut cx, var, op) { Ok(g) if g == h => Ok(h), Ok(_) => Err(format!("({}) gives another result when repeated for the {}th time", OPN[op], t + 1)), e => e } } else { break } }
                match res {
                    Ok(h) => (*out.add(i)).store(h, SeqCst),
                    Err(e) => {
                        let b = e.as_bytes(); let n = b.len().min(500);
                        std::ptr::copy_nonoverlapping(b.as_ptr(), msg, n); *msg.add(n) = 0;
                        libc::_exit(10 + i as i32);
                    }
                }
            }
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) { return Err(format!("the process died with signal {} ({})", libc::WTERMSIG(st), signame(libc::WTERMSIG(st)))); }
        let e = libc::WEXITSTATUS(st);
        if e >= 10 { return Err(format!("call {} of the sequence: {}", e - 9, std::ffi::CStr::from_ptr(msg as *const _).to_string_lossy())); }
        if e != 0 { return Err(format!("the process exited with {e}")); }
        Ok(())
    }
}
unsafe fn shm(n: usize) -> *mut u8 {
    libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u8
}
pub fn seq_text(var: u8, nt: u8, junk: usize, ops: &[usize]) -> String {
    format!("seq var={} nt={} junk={} ops={}", variants()[var as usize].name, nt, junk, ops.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
/// run one sequence (an operation in the low byte, how often it is repeated above it) against the single-call baselines; both in fresh processes
pub fn check_seq(var: u8, nt: u8, junk: usize, ops: &[usize], base: &[u64; NOPS], mem: *mut u8) -> Result<(), String> {
    let out = mem as *const AtomicU64;
    for i in 0..ops.len() { unsafe { (*out.add(i)).store(0, SeqCst); } }
    in_child(var, nt, junk, ops, out, unsafe { mem.add(512) })?;
    for (i, &op) in ops.iter().enumerate() {
        let h = unsafe { (*out.add(i)).load(SeqCst) };
        if h != base[op & 255] { return Err(format!("call {} ({}) gives another result than the same call made first in a fresh process; sequence: {}",
            i + 1, OPN[op & 255], ops.iter().map(|&o| if o >> 8 > 0 { format!("{} x {}", o >> 8, OPN[o & 255]) } else { OPN[o].into() }).collect::<Vec<_>>().join(" ; "))); }
    }
    Ok(())
}
pub fn baseline(var: u8, nt: u8, mem: *mut u8) -> Result<[u64; NOPS], (usize, String)> {
    let mut b = [0; NOPS];
    for op in 0..NOPS {
        in_child(var, nt, 0, &[op], mem as *const AtomicU64, unsafe { mem.add(512) }).map_err(|e| (op, e))?;
        b[op] = unsafe { (*(mem as *const AtomicU64)).load(SeqCst) };
    }
    for (x, y) in TWINS { if b[x] != b[y] { return Err((x, format!("({}) gives another result than ({})", OPN[x], OPN[y]))); } }
    Ok(b)
}
pub fn replay(line: &str) -> Result<(), String> {
    let vs = variants();
    let (mut var, mut nt, mut junk, mut ops) = (0u8, 1u8, 0usize, vec![]);
    for kv in line.split_whitespace().skip(1) {
        let (k, v) = kv.split_once('=').unwrap();
        match k { "var" => var = vs.iter().position(|x| x.name == v).unwrap() as u8, "nt" => nt = v.parse().unwrap(), "junk" => junk = v.parse().unwrap(),
                  "ops" => ops = v.split(',').map(|x| x.parse().unwrap()).collect(), _ => {} }
    }
    let mem = unsafe { shm(4096) };
    let b = baseline(var, nt, mem).map_err(|e| e.1)?;
    check_seq(var, nt, junk, &ops, &b, mem)
}

pub fn c14(tier: &str) -> i32 {
    let t = tier == "thorough";
    let t0 = Instant::now();
    let mut work: Vec<(u8, u8, usize, Vec<usize>)> = vec![];
    let cfgs: &[(u8, u8)] = &[(DEF, 4), (NONE, 1), (THRNONE, 4), (VTHR, 2), (AVX, 1), (SSE2, 1), (NOSTD, 1), (DBG, 4)];
    let depth = 3;
    for &(var, nt) in cfgs {
        let all = t || matches!(var, DEF | NONE);
        for len in 1..=depth {
            let n = NOPS.pow(len as u32);
            for i in 0..n {
                let mut q = i; let mut ops = vec![]; for _ in 0..len { ops.push(q % NOPS); q /= NOPS; }
                ops.reverse();
                let junks: Vec<usize> = if len == 1 { (0..6).collect() } else if len == 2 { vec![0, 1, 5] } else if t { vec![0, 1, 2, 5] } else { vec![i % 3] };
                if len == 3 && !all { 
                    // the two slow multithreaded calls only in one position in the quick tier
                    if ops.iter().filter(|&&o| o == 10 || o == 13 || o == 11).count() > 1 { continue; }
                }
                for j in junks { work.push((var, nt, j, ops.clone())); }
            }
        }
    }
    if t { 
        // length 4 over the operations that use the shared edge-tile buffer
        for &(var, nt) in &[(NONE, 1u8), (DEF, 4), (THRNONE, 4)] { let sub = [0usize, 2, 3, 5, 6, 7, 8, 12, 13];
            for i in 0..sub.len().pow(4) { let mut q = i; let mut ops = vec![]; for _ in 0..4 { ops.push(sub[q % sub.len()]); q /= sub.len(); } work.push((var, nt, i % 3, ops)); } }
    }
    // long repetitions of one call, followed by every call
    let all_ops = |first: usize| std::iter::once(first).chain(0..NOPS).collect::<Vec<_>>();
    for &(var, nt) in cfgs { for op in 0..NOPS { let slow = matches!(op, 10 | 11 | 13); work.insert(0, (var, nt, op % 3, all_ops(op | (if slow { 20 } else { 300 }) << 8))); } }
    for &(var, nt) in if t { cfgs } else { &cfgs[..3] } { for op in [0usize, 1, 3, 5, 6, 9] { work.insert(0, (var, nt, op % 3, all_ops(op | (if t { 140_000 } else { 66_000 }) << 8))); } }
    let mem = unsafe { shm(1 << 16) };
    // baselines
    let mut bases = vec![];
    let mut viol: Option<(String, String)> = None;
    for &(var, nt) in cfgs {
        match baseline(var, nt, mem) { Ok(b) => bases.push(((var, nt), b)), Err((op, e)) => { viol = Some((seq_text(var, nt, 0, &[op]), e)); break; } }
    }
    let ctl = unsafe { shm(4096) };
    let next = unsafe { &*(ctl as *const AtomicU64) };
    let done = unsafe { &*(ctl.add(8) as *const AtomicU64) };
    let bad = unsafe { &*(ctl.add(16) as *const AtomicU64) };
    next.store(0, SeqCst); done.store(0, SeqCst); bad.store(u64::MAX, SeqCst);
    if viol.is_none() {
        let mut pids = vec![];
        for _ in 0..8 {
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
                let my = unsafe { shm(4096) };
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i as usize >= work.len() || bad.load(SeqCst) != u64::MAX { break; }
                    let (var, nt, j, ops) = &work[i as usize];
                    let b = &bases.iter().find(|b| b.0 == (*var, *nt)).unwrap().1;
                    if let Err(_e) = check_seq(*var, *nt, *j, ops, b, my) { bad.fetch_min(i, SeqCst); break; }
                    done.fetch_add(1, SeqCst);
                }
                unsafe { libc::_exit(0) };
            }
            pids.push(pid);
        }
        for p in pids { let mut st = 0; unsafe { libc::waitpid(p, &mut st, 0); } if !libc::WIFEXITED(st) { eprintln!("engine error: worker died"); std::process::exit(3); } }
        let b = bad.load(SeqCst);
        if b != u64::MAX {
            let (var, nt, j, ops) = &work[b as usize];
            let base = &bases.iter().find(|x| x.0 == (*var, *nt)).unwrap().1;
            let e = check_seq(*var, *nt, *j, ops, base, mem).err().unwrap_or("differs from the single-call result (not on every run)".into());
            viol = Some((seq_text(*var, *nt, *j, ops), e));
        }
    }
    let n = done.load(SeqCst);
    let samples: Vec<String> = (0..12).map(|i| { let w = &work[(work.len() - 1) * i / 11]; seq_text(w.0, w.1, w.2, &w.3) }).collect();
    let o = Outcome { evals: n, distinct: n, nontrivial: n, enumerated: work.len() as u64, slices: vec![("call sequences".into(), work.len() as u64)], violation: None, samples, groups: vec![] };
    Report { id: "C14".into(), tier: tier.into(), t0,
        rule: format!("every sequence of length 1..3 over an alphabet of {NOPS} calls (thorough: length 4 over 9 of them), and up to 66000 (thorough: 140000) repetitions of one call followed by all of them, per build/thread limit and scratch contents/alignment, in a fresh process each; every call's result bits compared with the same call made first in a fresh process"),
        assumptions: vec!["in the quick tier the builds other than the default and the portable one leave out sequences with more than one of the three large calls".into()],
        extra: vec![("operations".into(), format!("[{}]", OPN.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")))] }.finish(&[o], viol)
}
