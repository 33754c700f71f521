//! C11: what a call asks of the allocator, and what happens when the allocator refuses.
use crate::alloc;
use crate::by_type;
use crate::case::Case;
use crate::checks::*;
use crate::elem::*;
use crate::exec::*;
use crate::layout::*;
use crate::runner::*;
use crate::variants::*;
use std::time::Instant;

pub fn eval_alloc(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> { by_type!(c.ty, run_alloc(cx, c)) }

fn prep<T: Elem>(cx: &mut Ctx, c: &Case) -> Result<Option<Prep<T>>, String> {
    let p = match prepare::<T>(cx, c, |o| (real_data(1, o), 0.5), |o| (real_data(3, o), 0.25))? { Some(p) => p, None => return Ok(None) };
    unsafe { for i in 0..p.c.r { for j in 0..p.c.c { p.c.set(i, j, 1., 2.); } } }
    Ok(Some(p))
}
/// peak of the bytes requested during one call, after checking the balance
fn measure<T: Elem>(cx: &mut Ctx, c: &Case) -> Result<Option<(usize, usize)>, String> {
    cx.guard_alloc = true;
    cx.warm(c.var);
    let p = match prep::<T>(cx, c)? { Some(p) => p, None => return Ok(None) };
    call(cx, c, &p)?;
    // second, measured call: everything that is set up once exists now
    alloc::arm();
    call_unarmed(cx, c, &p)?;
    alloc::disarm();
    if let Some(e) = alloc::error() { alloc::forget_live(); return Err(e.into()); }
    let (n, b) = alloc::outstanding();
    let peak = alloc::peak_bytes();
    let reqs = alloc::requests();
    alloc::forget_live();
    if n != 0 { 
        // confirm with another call before blaming it
        alloc::arm(); call_unarmed(cx, c, &p)?; alloc::disarm();
        let (n2, b2) = alloc::outstanding();
        alloc::forget_live();
        if n2 != 0 { return Err(format!("{n} allocation(s) of {b} bytes not released when the call returned (and {n2} of {b2} bytes in the next call)")); }
    }
    Ok(Some((peak, reqs)))
}
fn call_unarmed<T: Elem>(cx: &mut Ctx, c: &Case, p: &Prep<T>) -> Result<(), String> {
    cx.guard_alloc = false;
    let r = call(cx, c, p);
    cx.guard_alloc = true;
    if r.is_err() { alloc::disarm(); }
    r
}
fn run_alloc<T: Elem>(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> {
    let (peak, reqs) = match measure::<T>(cx, c)? { Some(x) => x, None => return Ok(None) };
    if c.m == 0 || c.n == 0 || c.k == 0 {
        if reqs != 0 { return Err(format!("{reqs} allocation request(s) although a dimension is zero")); }
        return Ok(Some(1));
    }
    if let Some(b) = cx.vs[c.var as usize].blocks {
        let (mc, kc, nc) = b[c.ty as usize];
        let up = |x: usize| x.div_ceil(8) * 8;
        let areas = (c.nt as usize).min(4);
        let bound = (areas * up(mc) * kc + kc * up(nc)) * std::mem::size_of::<T>() + 1024;
        if peak > bound { return Err(format!("{peak} bytes of scratch requested; block sizes {mc}/{kc}/{nc} with up to {areas} packing areas imply at most {bound}")); }
    }
    // growing a dimension that is already beyond its block size changes nothing
    let big = |x: u32| x >= 2100;
    if big(c.m) || big(c.k) || big(c.n) {
        let mut d = *c;
        for x in [&mut d.m, &mut d.k, &mut d.n] { if big(*x) { *x = *x * 2 + 8; } }
        if let Some((p2, _)) = measure::<T>(cx, &d)? {
            if p2 != peak { return Err(format!("scratch grows from {peak} to {p2} bytes when (m,k,n) grows from ({},{},{}) to ({},{},{})", c.m, c.k, c.n, d.m, d.k, d.n)); }
        }
    }
    Ok(Some(peak as u64 | 1))
}
/// growth of the live heap (all threads) over repeated calls
pub fn eval_growth(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> { by_type!(c.ty, run_growth(cx, c)) }
fn run_growth<T: Elem>(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> {
    cx.guard_alloc = false;
    cx.warm(c.var);
    let p = match prep::<T>(cx, c)? { Some(p) => p, None => return Ok(None) };
    for _ in 0..4 { call(cx, c, &p)?; }
    let l0 = alloc::live_bytes();
    for _ in 0..32 { call(cx, c, &p)?; }
    let g = alloc::live_bytes() as i64 - l0 as i64;
    cx.guard_alloc = true;
    // lazily created bookkeeping of the worker threads' channels may still appear once per thread
    let allow = if c.nt > 1 { 1500 } else { 0 };
    if g > allow { return Err(format!("the heap grew by {g} bytes over 32 calls")); }
    Ok(Some(1))
}
/// refuse the x[0]-th request of the call
pub fn eval_refuse(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> { by_type!(c.ty, run_refuse(cx, c)) }
fn run_refuse<T: Elem>(cx: &mut Ctx, c: &Case) -> Result<Option<u64>, String> {
    let which = c.x[0] as usize;
    let reqs = match measure::<T>(cx, c)? { Some(x) => x.1, None => return Ok(None) };
    if which >= reqs {
        if which == 0 && c.m * c.k * c.n > 0 { return Err("no allocation request was observed".into()); }
        return Ok(None);
    }
    let p = prep::<T>(cx, c)?.unwrap();
    let before = unsafe { std::slice::from_raw_parts(p.c.win.0 as *const u8, p.c.win.1).to_vec() };
    let mut fds = [0i32; 2];
    let mut st = 0;
    let mut text = Vec::new();
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 { return Err("engine: pipe".into()); }
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(20);
            libc::dup2(fds[1], 2);
            libc::close(fds[0]); libc::close(fds[1]);
            alloc::set_fail_at(which);
            alloc::arm();
            let r = call_unarmed(cx, c, &p);
            alloc::disarm();
            libc::_exit(if r.is_ok() { 77 } else { 78 });
        }
        libc::close(fds[1]);
        let mut buf = [0u8; 512];
        loop { let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, 512); if n <= 0 { break; } text.extend_from_slice(&buf[..n as usize]); }
        libc::close(fds[0]);
        libc::waitpid(pid, &mut st, 0);
    }
    let text = String::from_utf8_lossy(&text).into_owned();
    let what = format!("request {which} refused");
    if libc::WIFEXITED(st) {
        return Err(match libc::WEXITSTATUS(st) { 77 => format!("{what}: the call returned as if nothing had happened"), 78 => format!("{what}: the call panicked instead of reporting an allocation error"), x => format!("{what}: exit status {x}") });
    }
    let sig = libc::WTERMSIG(st);
    if sig != libc::SIGABRT { return Err(format!("{what}: the process died with signal {sig} ({})", signame(sig))); }
    if !text.contains("alloc") { return Err(format!("{what}: aborted without reporting an allocation error: {}", text.trim())); }
    let after = unsafe { std::slice::from_raw_parts(p.c.win.0 as *const u8, p.c.win.1) };
    if after != &before[..] { return Err(format!("{what}: C had been modified")); }
    Ok(Some(1))
}

pub fn c11(tier: &str) -> i32 {
    let t = tier == "thorough";
    let t0 = Instant::now();
    let mut v = vec![];
    let r = if t { rng(0, 26) } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 25] };
    let mut s = Slice::new("requests: configured blocks", BLK, Dims::Cross(r.clone(), r.clone(), r.clone())); s.ab = vec![(7, 6)]; v.push(s);
    let mut s = Slice::new("requests: default blocks, small", ALLDEF, Dims::Cross(vec![0, 1, 4, 8, 9, 17], vec![0, 1, 2, 9], vec![0, 1, 4, 8, 9, 17])); s.lc = vec![ROW, COL]; v.push(s);
    let mut s = Slice::new("requests: default block boundaries", ALLDEF, Dims::Cross(vec![1, 31, 32, 33, 63, 64, 65, 129], vec![1, 255, 256, 257], vec![1, 8, 511, 512, 513])); s.ab = vec![(0, 1)]; v.push(s);
    let all: Vec<u8> = (0..19).collect();
    let mut s = Slice::new("requests: far beyond the blocks", &all, Dims::List(vec![(2100, 1, 1), (2101, 9, 3), (1, 2100, 1), (9, 2500, 5), (1, 1, 2100), (3, 9, 2301), (2100, 20, 3), (3, 20, 2200), (20, 2100, 20)])); s.ab = vec![(0, 1)]; v.push(s);
    for nt in [2, 3, 4] {
        let mut s = Slice::new("requests: multithreaded", &[VTHR, THRNONE, VTINY, VMID, DBGTHR], thread_dims(&[1, 12, 17, 25], &[1, 9, 16, 17])); s.nt = nt; v.push(s);
        let mut s = Slice::new("requests: multithreaded, far beyond the blocks", &[VTHR, VMID, DEF], Dims::List(vec![(24, 2900, 24), (2100, 24, 24), (24, 24, 2100)])); s.ab = vec![(0, 1)]; s.nt = nt; v.push(s);
    }
    let mut outs = vec![Runner::new("C11").run(&v, eval_alloc).0];
    if outs[0].violation.is_none() {
        let mut v = vec![];
        let mut s = Slice::new("repeated calls", &all, Dims::List(vec![(3, 2, 3), (8, 8, 8), (9, 20, 30), (0, 1, 1), (1, 0, 1), (70, 3, 5)])); s.lc = vec![ROW, COL]; v.push(s);
        let mut s = Slice::new("repeated calls, multithreaded", &[VTHR, THRNONE, DEF, VMID], thread_dims(&[1, 17], &[9, 17])); s.nt = 4; v.push(s);
        let mut r = Runner::new("C11"); r.guard_alloc = false; r.chunk = 4;
        outs.push(r.run(&v, eval_growth).0);
    }
    if outs.iter().all(|o| o.violation.is_none()) {
        let mut v = vec![];
        let mut s = Slice::new("refused requests", &all, Dims::List(vec![(1, 1, 1), (3, 2, 3), (8, 8, 8), (9, 20, 30), (65, 3, 5), (5, 257, 7), (1, 1, 1025)]));
        s.x = (0..4).map(|i| [i, 0, 0, 0]).collect(); s.ab = vec![(7, 6), (4, 1)]; s.lc = if t { vec![ROW, COL, GENC] } else { vec![ROW] }; v.push(s);
        let mut s = Slice::new("refused requests, multithreaded", &[VTHR, THRNONE, DEF], thread_dims(&[12, 17], &[9, 17])); s.x = (0..4).map(|i| [i, 0, 0, 0]).collect(); s.nt = 4; v.push(s);
        let mut r = Runner::new("C11"); r.chunk = 4;
        outs.push(r.run(&v, eval_refuse).0);
    }
    Report { id: "C11".into(), tier: tier.into(), t0,
        rule: "every point of each listed cross product: all requests of the calling thread recorded (size, alignment, release), peak compared with what the block sizes imply, unchanged when dimensions beyond the blocks grow; heap growth over repeated calls; and every single request of a call refused in a process of its own".into(),
        assumptions: vec!["requests made by the one-time set-up of the thread pool are excluded (it is set up before)".into(), "1 KiB of slack in the scratch bound".into()], extra: vec![] }.finish(&outs, None)
}
