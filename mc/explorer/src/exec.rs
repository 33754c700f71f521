//! Executes one case against the real code and compares with the reference.
use crate::arena::{Arena, ASIZE, HSIZE};
use crate::case::Case;
use crate::elem::*;
use crate::layout;
use crate::variants::Variant;
use crate::{alloc, vg};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const FILL_C: u8 = 0xC7;
pub const WINDOW: usize = 2048;

pub struct Ctx {
    pub vs: Vec<Variant>,
    pub a: Arena, pub b: Arena, pub c: Arena,
    pub ra: Vec<i64>, pub rb: Vec<i64>, pub rc: Vec<i64>,
    pub warmed: Vec<bool>,
    pub memcheck: bool,
    /// arm the recording allocator during calls
    pub guard_alloc: bool,
}
impl Ctx {
    pub fn new(vs: Vec<Variant>) -> Ctx {
        let n = vs.len();
        Ctx { vs, a: Arena::new(true), b: Arena::new(true), c: Arena::new(false), ra: vec![], rb: vec![], rc: vec![],
              warmed: vec![false; n], memcheck: false, guard_alloc: true }
    }
    /// first use of a build in this process (thread pool creation) happens outside of the measured calls
    pub fn warm(&mut self, var: u8) {
        if self.warmed[var as usize] { return; }
        self.warmed[var as usize] = true;
        let f = self.vs[var as usize].s;
        let a = [1f32; 64];
        let mut c = [0f32; 64];
        unsafe { f(4, 4, 4, 1., a.as_ptr(), 4, 1, a.as_ptr(), 4, 1, 0., c.as_mut_ptr(), 4, 1) };
    }
}

#[derive(Clone, Copy)]
pub struct Op<T> {
    pub r: usize, pub c: usize, pub rs: isize, pub cs: isize,
    pub rw: *mut T, pub view: *mut T,
    pub lo: i64, pub hi: i64,
    pub win: (*mut u8, usize),
}
impl<T: Elem> Op<T> {
    pub fn off(&self, i: usize, j: usize) -> i64 { i as i64 * self.rs as i64 + j as i64 * self.cs as i64 }
    pub unsafe fn at(&self, i: usize, j: usize) -> *mut T { self.rw.wrapping_offset(self.off(i, j) as isize) }
    pub unsafe fn set(&self, i: usize, j: usize, re: f64, im: f64) { self.at(i, j).write_unaligned(T::mk(re, im)) }
    pub unsafe fn get(&self, i: usize, j: usize) -> T { self.at(i, j).read_unaligned() }
}

pub fn place<T: Elem>(ar: &Arena, r: usize, c: usize, l: u8, off: u8, place: u8) -> Result<Option<Op<T>>, String> {
    let (rs, cs) = match layout::strides(l, r, c) { Some(s) => s, None => return Ok(None) };
    let sz = std::mem::size_of::<T>();
    Ok(Some(match layout::span(r, c, rs, cs) {
        None => {
            // no elements: a dangling, inaccessible but aligned pointer
            let p = unsafe { ar.rw.add(ASIZE + 64) } as *mut T;
            let v = unsafe { ar.view.add(ASIZE + 64) } as *mut T;
            Op { r, c, rs, cs, rw: p, view: v, lo: 0, hi: -1, win: (ar.rw, 0) }
        }
        Some((lo, hi)) => {
            let bytes = (hi - lo + 1) as usize * sz;
            if (layout::HUGE0..layout::HUGE0 + 20).contains(&l) {
                if bytes + 8192 > HSIZE { return Ok(None); }
                let at = |i: usize, j: usize| ((i as i64 * rs as i64 + j as i64 * cs as i64 - lo) as usize) * sz + 64 * T::W;
                let h = ar.sparse(&mut (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).map(|(i, j)| at(i, j)), sz);
                let p = unsafe { h.add(64 * T::W) }.wrapping_offset(-(lo as isize) * sz as isize) as *mut T;
                return Ok(Some(Op { r, c, rs, cs, rw: p, view: p, lo, hi, win: (h, 0) }));
            }
            if bytes + 8192 > ASIZE { eprintln!("engine error: operand of {bytes} bytes does not fit the arena"); std::process::exit(4); }
            let start = if place == 0 { ASIZE - bytes - off as usize * T::W } else { off as usize * T::W };
            let b = start as isize - lo as isize * sz as isize;
            let w0 = start.saturating_sub(WINDOW);
            let w1 = (start + bytes + WINDOW).min(ASIZE);
            Op { r, c, rs, cs, rw: ar.rw.wrapping_offset(b) as *mut T, view: ar.view.wrapping_offset(b) as *mut T, lo, hi,
                 win: (unsafe { ar.rw.add(w0) }, w1 - w0) }
        }
    }))
}

/// All elements are one and the same.
pub fn single<T>(o: &Op<T>) -> bool { o.rs == 0 && o.cs == 0 }
pub struct Prep<T> { pub a: Op<T>, pub b: Op<T>, pub c: Op<T>, pub al: (f64, f64), pub be: (f64, f64) }

/// Place the three operands and fill everything except the logical elements of C.
pub fn prepare<T: Elem>(cx: &mut Ctx, cs: &Case, mut va: impl FnMut(i64) -> (f64, f64), mut vb: impl FnMut(i64) -> (f64, f64))
    -> Result<Option<Prep<T>>, String>
{
    let (m, k, n) = (cs.m as usize, cs.depth(), cs.n as usize);
    let a = match place::<T>(&cx.a, m, k, cs.la, cs.off[0], cs.place)? { Some(x) => x, None => return Ok(None) };
    let b = if cs.alias == 1 {
        // B views the memory of A: same base pointer
        let (rs, cst) = match layout::strides(cs.lb, k, n) { Some(s) => s, None => return Ok(None) };
        if let Some((lo, hi)) = layout::span(k, n, rs, cst) { if lo < a.lo || hi > a.hi { return Ok(None); } }
        Op { r: k, c: n, rs, cs: cst, ..a }
    } else {
        match place::<T>(&cx.b, k, n, cs.lb, cs.off[1], cs.place)? { Some(x) => x, None => return Ok(None) }
    };
    let c = match place::<T>(&cx.c, m, n, cs.lc, cs.off[2], cs.place)? { Some(x) => x, None => return Ok(None) };
    unsafe {
        std::ptr::write_bytes(a.win.0, 0xff, a.win.1);
        if cs.alias != 1 { std::ptr::write_bytes(b.win.0, 0xff, b.win.1); }
        std::ptr::write_bytes(c.win.0, FILL_C, c.win.1);
        if cs.alias == 1 {
            // B may address what is a gap for A
            for o in a.lo..=a.hi { let (x, y) = va(o); a.rw.wrapping_offset(o as isize).write_unaligned(T::mk(x, y)); }
        } else {
            for i in 0..m { for j in 0..if single(&a) { 1 } else { k } { let (x, y) = va(a.off(i, j)); a.set(i, j, x, y); } }
        }
        if cs.alias != 1 { for i in 0..if single(&b) { 1 } else { k } { for j in 0..n { let (x, y) = vb(b.off(i, j)); b.set(i, j, x, y); } } }
    }
    Ok(Some(Prep { a, b, c, al: scalar::<T>(cs.al), be: scalar::<T>(cs.be) }))
}

/// Make the call. Any panic is an error of the code under test.
pub fn call<T: Elem>(cx: &Ctx, cs: &Case, p: &Prep<T>) -> Result<(), String> {
    let f = T::f(&cx.vs[cs.var as usize]);
    let (m, k, n) = (cs.m as usize, cs.depth(), cs.n as usize);
    if cx.memcheck { vg::protect(p, scalar_is_zero(p.be)); }
    let guard = cx.guard_alloc;
    if guard { alloc::arm(); }
    let r = catch_unwind(AssertUnwindSafe(|| unsafe {
        f(m, k, n, T::mk(p.al.0, p.al.1), p.a.view, p.a.rs, p.a.cs, p.b.view, p.b.rs, p.b.cs,
          T::mk(p.be.0, p.be.1), p.c.view, p.c.rs, p.c.cs)
    }));
    if guard { alloc::disarm(); }
    if cx.memcheck { vg::unprotect(cx)?; }
    if let Err(e) = r {
        let s = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
        return Err(format!("panicked: {}", s.replace('\n', " ")));
    }
    if guard {
        let e = alloc::error();
        alloc::forget_live();
        if let Some(e) = e { return Err(e.to_string()); }
    }
    Ok(())
}
pub fn scalar_is_zero(s: (f64, f64)) -> bool { s.0 == 0. && s.1 == 0. }

/// After all logical elements of C were replaced by the fill byte, nothing else may have changed.
pub unsafe fn check_window<T: Elem>(c: &Op<T>) -> Result<(), String> {
    let (p, n) = c.win;
    let w = std::slice::from_raw_parts(p as *const u8, n);
    let (h, mid, t) = w.align_to::<u64>();
    let pat = u64::from_ne_bytes([FILL_C; 8]);
    if h.iter().all(|&x| x == FILL_C) && mid.iter().all(|&x| x == pat) && t.iter().all(|&x| x == FILL_C) { return Ok(()); }
    let i = w.iter().position(|&x| x != FILL_C).unwrap();
    let d = (p as isize + i as isize) - c.rw as isize;
    Err(format!("memory outside the elements of C was written: byte offset {d} from the element (0,0) of C"))
}

fn dat(seed: u64, o: i64, r: i64, cplx: bool) -> (f64, f64) {
    (hint(seed, o, r) as f64, if cplx { hint(seed ^ 0xabcdef, o, r) as f64 } else { 0. })
}
/// Common factor of alpha and beta selected by `data`, and its inverse as a product of two numbers.
fn scaling<T: Elem>(d: u8) -> Option<(f64, (f64, f64))> {
    let w = T::W == 4;
    let e = match d { 0 => return None, 1 => -60, 2 => 60, 3 => if w { -149 } else { -1074 }, 4 => if w { -130 } else { -1030 }, _ => if w { 100 } else { 900 } };
    let p2 = |e: i32| if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else { f64::from_bits(((e + 1023) as u64) << 52) };
    Some((p2(e), (p2(-e / 2), p2(-e - -e / 2))))
}
pub const SA: u64 = 11; pub const SB: u64 = 23; pub const SC: u64 = 37;

/// The exact check: integer data, integer reference, every element of C and every byte around it.
/// Returns a hash of the result (None: the case does not exist for these extents).
pub fn run_exact<T: Elem>(cx: &mut Ctx, cs: &Case) -> Result<Option<u64>, String> {
    cx.warm(cs.var);
    let (m, k, n) = (cs.m as usize, cs.depth(), cs.n as usize);
    let r = data_range::<T>(k);
    let cplx = T::N == 2;
    let be = scalar::<T>(cs.be);
    let bz = scalar_is_zero(be);
    if cs.cinit != 0 && !bz { return Ok(None); }
    // both scalars multiplied by the same power of two: every value stays exact
    let (scale, un) = match scaling::<T>(cs.data) { None => (1., (1., 1.)), Some(x) => x };
    if cs.data == 3 && [cs.al, cs.be].iter().any(|&i| { let s = scalar::<T>(i); s.0.fract() != 0. || s.1.fract() != 0. }) { return Ok(None); }
    let mut p = match prepare::<T>(cx, cs, |o| dat(SA, o, r, cplx), |o| dat(SB, o, r, cplx))? { Some(p) => p, None => return Ok(None) };
    let plain = (p.al, p.be);
    if cs.data != 0 { p.al = (p.al.0 * scale, p.al.1 * scale); p.be = (p.be.0 * scale, p.be.1 * scale); }
    let nn = T::N;
    // far too deep to list the elements: every product is the same
    let (k, rep) = if k > 1 << 28 { if !single(&p.a) || !single(&p.b) { return Ok(None) } (1, k as i64) } else { (k, 1) };
    cx.ra.clear(); cx.rb.clear(); cx.rc.clear();
    unsafe {
        for i in 0..m { for l in 0..k { let v = p.a.get(i, l); cx.ra.push(v.get(0) as i64); if cplx { cx.ra.push(v.get(1) as i64); } } }
        // reference B is kept column by column
        for j in 0..n { for l in 0..k { let v = p.b.get(l, j); cx.rb.push(v.get(0) as i64); if cplx { cx.rb.push(v.get(1) as i64); } } }
        for i in 0..m { for j in 0..n {
            match cs.cinit {
                0 => {
                    let (x, y) = dat(SC, p.c.off(i, j), r, cplx);
                    p.c.set(i, j, x, y);
                    cx.rc.push(x as i64); if cplx { cx.rc.push(y as i64); }
                }
                1 => { p.c.set(i, j, f64::NAN, f64::NAN); for _ in 0..nn { cx.rc.push(0); } }
                2 => { p.c.set(i, j, f64::INFINITY, f64::NEG_INFINITY); for _ in 0..nn { cx.rc.push(0); } }
                _ => { std::ptr::write_bytes(p.c.at(i, j) as *mut u8, 0xff, std::mem::size_of::<T>()); for _ in 0..nn { cx.rc.push(0); } }
            }
        } }
    }
    call(cx, cs, &p)?;
    if cx.memcheck { vg::finish(&p)?; }
    // everything below is in units of 1/2
    let al2 = ((plain.0 .0 * 2.) as i64, (plain.0 .1 * 2.) as i64);
    let be2 = ((plain.1 .0 * 2.) as i64, (plain.1 .1 * 2.) as i64);
    let mut h = 0xcbf29ce484222325u64;
    for i in 0..m {
        for j in 0..n {
            let (er, ei);
            if !cplx {
                let ra = &cx.ra[i * k..(i + 1) * k];
                let rb = &cx.rb[j * k..(j + 1) * k];
                let s: i64 = ra.iter().zip(rb).map(|(x, y)| x * y).sum::<i64>() * rep;
                er = al2.0 * s + be2.0 * cx.rc[i * n + j];
                ei = 0;
            } else {
                let ra = &cx.ra[2 * i * k..2 * (i + 1) * k];
                let rb = &cx.rb[2 * j * k..2 * (j + 1) * k];
                let (mut sr, mut si) = (0i64, 0i64);
                for l in 0..k {
                    let (x, y, u, v) = (ra[2 * l], ra[2 * l + 1], rb[2 * l], rb[2 * l + 1]);
                    sr += x * u - y * v;
                    si += x * v + y * u;
                }
                sr *= rep; si *= rep;
                let (cr, ci) = (cx.rc[2 * (i * n + j)], cx.rc[2 * (i * n + j) + 1]);
                er = al2.0 * sr - al2.1 * si + be2.0 * cr - be2.1 * ci;
                ei = al2.0 * si + al2.1 * sr + be2.0 * ci + be2.1 * cr;
            }
            unsafe {
                let v = p.c.get(i, j);
                let (g0, g1) = (v.get(0) * un.0 * un.1, if cplx { v.get(1) * un.0 * un.1 } else { 0. });
                if g0 * 2. != er as f64 || (cplx && g1 * 2. != ei as f64) {
                    let u = if cs.data != 0 { " (in units of the common factor of alpha and beta)" } else { "" };
                    return Err(if cplx { format!("C[{i},{j}] = {g0}{g1:+}i, expected {}{:+}i{u}", er as f64 / 2., ei as f64 / 2.) }
                               else { format!("C[{i},{j}] = {g0}, expected {}{u}", er as f64 / 2.) });
                }
                let b = v.bits();
                h = mix(h ^ b[0]).wrapping_add(b[1]);
                std::ptr::write_bytes(p.c.at(i, j) as *mut u8, FILL_C, std::mem::size_of::<T>());
            }
        }
    }
    unsafe { check_window(&p.c)?; }
    Ok(Some(h))
}

#[macro_export]
macro_rules! by_type {
    ($ty:expr, $f:ident ( $($arg:expr),* )) => {
        match $ty { 0 => $f::<f32>($($arg),*), 1 => $f::<f64>($($arg),*), 2 => $f::<[f32; 2]>($($arg),*), _ => $f::<[f64; 2]>($($arg),*) }
    };
}
