//! Valgrind (memcheck) client requests; no-ops outside of valgrind.
use crate::elem::Elem;
use crate::exec::{Ctx, Op, Prep};
use std::arch::asm;

#[inline(never)]
fn req(default: usize, request: usize, a1: usize, a2: usize, a3: usize) -> usize {
    let args = [request, a1, a2, a3, 0, 0];
    let mut d = default;
    unsafe {
        asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
             inout("rdx") d, in("rax") &args as *const _ as usize, options(nostack));
    }
    d
}
const MC: usize = ('M' as usize) << 24 | ('C' as usize) << 16;
pub fn running() -> bool { req(0, 0x1001, 0, 0, 0) != 0 }
pub fn errors() -> usize { req(0, 0x1201, 0, 0, 0) }
pub fn noaccess(p: usize, n: usize) { req(0, MC, p, n, 0); }
pub fn undefined(p: usize, n: usize) { req(0, MC + 1, p, n, 0); }
pub fn defined(p: usize, n: usize) { req(0, MC + 2, p, n, 0); }
/// address of the first byte that is not addressable/defined, or 0
pub fn check_defined(p: usize, n: usize) -> usize { req(0, MC + 5, p, n, 0) }

static mut ERR0: usize = 0;

fn elements<T: Elem>(o: &Op<T>, view: bool, f: impl Fn(usize, usize)) {
    let b = if view { o.view } else { o.rw };
    for i in 0..o.r { for j in 0..o.c {
        f(b.wrapping_offset(o.off(i, j) as isize) as usize, std::mem::size_of::<T>());
    } }
}
/// Only the logical elements of the operands stay addressable; C is undefined if beta is zero.
pub fn protect<T: Elem>(p: &Prep<T>, beta_zero: bool) {
    // the views of A and B; the harness itself only uses the other mapping
    for (o, u) in [(&p.a, false), (&p.b, false), (&p.c, beta_zero)] {
        if o.hi < o.lo { continue; }
        let d = (o.view as isize) - (o.rw as isize);
        noaccess((o.win.0 as isize + d) as usize, o.win.1);
        elements(o, true, |q, n| if u { undefined(q, n) } else { defined(q, n) });
    }
    // overlapping views of one buffer
    if p.a.rw == p.b.rw { elements(&p.a, true, defined); elements(&p.b, true, defined); }
    unsafe { ERR0 = errors(); }
}
pub fn unprotect(_cx: &Ctx) -> Result<(), String> {
    let e = errors() - unsafe { ERR0 };
    if e != 0 { return Err(format!("{e} invalid memory access(es) or use of undefined values reported by memcheck during the call")); }
    Ok(())
}
/// After the call every element of C must be defined; then make the whole window accessible again.
pub fn finish<T: Elem>(p: &Prep<T>) -> Result<(), String> {
    let mut bad = None;
    for i in 0..p.c.r { for j in 0..p.c.c {
        let q = p.c.view.wrapping_offset(p.c.off(i, j) as isize) as usize;
        if check_defined(q, std::mem::size_of::<T>()) != 0 && bad.is_none() { bad = Some((i, j)); }
    } }
    defined(p.c.win.0 as usize, p.c.win.1);
    match bad { None => Ok(()), Some((i, j)) => Err(format!("C[{i},{j}] depends on uninitialised memory")) }
}
