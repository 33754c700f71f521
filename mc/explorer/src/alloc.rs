//! Global allocator of the explorer. While *armed* (on the thread that makes the call under test)
//! requests are served from an arena between inaccessible pages: exactly as aligned as requested and
//! not more, flush against the upper guard page, and filled with NaN junk. Every request is recorded.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Guard;

pub const SLOTS: usize = 4;
const SLOT_SIZE: usize = 24 << 20;
const PAGE: usize = 4096;
const HEAD: usize = 256;

#[derive(Clone, Copy)]
pub struct Ev { pub alloc: bool, pub ptr: usize, pub size: usize, pub align: usize, pub slot: i32 }
pub const MAXEV: usize = 64;

struct Slot { base: usize, ptr: usize, size: usize, align: usize, live: bool }
struct State { slots: [Slot; SLOTS], ev: [Ev; MAXEV], nev: usize, err: Option<&'static str>, fail_at: usize, nreq: usize }
static mut ST: State = State {
    slots: [const { Slot { base: 0, ptr: 0, size: 0, align: 0, live: false } }; SLOTS],
    ev: [Ev { alloc: false, ptr: 0, size: 0, align: 0, slot: -1 }; MAXEV], nev: 0, err: None, fail_at: usize::MAX, nreq: 0,
};
/// all-byte value scratch is filled with (0xff.. = NaN, 0x7f.. = huge, 0x00)
pub static JUNK: AtomicUsize = AtomicUsize::new(0xff);
pub static ARENA_OFF: AtomicBool = AtomicBool::new(false);
/// how much the address exceeds the requested alignment: 0 = minimally aligned, 1 = page-ish aligned
pub static OVERALIGN: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
/// bytes currently allocated outside of the arena, by all threads
pub fn live_bytes() -> usize { LIVE.load(Relaxed) }

thread_local! { static ARMED: Cell<bool> = const { Cell::new(false) }; }

#[allow(static_mut_refs)]
fn st() -> &'static mut State { unsafe { &mut ST } }

unsafe fn slot_alloc(s: &mut Slot, size: usize, align: usize) -> *mut u8 {
    if s.base == 0 {
        let p = libc::mmap(std::ptr::null_mut(), SLOT_SIZE + 2 * PAGE, libc::PROT_NONE,
                           libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED { return std::ptr::null_mut(); }
        let b = p as usize + PAGE;
        libc::mprotect(b as *mut _, SLOT_SIZE, libc::PROT_READ | libc::PROT_WRITE);
        s.base = b;
    }
    let end = s.base + SLOT_SIZE;
    let mut p = (end - size) & !(align - 1);
    if OVERALIGN.load(Relaxed) == 0 {
        if p % (2 * align) == 0 { p -= align; }
    } else {
        p &= !(PAGE - 1);
    }
    let j = JUNK.load(Relaxed) as u8;
    let lo = p - HEAD;
    std::ptr::write_bytes(lo as *mut u8, 0xA5, HEAD);
    std::ptr::write_bytes(p as *mut u8, j, size);
    std::ptr::write_bytes((p + size) as *mut u8, 0xA5, end - p - size);
    s.ptr = p; s.size = size; s.align = align; s.live = true;
    p as *mut u8
}
unsafe fn slot_check(s: &Slot) -> bool {
    let end = s.base + SLOT_SIZE;
    let head = std::slice::from_raw_parts((s.ptr - HEAD) as *const u8, HEAD);
    let tail = std::slice::from_raw_parts((s.ptr + s.size) as *const u8, end - s.ptr - s.size);
    head.iter().all(|&b| b == 0xA5) && tail.iter().all(|&b| b == 0xA5)
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ARMED.with(|a| a.get()) { LIVE.fetch_add(l.size(), Relaxed); return System.alloc(l); }
        let s = st();
        s.nreq += 1;
        let mut slot = -1i32;
        let p = if s.nreq - 1 == s.fail_at {
            std::ptr::null_mut()
        } else {
            let mut p = std::ptr::null_mut();
            if !ARENA_OFF.load(Relaxed) && l.size() + HEAD + 4 * l.align() <= SLOT_SIZE && l.align() <= PAGE {
                for i in 0..SLOTS {
                    if !s.slots[i].live { p = slot_alloc(&mut s.slots[i], l.size(), l.align()); slot = i as i32; break; }
                }
            }
            if p.is_null() { slot = -1; LIVE.fetch_add(l.size(), Relaxed); p = System.alloc(l); }
            p
        };
        if s.nev < MAXEV { s.ev[s.nev] = Ev { alloc: true, ptr: p as usize, size: l.size(), align: l.align(), slot }; }
        s.nev += 1;
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = st();
        let mut in_slot = None;
        for i in 0..SLOTS {
            let b = s.slots[i].base;
            if b != 0 && (p as usize) >= b && (p as usize) < b + SLOT_SIZE { in_slot = Some(i); }
        }
        if ARMED.with(|a| a.get()) {
            if s.nev < MAXEV {
                s.ev[s.nev] = Ev { alloc: false, ptr: p as usize, size: l.size(), align: l.align(), slot: in_slot.map_or(-1, |x| x as i32) };
            }
            s.nev += 1;
        }
        match in_slot {
            None => { LIVE.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
            Some(i) => {
                let t = &mut s.slots[i];
                if !t.live || t.ptr != p as usize { s.err = Some("scratch released twice or at another address"); return; }
                if t.size != l.size() { s.err = Some("scratch released with another size than requested"); }
                if t.align != l.align() { s.err = Some("scratch released with another alignment than requested"); }
                if !slot_check(t) { s.err = Some("bytes next to the scratch allocation were overwritten"); }
                t.live = false;
            }
        }
    }
}

pub fn arm() { let s = st(); s.nev = 0; s.nreq = 0; s.err = None; ARMED.with(|a| a.set(true)); }
pub fn disarm() { ARMED.with(|a| a.set(false)); }
pub fn set_fail_at(n: usize) { st().fail_at = n; }
pub fn events() -> &'static [Ev] { let s = st(); &s.ev[..s.nev.min(MAXEV)] }
pub fn requests() -> usize { st().nreq }
/// error observed by the allocator since arm(); a slot still live after the call is checked as well
pub fn error() -> Option<&'static str> {
    let s = st();
    if let Some(e) = s.err { return Some(e); }
    for i in 0..SLOTS { if s.slots[i].live && unsafe { !slot_check(&s.slots[i]) } { return Some("bytes next to the scratch allocation were overwritten"); } }
    None
}
/// allocations made since arm() that were not released: (count, bytes)
pub fn outstanding() -> (usize, usize) {
    let mut live: Vec<(usize, usize)> = vec![];
    for e in events() {
        if e.alloc { if e.ptr != 0 { live.push((e.ptr, e.size)); } }
        else if let Some(i) = live.iter().position(|x| x.0 == e.ptr) { live.swap_remove(i); }
    }
    (live.len(), live.iter().map(|x| x.1).sum())
}
/// Forget blocks that a call left behind (called between cases so that a leak does not starve the arena).
pub fn forget_live() { for s in st().slots.iter_mut() { s.live = false; } }
pub fn peak_bytes() -> usize {
    let (mut cur, mut peak) = (0usize, 0usize);
    let mut live: Vec<(usize, usize)> = vec![];
    for e in events() {
        if e.alloc { if e.ptr != 0 { live.push((e.ptr, e.size)); cur += e.size; peak = peak.max(cur); } }
        else if let Some(i) = live.iter().position(|x| x.0 == e.ptr) { cur -= live.swap_remove(i).1; }
    }
    peak
}
