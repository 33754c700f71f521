//! Operand memory: a file-backed region mapped twice, once for the harness (always writable) and once
//! for the code under test (read-only for A and B), each between inaccessible pages.
pub struct Arena { pub rw: *mut u8, pub view: *mut u8, pub size: usize, huge: std::cell::Cell<*mut u8>, open: std::cell::RefCell<Vec<usize>> }
pub const ASIZE: usize = 512 << 20;
pub const HSIZE: usize = 6 << 40;
pub const PAGE: usize = 4096;

impl Arena {
    pub fn new(readonly: bool) -> Arena {
        unsafe {
            let fd = libc::memfd_create(b"arena\0".as_ptr() as *const _, 0);
            assert!(fd >= 0, "memfd_create");
            assert!(libc::ftruncate(fd, ASIZE as i64) == 0);
            let map = |prot| {
                let p = libc::mmap(std::ptr::null_mut(), ASIZE + 2 * PAGE, libc::PROT_NONE,
                                   libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                assert!(p != libc::MAP_FAILED);
                let q = libc::mmap((p as usize + PAGE) as *mut _, ASIZE, prot, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0);
                assert!(q != libc::MAP_FAILED);
                q as *mut u8
            };
            let rw = map(libc::PROT_READ | libc::PROT_WRITE);
            let view = if readonly { map(libc::PROT_READ) } else { rw };
            libc::close(fd);
            Arena { rw, view, size: ASIZE, huge: std::cell::Cell::new(std::ptr::null_mut()), open: Default::default() }
        }
    }
    /// Address space for an operand whose elements lie far apart: everything is inaccessible but the pages holding `elems`
    /// (byte offsets of elements of `sz` bytes), which are zeroed.
    pub fn sparse(&self, elems: &mut dyn Iterator<Item = usize>, sz: usize) -> *mut u8 {
        unsafe {
            if self.huge.get().is_null() {
                let p = libc::mmap(std::ptr::null_mut(), HSIZE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                if p == libc::MAP_FAILED { eprintln!("engine error: address space"); std::process::exit(4); }
                self.huge.set(p as *mut u8);
            }
            let h = self.huge.get();
            let mut open = self.open.borrow_mut();
            for p in open.drain(..) { libc::mmap(h.add(p) as *mut _, PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED, -1, 0); }
            for e in elems { for q in [e, e + sz - 1] { let p = q / PAGE * PAGE; if !open.contains(&p) { open.push(p); assert!(libc::mprotect(h.add(p) as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE) == 0); } } }
            h
        }
    }
}
