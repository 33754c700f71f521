//! Exhaustive enumeration of slices (cross products) of the case space by forked worker processes.
use crate::case::Case;
use crate::exec::Ctx;
use crate::variants::{variants, Variant};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub enum Dims { Cross(Vec<u32>, Vec<u32>, Vec<u32>), List(Vec<(u32, u32, u32)>) }
impl Dims {
    pub fn len(&self) -> u64 { match self { Dims::Cross(a, b, c) => (a.len() * b.len() * c.len()) as u64, Dims::List(l) => l.len() as u64 } }
    pub fn get(&self, i: u64) -> (u32, u32, u32) {
        match self {
            Dims::Cross(a, b, c) => {
                let i = i as usize;
                (a[i / (b.len() * c.len())], b[i / c.len() % b.len()], c[i % c.len()])
            }
            Dims::List(l) => l[i as usize],
        }
    }
}
/// A cross product of alphabets. Dimensions (m, k, n) vary slowest so that simple cases come first.
pub struct Slice {
    pub name: String,
    pub vars: Vec<u8>, pub tys: Vec<u8>, pub dims: Dims,
    pub la: Vec<u8>, pub lb: Vec<u8>, pub lc: Vec<u8>,
    pub ab: Vec<(u8, u8)>, pub offs: Vec<[u8; 3]>, pub place: Vec<u8>, pub cinit: Vec<u8>, pub data: Vec<u8>,
    pub x: Vec<[u16; 4]>, pub alias: Vec<u8>, pub nt: u8,
}
impl Slice {
    pub fn new(name: &str, vars: &[u8], dims: Dims) -> Slice {
        Slice { name: name.into(), vars: vars.to_vec(), tys: vec![0, 1, 2, 3], dims, la: vec![0], lb: vec![0], lc: vec![0],
                ab: vec![(7, 6)], offs: vec![[0; 3]], place: vec![0], cinit: vec![0], data: vec![0], x: vec![[0; 4]], alias: vec![0], nt: 1 }
    }
    pub fn len(&self) -> u64 {
        self.dims.len() * (self.vars.len() * self.tys.len() * self.la.len() * self.lb.len() * self.lc.len() * self.ab.len()
            * self.offs.len() * self.place.len() * self.cinit.len() * self.data.len() * self.x.len() * self.alias.len()) as u64
    }
    pub fn case(&self, mut i: u64) -> Case {
        fn pick<T: Copy>(v: &[T], i: &mut u64) -> T { let r = v[(*i % v.len() as u64) as usize]; *i /= v.len() as u64; r }
        let i = &mut i;
        let mut c = Case::default();
        c.var = pick(&self.vars, i); c.ty = pick(&self.tys, i);
        let ab = pick(&self.ab, i); c.al = ab.0; c.be = ab.1;
        c.la = pick(&self.la, i); c.lb = pick(&self.lb, i); c.lc = pick(&self.lc, i);
        c.off = pick(&self.offs, i); c.place = pick(&self.place, i); c.cinit = pick(&self.cinit, i);
        c.data = pick(&self.data, i); c.x = pick(&self.x, i); c.alias = pick(&self.alias, i);
        let d = self.dims.get(*i); c.m = d.0; c.k = d.1; c.n = d.2;
        c.nt = self.nt;
        c
    }
}

pub const MAXW: usize = 16;
const TABLE: usize = 1 << 25;
#[repr(C)]
struct Worker { cur: AtomicU64, start_ms: AtomicU64, evals: AtomicU64, nontrivial: AtomicU64, bad: AtomicU64, msg_len: AtomicU32, msg: [u8; 1024] }
#[repr(C)]
struct Shared { next: AtomicU64, stop: AtomicU32, distinct: AtomicU64, w: [Worker; MAXW] }

unsafe fn shm(bytes: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE,
                       libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED, "mmap shared");
    p as *mut u8
}

pub struct Outcome {
    pub evals: u64, pub distinct: u64, pub nontrivial: u64, pub enumerated: u64,
    pub slices: Vec<(String, u64)>,
    pub violation: Option<(Case, String)>,
    pub samples: Vec<String>,
    pub groups: Vec<u8>,
}

pub type Eval = fn(&mut Ctx, &Case) -> Result<Option<u64>, String>;

pub struct Runner { pub id: String, pub memcheck: bool, pub workers: usize, pub timeout_s: u64, pub keep_results: bool, pub chunk: u64, pub guard_alloc: bool }

fn now_ms() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

impl Runner {
    pub fn new(id: &str) -> Runner {
        Runner { id: id.into(), memcheck: false, workers: 8, timeout_s: 120, keep_results: false, chunk: 32, guard_alloc: true }
    }
    /// Enumerate everything. With keep_results the second value holds one result hash per enumerated case,
    /// in slice order (0 = case does not exist).
    pub fn run(&self, slices: &[Slice], eval: Eval) -> (Outcome, Option<&'static [u64]>) {
        let vs = variants();
        let total: u64 = slices.iter().map(|s| s.len()).sum();
        let mut out = Outcome { evals: 0, distinct: 0, nontrivial: 0, enumerated: total, slices: vec![], violation: None, samples: vec![], groups: vec![] };
        let results = if self.keep_results { Some(unsafe { shm(total as usize * 8 + 4096) } as *mut u64) } else { None };
        let table = unsafe { shm(TABLE * 8) } as *const AtomicU64;
        let mut starts = vec![]; let mut t = 0;
        for s in slices { starts.push(t); t += s.len(); out.slices.push((s.name.clone(), s.len())); }
        let mut nts: Vec<u8> = slices.iter().map(|s| s.nt).collect();
        nts.sort(); nts.dedup();
        out.groups = nts.clone();
        let mut distinct = 0;
        for &nt in &nts {
            // index space of this thread-limit group
            let mine: Vec<usize> = (0..slices.len()).filter(|&i| slices[i].nt == nt).collect();
            let gtotal: u64 = mine.iter().map(|&i| slices[i].len()).sum();
            let locate = |mut g: u64| -> (usize, u64) {
                for &i in &mine { let l = slices[i].len(); if g < l { return (i, g); } g -= l; }
                unreachable!()
            };
            let sh = unsafe { &*(shm(std::mem::size_of::<Shared>()) as *const Shared) };
            let nw = if nt <= 1 { self.workers } else if nt == 2 { self.workers.min(5) } else { self.workers.min(4) };
            let chunk = self.chunk.min((gtotal / (nw as u64 * 4)).max(1));
            let mut pids = vec![];
            for w in 0..nw {
                sh.w[w].cur.store(u64::MAX, SeqCst);
                let pid = unsafe { libc::fork() };
                assert!(pid >= 0, "fork");
                if pid == 0 { 
                    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
                    std::env::set_var("MATMUL_NUM_THREADS", nt.to_string());
                    std::panic::set_hook(Box::new(|_| {}));
                    self.worker(sh, w, gtotal, chunk, slices, &starts, &locate, eval, variants(), results, table);
                    unsafe { libc::_exit(0) };
                }
                pids.push(pid);
            }
            // supervise
            let mut alive = nw;
            let mut died: Vec<(u64, String)> = vec![];
            let mut killed = vec![false; nw];
            while alive > 0 {
                let mut st = 0;
                let p = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
                if p > 0 {
                    if let Some(w) = pids.iter().position(|&x| x == p) {
                        alive -= 1;
                        let cur = sh.w[w].cur.load(SeqCst);
                        if libc::WIFSIGNALED(st) && sh.stop.load(SeqCst) < 2 {
                            let sig = libc::WTERMSIG(st);
                            let what = if killed[w] { format!("no result after {} s (hang)", self.timeout_s) }
                                       else { format!("the process died with signal {sig} ({})", signame(sig)) };
                            if cur == u64::MAX { eprintln!("engine error: worker {w} died outside of a case: {what}"); std::process::exit(3); }
                            died.push((cur, what));
                            sh.stop.store(1, SeqCst);
                        } else if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 0 {
                            let code = libc::WEXITSTATUS(st);
                            if code == 4 { std::process::exit(2); }
                            if cur == u64::MAX { eprintln!("engine error: worker {w} exited with {code} outside of a case"); std::process::exit(3); }
                            died.push((cur, format!("the process exited with status {code}")));
                            sh.stop.store(1, SeqCst);
                        }
                    }
                    continue;
                }
                for w in 0..nw {
                    let cur = sh.w[w].cur.load(SeqCst);
                    let st = sh.w[w].start_ms.load(SeqCst);
                    if cur != u64::MAX && st != 0 && now_ms().saturating_sub(st) > self.timeout_s * 1000 && !killed[w] {
                        killed[w] = true;
                        unsafe { libc::kill(pids[w], libc::SIGKILL); }
                    }
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            for w in 0..nw {
                let x = &sh.w[w];
                out.evals += x.evals.load(SeqCst);
                out.nontrivial += x.nontrivial.load(SeqCst);
                let b = x.bad.load(SeqCst);
                if b != 0 {
                    let n = x.msg_len.load(SeqCst) as usize;
                    died.push((b - 1, String::from_utf8_lossy(&x.msg[..n]).into_owned()));
                }
            }
            distinct += sh.distinct.load(SeqCst);
            if let Some((g, msg)) = died.into_iter().min_by_key(|x| x.0) {
                let (s, i) = locate(g);
                out.violation = Some((slices[s].case(i), msg));
                break;
            }
        }
        out.distinct = distinct;
        // a few samples: spread over the slices
        for s in slices.iter().take(40) {
            if s.len() == 0 { continue; }
            for q in [s.len() / 3, s.len() * 7 / 8] { if out.samples.len() < 24 { out.samples.push(s.case(q).text(&vs)); } }
        }
        let res = results.map(|p| unsafe { std::slice::from_raw_parts(p as *const u64, total as usize) });
        (out, res)
    }

    fn worker(&self, sh: &Shared, w: usize, total: u64, chunk: u64, slices: &[Slice], starts: &[u64],
              locate: &dyn Fn(u64) -> (usize, u64), eval: Eval, vs: Vec<Variant>, results: Option<*mut u64>, table: *const AtomicU64) {
        let mut cx = Ctx::new(vs);
        cx.memcheck = self.memcheck;
        cx.guard_alloc = self.guard_alloc;
        let me = &sh.w[w];
        loop {
            if sh.stop.load(Relaxed) != 0 { return; }
            let g0 = sh.next.fetch_add(chunk, SeqCst);
            if g0 >= total { me.cur.store(u64::MAX, SeqCst); return; }
            for g in g0..(g0 + chunk).min(total) {
                let (s, i) = locate(g);
                let sl = &slices[s];
                let c = sl.case(i);
                if c.redundant(&sl.la, &sl.lb, &sl.lc) { continue; }
                if g % 16 == 0 || g == g0 || self.memcheck || c.m * c.n > 4096 { me.start_ms.store(now_ms(), Relaxed); }
                me.cur.store(g, SeqCst);
                match eval(&mut cx, &c) {
                    Ok(None) => {}
                    Ok(Some(h)) => {
                        me.evals.fetch_add(1, Relaxed);
                        if c.m > 0 && c.n > 0 && c.k > 0 {
                            me.nontrivial.fetch_add(1, Relaxed);
                            if unsafe { insert(table, c.hash()) } { sh.distinct.fetch_add(1, Relaxed); }
                        }
                        if let Some(r) = results { unsafe { *r.add((starts[s] + i) as usize) = if h == 0 { 1 } else { h }; } }
                    }
                    Err(e) => {
                        let b = e.as_bytes();
                        let n = b.len().min(1024);
                        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), me.msg.as_ptr() as *mut u8, n); }
                        me.msg_len.store(n as u32, SeqCst);
                        me.bad.store(g + 1, SeqCst);
                        sh.stop.store(1, SeqCst);
                        return;
                    }
                }
                me.cur.store(u64::MAX, Relaxed);
            }
        }
    }
}

unsafe fn insert(table: *const AtomicU64, h: u64) -> bool {
    let mut i = (h as usize) & (TABLE - 1);
    for _ in 0..64 {
        let s = &*table.add(i);
        let v = s.load(Relaxed);
        if v == h { return false; }
        if v == 0 {
            match s.compare_exchange(0, h, Relaxed, Relaxed) { Ok(_) => return true, Err(x) if x == h => return false, Err(_) => {} }
        }
        i = (i + 1) & (TABLE - 1);
    }
    false
}

pub fn signame(s: i32) -> &'static str {
    match s { libc::SIGSEGV => "SIGSEGV: access to inaccessible or read-only memory", libc::SIGBUS => "SIGBUS", libc::SIGILL => "SIGILL", libc::SIGABRT => "SIGABRT",
              libc::SIGFPE => "SIGFPE", libc::SIGKILL => "SIGKILL", libc::SIGTRAP => "SIGTRAP", _ => "?" }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}

pub struct Report {
    pub id: String, pub tier: String, pub t0: Instant,
    pub rule: String, pub assumptions: Vec<String>, pub extra: Vec<(String, String)>,
}
impl Report {
    /// Write the evidence file, print the verdict, return the exit code.
    pub fn finish(&self, outs: &[Outcome], extra_violation: Option<(String, String)>) -> i32 {
        let vdir = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let vs = variants();
        let viol: Option<(String, String)> = outs.iter().find_map(|o| o.violation.as_ref().map(|(c, m)| (c.text(&vs), m.clone()))).or(extra_violation);
        let evals: u64 = outs.iter().map(|o| o.evals).sum();
        let distinct: u64 = outs.iter().map(|o| o.distinct).sum();
        let enumerated: u64 = outs.iter().map(|o| o.enumerated).sum();
        let mut samples: Vec<String> = outs.iter().flat_map(|o| o.samples.iter().cloned()).collect();
        samples.truncate(24);
        let slices: Vec<String> = outs.iter().flat_map(|o| o.slices.iter().map(|(n, l)| format!("{}: {}", json_str(n), l))).collect();
        let wall = self.t0.elapsed().as_secs_f64();
        let mut cov = format!("\"evaluations\": {evals}, \"distinct_nontrivial\": {distinct}, \"enumerated\": {enumerated}, \"exhaustive\": {}, \"rule\": {}, \"samples\": [{}], \"slices\": {{{}}}",
            viol.is_none(), json_str(&self.rule), samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "), slices.join(", "));
        for (k, v) in &self.extra { cov.push_str(&format!(", {}: {}", json_str(k), v)); }
        let js = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{{cov}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
            json_str(&self.id), json_str(&self.tier), self.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "), wall, viol.is_some() as u32);
        let ev = format!("{vdir}/evidence");
        std::fs::create_dir_all(&ev).ok();
        let path = std::env::var("VERIF_EVIDENCE").unwrap_or(format!("{ev}/{}.json", self.id));
        std::fs::write(&path, js).expect("write evidence");
        println!("{} [{}]: {} cases evaluated ({} distinct non-trivial, {} enumerated) in {:.1} s", self.id, self.tier, evals, distinct, enumerated, wall);
        match viol {
            None => 0,
            Some((case, msg)) => {
                let rp = format!("{ev}/replay_{}.txt", self.id);
                std::fs::write(&rp, format!("{}\n{}\n{}\n", self.id, case, msg)).expect("write replay");
                println!("{}: {}\n  {}", self.id, msg, case);
                println!("VIOLATION property={} replay={}", self.id, rp);
                1
            }
        }
    }
}
