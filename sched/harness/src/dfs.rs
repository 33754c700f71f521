//! Depth-first enumeration of schedules with a preemption bound. Every execution runs in a process of its own, forked
//! from this one before any thread exists, and follows a list of deviations from the default schedule.
use crate::scen::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::time::Instant;

#[repr(C)] #[derive(Clone, Copy)] pub struct Dev { pub step: u32, pub tid: u32 }
#[repr(C)] #[derive(Clone, Copy)] pub struct Rec { pub hash: u64, pub me: u8, pub chosen: u8, pub cands: u8, pub cost: u8, pub op: u32 }
#[repr(C)] pub struct Slot {
    pub ndev: u32, pub dev: [Dev; 64],
    pub status: u32, pub nrec: u32, pub points: u32, pub nthreads: u32, pub switches: u32, pub created: u32, pub touched: u32, pub calls: u32, pub libthreads: u32, pub pad: u32,
    pub accesses: u64, pub atomics: u64, pub races: u64,
    /// a hash of all results, bit for bit
    pub result: u64,
    pub msg: [u8; 2048],
    pub rec: [Rec; 1 << 16],
}
extern "C" {
    pub fn mc_init(); pub fn mc_slot() -> *mut Slot; pub fn mc_slot_size() -> u64; pub fn mc_begin(s: *mut Slot); pub fn mc_explore(on: i32);
    pub fn mc_fail(s: *const i8) -> !; pub fn mc_finish() -> !; pub fn mc_spawn(f: extern "C" fn(*mut u8) -> *mut u8, a: *mut u8) -> i32; pub fn mc_join(t: i32);
    pub fn mc_region(n: *const i8, lo: u64, hi: u64); pub fn mc_watch(lo: u64, hi: u64); pub fn mc_touched() -> u32; pub fn mc_created() -> u32; pub fn mc_clear_touched(); pub fn mc_clear_regions(); pub fn mc_readonly(lo: u64, len: u64, name: i32);
    pub fn mc_cpuinfo(s: *const i8); pub fn mc_ncpu(n: i32); pub fn mc_max_lib(n: u32);
}
pub fn fail(s: &str) -> ! { let c = CString::new(s.replace('\0', "?")).unwrap(); unsafe { mc_fail(c.as_ptr()) } }
impl Slot {
    pub fn message(&self) -> String { let n = self.msg.iter().position(|&c| c == 0).unwrap_or(2048); String::from_utf8_lossy(&self.msg[..n]).into_owned() }
    pub fn reset(&mut self) { self.status = 0; self.nrec = 0; self.points = 0; self.nthreads = 0; self.switches = 0; self.created = 0; self.touched = 0; self.accesses = 0; self.atomics = 0; self.races = 0; self.result = 0; self.msg[0] = 0; self.calls = 0; self.libthreads = 0; }
}

extern "C" fn user(arg: *mut u8) -> *mut u8 {
    let jobs = unsafe { &mut *(arg as *mut Vec<Box<dyn Job>>) };
    for j in jobs.iter_mut() { if let Err(e) = j.run() { fail(&e) } }
    std::ptr::null_mut()
}
pub type Jobs = Vec<Box<Vec<Box<dyn Job>>>>;
pub fn prepare_all(sc: &Scen) -> Jobs {
    let v = vars().into_iter().find(|v| v.name == sc.var).expect("variant");
    sc.users.iter().enumerate().map(|(u, calls)| Box::new(calls.iter().enumerate().map(|(i, c)| prepare(c, &v, u * 10 + i, sc.share)).collect::<Vec<_>>())).collect()
}
pub fn regions(jobs: &Jobs) {
    unsafe { mc_clear_regions() }
    for u in jobs { for j in u.iter() { for (n, lo, hi) in j.regions() {
        let c = CString::new(n).unwrap();
        unsafe { mc_region(c.as_ptr(), lo, hi); if n != "C" { mc_readonly(lo, hi - lo, n.as_bytes()[0] as i32) } }
    } } }
}
/// How many worker threads the calls of `sc` create when they are made one after another by one thread, and the hash of their results.
/// A failure of the calls on their own shows again in the exploration.
fn alone(sc: &Scen, slot: *mut Slot) -> (u32, Option<u64>) {
    if sc.users.len() == 1 { return (u32::MAX, None) }
    let mut jobs: Jobs = vec![Box::new(prepare_all(sc).into_iter().flat_map(|u| *u).collect())];
    let pid = launch(sc, &mut jobs, slot, &[], u32::MAX); let mut st = 0; unsafe { libc::waitpid(pid, &mut st, 0) };
    let s = unsafe { &*slot };
    if verdict(s, st).is_ok() { (s.libthreads, Some(s.result)) } else { (u32::MAX, None) }
}
/// The body of one execution; never returns.
pub fn execute(sc: &Scen, jobs: &mut Jobs, slot: *mut Slot, workers: u32) -> ! {
    regions(jobs);
    unsafe {
        mc_max_lib(workers);
        std::env::set_var("MATMUL_NUM_THREADS", &sc.nt);
        libc::alarm(120);
        mc_begin(slot);
        if sc.warm { jobs[0][0].warm(); }
        mc_explore(1);
        if jobs.len() == 1 { user(&mut *jobs[0] as *mut _ as *mut u8); }
        else {
            let ts: Vec<i32> = jobs.iter_mut().map(|j| mc_spawn(user, &mut **j as *mut _ as *mut u8)).collect();
            for t in ts { mc_join(t) }
        }
        (*slot).result = jobs.iter().flat_map(|u| u.iter()).fold(0u64, |a, j| a.wrapping_add(j.hash()));
        mc_finish()
    }
}

#[derive(Clone)]
struct Item { sc: usize, devs: Vec<(u32, u32)>, left: i32 }
#[derive(Default)]
pub struct Stats { pub execs: u64, pub states: u64, pub trans: u64, pub accesses: u64, pub atomics: u64, pub complete: bool, pub maxthreads: u32, pub maxpoints: u32, pub parallel: u32, pub engine: Option<String> }
pub struct Viol { pub scen: String, pub devs: String, pub msg: String }

fn devtext(d: &[(u32, u32)]) -> String { if d.is_empty() { "default".into() } else { d.iter().map(|(s, t)| format!("{s}:{t}")).collect::<Vec<_>>().join(",") } }
fn devparse(s: &str) -> Vec<(u32, u32)> { if s == "default" { vec![] } else { s.split(',').map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect() } }

unsafe fn load(slot: *mut Slot, devs: &[(u32, u32)]) {
    (*slot).reset(); (*slot).ndev = devs.len() as u32;
    for (i, d) in devs.iter().enumerate() { (*slot).dev[i] = Dev { step: d.0, tid: d.1 } }
}
fn launch(sc: &Scen, jobs: &mut Jobs, slot: *mut Slot, devs: &[(u32, u32)], workers: u32) -> i32 {
    unsafe {
        load(slot, devs);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 { execute(sc, jobs, slot, workers) }
        pid
    }
}
pub fn verdict(slot: &Slot, status: i32) -> Result<(), (bool, String)> {
    match slot.status {
        1 => Ok(()),
        2 => Err((true, symbolise(&slot.message()))),
        3 | 4 => Err((false, slot.message())),
        _ => if libc::WIFSIGNALED(status) { let s = libc::WTERMSIG(status); Err((true, if s == libc::SIGALRM { "the execution does not finish".into() } else { format!("the process died of signal {s}") })) }
             else { Err((true, format!("the process exited with status {} before the execution was over", libc::WEXITSTATUS(status)))) }
    }
}
fn symbolise(m: &str) -> String {
    let Some(i) = m.find("[pc +0x") else { return m.into() };
    let hex: String = m[i + 7..].chars().take_while(|c| c.is_ascii_hexdigit()).collect();
    let exe = std::env::current_exe().unwrap();
    match std::process::Command::new("addr2line").args(["-Cfi", "-e"]).arg(exe).arg(format!("0x{hex}")).output() {
        Ok(o) => { let t = String::from_utf8_lossy(&o.stdout).lines().take(6).collect::<Vec<_>>().join(" "); format!("{} {}", &m[..i], t) }
        _ => m.into(),
    }
}

const DIFFERS: &str = "the results are not bit for bit those of the calls made alone (of the default schedule, for a single call)";
/// Explore every schedule with at most `bound` preemptions of each of `scs`. Time limit in seconds.
pub fn explore(scs: &[Scen], bound: i32, delay: bool, limit: f64, st: &mut Stats) -> Option<Viol> {
    let t0 = Instant::now();
    let mut jobs: Vec<Jobs> = scs.iter().map(prepare_all).collect();
    let nj = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    thread_local! { static SLOTS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) } }
    let slots: Vec<*mut Slot> = SLOTS.with(|s| { let mut s = s.borrow_mut(); while s.len() < nj { s.push(unsafe { mc_slot() } as usize) } s.iter().map(|&p| p as *mut Slot).collect() });
    let (workers, mut results): (Vec<u32>, Vec<Option<u64>>) = scs.iter().map(|sc| alone(sc, slots[0])).unzip();
    let mut stack: Vec<Item> = (0..scs.len()).rev().map(|sc| Item { sc, devs: vec![], left: bound }).collect();
    let mut parallel = vec![false; scs.len()];
    let mut seen: HashMap<u64, i32> = HashMap::new();
    let mut states: std::collections::HashSet<u64> = Default::default();
    let mut free: Vec<usize> = (0..nj).collect();
    let mut running: HashMap<usize, Item> = HashMap::new();
    let mut viol = None;
    // helpers, forked while this process is small, fork the executions
    let (mut cmd, mut res, mut helpers) = (vec![], [0i32; 2], vec![]);
    unsafe { libc::pipe(res.as_mut_ptr()) };
    for i in 0..nj {
        let mut p = [0i32; 2];
        unsafe { libc::pipe(p.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            for (_, w) in &cmd { unsafe { libc::close(*w) }; }
            unsafe { libc::close(p[1]) };
            let mut b = 0u32;
            while unsafe { libc::read(p[0], &mut b as *mut u32 as *mut _, 4) } == 4 {
                let pid = unsafe { libc::fork() };
                if pid == 0 { let b = b as usize; execute(&scs[b], &mut jobs[b], slots[i], workers[b]) }
                let mut status = 0;
                if pid < 0 || unsafe { libc::waitpid(pid, &mut status, 0) } != pid { unsafe { libc::_exit(9) } }
                let msg = [i as i32, status];
                if unsafe { libc::write(res[1], msg.as_ptr() as *const _, 8) } != 8 { unsafe { libc::_exit(9) } }
            }
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(p[0]) };
        cmd.push((0, p[1])); helpers.push(pid);
    }
    unsafe { libc::close(res[1]) };
    st.complete = true;
    loop {
        while viol.is_none() && !stack.is_empty() && !free.is_empty() {
            let it = stack.pop().unwrap(); let sl = free.pop().unwrap();
            unsafe { load(slots[sl], &it.devs); let b = it.sc as u32; if libc::write(cmd[sl].1, &b as *const u32 as *const _, 4) != 4 { st.engine = Some("helper gone".into()); } }
            running.insert(sl, it);
        }
        if running.is_empty() { break }
        let mut msg = [0i32; 2];
        if unsafe { libc::read(res[0], msg.as_mut_ptr() as *mut _, 8) } != 8 { st.engine = Some("helpers gone".into()); st.complete = false; break }
        let (sl, status) = (msg[0] as usize, msg[1]);
        let Some(it) = running.remove(&sl) else { continue };
        free.push(sl);
        let slot = unsafe { &*slots[sl] };
        st.execs += 1; st.trans += slot.points as u64; st.accesses += slot.accesses; st.atomics += slot.atomics;
        st.maxthreads = st.maxthreads.max(slot.nthreads); st.maxpoints = st.maxpoints.max(slot.nrec);
        match verdict(slot, status) {
            Ok(()) => match results[it.sc] {
                Some(r) if r != slot.result => { if viol.is_none() { viol = Some(Viol { scen: scs[it.sc].text(), devs: devtext(&it.devs), msg: DIFFERS.into() }); stack.clear(); } continue }
                r => results[it.sc] = r.or(Some(slot.result)),
            },
            Err((true, m)) => { if viol.is_none() { viol = Some(Viol { scen: scs[it.sc].text(), devs: devtext(&it.devs), msg: m }); stack.clear(); } continue }
            Err((false, m)) => { st.engine = Some(format!("{} [{}]: {m}", scs[it.sc].text(), devtext(&it.devs))); stack.clear(); st.complete = false; continue }
        }
        if viol.is_some() || st.engine.is_some() { continue }
        parallel[it.sc] |= slot.nrec > 0;
        let own = (it.sc as u64).wrapping_mul(0xd6e8feb86659fd93);
        let from = it.devs.last().map_or(0, |d| d.0 as usize + 1);
        for i in 0..slot.nrec as usize { states.insert(slot.rec[i].hash ^ own); }
        for i in from..slot.nrec as usize {
            let r = slot.rec[i];
            let at = (r.hash ^ own).wrapping_add((r.me as u64) << 8 | r.op as u64).wrapping_mul(0x9e3779b97f4a7c15);
            for t in 0..8u32 {
                if r.cands >> t & 1 == 0 || t == r.chosen as u32 { continue }
                let l = it.left - if delay { 1 } else { r.cost as i32 };
                if l < 0 { continue }
                let key = at.wrapping_add(t as u64 + 1);
                if seen.get(&key).map_or(false, |&x| x >= l) { continue }
                seen.insert(key, l);
                let mut d = it.devs.clone(); d.push((i as u32, t));
                if d.len() > 64 { st.engine = Some("more than 64 deviations".into()); break }
                stack.push(Item { sc: it.sc, devs: d, left: l });
            }
            let key = at.wrapping_add(r.chosen as u64 + 1);
            if seen.get(&key).map_or(false, |&x| x >= it.left) { break }
            seen.insert(key, it.left);
        }
        if t0.elapsed().as_secs_f64() > limit && !stack.is_empty() { stack.clear(); st.complete = false; }
    }
    for (_, w) in &cmd { unsafe { libc::close(*w) }; }
    unsafe { libc::close(res[0]) };
    for h in helpers { unsafe { libc::waitpid(h, std::ptr::null_mut(), 0) }; }
    st.states += states.len() as u64;
    st.parallel += parallel.iter().filter(|x| **x).count() as u32;
    viol
}


pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() { match ch { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"'); o
}
fn vdir() -> String { std::env::var("VERIF_DIR").unwrap_or("/verif".into()) }
pub fn replay_path(id: &str) -> String { format!("{}/evidence/replay_{id}.txt", vdir()) }
pub fn evidence(id: &str, tier: &str, level: &str, cov: &str, assume: &[&str], wall: f64, bad: bool) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    std::fs::create_dir_all(format!("{}/evidence", vdir())).ok();
    std::fs::write(format!("{}/evidence/{id}.json", vdir()), format!("{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {}, \"coverage\": {{{cov}}}, \"assumptions\": [{}], \"wall_s\": {wall:.2}, \"violations\": {}}}\n",
        js(id), js(tier), js(level), assume.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), bad as u32)).expect("evidence");
}

/// Scenario text, preemption bound (negative: bound on all deviations from the default schedule).
fn plan(id: &str, tier: &str) -> Vec<(String, i32, f64)> {
    let th = tier == "thorough";
    let mut p: Vec<(String, i32, f64)> = vec![];
    let mut add = |s: String, q: i32, t: i32| p.push((s, if th { t } else { q }, if th { 600. } else { 60. }));
    let w = |warm: bool| if warm { "warm" } else { "cold" };
    if id == "C08" {
        // one split of the rows, two depth blocks, partial tiles; every type
        add("var=none nt=2 warm own calls=s:12x1600x9:r".into(), 3, 5);
        for (ty, m, k, n) in [('d', 12, 1600, 9), ('c', 7, 2100, 9), ('z', 7, 2100, 9)] { add(format!("var=none nt=2 warm own calls={ty}:{m}x{k}x{n}:c"), 2, 4); }
        // several row blocks per thread; C with gaps
        add("var=none nt=2 warm own calls=s:28x820x13:p".into(), 2, 4);
        // more threads allowed than row blocks: columns are split
        add("var=none nt=2 warm own calls=d:5x1500x17:r".into(), 2, 4);
        add("var=none nt=2 warm own calls=s:1x1400x24:r".into(), 2, 4);
        add("var=none nt=2 warm own calls=s:9x3600x1:r".into(), 1, 3);
        add("var=none nt=3 warm own calls=s:17x1600x10:r".into(), 2, 4);
        // several column blocks
        add("var=none nt=2 warm own calls=d:3x30x1100:r".into(), 2, 3);
        // cold: the workers start up while the call is running
        add("var=none nt=2 cold own calls=s:12x1600x9:c".into(), 3, 5);
        add("var=none nt=3 cold own calls=d:12x1600x9:r".into(), 2, 4);
        // four threads
        for (ty, m, k, n, lc) in [('s', 12, 3200, 9, 'r'), ('d', 12, 3200, 9, 'p'), ('c', 7, 4400, 9, 'c')] { add(format!("var=none nt=4 warm own calls={ty}:{m}x{k}x{n}:{lc}"), -1, -2); }
        add("var=none nt=4 cold own calls=s:12x3200x9:r".into(), -1, -2);
        add("var=nblk nt=4 warm own calls=s:28x1640x13:r".into(), -1, -2);
        // two calls in a row use the same workers and scratch again
        add("var=none nt=2 cold own calls=s:12x1600x9:r+d:12x1600x9:c".into(), 1, 3);
        // vector kernels
        for v in ["sse2", "best"] { for ty in ['s', 'd', 'c'] { add(format!("var={v} nt=2 warm own calls={ty}:12x1600x9:r"), 1, 3); } add(format!("var={v} nt=4 warm own calls=s:12x3200x9:r"), -1, -2); }
        // default block sizes
        add("var=deft nt=2 warm own calls=d:100x330x9:r".into(), 1, 2);
        if th { add("var=deft nt=4 warm own calls=s:100x600x9:r".into(), -1, -1); add("var=none nt=4 warm own calls=z:9x3200x9:r".into(), -1, -2); }
    } else {
        // first calls in the process, small: only the shared state is contended
        for nt in ["1", "2", "3", "4"] {
            add(format!("var=none nt={nt} cold own calls=s:3x4x5:r,d:9x2x5:c"), if nt == "4" { -1 } else { 2 }, if nt == "4" { -4 } else { 4 });
        }
        add("var=none nt=2 cold own calls=s:3x4x5:r,d:9x2x5:c,c:5x3x3:r".into(), -2, -4);
        add("var=none nt=4 cold own calls=s:3x4x5:r+z:2x2x2:r,d:9x2x5:c+s:1x1x1:r".into(), -1, -2);
        // large calls that share the worker threads
        for warm in [true, false] {
            add(format!("var=none nt=2 {} own calls=s:12x1600x9:r,d:12x1600x9:c", w(warm)), -1, -3);
            add(format!("var=none nt=2 {} shared calls=s:12x1600x9:r,s:12x1600x9:c", w(warm)), -1, -3);
        }
        add("var=none nt=2 warm own calls=d:5x1500x17:r,c:7x2100x9:p".into(), -1, -2);
        add("var=none nt=3 warm own calls=s:12x1600x9:r,s:3x4x5:r".into(), -2, -3);
        add("var=none nt=4 cold shared calls=s:12x3200x9:r,s:12x3200x9:r".into(), 0, -1);
        add("var=none nt=4 warm own calls=s:12x3200x9:r,s:9x3x6:c".into(), -1, -2);
        add("var=none nt=2 warm own calls=s:12x1600x9:r,d:12x1600x9:c,s:12x1600x9:p".into(), -1, -2);
        add("var=none nt=2 cold own calls=s:12x1600x9:r+s:3x4x5:r,d:12x1600x9:c".into(), -1, -2);
        add("var=best nt=2 warm own calls=s:12x1600x9:r,d:12x1600x9:c".into(), -1, -2);
        add("var=best nt=1 warm own calls=s:12x16x9:r,d:12x16x9:c,z:5x3x7:r".into(), -2, -4);
        add("var=deft nt=2 cold own calls=s:3x4x5:r+s:7x3x5:c,s:3x4x5:r+d:3x3x3:r".into(), -2, -4);
    }
    for (g, q, t) in if id == "C08" { wide(th) } else { wide_callers(th) } { p.push((g.join("\n"), if th { t } else { q }, if th { 900. } else { 120. })) }
    p
}
/// Many shapes, layouts and scalars, each with few schedules; quick and thorough bounds.
fn wide(th: bool) -> Vec<(Vec<String>, i32, i32)> {
    let deep = |m: usize, n: usize, nt: usize| (nt * (1 << 14)).div_ceil(m + n) + 3;
    let mut out = vec![];
    // every way the rows and columns can be cut into blocks
    let mut set = |var: &str, ty: char, all: bool, off: usize, q: i32, t: i32| {
        let (mut g, mut g4) = (vec![], vec![]);
        let (mc, nr) = match ty { 's' | 'd' => (8, 4), _ => (4, 2) };
        let ms: Vec<usize> = if all { (1..=5 * mc + 1).collect() } else { vec![1, mc - 1, mc + 1, 3 * mc / 2 - 1, 3 * mc / 2, 2 * mc, 2 * mc + 1, 3 * mc - 1, 3 * mc + 1, 5 * mc - 1] };
        let ns: Vec<usize> = if all { (1..=6 * nr + 1).collect() } else { vec![1, nr, nr + 1, 2 * nr, 3 * nr - 1, 3 * nr + 1, 5 * nr, 7 * nr + 1] };
        for (i, &m) in ms.iter().enumerate() { for (j, &n) in ns.iter().enumerate() {
            let nt = 2 + (i + j + off) % 3;
            let (lc, fl) = (["r", "c", "p"][(i + 2 * j + off) % 3], ["", "A", "B0", "G1", "N", "AB", "Ra", "GN0", "W", "V1", "ABW0", "Cz", "BVG"][(3 * i + j + off) % 13]);
            if nt == 4 { &mut g4 } else { &mut g }.push(format!("var={var} nt={nt} warm own calls={ty}:{m}x{}x{n}:{lc}{fl}", deep(m, n, nt)));
        } }
        out.push((g, q, t)); out.push((g4, 0, t - 1));
    };
    for (i, ty) in ['s', 'd', 'c', 'z'].into_iter().enumerate() {
        set("none", ty, false, i, (ty == 's') as i32, 2);
        set("none", ty, true, i + 1, 0, 1);
        for (j, var) in ["sse2", "best"].into_iter().enumerate() { set(var, ty, th, i + j + 2, 0, 1); }
        if th { set("nblk", ty, true, i + 2, 0, 1); set("none", ty, true, i + 2, 0, 0); }
    }
    out
}
/// Many pairs and triples of callers, each with few schedules.
fn wide_callers(th: bool) -> Vec<(Vec<String>, i32, i32)> {
    let tys = ['s', 'd', 'c', 'z'];
    let small = ["1x1x1:r", "3x4x5:r", "9x2x5:cW", "8x3x4:pAV", "5x0x3:r", "17x5x9:pN0", "4x1025x3:rB", "2x7x6:cR1"];
    let large = |t: char, nt: usize, i: usize| { let (m, n) = [(12, 9), (5, 17), (25, 6), (17, 13)][i % 4]; let m = if t == 'c' || t == 'z' { m / 2 + 1 } else { m }; format!("{t}:{m}x{}x{n}:{}", nt * (1 << 14) / (m + n) + 7, ["r", "cAW", "pBV", "rN0"][i % 4]) };
    let mut out = vec![];
    // small calls by two callers: every pair of types, every shape; nothing is shared but the registry, so every schedule
    // of the first call is cheap
    for nt in 1..=4usize {
        let mut g = vec![];
        for (x, &t) in tys.iter().enumerate() { for (y, &u) in tys.iter().enumerate() { for i in 0..small.len() {
            if !th && (x + y + i + nt) % 4 != 0 { continue }
            let j = (i * 3 + x + 2 * y + nt) % small.len();
            g.push(format!("var={} nt={nt} {} {} calls={t}:{},{u}:{}", ["none", "sse2", "best", "none"][(x + i) % 4], if (i + y) % 4 == 3 { "warm" } else { "cold" }, if (i + x) % 3 == 1 && t == u && i == j { "shared" } else { "own" }, small[i], small[j]));
        } } }
        out.push((g, if nt <= 3 { 1 } else { 0 }, 1));
    }
    // large calls of two callers, or one large and one or two small ones
    for nt in 2..=4usize {
        let mut g = vec![];
        for (x, &t) in tys.iter().enumerate() { for (y, &u) in tys.iter().enumerate() { for i in 0..4 {
            if !th && (x + 2 * y + i + nt) % 4 != 0 { continue }
            let v = ["none", "sse2", "none", "best"][(x + y) % 4];
            let w = if (i + y) % 2 == 0 { "warm" } else { "cold" };
            g.push(format!("var={v} nt={nt} {w} own calls={},{}", large(t, nt, i), large(u, nt, i + x + y)));
            g.push(format!("var={v} nt={nt} {w} own calls={},{u}:{}+{t}:{}", large(t, nt, i), small[(x + i) % 8], small[(y + 3 * i) % 8]));
            if i == nt % 4 { g.push(format!("var={v} nt={nt} {w} shared calls={0},{0},{u}:{1}", large(t, nt, i), small[y])); }
        } } }
        out.push((g, 0, if nt <= 3 { 1 } else { 0 }));
    }
    out
}
pub fn one(text: &str, bound: i32) -> i32 {
    unsafe { mc_init() }
    assert_eq!(unsafe { mc_slot_size() }, std::mem::size_of::<Slot>() as u64);
    let sc = Scen::parse(text); let mut st = Stats::default(); let t = Instant::now();
    let v = explore(std::slice::from_ref(&sc), bound.abs(), bound < 0, 300., &mut st);
    println!("{}: bound {bound}: {} executions, {} states, {} transitions, {} accesses, {} atomics, threads {}, choice points {}, complete {}, {:.1} s {:?}", sc.text(), st.execs, st.states, st.trans, st.accesses, st.atomics, st.maxthreads, st.maxpoints, st.complete, t.elapsed().as_secs_f64(), st.engine);
    if let Some(v) = v { println!("VIOL {} [{}]", v.msg, v.devs); 1 } else { 0 }
}
pub fn replay(id: &str, scen: &str, devs: &str, file: &str) -> i32 {
    unsafe { mc_init() }
    let sc = Scen::parse(scen); let mut jobs = prepare_all(&sc);
    let slot = unsafe { mc_slot() };
    let (n, mut r) = alone(&sc, slot);
    if r.is_none() { let pid = launch(&sc, &mut jobs, slot, &[], n); let mut st = 0; unsafe { libc::waitpid(pid, &mut st, 0) }; if verdict(unsafe { &*slot }, st).is_ok() { r = Some(unsafe { (*slot).result }) } }
    let pid = launch(&sc, &mut jobs, slot, &devparse(devs), n); let mut st = 0; unsafe { libc::waitpid(pid, &mut st, 0) };
    if std::env::var("MC_TRACE").is_ok() { let s = unsafe { &*slot }; for i in 0..s.nrec as usize { let r = s.rec[i]; if i < 200 { eprintln!("{i}: T{} op {} cands {:b} -> T{}", r.me, r.op, r.cands, r.chosen) } } }
    match verdict(unsafe { &*slot }, st) {
        Ok(()) if r.is_some_and(|r| r != unsafe { (*slot).result }) => { println!("{id}: {DIFFERS}\nVIOLATION property={id} replay={file}"); 1 }
        Ok(()) => { println!("the schedule runs through without a violation"); 0 }
        Err((true, m)) => { println!("{id}: {m}\nVIOLATION property={id} replay={file}"); 1 }
        Err((false, m)) => { println!("{m}"); 2 }
    }
}
pub fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    unsafe { mc_init() }
    if unsafe { mc_slot_size() } != std::mem::size_of::<Slot>() as u64 { eprintln!("engine error: slot layout"); return 2 }
    let (mut st, mut rows, mut bad, mut exh) = (Stats::default(), vec![], None, true);
    for (texts, bound, limit) in plan(id, tier) {
        let scs: Vec<Scen> = texts.lines().map(Scen::parse).collect();
        let sc = &scs[0];
        let mut one = Stats::default(); let t = Instant::now();
        let v = explore(&scs, bound.abs(), bound < 0 || scs.len() > 1 || (bound == 0 && sc.nt == "4"), limit, &mut one);
        if let Some(e) = one.engine { eprintln!("engine error: {e}"); return 2 }
        let name = if scs.len() == 1 { sc.text() } else { format!("{} scenarios from {} to {}, {} of them with choices between threads", scs.len(), sc.text(), scs[scs.len() - 1].text(), one.parallel) };
        rows.push(format!("{name} | at most {} {} | {} schedules, {} states, {} choice points in the longest, {} threads{} | {:.1} s", bound.abs(), if bound < 0 || scs.len() > 1 { "deviations from round robin" } else { "preemptions" }, one.execs, one.states, one.maxpoints, one.maxthreads, if one.complete { "" } else { " (time limit reached)" }, t.elapsed().as_secs_f64()));
        if std::env::var("MC_VERBOSE").is_ok() { println!("{}", rows.last().unwrap()); }
        st.execs += one.execs; st.states += one.states; st.trans += one.trans; st.accesses += one.accesses; st.atomics += one.atomics; exh &= one.complete;
        if v.is_some() { bad = v; break }
    }
    let cov = format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"schedules\": {}, \"plain_accesses_checked\": {}, \"atomic_operations\": {}, \"exhaustive\": {}, \"rule\": {}, \"samples\": [{}]",
        st.states, st.trans, st.execs, st.execs, st.accesses, st.atomics, exh && bad.is_none(),
        js("every schedule within the stated bound, up to equivalence of happens-before prefixes, of the real library, thread pool, channels and standard library; states = distinct happens-before states at choice points, transitions = scheduling points passed, traces = executions of the implementation (each is one)"),
        rows.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    evidence(id, tier, "model_checking", &cov, &["atomic operations are interleaved sequentially consistently; weaker orderings are checked through the happens-before relation they establish (missing synchronisation shows as a data race)",
        "blocked threads are woken in arrival order; no spurious wake-ups", "the variant with 32-byte vectors (best) is compiled with its vector loads and stores split into scalar ones", "shapes, types and layouts are those listed in samples"], t0.elapsed().as_secs_f64(), bad.is_some());
    println!("{id} [{tier}]: {} schedules, {} states, {} transitions, {} plain accesses checked, {:.1} s", st.execs, st.states, st.trans, st.accesses, t0.elapsed().as_secs_f64());
    match bad {
        None => 0,
        Some(v) => { let f = replay_path(id); std::fs::write(&f, format!("{id}\n{}\n{}\n{}\n", v.scen, v.devs, v.msg)).unwrap(); println!("{id}: {}\n  {} schedule {}", v.msg, v.scen, v.devs); println!("VIOLATION property={id} replay={f}"); 1 }
    }
}
