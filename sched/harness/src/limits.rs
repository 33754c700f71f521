//! C10: every value of MATMUL_NUM_THREADS from a finite list, on every machine description from a finite list.
use crate::dfs::*;
use crate::scen::*;
use std::ffi::{CString, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::time::Instant;

/// sockets x (cores, hardware threads per core) as /proc/cpuinfo shows them
fn machine(m: &str) -> (String, usize, usize) {
    let p: Vec<usize> = m.split('x').map(|x| x.parse().unwrap()).collect();
    let (s, c, h) = (p[0], p[1], p[2]);
    let mut t = String::new();
    let mut id = 0;
    for so in 0..s { for co in 0..c { for _ in 0..h {
        t.push_str(&format!("processor\t: {id}\nvendor_id\t: GenuineIntel\nmodel name\t: made up\nphysical id\t: {so}\nsiblings\t: {}\ncore id\t\t: {co}\ncpu cores\t: {c}\nflags\t\t: fpu\n\n", c * h));
        id += 1;
    } } }
    (t, s * c, s * c * h)
}
const MACHINES: &[&str] = &["1x1x1", "1x1x2", "1x2x1", "1x2x2", "1x3x2", "1x4x1", "2x1x1", "2x2x2", "1x8x2", "2x16x2", "4x16x1"];
/// Values with the limits the property allows for them. u = the number of physical CPUs.
fn values() -> Vec<(Vec<u8>, &'static str)> {
    let mut v: Vec<(Vec<u8>, &'static str)> = vec![(b"<unset>".to_vec(), "u"), (b"".to_vec(), "u")];
    for n in 0..=9u32 { v.push((n.to_string().into_bytes(), match n { 0 | 1 => "1", 2 => "2", 3 => "3", _ => "4" })); }
    for (s, w) in [("16", "4"), ("100", "4"), ("65536", "4"), ("4294967296", "4"), ("4294967297", "4"), ("18446744073709551615", "4"), ("01", "1"), ("003", "3"), ("00", "1"),
                   ("abc", "1"), ("-1", "1"), ("-2", "1"), ("-4", "1"), ("1.5", "1"), ("2.0", "1"), ("0x4", "1"), ("4 threads", "1"), ("four", "1"), (",", "1"), ("2,4", "1"), ("4e0", "1"), ("nan", "1"), ("true", "1"), ("\u{664}", "1"), ("\u{ff14}", "1"), ("4\u{0301}", "1"), ("=4", "1"), ("--", "1"),
                   // a number by some readings: the value itself or the fallback
                   (" ", "1u"), (" 2", "12"), ("2 ", "12"), ("4\n", "14"), ("\t3", "13"), ("+2", "12"), ("+4", "14"), ("18446744073709551616", "14"), ("18446744073709551618", "14"), ("99999999999999999999999", "14"), ("-0", "1")] {
        v.push((s.as_bytes().to_vec(), w));
    }
    v.push((b"4\xff".to_vec(), "14u")); v.push((b"\xff\xfe".to_vec(), "1u"));
    v
}
pub struct Job1 { pub val: Vec<u8>, pub allow: String, pub mach: String, pub later: Vec<u8>, pub call: Call, pub var: String,
    /// standard error: n /dev/null, f full device, c closed, p pipe without a reader
    pub err: char,
    /// calls made before: n none, e empty ones, s small ones, b both, of all types
    pub pre: char }
impl Job1 {
    fn text(&self) -> String {
        let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        format!("val={} allow={} mach={} later={} call={} var={} err={} pre={} (MATMUL_NUM_THREADS={:?})", hex(&self.val), self.allow, self.mach, hex(&self.later), self.call.text(), self.var, self.err, self.pre, String::from_utf8_lossy(&self.val))
    }
    fn parse(s: &str) -> Job1 {
        let w: Vec<&str> = s.split(' ').collect();
        let unhex = |h: &str| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
        Job1 { val: unhex(&w[0][4..]), allow: w[1][6..].into(), mach: w[2][5..].into(), later: unhex(&w[3][6..]), call: Call::parse(&w[4][5..]), var: w[5][4..].into(), err: w.get(6).and_then(|x| x.strip_prefix("err=")).and_then(|x| x.chars().next()).unwrap_or('n'), pre: w.get(7).and_then(|x| x.strip_prefix("pre=")).and_then(|x| x.chars().next()).unwrap_or('n') }
    }
}
fn setenv(v: &[u8]) { if v == b"<unset>" { std::env::remove_var("MATMUL_NUM_THREADS") } else { std::env::set_var("MATMUL_NUM_THREADS", OsStr::from_bytes(v)) } }
/// Number of threads that took part in a first call, and in a second one after the variable changed.
/// Reported through slot.calls = first | second << 8 | created << 16.
fn run(j: &Job1, jobs: &mut Jobs, slot: *mut Slot) -> ! {
    unsafe {
        let (info, _, log) = machine(&j.mach);
        let ci = CString::new(info).unwrap(); mc_cpuinfo(ci.as_ptr()); mc_ncpu(log as i32);
        setenv(&j.val);
        match j.err {
            'c' => { libc::close(2); }
            'p' => { let mut p = [0; 2]; libc::pipe(p.as_mut_ptr()); libc::dup2(p[1], 2); libc::close(p[0]); libc::close(p[1]); }
            e => { libc::dup2(libc::open(if e == 'f' { c"/dev/full".as_ptr() } else { c"/dev/null".as_ptr() }, libc::O_WRONLY), 2); }
        }
        libc::alarm(60);
        let (lo, hi) = jobs[0][0].c_range();
        let v = vars().into_iter().find(|v| v.name == j.var).expect("variant");
        let mut pre = vec![];
        for ty in ['s', 'd', 'c', 'z'] { for (i, &(m, k, n)) in [(3, 0, 2), (40, 0, 40), (2, 3, 2), (9, 2, 9)].iter().enumerate() {
            if matches!(j.pre, 'e' | 'b') && k == 0 || matches!(j.pre, 's' | 'b') && k > 0 { pre.push(prepare(&Call { ty, m, k, n, lc: 'r', fl: String::new() }, &v, 5 + i, false)) }
        } }
        mc_begin(slot);
        for p in &mut pre { if let Err(e) = p.run() { fail(&e) } }
        mc_clear_touched();
        mc_watch(lo, hi);
        jobs[0][0].warm_only();
        let t1 = mc_touched().count_ones() | if mc_touched() & 1 == 0 { 64 } else { 0 };
        if let Err(e) = jobs[0][0].verify() { fail(&e) }
        jobs[0][0].reset();
        setenv(&j.later);
        mc_clear_touched();
        jobs[0][0].warm_only();
        let t2 = mc_touched().count_ones();
        if let Err(e) = jobs[0][0].verify() { fail(&e) }
        (*slot).calls = t1 | t2 << 8 | mc_created() << 16;
        mc_finish()
    }
}
fn parts(j: &Job1, jobs: &mut Jobs, slot: *mut Slot) -> Result<(u32, u32, u32), String> {
    unsafe {
        (*slot).reset(); (*slot).ndev = 0;
        let pid = libc::fork(); if pid == 0 { run(j, jobs, slot) }
        let mut st = 0; libc::waitpid(pid, &mut st, 0);
        verdict(&*slot, st).map_err(|e| e.1)?;
        let c = (*slot).calls; Ok((c & 0xff, c >> 8 & 0xff, c >> 16))
    }
}
/// Threads taking part with the plain limits 1 to 4.
type Ref = [u32; 5];
fn reference(j: &Job1, jobs: &mut Jobs, slot: *mut Slot) -> Result<Ref, (Job1, String)> {
    let mut r = [0; 5];
    for l in 1..=4u32 {
        let t = Job1 { val: l.to_string().into_bytes(), allow: l.to_string(), mach: "1x4x1".into(), later: l.to_string().into_bytes(), call: j.call.clone(), var: j.var.clone(), err: 'n', pre: 'n' };
        match parts(&t, jobs, slot) {
            Ok((n, n2, created)) => {
                r[l as usize] = n & 63;
                if n & 63 > l { return Err((t, format!("{} threads take part although the limit is {l}", n & 63))) }
                if n2 != n & 63 { return Err((t, format!("{} threads take part in the first call and {n2} in the second, the limit being {l} all the time", n & 63))) }
                if l == 1 && (n != 1 || created != 0) { return Err((t, "a limit of 1 does not keep the work on the calling thread alone".into())) }
                if l >= 2 && n & 63 < 2 { return Err((t, format!("a large product is computed by a single thread although the limit is {l}"))) }
            }
            Err(e) => return Err((t, e)),
        }
    }
    Ok(r)
}
fn check1(j: &Job1, r: &Ref, jobs: &mut Jobs, slot: *mut Slot) -> Result<u32, String> {
    let (n, n2, created) = parts(j, jobs, slot)?;
    let (_, phys, _) = machine(&j.mach);
    let lims: Vec<usize> = j.allow.chars().map(|c| if c == 'u' { phys.clamp(1, 4) } else { c as usize - 48 }).collect();
    let main_out = n & 64 != 0; let n = n & 63;
    let max = *lims.iter().max().unwrap();
    if n as usize > max { return Err(format!("{n} threads take part, the limit is {max}")) }
    if max == 1 && (created != 0 || main_out) { return Err(format!("a limit of 1 does not keep the work on the calling thread alone ({created} threads created)")) }
    if !lims.iter().any(|&l| r[l] == n) { return Err(format!("{n} threads take part; with a plain limit of {:?} it is {:?}", lims, lims.iter().map(|&l| r[l]).collect::<Vec<_>>())) }
    if n2 != n { return Err(format!("{n} threads take part in the first call and {n2} in one after the variable was changed: the limit is not fixed at first use")) }
    Ok(n)
}
fn calls() -> Vec<(Call, &'static str)> {
    let c = |ty, m, k, n, lc| Call { ty, m, k, n, lc, fl: String::new() };
    vec![(c('s', 28, 1900, 17, 'r'), "none"), (c('d', 24, 1700, 24, 'c'), "best")]
}
pub fn check(tier: &str) -> i32 {
    let t0 = Instant::now();
    unsafe { mc_init() }
    let mut list = vec![];
    for (ci, _) in calls().iter().enumerate() { for (v, w) in values() { for m in MACHINES {
        let later: Vec<&[u8]> = if tier == "thorough" { vec![b"1", b"4", b"<unset>", b"abc"] } else if w == "1" { vec![b"4"] } else { vec![b"1"] };
        for l in later { for &e in if *m == "1x4x1" { &[('n', 'n'), ('f', 'n'), ('c', 'n'), ('p', 'n'), ('n', 'e'), ('n', 's'), ('f', 'b')][..] } else { &[('n', 'n')] } { list.push((ci, v.clone(), w, *m, l.to_vec(), e)) } }
    } } }
    // eight workers, each its own share
    let nw = 8usize;
    let sh = unsafe { libc::mmap(std::ptr::null_mut(), 1 << 20, 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u64 };
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let slot = unsafe { mc_slot() };
            let mut refs: Vec<Option<(Jobs, Ref)>> = calls().iter().map(|_| None).collect();
            let put = |j: &Job1, m: &str| unsafe { let s = format!("{}\n{}", j.text(), m); let b = s.as_bytes(); let p = (sh as *mut u8).add(65536 * (w + 1)); std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), b.len().min(60000)); *(p as *mut u64) = b.len().min(60000) as u64; };
            for (i, (ci, v, al, m, l, e)) in list.iter().enumerate() {
                if i % nw != w { continue }
                let (call, var) = calls()[*ci].clone();
                let j = Job1 { val: v.clone(), allow: al.to_string(), mach: m.to_string(), later: l.clone(), call, var: var.into(), err: e.0, pre: e.1 };
                if refs[*ci].is_none() {
                    let sc = Scen { var: var.into(), nt: "1".into(), warm: false, users: vec![vec![j.call.clone()]], share: false };
                    let mut jobs = prepare_all(&sc); regions(&jobs);
                    match reference(&j, &mut jobs, slot) { Ok(r) => refs[*ci] = Some((jobs, r)), Err((t, e)) => { put(&t, &e); unsafe { libc::_exit(1) } } }
                }
                let (jobs, r) = refs[*ci].as_mut().unwrap(); regions(jobs);
                match check1(&j, r, jobs, slot) {
                    Ok(n) => unsafe { *sh.add(8 * w) += 1; *sh.add(8 * w + 1) += (n > 1) as u64; *sh.add(8 * w + 2) += (*slot).points as u64; *sh.add(8 * w + 3) |= 1 << n; },
                    Err(e) => { put(&j, &e); unsafe { libc::_exit(1) } }
                }
            }
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    let mut bad = None; let mut crashed = false;
    for (w, pid) in pids.iter().enumerate() {
        let mut st = 0; unsafe { libc::waitpid(*pid, &mut st, 0) };
        if st != 0 && bad.is_none() {
            let p = unsafe { (sh as *mut u8).add(65536 * (w + 1)) }; let n = unsafe { *(p as *mut u64) } as usize;
            if n > 0 { bad = Some(String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p.add(8), n) }).into_owned()) } else { crashed = true }
        }
    }
    if crashed { eprintln!("engine error: a worker died"); return 2 }
    let g = |k: usize| (0..nw).map(|w| unsafe { *sh.add(8 * w + k) }).sum::<u64>();
    let mask = (0..nw).fold(0, |a, w| a | unsafe { *sh.add(8 * w + 3) });
    let samples: Vec<String> = values().iter().map(|(v, w)| format!("{:?} -> limit {}", String::from_utf8_lossy(v), w)).collect();
    let cov = format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"enumerated\": {}, \"exhaustive\": {}, \"several_threads\": {}, \"scheduling_points\": {}, \"thread_counts_seen\": {}, \"rule\": {}, \"samples\": [{}]",
        g(0), g(0), list.len(), bad.is_none(), g(1), g(2), js(&format!("{:?}", (0..8).filter(|t| mask >> t & 1 == 1).collect::<Vec<_>>())),
        js("values of MATMUL_NUM_THREADS (u = number of physical CPUs) x machines (sockets x cores x hardware threads, given through /proc/cpuinfo and the affinity mask) x calls x standard error that accepts or refuses output x empty and small calls made before x values set after the first call; each in a fresh process under the deterministic scheduler, counting the threads that touch A, B or C. Every one is distinct and involves a product large enough for four threads."),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    evidence("C10", tier, "exploration", &cov, &["each configuration runs under the default schedule only (the schedules of a call are C08's subject)", "num_cpus reads /proc/cpuinfo; other platforms' detection is not exercised"], t0.elapsed().as_secs_f64(), bad.is_some());
    println!("C10 [{tier}]: {} of {} configurations, {} with several threads, {:.1} s", g(0), list.len(), g(1), t0.elapsed().as_secs_f64());
    match bad {
        None => 0,
        Some(b) => { let f = replay_path("C10"); std::fs::write(&f, format!("C10\n{b}\n")).unwrap(); println!("C10: {}", b.replace('\n', ": ")); println!("VIOLATION property=C10 replay={f}"); 1 }
    }
}
pub fn replay(line: &str, file: &str) -> i32 {
    unsafe { mc_init() }
    let j = Job1::parse(line); let slot = unsafe { mc_slot() };
    let sc = Scen { var: j.var.clone(), nt: "1".into(), warm: false, users: vec![vec![j.call.clone()]], share: false };
    let mut jobs = prepare_all(&sc); regions(&jobs);
    let r = match reference(&j, &mut jobs, slot) { Ok(r) => r, Err((_, e)) => { println!("{e}\nVIOLATION property=C10 replay={file}"); return 1 } };
    match check1(&j, &r, &mut jobs, slot) { Ok(n) => { println!("{n} threads take part: fine"); 0 } Err(e) => { println!("{e}\nVIOLATION property=C10 replay={file}"); 1 } }
}
