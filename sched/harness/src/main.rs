//! Explorer of thread schedules (C08, C09) and of thread-limit settings (C10). See rt.c for the controlled scheduler.
mod dfs;
mod scen;
mod limits;

struct McAlloc;
extern "C" { fn mc_alloc(n: u64, al: u64) -> *mut u8; fn mc_free(p: *mut u8, n: u64); }
unsafe impl std::alloc::GlobalAlloc for McAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { mc_alloc(l.size() as u64, l.align() as u64) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { mc_free(p, l.size() as u64) }
}
#[global_allocator]
static A: McAlloc = McAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => match args[2].as_str() {
            "C08" | "C09" => dfs::check(&args[2], args.get(3).map_or("quick", |s| s)),
            "C10" => limits::check(args.get(3).map_or("quick", |s| s)),
            _ => 2,
        },
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let l: Vec<&str> = t.lines().collect();
            if l[0] == "C10" { limits::replay(l[1], &args[2]) } else { dfs::replay(l[0], l[1], l[2], &args[2]) }
        }
        Some("one") => dfs::one(&args[2], args.get(3).and_then(|s| s.parse().ok()).unwrap_or(0)),
        _ => 2,
    };
    std::process::exit(code);
}
