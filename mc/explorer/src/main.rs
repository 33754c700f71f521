mod alloc;
mod arena;
mod case;
mod checks;
mod elem;
mod exec;
mod layout;
mod mem;
mod runner;
mod scratch;
mod seq;
mod special;
mod variants;
mod vg;

#[global_allocator]
static GLOBAL: alloc::Guard = alloc::Guard;

fn usage() -> ! { eprintln!("explorer check <ID> [quick|thorough] | replay <file> | exact|bits <case>"); std::process::exit(2) }

fn main() {
    unsafe { let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE, &r); }
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 { usage(); }
    let code = match args[1].as_str() {
        "check" => {
            let tier = args.get(3).map(|s| s.as_str()).unwrap_or("quick");
            let t = tier == "thorough";
            match args[2].as_str() {
                "C01" => checks::run_simple("C01", checks::c01(t), tier),
                "C02" => checks::run_simple("C02", checks::c02(t), tier),
                "C03" => checks::run_simple("C03", checks::c03(t), tier),
                "C04" => checks::run_with_memcheck("C04", checks::c04(t), tier),
                "C05" => checks::run_with_memcheck("C05", mem::c05_native(t), tier),
                "C06" => checks::run_simple("C06", checks::c06(t), tier),
                "C07" => checks::c07(tier),
                "C11" => scratch::c11(tier),
                "C14" => seq::c14(tier),
                "C13" => checks::run_simple("C13", special::c13(t), tier),
                "C15" => checks::run_simple("C15", special::c15(t), tier),
                _ => usage(),
            }
        }
        "vg" => mem::vg_main(&args[2], args.get(3).map(|s| s == "thorough").unwrap_or(false)),
        "vgone" => {
            let vs = variants::variants();
            let c = case::Case::parse(&args[2], &vs).expect("case");
            std::env::set_var("MATMUL_NUM_THREADS", c.nt.to_string());
            let mut cx = exec::Ctx::new(variants::variants());
            cx.memcheck = true; cx.guard_alloc = false;
            match checks::eval_exact(&mut cx, &c) { Ok(_) => 0, Err(e) => { println!("{e}"); 1 } }
        }
        "replay" => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let mut l = text.lines();
            let id = l.next().unwrap_or("").to_string();
            let vs = variants::variants();
            let line = l.next().unwrap_or("");
            if id == "C14" {
                match seq::replay(line) {
                    Ok(()) => { println!("the property holds for this sequence"); std::process::exit(0) }
                    Err(e) => { println!("{e}\nVIOLATION property={id} replay={}", args[2]); std::process::exit(1) }
                }
            }
            let c = case::Case::parse(line, &vs).expect("case");
            std::env::set_var("MATMUL_NUM_THREADS", c.nt.to_string());
            let mut cx = exec::Ctx::new(variants::variants());
            println!("{id}: {}", c.text(&vs));
            if l.next().unwrap_or("").starts_with("memcheck") {
                let st = std::process::Command::new("valgrind").args(["-q", "--error-limit=no", "--partial-loads-ok=no", "--num-callers=8"])
                    .arg(std::env::current_exe().unwrap()).args(["vgone", &c.text(&vs)]).status().expect("valgrind");
                if st.success() { println!("the property holds for this case"); std::process::exit(0) }
                println!("VIOLATION property={id} replay={}", args[2]);
                std::process::exit(1)
            }
            let r = match id.as_str() {
                "C11" => scratch::eval_alloc(&mut cx, &c).and_then(|_| scratch::eval_growth(&mut cx, &c)).and_then(|_| scratch::eval_refuse(&mut cx, &c)).map(|_| ()),
                "C05" => mem::eval_junk(&mut cx, &c).map(|_| ()),
                "C07" => checks::replay_c07(&c, &vs),
                "C13" => special::eval_special(&mut cx, &c).map(|_| ()),
                "C15" => special::eval_round(&mut cx, &c).map(|_| ()),
                _ => checks::eval_exact(&mut cx, &c).map(|_| ()),
            };
            match r {
                Ok(()) => { println!("the property holds for this case"); 0 }
                Err(e) => { println!("{e}\nVIOLATION property={id} replay={}", args[2]); 1 }
            }
        }
        m @ ("exact" | "bits") => {
            let vs = variants::variants();
            let c = case::Case::parse(&args[2], &vs).expect("case");
            std::env::set_var("MATMUL_NUM_THREADS", c.nt.to_string());
            let mut cx = exec::Ctx::new(variants::variants());
            match if m == "exact" { checks::eval_exact(&mut cx, &c) } else { checks::eval_bits(&mut cx, &c) } {
                Ok(h) => { println!("{}", h.unwrap_or(0)); 0 }
                Err(e) => { println!("{e}"); 1 }
            }
        }
        _ => usage(),
    };
    std::process::exit(code);
}
