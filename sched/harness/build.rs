use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt.c");
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc").args(["-O3", "-g1", "-fno-builtin-malloc", "-c", "rt.c", "-o"]).arg(format!("{out}/rt.o")).status().unwrap().success()
        && Command::new("ar").args(["crs"]).arg(format!("{out}/libmcrt.a")).arg(format!("{out}/rt.o")).status().unwrap().success();
    assert!(ok, "building rt.c");
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=mcrt");
    println!("cargo:rustc-link-arg=-rdynamic");
}
