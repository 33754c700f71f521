fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=MATMUL_CGEMM_KC=20");
    println!("cargo:rustc-env=MATMUL_CGEMM_MC=12");
    println!("cargo:rustc-env=MATMUL_CGEMM_NC=28");
    println!("cargo:rustc-env=MATMUL_DGEMM_KC=32");
    println!("cargo:rustc-env=MATMUL_DGEMM_MC=24");
    println!("cargo:rustc-env=MATMUL_DGEMM_NC=48");
    println!("cargo:rustc-env=MATMUL_SGEMM_KC=24");
    println!("cargo:rustc-env=MATMUL_SGEMM_MC=16");
    println!("cargo:rustc-env=MATMUL_SGEMM_NC=40");
    println!("cargo:rustc-env=MATMUL_ZGEMM_KC=16");
    println!("cargo:rustc-env=MATMUL_ZGEMM_MC=8");
    println!("cargo:rustc-env=MATMUL_ZGEMM_NC=36");
}
