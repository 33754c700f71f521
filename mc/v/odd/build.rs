fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=MATMUL_CGEMM_KC=7");
    println!("cargo:rustc-env=MATMUL_CGEMM_MC=5");
    println!("cargo:rustc-env=MATMUL_CGEMM_NC=9");
    println!("cargo:rustc-env=MATMUL_DGEMM_KC=13");
    println!("cargo:rustc-env=MATMUL_DGEMM_MC=10");
    println!("cargo:rustc-env=MATMUL_DGEMM_NC=17");
    println!("cargo:rustc-env=MATMUL_SGEMM_KC=11");
    println!("cargo:rustc-env=MATMUL_SGEMM_MC=9");
    println!("cargo:rustc-env=MATMUL_SGEMM_NC=13");
    println!("cargo:rustc-env=MATMUL_ZGEMM_KC=9");
    println!("cargo:rustc-env=MATMUL_ZGEMM_MC=6");
    println!("cargo:rustc-env=MATMUL_ZGEMM_NC=11");
}
