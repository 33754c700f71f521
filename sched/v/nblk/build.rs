fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=MATMUL_CGEMM_KC=4096");
    println!("cargo:rustc-env=MATMUL_CGEMM_MC=4");
    println!("cargo:rustc-env=MATMUL_CGEMM_NC=4096");
    println!("cargo:rustc-env=MATMUL_DGEMM_KC=4096");
    println!("cargo:rustc-env=MATMUL_DGEMM_MC=8");
    println!("cargo:rustc-env=MATMUL_DGEMM_NC=4096");
    println!("cargo:rustc-env=MATMUL_SGEMM_KC=4096");
    println!("cargo:rustc-env=MATMUL_SGEMM_MC=8");
    println!("cargo:rustc-env=MATMUL_SGEMM_NC=4096");
    println!("cargo:rustc-env=MATMUL_ZGEMM_KC=4096");
    println!("cargo:rustc-env=MATMUL_ZGEMM_MC=4");
    println!("cargo:rustc-env=MATMUL_ZGEMM_NC=4096");
    println!("cargo:rustc-env=MMTEST_FEATURE=none");
}
