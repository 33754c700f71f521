fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=MATMUL_CGEMM_KC=1024");
    println!("cargo:rustc-env=MATMUL_CGEMM_MC=4");
    println!("cargo:rustc-env=MATMUL_CGEMM_NC=1024");
    println!("cargo:rustc-env=MATMUL_DGEMM_KC=1024");
    println!("cargo:rustc-env=MATMUL_DGEMM_MC=8");
    println!("cargo:rustc-env=MATMUL_DGEMM_NC=1024");
    println!("cargo:rustc-env=MATMUL_SGEMM_KC=1024");
    println!("cargo:rustc-env=MATMUL_SGEMM_MC=8");
    println!("cargo:rustc-env=MATMUL_SGEMM_NC=1024");
    println!("cargo:rustc-env=MATMUL_ZGEMM_KC=1024");
    println!("cargo:rustc-env=MATMUL_ZGEMM_MC=4");
    println!("cargo:rustc-env=MATMUL_ZGEMM_NC=1024");
    println!("cargo:rustc-env=MMTEST_FEATURE=none");
}
