fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=MATMUL_CGEMM_KC=65536");
    println!("cargo:rustc-env=MATMUL_CGEMM_MC=65536");
    println!("cargo:rustc-env=MATMUL_CGEMM_NC=65536");
    println!("cargo:rustc-env=MATMUL_DGEMM_KC=65536");
    println!("cargo:rustc-env=MATMUL_DGEMM_MC=65536");
    println!("cargo:rustc-env=MATMUL_DGEMM_NC=65536");
    println!("cargo:rustc-env=MATMUL_SGEMM_KC=65536");
    println!("cargo:rustc-env=MATMUL_SGEMM_MC=65536");
    println!("cargo:rustc-env=MATMUL_SGEMM_NC=65536");
    println!("cargo:rustc-env=MATMUL_ZGEMM_KC=65536");
    println!("cargo:rustc-env=MATMUL_ZGEMM_MC=65536");
    println!("cargo:rustc-env=MATMUL_ZGEMM_NC=65536");
}
