fn main() {
    println!("cargo:rustc-env=HARNESS_OPT={}", std::env::var("OPT_LEVEL").unwrap());
    println!("cargo:rerun-if-changed=build.rs");
}
