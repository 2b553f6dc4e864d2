fn main() {
    // make the harness' deterministic getrandom() visible to dlsym() users (std, getrandom, ahash)
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    println!("cargo:rerun-if-changed=build.rs");
}
