//! See `detach` in src/main.rs.
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bins=-Wl,--wrap=pthread_detach");
}
