fn main() {
    // the solver: the system's libz3 (libz3-dev)
    println!("cargo:rustc-link-lib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
