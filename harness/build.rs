fn main() {
    // The UniCacheEntry derive emits cfg(feature = "serde") evaluated in this crate.
    println!("cargo:rustc-cfg=feature=\"serde\"");
    println!("cargo:rerun-if-changed=build.rs");
}
