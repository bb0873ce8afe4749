fn main() {
    println!("cargo:rustc-check-cfg=cfg(slashing_dst)");
    println!("cargo:rustc-cfg=slashing_dst");
    println!("cargo:rerun-if-changed=build.rs");
}
