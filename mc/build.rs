fn main() {
    let d = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let v = std::path::Path::new(&d).parent().unwrap().display().to_string();
    println!("cargo:rustc-env=VERIF_DIR={}", v);
    println!("cargo:rerun-if-changed=build.rs");
}
