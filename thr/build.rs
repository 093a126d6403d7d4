use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt.c");
    let o = format!("{}/rt.o", std::env::var("OUT_DIR").unwrap());
    let s = Command::new("gcc").args(["-O2", "-fPIC", "-c", "rt.c", "-o", &o]).status().expect("gcc");
    assert!(s.success());
    println!("cargo:rustc-link-arg-bins={o}");
}
