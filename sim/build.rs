use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=rt.c");
    let o = format!("{out}/rt.o");
    let a = format!("{out}/libsimrt.a");
    assert!(Command::new("gcc").args(["-O2", "-g", "-Wall", "-fno-builtin-exit", "-fno-omit-frame-pointer", "-fno-pie", "-c", "rt.c", "-o", &o]).status().unwrap().success());
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").args(["crs", &a, &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
}
