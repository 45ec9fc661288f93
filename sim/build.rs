use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/simrt.o");
    let lib = format!("{out}/libsimrt.a");
    let st = Command::new("g++")
        .args(["-std=c++17", "-O2", "-g", "-fPIC", "-fno-exceptions", "-fno-rtti", "-w", "-c", "rt/simrt.cpp", "-o", &obj])
        .status()
        .expect("g++");
    assert!(st.success());
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
    println!("cargo:rustc-link-lib=dylib=stdc++");
    println!("cargo:rerun-if-changed=rt/simrt.cpp");
    println!("cargo:rerun-if-changed=build.rs");
}
