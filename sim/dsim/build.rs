use std::{env, path::PathBuf, process::Command};

fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let dir = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap());
    for f in ["rt.c"] {
        println!("cargo:rerun-if-changed={}", dir.join("src").join(f).display());
    }
    let obj = out.join("rt.o");
    let ok = Command::new("cc")
        .args(["-O2", "-g", "-fPIC", "-Wall", "-Wno-unused-function", "-fno-stack-protector", "-c"])
        .arg(dir.join("src/rt.c"))
        .arg("-o")
        .arg(&obj)
        .status()
        .expect("cc")
        .success();
    assert!(ok, "compiling rt.c failed");
    let lib = out.join("libdsimrt.a");
    let _ = std::fs::remove_file(&lib);
    let ok = Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().expect("ar").success();
    assert!(ok, "ar failed");
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static=dsimrt");
}
