use std::env;
use std::path::PathBuf;
use std::process::Command;

fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let obj = out.join("rt.o");
    let lib = out.join("libsimrt.a");
    let ok = Command::new("gcc")
        .args(["-O2", "-g0", "-w", "-fno-stack-protector", "-c", "rt/rt.c", "-o"])
        .arg(&obj)
        .status()
        .expect("gcc")
        .success();
    assert!(ok, "rt.c does not compile");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
    println!("cargo:rerun-if-changed=rt/rt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
