// with the C API: compiles cshim.c against the header in the tree under test
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=cshim.c");
    println!("cargo:rerun-if-changed=/repo/imagequant-sys/libimagequant.h");
    if std::env::var_os("CARGO_FEATURE_CAPI").is_none() || std::env::var("CARGO_CFG_MIRI").is_ok() { return; }
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/cshim.o");
    let lib = format!("{out}/libcshim.a");
    let _ = std::fs::remove_file(&lib);
    let ok = Command::new("gcc").args(["-std=c99", "-O1", "-g", "-fPIC", "-Wall", "-Wno-nonnull", "-fno-delete-null-pointer-checks", "-I/repo/imagequant-sys", "-c", "cshim.c", "-o", &obj]).status().expect("gcc").success();
    assert!(ok, "cshim.c does not compile against the header");
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=cshim");
}
