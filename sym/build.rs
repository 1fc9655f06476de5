use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=src/rt.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc")
        .args(["-O1", "-fPIC", "-c", "src/rt.c", "-o"])
        .arg(format!("{out}/rt.o"))
        .status()
        .expect("gcc")
        .success();
    assert!(ok);
    let _ = std::fs::remove_file(format!("{out}/libsymrt.a"));
    let ok = Command::new("ar")
        .arg("crs")
        .arg(format!("{out}/libsymrt.a"))
        .arg(format!("{out}/rt.o"))
        .status()
        .expect("ar")
        .success();
    assert!(ok);
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:-bundle=symrt");
}
