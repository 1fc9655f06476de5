fn main() {
    let venv = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(venv).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={venv}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{venv}");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
