use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=csym.c");
    assert!(Command::new("gcc").args(["-O1", "-c", "csym.c", "-o"]).arg(format!("{out}/csym.o")).status().unwrap().success());
    assert!(Command::new("ar").arg("rcs").arg(format!("{out}/libcsym.a")).arg(format!("{out}/csym.o")).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=csym");
}
