use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().unwrap().success(), "{c:?}");
    // the build that counts work also counts the bytes the C library moves
    let cost = if std::env::var("PGSIM_COST").is_ok() { "-DCOST" } else { "-UCOST" };
    println!("cargo:rerun-if-env-changed=PGSIM_COST");
    run(Command::new("gcc").args([cost, "-O2", "-g0", "-Wall", "-fPIC", "-fno-strict-aliasing", "-c", "rt/simrt.c", "-o", &format!("{out}/simrt.o")]));
    let _ = std::fs::remove_file(format!("{out}/libsimrt.a"));
    run(Command::new("ar").args(["crs", &format!("{out}/libsimrt.a"), &format!("{out}/simrt.o")]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
    println!("cargo:rustc-link-lib=dl");
    println!("cargo:rerun-if-changed=rt/simrt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
