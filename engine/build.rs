use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    // libLLVM that ships with the pinned rustc: it reads exactly the bitcode that rustc writes.
    let rustc = std::env::var("RUSTC").unwrap_or_else(|_| "rustc".into());
    let out = Command::new(&rustc).args(["--print", "sysroot"]).output().expect("rustc --print sysroot");
    let sysroot = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let dir = format!("{sysroot}/lib");
    let mut name = None;
    for e in std::fs::read_dir(&dir).expect("sysroot lib") {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM.so.") {
            name = Some(n);
        }
    }
    let name = name.expect("no libLLVM.so.* in the rustc sysroot");
    println!("cargo:rustc-link-search=native={dir}");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{dir}");
    println!("cargo:rustc-link-arg={dir}/{name}");
    println!("cargo:rustc-link-arg=/usr/lib/x86_64-linux-gnu/libz3.so");
}
