//! TLS is never used inside the simulation, so the C library behind aws-lc-sys
//! is replaced by symbols that trap. The Rust bindings are the real ones, read
//! from cargo's registry.
use std::fmt::Write as _;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into())));
    let reg = std::path::Path::new(&home).join("registry/src");
    let mut found = None;
    for d in std::fs::read_dir(&reg).expect("cargo registry") {
        let p = d.unwrap().path().join("aws-lc-sys-0.43.0/src/x86_64_unknown_linux_gnu_crypto.rs");
        if p.exists() {
            found = Some(p);
        }
    }
    let src = std::fs::read_to_string(found.expect("aws-lc-sys 0.43.0 in the registry")).unwrap();
    let mut asm = String::from(".text\n");
    for l in src.lines() {
        if let Some(i) = l.find("link_name = \"\\u{1}") {
            let n = &l[i + 18..];
            let n = &n[..n.find('"').unwrap()];
            let _ = writeln!(asm, ".weak {n}\n{n}:");
            if n.ends_with("_CRYPTO_library_init") || n.ends_with("_FIPS_mode") {
                asm.push_str("xor %eax,%eax\nret\n");
            }
        }
    }
    asm.push_str("ud2\n.section .note.GNU-stack,\"\",@progbits\n");
    std::fs::write(format!("{out}/stub.s"), asm).unwrap();
    // inner attributes cannot be include!d
    let mut rs = src.clone();
    while let Some(i) = rs.find("#![") {
        let j = i + rs[i..].find(")]").unwrap() + 2;
        rs.replace_range(i..j, "");
    }
    std::fs::write(format!("{out}/bindings.rs"), rs).unwrap();
    cc::Build::new().file(format!("{out}/stub.s")).compile("aws_lc_stub");
    println!("cargo:include={out}");
    println!("cargo:rerun-if-changed=build.rs");
}
