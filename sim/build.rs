use std::fmt::Write as _;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    // --- interposition shim, linked into the executable only
    println!("cargo:rerun-if-changed=csrc/shim.c");
    let objs = cc::Build::new().file("csrc/shim.c").opt_level(2).flag("-fno-builtin").flag("-Wno-nonnull-compare").cargo_metadata(false).compile_intermediates();
    for o in objs {
        println!("cargo:rustc-link-arg-bin=simq={}", o.display());
    }
    // export what shim.c marks EXPORT, plus the agents' services
    let src = std::fs::read_to_string("csrc/shim.c").unwrap();
    let mut list = String::from("{\n");
    for l in src.lines().filter(|l| l.starts_with("EXPORT ")) {
        let head = l.split('(').next().unwrap();
        let name = head.split([' ', '*']).filter(|s| !s.is_empty()).last().unwrap();
        let _ = writeln!(list, "  {name};");
    }
    for n in ["simk_event", "simk_now", "simk_board_put", "simk_board_get", "simk_rand"] {
        let _ = writeln!(list, "  {n};");
    }
    list.push_str("};\n");
    let p = format!("{out}/dynlist");
    std::fs::write(&p, list).unwrap();
    println!("cargo:rustc-link-arg-bin=simq=-Wl,--dynamic-list={p}");

    for n in ["sqlite3_step", "sqlite3_prepare_v3"] {
        println!("cargo:rustc-link-arg-cdylib=-Wl,--wrap={n}");
    }
    // --- the server's own main(), compiled into the node image
    let main_rs = "/repo/opsqueue/app/main.rs";
    println!("cargo:rerun-if-changed={main_rs}");
    let s = std::fs::read_to_string(main_rs).unwrap();
    let mut t = String::new();
    for l in s.lines() {
        let tl = l.trim_start();
        if tl.starts_with("#!") || tl.starts_with("//!") {
            continue;
        }
        t.push_str(l);
        t.push('\n');
    }
    t.push_str("\n#[doc(hidden)]\npub fn __sim_entry() { let _ = main(); }\n");
    std::fs::write(format!("{out}/app_main.rs"), t).unwrap();
}
