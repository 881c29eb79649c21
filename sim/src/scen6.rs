//! Object storage (P18).
use crate::plan::*;
use crate::rng::Rng;
use serde_json::{Value, json};

/// P18: producers and consumers that exchange contents through an object store with faults.
pub fn objects(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 18);
    let r = &mut r;
    let mut p = Plan::new(prop, "objects", seed);
    p.kern = Kern::random(r);
    p.srv = Srv { expiry_ms: r.range(20_000, 60_000), pool: *r.pick(&[2, 4, 16]), hb_ms: 3000, miss: 3, retries: 10_000, workers: r.range(1, 3), ..Srv::default() };
    let heal = r.range(2000, 8000);
    let end = heal + 30_000;
    p.heal_ms = heal;
    p.quiet_ms = end - heal + 2000;
    let rate = |r: &mut Rng| if r.chance(1, 2) { 0 } else { r.logrange(2000, 250_000) };
    p.proc_("store", 0, 1, vec![json!({"kind": "objsrv", "name": "store", "until": heal, "p_slow": rate(r), "slow": r.logrange(5, 2500), "p_500": rate(r), "p_403": rate(r) / 4, "p_drop": rate(r), "p_lostack": rate(r), "p_trunc": rate(r)})]);
    let url = format!("http://10.0.0.10:8080/{}", r.pick(&["base", "a/b", "x", "deep/er/path"]));
    let opts = |r: &mut Rng| json!({"url": url, "retries": *r.pick(&[0u64, 2, 10]), "retry_s": r.range(5, 60), "timeout_s": 5});
    let mut rev = 0u64;
    let names = ["s", "p.1", "P", "p/sub", "x y", "\u{fc}b", "100%", "100%25", "q?x", "h#y", "a-in", "0-out.bin", "tilde~", "s1", "s11"];
    // ---- submissions whose contents are in the store
    let np = r.range(1, 3);
    for k in 0..np {
        let px = format!("{}{k}", r.pick(&names));
        let n = r.logrange(1, 30);
        rev += 1;
        let kind = *r.pick(&["bin", "str", "mix", "big", "empty"]);
        let t = r.range(0, heal / 2);
        let mut lane = vec![json!({"op": "wait", "key": "objsrv", "max": 5000, "every": 5}), json!({"op": "sleep", "ms": t})];
        lane.push(json!({"op": "store", "px": px, "ty": "in", "n": n, "rev": rev, "kind": kind, "again": 400}));
        lane.push(json!({"op": "put", "key": format!("stored:{px}"), "val": "1"}));
        lane.push(json!({"op": "wait", "key": format!("fin:{px}"), "max": end - 4000, "every": 50}));
        lane.push(json!({"op": "getall", "px": px, "ty": "out", "n": n, "all": true}));
        lane.push(json!({"op": "getall", "px": px, "ty": "in", "n": n, "all": true}));
        let mut a = opts(r);
        a["kind"] = json!("obj");
        a["name"] = json!(format!("pipe{k}"));
        a["lanes"] = json!([lane]);
        let steps = vec![
            json!({"op": "up"}),
            json!({"op": "wait", "key": format!("stored:{px}"), "max": end - 6000, "every": 20}),
            json!({"op": "ins", "tag": px, "n": n, "kind": "obj", "prefix": px, "sm": {}}),
            json!({"op": "poll", "tag": px, "every": 100, "until": end - 5000}),
            json!({"op": "put", "key": format!("fin:{px}"), "val": "1"}),
        ];
        p.proc_(&format!("pipe{k}"), 0, r.range(1, 2), vec![a, json!({"kind": "prod", "name": format!("prod{k}"), "raw": false, "steps": steps})]);
    }
    for c in 0..r.range(1, 2) {
        let a = json!({"kind": "cons", "name": format!("cons{c}"), "tasks": r.range(1, 4), "strat": r.pick(&["oldest", "newest", "random"]), "max": 1, "max2": r.range(1, 6), "work": 0, "work2": r.range(1, 60),
            "p_drop": *r.pick(&[0u64, 0, 20_000]), "stop": end, "obj": opts(r)});
        p.proc_(&format!("cons{c}"), r.range(0, 500), r.range(1, 3), vec![a]);
    }
    // ---- the store alone: concurrent writes and reads of a few objects
    let ne = r.range(1, 3);
    let mut regs: Vec<(String, &str)> = vec![];
    for j in 0..r.range(1, 3) {
        regs.push((format!("reg{}{j}", r.pick(&names)), *r.pick(&["in", "out"])));
    }
    for e in 0..ne {
        let mut lanes: Vec<Value> = vec![];
        let mem = r.chance(1, 6);
        for _ in 0..r.range(1, 4) {
            let mut lane = vec![json!({"op": "wait", "key": "objsrv", "max": 5000, "every": 5})];
            for _ in 0..r.logrange(4, 40) {
                let (px, ty) = r.pick(&regs).clone();
                let px = if mem { format!("mem{e}{px}") } else { px };
                let i = r.range(0, 4);
                let n = r.range(1, 6);
                rev += 1;
                let kind = *r.pick(&["bin", "bin", "mix", "big", "empty"]);
                lane.push(match r.below(10) {
                    0..=2 => json!({"op": "put1", "px": px, "ty": ty, "i": i, "rev": rev, "kind": kind}),
                    3..=5 => json!({"op": "get1", "px": px, "ty": ty, "i": i}),
                    6 => {
                        let mut v = json!({"op": "store", "px": px, "ty": ty, "n": n, "rev": rev, "kind": kind});
                        if r.chance(1, 4) {
                            v["bad"] = json!(r.below(n));
                        }
                        v
                    }
                    7 => json!({"op": "getall", "px": px, "ty": if r.chance(1, 4) { "in" } else { ty }, "n": n}),
                    8 => json!({"op": "getall", "px": px, "ty": ty, "n": n, "all": true}),
                    _ => json!({"op": "sleep", "ms": r.logrange(1, 800)}),
                });
            }
            // and once everything works again
            lane.push(json!({"op": "at", "t": heal + r.range(6000, 12_000)}));
            for _ in 0..r.range(2, 8) {
                let (px, ty) = r.pick(&regs).clone();
                let px = if mem { format!("mem{e}{px}") } else { px };
                rev += 1;
                let (i, n) = (r.range(0, 4), r.range(1, 6));
                lane.push(match r.below(5) {
                    0 => json!({"op": "put1", "px": px, "ty": ty, "i": i, "rev": rev, "kind": "mix"}),
                    1 => json!({"op": "store", "px": px, "ty": ty, "n": n, "rev": rev, "kind": "mix"}),
                    2 => json!({"op": "get1", "px": px, "ty": ty, "i": i}),
                    _ => json!({"op": "getall", "px": px, "ty": ty, "n": n, "all": true}),
                });
            }
            lanes.push(json!(lane));
        }
        let mut a = opts(r);
        if mem {
            a["url"] = json!("memory:///");
        }
        a["kind"] = json!("obj");
        a["name"] = json!(format!("user{e}"));
        a["lanes"] = json!(lanes);
        p.proc_(&format!("user{e}"), r.range(0, 300), r.range(1, 3), vec![a]);
    }
    // ---- faults
    let who: Vec<String> = p.procs.iter().map(|x| x.name.clone()).collect();
    for _ in 0..r.range(0, 6) {
        let t = r.range(100, heal);
        let w = r.pick(&who).clone();
        match r.below(9) {
            0..=1 => p.fault(t, "cut", json!({"who": w, "with": "store", "ms": r.logrange(20, 4000), "dir": r.pick(&["both", "to", "from"])})),
            2..=3 => p.fault(t, "reset", json!({"who": w, "with": "store"})),
            4 => p.fault(t, "pause", json!({"who": w, "ms": r.logrange(20, 3000)})),
            5 if w.starts_with("user") || w.starts_with("cons") => p.fault(t, "killp", json!({"who": w})),
            6 => p.fault(t, "kill", json!({})),
            _ => p.fault(t, "cut", json!({"who": w, "ms": r.logrange(20, 3000), "dir": "both"})),
        }
    }
    p.down = (10, 1500);
    p.snap_ppm = 0;
    p.snap_max = 0;
    p
}
