//! Scenarios that probe the order in which chunks are handed out (P10, P11).
use crate::plan::*;
use crate::rng::Rng;
use crate::scen2::small_insert;
use serde_json::{Value, json};

fn plain(r: &mut Rng) -> Value {
    json!(*r.pick(&["oldest", "oldest", "newest", "newest", "random"]))
}
fn distinct(r: &mut Rng) -> Value {
    let base = *r.pick(&["oldest", "newest", "random"]);
    match r.below(6) {
        0..=2 => json!(["a", base]),
        3 => json!(["b", base]),
        4 => json!(["a", ["b", base]]),
        _ => json!(["b", ["a", base]]),
    }
}
/// Rounds in which some consumers give back everything while others ask for work at
/// the very same time; between the rounds the preferences must be right.
fn burst(mut p: Plan, r: &mut Rng) -> Plan {
    p.scen = "burst".into();
    p.kern.edge_mean = r.logrange(5, 500);
    p.kern.lat_max_us = p.kern.lat_min_us + r.range(10, 400);
    p.srv = Srv { expiry_ms: 60_000, pool: *r.pick(&[4, 16]), hb_ms: 600, miss: 2, retries: 500, workers: r.range(2, 4), maxret: 1000, ..Srv::default() };
    // whether one consumer's chunks are all there is in flight, most of the time
    let solo = r.chance(1, 2);
    let mut s = vec![json!({"op": "up"})];
    for j in 0..r.range(5, 8) {
        let n = r.range(6, 10);
        let mut v = small_insert(r, &format!("q{j}"), n);
        v["sm"] = if solo { json!({"a": j}) } else { json!({"a": r.below(3), "b": r.below(2)}) };
        s.push(v);
    }
    p.proc_("prod", 0, 1, vec![json!({"kind": "prod", "name": "prod", "raw": true, "steps": s})]);
    let t0 = 1200;
    let rounds = r.range(12, 24);
    let period = 1300;
    let nw = if solo { 2 } else { r.range(2, 6) } as usize;
    let mut w: Vec<Vec<Value>> = (0..nw).map(|_| vec![json!({"op": "conn"})]).collect();
    let mut probe = vec![json!({"op": "conn"})];
    for k in 0..rounds {
        let t = t0 + k * period;
        for (i, s) in w.iter_mut().enumerate() {
            s.push(json!({"op": "at", "t": t}));
            s.push(json!({"op": "sleep", "ms": r.below(4)}));
            if (i as u64 + k) % 2 == 0 {
                s.push(json!({"op": "res", "max": r.range(1, 3), "strat": distinct(r), "wait": 400}));
            } else {
                s.push(json!({"op": r.pick(&["fail", "fail", "fail", "done"]), "which": r.pick(&["all", "all", "rand"])}));
            }
        }
        probe.push(json!({"op": "at", "t": t + 600}));
        probe.push(json!({"op": "res", "max": r.range(1, 4), "strat": distinct(r), "wait": 200}));
        probe.push(json!({"op": "fail", "which": "all"}));
        for d in [t + 590, t + 900] {
            p.fault(d, "snap", json!({"late": true}));
        }
    }
    p.heal_ms = t0 + rounds * period;
    for (i, s) in w.into_iter().enumerate() {
        p.proc_(&format!("w{i}"), 0, 1, vec![json!({"kind": "raw", "name": format!("w{i}"), "steps": s})]);
    }
    p.proc_("probe", 0, 1, vec![json!({"kind": "raw", "name": "probe", "steps": probe})]);
    p.quiet_ms = 300;
    p.snap_every = 0;
    p.snap_max = 600;
    p
}
/// Rounds in which many ask at the same moment, while others give back or finish.
fn together(mut p: Plan, r: &mut Rng) -> Plan {
    p.scen = "together".into();
    if r.chance(1, 2) {
        p.kern.edge_mean = r.logrange(20, 2000);
        p.kern.edge_long = r.chance(1, 3);
    }
    p.kern.lat_max_us = p.kern.lat_min_us + r.range(10, 1000);
    p.srv = Srv { expiry_ms: 60_000, pool: *r.pick(&[2, 4, 16]), hb_ms: 900, miss: 3, retries: 500, workers: r.range(1, 4), maxret: 1000, ..Srv::default() };
    let mut s = vec![json!({"op": "up"})];
    for j in 0..r.range(2, 5) {
        let n = r.range(10, 60);
        s.push(small_insert(r, &format!("q{j}"), n));
    }
    p.proc_("prod", 0, 1, vec![json!({"kind": "prod", "name": "prod", "raw": true, "steps": s})]);
    let t0 = 1200;
    let rounds = r.range(6, 14);
    let period = 2000;
    let nw = r.range(2, 6) as usize;
    let mut w: Vec<Vec<Value>> = (0..nw).map(|_| vec![json!({"op": "conn"})]).collect();
    for k in 0..rounds {
        let t = t0 + k * period;
        let same = r.chance(1, 2).then(|| plain(r));
        let most = *r.pick(&[3u64, 10, 25]);
        for s in &mut w {
            s.push(json!({"op": "at", "t": t}));
            s.push(json!({"op": "sleep", "us": r.below(2500)}));
            let strat = same.clone().unwrap_or_else(|| plain(r));
            s.push(json!({"op": "res", "max": r.range(1, most), "strat": strat, "wait": 600}));
            s.push(json!({"op": "at", "t": t + 900}));
            s.push(json!({"op": "collect"}));
            s.push(json!({"op": if r.chance(1, 12) { "done" } else { "fail" }, "which": if r.chance(4, 5) { "all" } else { "rand" }}));
        }
        for d in [t - 20, t + 300, t + 600] {
            p.fault(d, "snap", json!({"late": true}));
        }
    }
    p.heal_ms = t0 + rounds * period;
    for (i, s) in w.into_iter().enumerate() {
        p.proc_(&format!("w{i}"), 0, 1, vec![json!({"kind": "raw", "name": format!("w{i}"), "steps": s})]);
    }
    p.quiet_ms = 300;
    p.snap_every = 0;
    p.snap_max = 600;
    p
}
/// A quiet sequence of requests, reports and disconnections, one at a time, each
/// after the previous one has settled; for P11 after a storm in which reservations
/// ended in every way there is.
pub fn order(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 10);
    let r = &mut r;
    let pd = prop == "P11";
    let mut p = Plan::new(prop, "order", seed);
    p.kern = Kern::calm(r);
    if r.chance(1, 3) {
        p.kern.alloc_mean = r.logrange(30, 2000);
    }
    if r.chance(1, 3) {
        p.kern.edge_mean = r.logrange(20, 5000);
    }
    if pd && r.chance(1, 3) {
        return burst(p, r);
    }
    if !pd && r.chance(1, 3) {
        return together(p, r);
    }
    let expiry = if r.chance(1, 2) { r.range(1200, 3500) } else { 60_000 };
    p.srv = Srv { expiry_ms: expiry, pool: *r.pick(&[2, 4, 16]), hb_ms: r.range(300, 600), miss: r.range(1, 2), retries: 500, workers: r.range(1, 3), maxret: 1000, ..Srv::default() };
    let mut t0 = 600;
    let mut prod: Vec<(u64, Value)> = vec![];
    let mut tags = vec![];
    let mut ins = |prod: &mut Vec<(u64, Value)>, r: &mut Rng, t: u64| {
        let tag = format!("q{}", tags.len());
        let n = r.range(1, 5);
        let mut v = small_insert(r, &tag, n);
        if r.chance(2, 3) {
            v["sm"] = json!({"a": r.below(3), "b": r.below(3)});
        }
        prod.push((t, v));
        tags.push(tag);
    };
    for j in 0..r.range(3, 7) {
        ins(&mut prod, r, 300 + j * 40);
    }
    // ---- storm
    if pd || r.chance(1, 3) {
        let end = t0 + r.range(800, 4000);
        for j in 0..r.range(0, 4) {
            let t = t0 + r.below(end - t0);
            ins(&mut prod, r, t + j);
        }
        for a in 0..r.range(1, 3) {
            let name = format!("storm{a}");
            let mut actors = vec![];
            if expiry < 5000 && r.chance(1, 3) {
                actors.push(json!({"kind": "cons", "name": format!("{name}r"), "tasks": r.range(1, 3), "strat": distinct(r), "max": 1, "max2": 3, "work": 0, "work2": 80, "p_giveup": 100_000, "p_drop": 100_000, "p_fail": 300_000, "p_dup": 50_000, "stop": end}));
                p.opts["auto_fail"] = json!(true);
            } else {
                for b in 0..r.range(1, 3) {
                    actors.push(json!({"kind": "raw", "name": format!("{name}w{b}"), "steps": [{"op": "loop", "until": end, "max": 1, "max2": r.range(1, 4),
                        "strats": [distinct(r), distinct(r), plain(r)], "patience": r.range(100, 600), "work": 0, "work2": r.range(1, 120), "p_long": if expiry < 5000 { 60_000 } else { 0 }, "long": expiry + 300,
                        "p_bye": *r.pick(&[0, 50_000, 200_000]), "p_drop": *r.pick(&[0, 50_000, 200_000]), "p_fail": *r.pick(&[200_000, 600_000, 950_000]), "p_dup": *r.pick(&[0, 0, 50_000, 200_000]), "gap": 0, "gap2": r.range(0, 40), "autofail": r.chance(1, 2)},
                        {"op": "close"}]}));
                }
            }
            let th = r.range(1, 2);
            p.proc_(&name, 0, th, actors);
            if r.chance(1, 3) {
                let t = t0 + r.below(end - t0);
                p.fault(t, r.clone().pick(&["killp", "powerp", "reset", "halfopen"]), json!({"who": name}));
            }
        }
        if r.chance(1, 6) {
            let t = t0 + r.below(end - t0);
            p.fault(t, "kill", json!({}));
        }
        if r.chance(1, 2) {
            prod.push((end - r.below(500), json!({"op": "cancel", "tag": r.pick(&["q0", "q1", "q2"])})));
        }
        // what a silent peer or an expiring reservation needs
        t0 = end + p.srv.hb_ms * (p.srv.miss + 2) + 1000 + if expiry < 5000 { 2 * expiry + 1500 } else { 1600 };
    }
    p.heal_ms = t0 - 400;
    // ---- probes
    let nw = r.range(2, 4) as usize;
    let mut steps: Vec<Vec<Value>> = (0..nw).map(|_| vec![json!({"op": "at", "t": t0 - 300}), json!({"op": "conn"})]).collect();
    let gap = 350;
    for j in 0..r.range(1, 3) {
        ins(&mut prod, r, t0 - 250 + j * 60);
    }
    let series = !pd && r.chance(1, 3);
    let n = if series { 30 } else { r.range(14, 34) };
    if series {
        // many times the same request in the same situation
        for j in 0..3 {
            ins(&mut prod, r, t0 - 240 + j * 30);
        }
    }
    let mut t = t0;
    for _ in 0..n {
        let w = r.below(nw as u64) as usize;
        let at = json!({"op": "at", "t": t});
        for d in [t - 3, t + 70] {
            p.fault(d, "snap", json!({"late": true}));
        }
        if series {
            let s = &mut steps[0];
            s.push(at);
            s.push(json!({"op": "res", "max": 1, "strat": "random", "wait": 300}));
            s.push(json!({"op": "fail", "which": "last"}));
            t += gap;
            continue;
        }
        match r.below(20) {
            0..=10 => {
                let st = if pd { if r.chance(5, 6) { distinct(r) } else { plain(r) } } else { plain(r) };
                let s = &mut steps[w];
                s.push(at);
                s.push(json!({"op": "res", "max": *r.pick(&[1, 1, 1, 2, 3, 4, 30]), "strat": st, "wait": 200}));
            }
            11..=13 => {
                let s = &mut steps[w];
                s.push(at);
                s.push(json!({"op": "collect"}));
                s.push(json!({"op": r.pick(&["done", "fail", "fail"]), "which": r.pick(&["last", "rand", "all"])}));
            }
            14 => {
                let s = &mut steps[w];
                s.push(at);
                s.push(json!({"op": r.pick(&["close", "abort"])}));
                s.push(json!({"op": "sleep", "ms": 30}));
                s.push(json!({"op": "conn"}));
                t += 1200;
            }
            15 => prod.push((t, json!({"op": "cancel", "tag": format!("q{}", r.below(6))}))),
            16 => t += *r.pick(&[800, 1800, 4000]),
            _ => ins(&mut prod, r, t),
        }
        t += gap;
    }
    for (w, s) in steps.into_iter().enumerate() {
        p.proc_(&format!("probe{w}"), 0, 1, vec![json!({"kind": "raw", "name": format!("probe{w}"), "steps": s})]);
    }
    prod.sort_by_key(|x| x.0);
    let mut s = vec![json!({"op": "up"})];
    for (t, v) in prod {
        s.push(json!({"op": "at", "t": t}));
        s.push(v);
    }
    p.proc_("prod", 0, 1, vec![json!({"kind": "prod", "name": "prod", "raw": r.chance(1, 2), "steps": s})]);
    p.quiet_ms = t - p.heal_ms + 300;
    p.snap_every = 0;
    p.snap_max = 600;
    p
}
