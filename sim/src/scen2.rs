//! Scenarios for single mechanisms: scripts with random timing.
use crate::plan::*;
use crate::rng::Rng;
use crate::scen::*;
use serde_json::{Value, json};

fn strat(r: &mut Rng) -> Value {
    match r.below(8) {
        0..=2 => json!("oldest"),
        3 => json!("newest"),
        4 | 5 => json!("random"),
        6 => json!(["a", "oldest"]),
        _ => json!(["b", ["a", "random"]]),
    }
}
pub fn small_insert(r: &mut Rng, tag: &str, n: u64) -> Value {
    json!({"op": "ins", "tag": tag, "n": n, "kind": "str", "sm": sm(r), "nometa": false})
}
/// P09: bursts in which work becomes available in some way while consumers ask for
/// it, followed by silence in which nobody may be left waiting.
pub fn wake(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 9);
    let r = &mut r;
    let mut p = Plan::new(prop, "wake", seed);
    p.kern = Kern::random(r);
    p.kern.disk_lat_max_us = p.kern.disk_lat_max_us.min(10_000);
    p.srv = Srv { expiry_ms: if r.chance(1, 2) { r.range(900, 2500) } else { 60_000 }, pool: *r.pick(&[2, 4, 16]), hb_ms: r.range(300, 900), miss: r.range(1, 3), retries: 50, workers: r.range(1, 4), ..Srv::default() };
    let phases = r.range(3, 6);
    let period = 4600;
    let t0 = 800;
    p.heal_ms = t0 + phases * period;
    p.snap_every = 250;
    p.snap_max = 400;
    if r.chance(1, 4) {
        // few chunks for few consumers, who take them in every possible way
        let mut steps = vec![json!({"op": "up"})];
        let mut cs: Vec<Vec<Value>> = (0..r.range(1, 2)).map(|_| vec![json!({"op": "conn"})]).collect();
        for ph in 0..phases {
            let t = t0 + ph * period;
            let n = if r.chance(3, 4) { 1 } else { 2 };
            steps.push(json!({"op": "par", "bg": true, "steps": [[{"op": "at", "t": t + r.below(600)}, small_insert(r, &format!("few.{ph}"), n)]]}));
            for s in &mut cs {
                s.push(json!({"op": "at", "t": t + r.below(600)}));
                s.push(json!({"op": "res", "max": r.range(1, 2), "strat": if r.chance(2, 3) { json!("random") } else { strat(r) }}));
                s.push(json!({"op": "at", "t": t + period - 400}));
                s.push(json!({"op": "collect"}));
                s.push(json!({"op": "done", "which": if r.chance(3, 4) { "all" } else { "rand" }}));
            }
        }
        p.proc_("prod0", 0, 1, vec![json!({"kind": "prod", "name": "prod0", "raw": true, "steps": steps})]);
        for (i, s) in cs.into_iter().enumerate() {
            p.proc_(&format!("cons{i}"), 0, 1, vec![json!({"kind": "raw", "name": format!("cons{i}w"), "steps": s})]);
        }
        return p;
    }
    if r.chance(1, 3) {
        mono(&mut p, r, phases, t0);
        return p;
    }
    let np = r.range(1, 2);
    for a in 0..np {
        let name = format!("prod{a}");
        let mut steps = vec![json!({"op": "up"})];
        let mut ts: Vec<(u64, Value)> = vec![];
        for ph in 0..phases {
            for w in [0u64, 600, 1200] {
                for j in 0..r.below(3) {
                    let t = t0 + ph * period + w + r.below(*r.clone().pick(&[4, 40, 120]));
                    let n = r.range(1, 3);
                    let mut ins = small_insert(r, &format!("{name}.{ph}.{w}.{j}"), n);
                    if r.chance(1, 3) {
                        ins["abort_us"] = json!(r.logrange(100, 30_000));
                    }
                    ts.push((t, ins));
                }
            }
        }
        ts.sort_by_key(|x| x.0);
        for (t, v) in ts {
            steps.push(json!({"op": "par", "bg": true, "steps": [[{"op": "at", "t": t}, v]]}));
        }
        let th = r.range(1, 2);
        p.proc_(&name, 0, th, vec![json!({"kind": "prod", "name": name, "raw": true, "steps": steps})]);
        if r.chance(1, 5) {
            let t = t0 + r.below(phases) * period + r.below(1300);
            p.fault(t, r.clone().pick(&["killp", "powerp", "reset"]), json!({"who": name}));
        }
    }
    for a in 0..r.range(2, 3) {
        let name = format!("cons{a}");
        let mut actors = vec![];
        if r.chance(1, 6) {
            actors.push(json!({"kind": "cons", "name": format!("{name}r"), "tasks": r.range(1, 3), "strat": strat(r), "max": 1, "max2": 2, "work": 0, "work2": 30, "p_fail": 300_000, "errgap": 50}));
        } else {
            for b in 0..r.range(1, 3) {
                let mut steps = vec![json!({"op": "conn"})];
                for ph in 0..phases {
                    for w in [0u64, 600, 1200] {
                        let t = t0 + ph * period + w;
                        let sub = r.range(1, 2);
                        for q in 0..sub {
                            steps.push(json!({"op": "at", "t": t + q * 15 + r.below(*r.clone().pick(&[4, 40, 120]))}));
                            match r.below(10) {
                                0..=3 => steps.push(json!({"op": "res", "max": r.range(1, 3), "strat": strat(r)})),
                                4 | 5 => {
                                    steps.push(json!({"op": "collect"}));
                                    steps.push(json!({"op": "fail", "which": r.pick(&["all", "last", "rand"])}));
                                }
                                6 => {
                                    steps.push(json!({"op": "collect"}));
                                    steps.push(json!({"op": "done", "which": r.pick(&["all", "last", "rand"])}));
                                }
                                7 => {
                                    steps.push(json!({"op": r.pick(&["close", "abort"])}));
                                    if r.chance(1, 2) {
                                        steps.push(json!({"op": "sleep", "ms": 1, "ms2": 60}));
                                    }
                                    steps.push(json!({"op": "conn"}));
                                    if r.chance(1, 2) {
                                        steps.push(json!({"op": "res", "max": r.range(1, 3), "strat": strat(r)}));
                                    }
                                }
                                8 => {
                                    steps.push(json!({"op": "collect"}));
                                    steps.push(json!({"op": "fail", "which": "all"}));
                                    steps.push(json!({"op": "res", "max": r.range(1, 3), "strat": strat(r)}));
                                }
                                _ => {}
                            }
                        }
                    }
                }
                actors.push(json!({"kind": "raw", "name": format!("{name}w{b}"), "steps": steps}));
            }
        }
        let th = r.range(1, 2);
        p.proc_(&name, 0, th, actors);
        if r.chance(1, 5) {
            let t = t0 + r.below(phases) * period + r.below(1300);
            p.fault(t, r.clone().pick(&["killp", "powerp", "reset", "halfopen"]), json!({"who": name}));
        }
    }
    p
}

/// Rounds in which exactly one thing makes a chunk available to those who wait for it.
/// The holders ("h") take everything there is, the others ("w") ask and wait.
fn mono(p: &mut Plan, r: &mut Rng, phases: u64, t0: u64) {
    let kinds: Vec<u64> = (0..phases).map(|_| r.below(7)).collect();
    let short = kinds.iter().any(|k| *k == 5);
    if short {
        p.srv.expiry_ms = r.range(900, 1500);
    } else {
        p.srv.expiry_ms = 60_000;
    }
    let period = 6500;
    if r.chance(1, 2) {
        p.kern.edge_mean = r.logrange(50, 2000);
        p.kern.edge_long = true;
    }
    p.heal_ms = t0 + phases * period;
    let mut prod = vec![json!({"op": "up"})];
    let (mut hold, mut waits): (Vec<Value>, Vec<Vec<Value>>) = (vec![json!({"op": "conn"})], (0..r.range(1, 3)).map(|_| vec![json!({"op": "conn"})]).collect());
    for (ph, k) in kinds.iter().enumerate() {
        let t = t0 + ph as u64 * period;
        let n = *r.pick(&[1u64, 1, 1, 2, 3]);
        if *k != 0 {
            prod.push(json!({"op": "at", "t": t}));
            prod.push(small_insert(r, &format!("mono.{ph}"), n));
            hold.push(json!({"op": "at", "t": t + 50}));
            hold.push(json!({"op": "res", "max": n, "strat": strat(r), "wait": 2000}));
            hold.push(json!({"op": "collect"}));
        }
        // the requests come before, after, or at about the time of what happens then
        let t1 = t + 700;
        let near = r.chance(1, 2);
        for w in &mut waits {
            let ta = if near { t1 - 3 + r.below(6) } else { t1 - 400 + r.below(380) };
            w.push(json!({"op": "at", "t": ta}));
            w.push(json!({"op": "sleep", "us": r.below(1000), "ms": 0}));
            w.push(json!({"op": "res", "max": r.range(1, 2), "strat": strat(r)}));
        }
        hold.push(json!({"op": "at", "t": t1}));
        match k {
            0 => {
                prod.push(json!({"op": "at", "t": t1}));
                prod.push(small_insert(r, &format!("mono.{ph}"), n));
            }
            1 | 2 => hold.push(json!({"op": "fail", "which": if n > 1 { "rand" } else { "all" }})),
            3 => hold.extend([json!({"op": "close"}), json!({"op": "at", "t": t + period - 1000}), json!({"op": "conn"})]),
            4 => hold.extend([json!({"op": "abort"}), json!({"op": "at", "t": t + period - 1000}), json!({"op": "conn"})]),
            5 => {} // expires
            _ => hold.push(json!({"op": "freeze", "ms": 3 + p.srv.hb_ms * (p.srv.miss + 3)})),
        }
        hold.push(json!({"op": "at", "t": t + period - 900}));
        if *k == 6 {
            hold.push(json!({"op": "conn"}));
        }
        hold.push(json!({"op": "done", "which": "all"}));
        for w in &mut waits {
            w.push(json!({"op": "at", "t": t + period - 700}));
            w.push(json!({"op": "collect"}));
            w.push(json!({"op": "done", "which": "all"}));
        }
    }
    p.proc_("prod0", 0, 1, vec![json!({"kind": "prod", "name": "prod0", "raw": true, "steps": prod})]);
    p.proc_("hold", 0, 1, vec![json!({"kind": "raw", "name": "hold", "steps": hold})]);
    for (i, w) in waits.into_iter().enumerate() {
        p.proc_(&format!("cons{i}"), 0, 1, vec![json!({"kind": "raw", "name": format!("cons{i}w"), "steps": w})]);
    }
}
