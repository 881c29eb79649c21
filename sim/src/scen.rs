//! Scenario generators: from a seed to a plan.
use crate::plan::*;
use crate::rng::Rng;
use serde_json::{Value, json};

/// What a property emphasises in the general scenario.
#[derive(Clone, Default)]
pub struct Mix {
    pub kill: u64,   // chance (of 100) of each server-crash fault
    pub arm: u64,    // crash at an exact file operation / scheduling point
    pub net: u64,    // partitions, resets, half-open
    pub pause: u64,  // stalled server or client
    pub client: u64, // client crashes
    pub sigint: u64,
    pub cancel: u64,
    pub fail: u64,
    pub dup: u64,
    pub drop: u64,
    pub bye: u64,
    pub long: u64,
    pub real: u64, // share of real consumer clients
    pub empty: u64,
    pub poll: u64,
    pub short_expiry: bool,
    pub small_retries: bool,
    pub autofail: bool,
}
pub fn sm(r: &mut Rng) -> Value {
    match r.below(4) {
        0 => json!({}),
        1 => json!({"a": r.below(3)}),
        2 => json!({"a": r.below(3), "b": r.below(2)}),
        _ => json!({"a": r.below(3), "b": -(r.below(5) as i64), "c": i64::MAX}),
    }
}
pub fn insert(r: &mut Rng, tag: &str, n: u64) -> Value {
    let kind = *r.pick(&["str", "bin", "mix", "mix", "obj", "obj", "empty", "none"]);
    let mut v = json!({"op": "ins", "tag": tag, "n": n, "kind": kind, "sm": sm(r)});
    if kind == "obj" {
        v["prefix"] = json!(format!("pre-{tag}"));
    }
    if r.chance(1, 3) {
        v["cs"] = json!(r.range(1, 100_000));
    }
    if r.chance(1, 3) {
        v["mtail"] = json!(r.range(1, 200));
    }
    if r.chance(1, 3) {
        v["tp"] = json!(format!("00-{:016x}{:016x}-{:016x}-01", r.next() | 1, r.next() | 1, r.next() | 1));
    }
    v
}
fn pc(r: &mut Rng, p: u64) -> bool {
    r.below(100) < p
}
/// A random storm: producers, consumers (raw and real), faults, then heal and drain.
pub fn storm(prop: &str, seed: u64, m: &Mix) -> Plan {
    let mut r = Rng::new(seed, 1);
    let r = &mut r;
    let mut p = Plan::new(prop, "storm", seed);
    p.kern = Kern::random(r);
    p.srv = Srv {
        expiry_ms: if m.short_expiry { r.range(700, 3000) } else { r.range(4000, 9000) },
        pool: *r.pick(&[2, 4, 16]),
        hb_ms: r.range(400, 2000),
        miss: r.range(1, 4),
        retries: if m.small_retries { r.range(1, 4) } else { r.range(3, 20) },
        age_s: 86_400,
        maxret: 100,
        workers: r.range(1, 4),
    };
    p.heal_ms = r.range(1500, 6000);
    let heal = p.heal_ms;
    // ---- producers
    let np = r.range(1, 3);
    for a in 0..np {
        let name = format!("prod{a}");
        let mut actors = vec![];
        let raw = r.chance(1, 2);
        let mut steps = vec![json!({"op": "up"})];
        let ns = r.range(1, 6);
        for j in 0..ns {
            let tag = format!("{name}.{j}");
            let n = if pc(r, m.empty) { 0 } else if r.chance(1, 8) { r.range(10, 40) } else { r.range(1, 7) };
            let mut s = vec![json!({"op": "sleep", "ms": 0, "ms2": heal / (ns + 1)}), insert(r, &tag, n)];
            if pc(r, m.poll) {
                s.push(json!({"op": "st", "tag": tag}));
            }
            if pc(r, m.cancel) {
                s.push(json!({"op": "sleep", "ms": 0, "ms2": heal / 3}));
                let c = json!({"op": "cancel", "tag": tag});
                if r.chance(1, 3) {
                    s.push(json!({"op": "par", "steps": [[c], [{"op": "cancel", "tag": tag}], [{"op": "st", "tag": tag}, {"op": "st", "tag": tag}]]}));
                } else {
                    s.push(c);
                }
                s.push(json!({"op": "st", "tag": tag}));
                if r.chance(1, 3) {
                    s.push(json!({"op": "cancel", "tag": tag}));
                }
            }
            if pc(r, m.poll) {
                s.push(json!({"op": "poll", "tag": tag, "until": heal, "every": r.range(5, 300)}));
            }
            if r.chance(1, 2) {
                steps.push(json!({"op": "par", "bg": true, "steps": [s]}));
            } else {
                steps.extend(s);
            }
        }
        if r.chance(1, 4) {
            steps.push(json!({"op": "count"}));
            steps.push(json!({"op": "countc"}));
        }
        actors.push(json!({"kind": "prod", "name": name, "raw": raw, "steps": steps}));
        // an independent observer of the same submissions
        if pc(r, m.poll) {
            let mut o = vec![json!({"op": "up"})];
            for j in 0..ns {
                let tag = format!("{name}.{j}");
                o.push(json!({"op": "par", "bg": true, "steps": [[{"op": "wait", "key": format!("sid:{tag}"), "max": heal}, {"op": "poll", "tag": tag, "until": heal, "every": r.range(3, 200)}]]}));
            }
            actors.push(json!({"kind": "prod", "name": format!("obs{a}"), "raw": r.chance(2, 3), "steps": o}));
        }
        let th = r.range(1, 2);
        p.proc_(&name, 0, th, actors);
    }
    // ---- consumers
    let nc = r.range(1, 3);
    for a in 0..nc {
        let name = format!("cons{a}");
        let real = pc(r, m.real);
        let mut actors = vec![];
        if real {
            for b in 0..r.range(1, 2) {
                actors.push(json!({"kind": "cons", "name": format!("{name}r{b}"), "tasks": r.range(1, 3), "strat": r.pick(&["oldest", "newest", "random"]), "max": 1, "max2": r.range(1, 5),
                    "work": 0, "work2": r.range(1, 200), "p_giveup": if r.chance(1, 4) { 100_000 } else { 0 }, "p_fail": m.fail * 10_000, "p_drop": m.drop * 10_000, "p_dup": m.dup * 10_000, "stop": heal}));
            }
            p.opts["auto_fail"] = json!(true);
        } else {
            for b in 0..r.range(1, 3) {
                actors.push(json!({"kind": "raw", "name": format!("{name}w{b}"), "steps": [{"op": "loop", "until": heal, "max": 1, "max2": r.range(1, 6),
                    "strats": ["oldest", "newest", "random", ["a", "random"]], "patience": r.range(200, 4000), "work": 0, "work2": r.range(1, 250), "p_long": m.long * 10_000, "long": p.srv.expiry_ms + 300,
                    "p_bye": m.bye * 10_000, "p_drop": m.drop * 10_000, "p_fail": m.fail * 10_000, "p_dup": m.dup * 10_000, "gap": 0, "gap2": r.range(0, 60), "autofail": m.autofail}]}));
            }
        }
        let th = r.range(1, 2);
        p.proc_(&name, r.clone().range(0, 300), th, actors);
    }
    // ---- faults
    let names: Vec<String> = p.procs.iter().map(|x| x.name.clone()).collect();
    let at = |r: &mut Rng| r.range(100, heal);
    for _ in 0..2 {
        if pc(r, m.kill) {
            let t = at(r);
            p.fault(t, "kill", json!({}));
        }
        if pc(r, m.arm) {
            let t = r.range(1, heal);
            let (mask, count) = if r.chance(1, 4) { (1u64, r.logrange(1, 20_000)) } else { (*r.pick(&[4u64, 4, 8, 12, 30]), r.logrange(1, 120)) };
            p.fault(t, "arm", json!({"mask": mask, "count": count, "torn": r.chance(1, 2)}));
        }
        if pc(r, m.net) {
            let t = at(r);
            let who = r.pick(&names).clone();
            match r.below(4) {
                0 | 1 => p.fault(t, "cut", json!({"who": who, "ms": r.logrange(20, 4000), "dir": r.pick(&["both", "to", "from"])})),
                2 => p.fault(t, "reset", json!({"who": who})),
                _ => p.fault(t, "halfopen", json!({"who": who})),
            }
        }
        if pc(r, m.pause) {
            let t = at(r);
            let who = if r.chance(1, 2) { "server".to_string() } else { r.pick(&names).clone() };
            p.fault(t, "pause", json!({"who": who, "ms": r.logrange(20, 2500)}));
        }
        if pc(r, m.client) {
            let t = at(r);
            let who = r.pick(&names).clone();
            let k = if r.chance(1, 2) { "killp" } else { "powerp" };
            p.fault(t, k, json!({"who": who}));
        }
        if pc(r, m.sigint) {
            let t = at(r);
            p.fault(t, "sigint", json!({}));
        }
    }
    p.drain_ms = 0;
    p.snap_ppm = 30_000;
    p
}
/// Memory runs out for SQLite, again and again.
pub fn memory(p: &mut Plan, r: &mut Rng) {
    let t = r.range(300, 1200);
    let ms = r.range(300, p.heal_ms.saturating_sub(t).max(301));
    p.fault(t, "disk", json!({"ms": ms, "nomem": r.logrange(40, 1500)}));
}
/// A submission of many chunks, and consumers who take many at once.
pub fn big(p: &mut Plan, r: &mut Rng) {
    p.snap_ppm = p.snap_ppm.min(30_000);
    p.heal_ms = p.heal_ms.max(2500);
    let heal = p.heal_ms;
    let n = *r.clone().pick(&[r.range(513, 999), 1000, r.range(1001, 1999), r.range(2000, 2600)]);
    let mut ins = insert(r, "big.0", n);
    if ins["kind"] == "empty" || ins["kind"] == "none" {
        ins["kind"] = json!("str");
    }
    let mut steps = vec![json!({"op": "up"}), json!({"op": "sleep", "ms": 0, "ms2": 500}), ins, json!({"op": "st", "tag": "big.0"})];
    if r.chance(1, 4) {
        steps.push(json!({"op": "sleep", "ms": 0, "ms2": 1000}));
        steps.push(json!({"op": "cancel", "tag": "big.0"}));
        steps.push(json!({"op": "st", "tag": "big.0"}));
    }
    p.proc_("big", 0, 1, vec![json!({"kind": "prod", "name": "big", "raw": r.chance(1, 2), "steps": steps})]);
    let mut actors = vec![];
    for b in 0..r.range(2, 3) {
        let mut s = vec![json!({"op": "conn"})];
        for _ in 0..r.range(1, 3) {
            s.push(json!({"op": "sleep", "ms": 100, "ms2": 900}));
            s.push(json!({"op": "res", "max": *r.clone().pick(&[r.range(200, 600), r.range(500, 1500)]), "strat": r.pick(&["oldest", "newest", "random"]), "wait": 1500}));
            if r.chance(1, 2) {
                s.push(json!({"op": r.pick(&["done", "fail"]), "which": r.pick(&["last", "rand"])}));
            }
        }
        s.push(json!({"op": "at", "t": heal}));
        actors.push(json!({"kind": "raw", "name": format!("big{b}"), "steps": s}));
    }
    p.proc_("bigc", 0, 1, actors);
}
/// A consumer which reports many chunks it does not hold: finished, cancelled, pending,
/// held by others, or unknown.
fn rude(p: &mut Plan, r: &mut Rng) {
    let heal = p.heal_ms;
    let mut tags = vec![];
    fn find(v: &Value, tags: &mut Vec<(String, u64)>) {
        match v {
            Value::Array(a) => a.iter().for_each(|x| find(x, tags)),
            Value::Object(o) => {
                if o.get("op").is_some_and(|x| x == "ins") {
                    tags.push((o["tag"].as_str().unwrap_or("").to_string(), o["n"].as_u64().unwrap_or(0)));
                }
                o.values().for_each(|x| find(x, tags));
            }
            _ => {}
        }
    }
    p.procs.iter().for_each(|x| x.actors.iter().for_each(|a| find(a, &mut tags)));
    if tags.is_empty() {
        return;
    }
    let mut actors = vec![];
    for a in 0..r.range(1, 2) {
        let mut ts: Vec<u64> = (0..r.range(2, 8)).map(|_| r.range(400, heal.max(500))).collect();
        ts.sort_unstable();
        let mut s = vec![];
        for t in ts {
            s.push(json!({"op": "at", "t": t}));
            s.push(json!({"op": "conn"}));
            let (tag, n) = r.pick(&tags).clone();
            let sid = if r.chance(1, 6) { Some(r.next() >> 1) } else { None };
            let fail = r.below(4);
            let first = r.below(n + 1);
            for i in 0..*r.pick(&[1u64, 2, 6, 12, 20]) {
                let op = if fail == 0 || fail == 1 && r.chance(1, 2) { "done" } else { "fail" };
                let which = match sid {
                    Some(x) => json!({"sid": x, "i": i}),
                    None => json!({"tag": tag, "i": (first + i) % (n + 2)}),
                };
                s.push(json!({"op": op, "which": which, "note": ":rude", "gap": if r.chance(1, 8) { r.below(30) } else { 0 }}));
            }
        }
        s.push(json!({"op": "close"}));
        actors.push(json!({"kind": "raw", "name": format!("rude{a}"), "steps": s}));
    }
    p.proc_("rude", 0, 1, actors);
}
/// Bound for the drain: every lost reservation must expire first, twice over.
pub fn drain_bound(p: &Plan) -> u64 {
    3 * p.srv.expiry_ms + p.srv.hb_ms * (p.srv.miss + 2) + 25_000
}

pub fn make(prop: &str, seed: u64) -> Plan {
    let mut p = make1(prop, seed);
    let mut r = Rng::new(seed, 3);
    if matches!(prop, "P01" | "P02" | "P03" | "P06" | "P08" | "P13") && r.chance(1, 12) {
        big(&mut p, &mut r);
    }
    if matches!(prop, "P01" | "P02" | "P03" | "P05" | "P06" | "P07" | "P08" | "P12" | "P13" | "P19") && r.chance(1, 8) {
        p.kern.edge_mean = r.logrange(50, 3000);
        p.kern.edge_long = true;
    }
    p
}
fn make1(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 2);
    let base = Mix { kill: 0, arm: 0, net: 15, pause: 10, client: 10, sigint: 0, cancel: 15, fail: 8, dup: 4, drop: 4, bye: 3, long: 0, real: 35, empty: 8, poll: 50, short_expiry: false, small_retries: false, autofail: false };
    match prop {
        "P01" => {
            let mut p = storm(prop, seed, &Mix { kill: 40, arm: 50, cancel: 20, poll: 70, ..base });
            p.snap_ppm = 60_000;
            p.finals = true;
            p
        }
        "P02" => {
            let mut p = storm(prop, seed, &Mix { kill: 15, arm: 30, fail: 25, small_retries: r.chance(1, 2), cancel: 25, empty: 15, ..base });
            p.snap_ppm = 150_000;
            p.snap_max = 60;
            p
        }
        "P03" => storm(prop, seed, &Mix { kill: 10, arm: 8, bye: 6, short_expiry: r.chance(1, 3), long: 3, dup: 6, ..base }),
        "P04" => {
            let mut p = storm(prop, seed, &Mix { kill: 20, arm: 20, bye: 8, drop: 12, fail: 15, client: 25, net: 30, pause: 20, ..base });
            p.drain_ms = drain_bound(&p);
            p
        }
        "P05" => {
            let mut p = storm(prop, seed, &Mix { kill: 15, arm: 15, dup: 20, fail: 10, empty: 15, poll: 70, ..base });
            p.drain_ms = drain_bound(&p);
            p.quiet_ms = 600;
            p.finals = true;
            p
        }
        "P06" => {
            let mut p = storm(prop, seed, &Mix { kill: 15, arm: 15, cancel: 30, fail: 25, small_retries: r.chance(1, 2), poll: 100, empty: 12, ..base });
            p.finals = true;
            p
        }
        "P07" => {
            // reservations that expire: late reports, and those of clients which report failure on their own
            let exp = r.chance(1, 2);
            let mut p = storm(prop, seed, &Mix { kill: 20, arm: 15, fail: if exp { 15 } else { 50 }, dup: 5, small_retries: r.chance(2, 3), short_expiry: exp, long: if exp { 40 } else { 0 }, autofail: exp && r.chance(1, 2), real: 0, poll: 60, ..base });
            // stay connected until every report must have been processed
            for a in p.procs.iter_mut().flat_map(|x| x.actors.iter_mut()).filter(|a| a["kind"] == "raw") {
                a["steps"].as_array_mut().unwrap().push(json!({"op": "sleep", "ms": 4500}));
            }
            p.quiet_ms = 4600;
            p.finals = true;
            p
        }
        "P08" => {
            let mut p = storm(prop, seed, &Mix { kill: 8, arm: 30, cancel: 80, fail: 30, small_retries: r.chance(1, 2), dup: 10, poll: 50, ..base });
            if r.chance(1, 4) {
                memory(&mut p, &mut r);
            }
            p.snap_ppm = 60_000;
            p.finals = true;
            p
        }
        "P13" => {
            let mut p = storm(prop, seed, &Mix { kill: 10, arm: 15, cancel: 30, fail: 25, small_retries: r.chance(1, 2), poll: 60, ..base });
            p.finals = true;
            p
        }
        "P09" => crate::scen2::wake(prop, seed),
        "P10" | "P11" => crate::scen3::order(prop, seed),
        "P12" => crate::scen4::retention(prop, seed),
        "P14" => crate::scen4::beats(prop, seed),
        "P15" => crate::scen5::disk(prop, seed),
        "P16" => crate::scen4::expiry(prop, seed),
        "P17" => crate::scen5::calls(prop, seed),
        "P18" => crate::scen6::objects(prop, seed),
        "P20" => crate::scen4::power(prop, seed),
        "P21" => crate::scen7::reports(prop, seed),
        "P22" => crate::scen4::shutdown(prop, seed),
        "P19" => {
            let mut p = storm(prop, seed, &Mix { kill: 5, short_expiry: true, long: 25, dup: 30, fail: 30, drop: 10, real: 10, autofail: r.chance(1, 2), ..base });
            if r.chance(1, 2) {
                rude(&mut p, &mut r);
            }
            if r.chance(1, 3) {
                p.drain_ms = drain_bound(&p);
            }
            p
        }
        _ => panic!("no scenario for {prop}"),
    }
}
