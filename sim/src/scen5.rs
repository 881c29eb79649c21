//! Client calls (P17).
use crate::plan::*;
use crate::rng::Rng;
use crate::scen::*;
use serde_json::json;

/// P17: clients with many calls at once, connections that break at every point.
pub fn calls(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 17);
    let r = &mut r;
    let mut p = Plan::new(prop, "calls", seed);
    p.kern = Kern::random(r);
    let hb = r.logrange(200, 2000);
    p.srv = Srv { expiry_ms: r.range(4000, 20_000), pool: *r.pick(&[2, 4, 16]), hb_ms: hb, miss: r.range(1, 4), retries: 1000, workers: r.range(1, 4), ..Srv::default() };
    let heal = r.range(2000, 9000);
    let slow = r.chance(1, 4); // wait long enough for the keep-alive of the producer's client
    let quiet = if slow { 110_000 } else { hb * (p.srv.miss + 2) + 40_000 };
    let end = heal + quiet - 3000;
    p.opts["calls_end"] = json!(end);
    // ---- work for everybody, all the time, from a producer of its own
    let mut steps = vec![json!({"op": "up"})];
    steps.push(json!({"op": "ins", "tag": "first", "abort_us": 8_000_000, "n": 60, "kind": "str", "sm": {}}));
    // less work than consumers, so that most of them wait for it most of the time
    let scarce = !slow && r.chance(1, 4);
    let gap = if scarce { r.range(60, 1200) } else if slow { 5000 } else { 2500 };
    let per = if scarce { r.range(1, 4) } else if slow { 30 } else { 25 };
    p.opts["scarce"] = json!(scarce);
    let sup = json!({"op": "ins", "tag": "supply", "abort_us": 8_000_000, "n": per, "kind": *r.pick(&["str", "none", "mix"]), "sm": {}});
    steps.push(json!({"op": "loop", "until": end, "gap": gap, "steps": [sup]}));
    p.proc_("supply", 0, 1, vec![json!({"kind": "prod", "name": "supply", "raw": true, "steps": steps})]);
    // ---- consumers
    let nc = r.range(if slow { 0 } else { 1 }, 2);
    for a in 0..nc {
        let name = format!("cons{a}");
        let mut actors = vec![];
        for b in 0..1 {
            // (what a slow network transports within the time for heartbeats)
            let fits = p.kern.window as u64 * (hb * (p.srv.miss + 1) * 1000 / (p.kern.lat_max_us * 2 + 200)) / 4;
            let outlen = (*r.pick(&[0u64, 0, 0, 1000, 1000, 20_000, 20_000, 60_000, 60_000, 300_000])).min(fits);
            actors.push(json!({"kind": "cons", "name": format!("{name}r{b}"), "tasks": if scarce { r.range(2, 7) } else { r.range(1, 4) }, "strat": r.pick(&["oldest", "newest", "random"]), "max": 1, "max2": r.range(1, 3),
                "work": if scarce { 0 } else if slow { 500 } else { r.range(0, 400) }, "work2": if scarce { r.range(0, 300) } else if slow { 4000 } else { r.range(400, 2000) }, "calm_after": heal + 2000, "p_giveup": *r.pick(&[0u64, 0, 50_000]), "p_fail": 50_000, "p_drop": if scarce { 0 } else { 10_000 }, "p_dup": 20_000,
                "outlen": if scarce { outlen.min(1000) } else { outlen }, "stop": end, "errgap": *r.pick(&[0u64, 5, 50])}));
        }
        p.opts["auto_fail"] = json!(true);
        p.proc_(&name, r.clone().range(0, 300), r.clone().range(1, 3), actors);
    }
    // ---- producers
    let np = r.range(if slow || nc == 0 { 1 } else { 0 }, 2);
    for a in 0..np {
        let name = format!("prod{a}");
        let mut steps = vec![];
        let mut lanes = vec![];
        for l in 0..r.range(1, 4) {
            let tag = format!("{name}.{l}");
            let mut s = vec![];
            let n = r.range(0, 3);
            let mut ins = insert(r, &tag, n);
            if r.chance(1, 6) {
                ins["n"] = json!(30);
                ins["kind"] = json!("mix");
            }
            s.push(ins);
            let mut b = vec![];
            for _ in 0..r.range(1, 4) {
                b.push(match r.below(7) {
                    0 => json!({"op": "count"}),
                    1 => json!({"op": "prefix", "p": "pre-x"}),
                    2 => json!({"op": "meta", "sm": {"a": 1}}),
                    3 => json!({"op": "cancel", "tag": tag}),
                    4 => json!({"op": "version"}),
                    _ => json!({"op": "st", "tag": tag}),
                });
            }
            s.push(json!({"op": "loop", "until": heal + 1000, "gap": 10, "gap2": if slow { 2000 } else { 500 }, "steps": b}));
            s.push(json!({"op": "loop", "until": end, "gap": 1000, "gap2": 6000, "steps": b}));
            lanes.push(json!(s));
        }
        steps.push(json!({"op": "par", "steps": lanes}));
        p.proc_(&name, r.clone().range(0, 300), r.clone().range(1, 2), vec![json!({"kind": "prod", "name": name, "raw": false, "steps": steps})]);
    }
    // ---- faults
    let names: Vec<String> = p.procs.iter().map(|x| x.name.clone()).filter(|n| n != "supply").collect();
    p.kern.track_disk = true;
    let mut downs = 0;
    for _ in 0..r.range(1, 8) {
        let t = r.range(100, heal);
        let who = r.pick(&names).clone();
        match r.below(18) {
            0..=2 => p.fault(t, "reset", json!({"who": who})),
            3..=4 => p.fault(t, "halfopen", json!({"who": who, "side": r.pick(&["client", "server"])})),
            5..=7 => p.fault(t, "cut", json!({"who": who, "ms": r.logrange(20, 6000), "dir": r.pick(&["both", "to", "from"])})),
            8 => p.fault(t, "pause", json!({"who": "server", "ms": r.logrange(20, 3000)})),
            9 => p.fault(t, "pause", json!({"who": who, "ms": r.logrange(20, 3000)})),
            10..=11 => p.fault(t, "kill", json!({})),
            12 => p.fault(t, "sigint", json!({})),
            13 => p.fault(t, "power", json!({})),
            14..=16 => {
                // around accepting a connection, reading a request or answering
                let (mask, count) = match r.below(3) {
                    0 => (256u64, r.logrange(1, 6) - 1),
                    1 => (512, r.logrange(1, 60) - 1),
                    _ => (1024, r.logrange(1, 60) - 1),
                };
                p.fault(t, "arm", json!({"mask": mask, "count": count, "torn": false, "power": r.chance(2, 3)}));
                // and again while the clients come back
                if r.chance(1, 2) {
                    let t2 = t + r.logrange(300, 4000);
                    if t2 < heal {
                        p.fault(t2, "arm", json!({"mask": *r.pick(&[256u64, 512, 1024]), "count": r.below(4), "torn": false, "power": r.chance(2, 3)}));
                    }
                }
            }
            _ => {
                // at a scheduling point, an I/O operation
                let (mask, count) = if r.chance(1, 3) { (1u64, r.logrange(1, 20_000)) } else { (*r.pick(&[2u64, 4, 8, 30]), r.logrange(1, 150)) };
                p.fault(t, "arm", json!({"mask": mask, "count": count, "torn": false, "power": r.chance(1, 3)}));
                downs += 1;
            }
        }
    }
    let _ = downs;
    p.down = (10, 3000);
    p.heal_ms = heal;
    p.quiet_ms = quiet;
    p.snap_ppm = 500;
    p.snap_max = 10;
    p
}
/// P15: errors of the database's disk, alone and combined with crashes.
pub fn disk(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 15);
    let r = &mut r;
    let m = Mix { kill: if r.chance(1, 4) { 20 } else { 0 }, arm: if r.chance(1, 4) { 20 } else { 0 }, net: 8, client: 8, cancel: 30, fail: 15, dup: 6, drop: 4, bye: 3, real: 35, empty: 10, poll: 60, short_expiry: r.chance(1, 2), small_retries: r.chance(1, 4), ..Mix::default() };
    let mut p = storm(prop, seed, &m);
    p.scen = "disk".into();
    p.kern.no_mmap = r.chance(1, 3);
    let heal = p.heal_ms.max(2500);
    p.heal_ms = heal;
    if r.chance(1, 5) {
        return leak(prop, seed, r);
    }
    if r.chance(1, 4) {
        memory(&mut p, r);
        p.snap_ppm = 100_000;
        p.drain_ms = drain_bound(&p);
        p.quiet_ms = 600;
        p.finals = true;
        return p;
    }
    let mut t = r.range(200, 1500);
    for _ in 0..r.range(1, 4) {
        if t + 50 > heal {
            break;
        }
        let ms = r.logrange(30, 2500).min(heal - t);
        let mut a = json!({"ms": ms});
        if r.chance(1, 6) {
            // another process keeps the database locked, or the disk takes its time
            a[*r.pick(&["locked", "locked", "stall"])] = json!(true);
            if r.chance(1, 2) {
                let ms = r.range(3000, 12_000);
                a["ms"] = json!(ms);
                p.heal_ms = p.heal_ms.max(t + ms);
                p.fault(t, "disk", a);
                break;
            }
        }
        // everything fails, or now and then something does
        let rate = |r: &mut Rng| if r.chance(1, 3) { 1_000_000 } else { r.logrange(2000, 700_000) };
        for _ in 0..r.range(1, 2) {
            match r.below(9) {
                6 => a["nomem"] = json!(r.logrange(3, 3000)),
                7 => a["nomem"] = json!(r.logrange(30, 3000)),
                8 => a["emfile"] = json!(rate(r)),
                0 => a["eio_read"] = json!(rate(r)),
                1 => a["eio_write"] = json!(rate(r)),
                2 => a["enospc"] = json!(rate(r)),
                3 => a["short"] = json!(rate(r).min(500_000)),
                4 => a["fsync"] = json!(rate(r)),
                _ => a["full"] = json!(true),
            }
        }
        p.fault(t, "disk", a);
        t += ms + r.range(10, 1500);
    }
    p.snap_ppm = 60_000;
    p.drain_ms = drain_bound(&p);
    p.quiet_ms = 600;
    p.finals = true;
    p
}
/// Reservations of many chunks, spread over many pages of the database, which fail half-way.
/// Whatever was reserved then must not stay reserved: no reservation expires in these runs.
fn leak(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let mut p = Plan::new(prop, "leak", seed);
    p.kern = Kern::random(r);
    p.kern.disk_lat_max_us = p.kern.disk_lat_max_us.min(5_000);
    p.kern.no_mmap = r.chance(4, 5);
    p.srv = Srv { expiry_ms: 120_000, pool: *r.pick(&[2, 4, 16]), hb_ms: 3000, miss: 3, retries: 50, workers: r.range(1, 4), ..Srv::default() };
    p.heal_ms = r.range(4000, 6000);
    let heal = p.heal_ms;
    let mut steps = vec![json!({"op": "up"})];
    for i in 0..r.range(1, 4) {
        let mut ins = insert(r, &format!("leak.{i}"), r.clone().range(20, 70));
        ins["kind"] = json!(if r.chance(1, 4) { "big" } else { "mix" });
        steps.push(ins);
        steps.push(json!({"op": "sleep", "ms": 0, "ms2": 500}));
    }
    p.proc_("prod0", 0, 1, vec![json!({"kind": "prod", "name": "prod0", "raw": true, "steps": steps})]);
    for c in 0..r.range(1, 2) {
        let strat = json!(*r.pick(&["oldest", "newest", "random"]));
        let strat = if r.chance(1, 3) { json!(["a", strat]) } else { strat };
        let steps = vec![
            json!({"op": "conn"}),
            json!({"op": "loop", "until": heal, "gap": 0, "gap2": r.range(1, 200), "max": 2, "max2": r.range(2, 60), "strat": strat, "work": 0, "work2": r.below(5),
                "p_fail": if r.chance(1, 2) { 0 } else { 200_000 }, "patience": r.range(2000, 4000)}),
            json!({"op": "close"}),
        ];
        p.proc_(&format!("cons{c}"), 0, 1, vec![json!({"kind": "raw", "name": format!("cons{c}w"), "steps": steps})]);
    }
    let mut t = r.range(400, 1500);
    let mut when = vec![];
    for _ in 0..r.range(1, 4) {
        if t + 50 > heal {
            break;
        }
        let ms = r.logrange(100, 2500).min(heal - t);
        let mut a = json!({"ms": ms});
        if r.chance(2, 3) {
            a["eio_read"] = json!(r.logrange(5_000, 300_000));
        } else {
            a["nomem"] = json!(r.logrange(30, 3000));
        }
        when.push((t, ms));
        p.fault(t, "disk", a);
        t += ms + r.range(10, 800);
    }
    if r.chance(1, 2) {
        patient(&mut p, r, heal.max(t), &when);
    }
    p.snap_ppm = 20_000;
    p.drain_ms = 40_000;
    p.quiet_ms = 600;
    p.finals = true;
    p
}

/// Some ask while the disk fails, and keep waiting; afterwards, there is work for all of them.
fn patient(p: &mut Plan, r: &mut Rng, from: u64, when: &[(u64, u64)]) {
    p.opts["patient"] = json!(true);
    p.heal_ms = from + 6000;
    for j in 0..r.range(1, 3) {
        let mut at: Vec<u64> = when.iter().flat_map(|w| (0..r.range(2, 5)).map(|_| r.range(w.0, w.0 + w.1)).collect::<Vec<_>>()).collect();
        at.sort_unstable();
        let mut s = vec![json!({"op": "conn"})];
        for t in at {
            s.push(json!({"op": "at", "t": t}));
            s.push(json!({"op": "res", "max": 1, "strat": *r.pick(&["oldest", "newest", "random"])}));
        }
        s.push(json!({"op": "at", "t": p.heal_ms}));
        s.push(json!({"op": "close"}));
        p.proc_(&format!("pat{j}"), 0, 1, vec![json!({"kind": "raw", "name": format!("pat{j}"), "steps": s})]);
    }
    p.proc_("prod1", 0, 1, vec![json!({"kind": "prod", "name": "prod1", "raw": true, "steps": [
        {"op": "at", "t": from + 300}, {"op": "ins", "tag": "more", "n": 80, "kind": "str"},
        {"op": "at", "t": from + 900}, {"op": "ins", "tag": "more2", "n": 5, "kind": "str"}]})]);
    let mut t = from + 1200;
    while t < p.heal_ms {
        p.fault(t, "snap", json!({}));
        t += 450;
    }
}
