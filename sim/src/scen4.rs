//! Power loss, shutdown, retention, heartbeats, expiry.
use crate::plan::*;
use crate::rng::Rng;
use crate::scen::*;
use serde_json::json;

/// P20: power losses at arbitrary points, also while the database is being created.
pub fn power(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 20);
    let r = &mut r;
    let m = Mix { kill: 8, arm: 0, net: 10, pause: 0, client: 8, sigint: 0, cancel: 25, fail: 20, dup: 4, drop: 4, bye: 3, long: 0, real: 25, empty: 8, poll: 40, short_expiry: true, small_retries: r.chance(1, 3), autofail: false };
    let mut p = storm(prop, seed, &m);
    p.scen = "power".into();
    p.kern.track_disk = true;
    p.snap_ppm = 60_000;
    p.hyp_ppm = 60_000;
    p.snap_max = 50;
    p.down = (10, 600);
    let heal = p.heal_ms;
    let boot = r.chance(1, 3);
    if boot {
        // during the very first start, possibly several times
        for j in 0..r.range(1, 3) {
            p.fault(j * 150, "arm", json!({"mask": *r.pick(&[4u64, 8, 12, 30]), "count": r.logrange(1, 150), "torn": r.chance(1, 2), "power": true}));
        }
        p.snap_ppm = 150_000;
        p.hyp_ppm = 150_000;
    }
    for _ in 0..r.range(if boot { 0 } else { 1 }, 3) {
        let t = r.range(200, heal);
        if r.chance(1, 2) {
            p.fault(t, "power", json!({}));
        } else {
            p.fault(t, "arm", json!({"mask": *r.pick(&[4u64, 8, 12, 30]), "count": r.logrange(1, 120), "torn": r.chance(1, 2), "power": true}));
        }
    }
    if r.chance(1, 3) {
        // old enough facts survive
        let long = r.range(4000, 9000);
        p.heal_ms = p.heal_ms.max(long);
        p.kern.disk_lat_ppm = 0;
        p.kern.delay_ppm = 0;
        p.opts["calm_disk"] = json!(true);
        p.opts["durable_ms"] = json!(3000);
        let t = p.heal_ms - r.below(400);
        p.fault(t, "power", json!({}));
    }
    p.drain_ms = drain_bound(&p);
    p
}
/// P22: told to stop at arbitrary moments.
pub fn shutdown(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 22);
    let r = &mut r;
    let calm = r.chance(1, 2);
    let m = if calm {
        Mix { cancel: 10, fail: 10, dup: 2, drop: 4, bye: 2, real: 35, empty: 5, poll: 30, ..Mix::default() }
    } else {
        Mix { net: 25, pause: 10, client: 15, cancel: 15, fail: 10, dup: 2, drop: 4, bye: 2, real: 35, empty: 5, poll: 30, ..Mix::default() }
    };
    let mut p = storm(prop, seed, &m);
    p.scen = "shutdown".into();
    if calm {
        p.kern = Kern::calm(r);
        p.opts["calm"] = json!(true);
    }
    p.snap_ppm = 60_000;
    for _ in 0..r.range(1, 3) {
        let from = if r.chance(1, 4) { 1 } else { 900 };
        let t = r.range(from, p.heal_ms);
        p.fault(t, "sigint", json!({}));
        if r.chance(1, 4) {
            p.fault(t + r.below(600), "sigint", json!({}));
        }
    }
    // silent and idle connections among the others
    let until = p.heal_ms;
    if r.chance(2, 3) {
        let mut actors = vec![];
        for b in 0..r.range(1, 3) {
            let t = r.range(300, until);
            actors.push(json!({"kind": "raw", "name": format!("idle{b}"), "steps": [{"op": "conn"}, {"op": "at", "t": t}, {"op": "sleep", "ms": 3000}, {"op": "conn"}]}));
        }
        p.proc_("idle", 0, 1, actors);
    }
    if !calm && r.chance(1, 3) {
        let t = r.range(300, until);
        p.proc_("frozen", 0, 1, vec![json!({"kind": "raw", "name": "frozen0", "steps": [{"op": "conn"}, {"op": "res", "max": 3, "strat": "oldest"}, {"op": "at", "t": t}, {"op": "freeze", "ms": 5000}]})]);
    }
    p.drain_ms = drain_bound(&p);
    p.down = (10, 2500);
    p.quiet_ms = 3600;
    p
}
/// P12: finished, failed, cancelled and unfinished submissions grow old, by waiting
/// or by a jump of the server's clock.
pub fn retention(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 12);
    let r = &mut r;
    let mut p = Plan::new(prop, "retention", seed);
    p.kern = Kern::calm(r);
    p.kern.preempt_ppm = 1000;
    let jumps = r.chance(2, 3);
    let age = if jumps { *r.pick(&[60u64, 300, 3600, 86_400]) } else { r.range(3, 50) };
    p.srv = Srv { age_s: age, expiry_ms: 60_000, pool: *r.pick(&[2, 16]), hb_ms: 3000, miss: 3, retries: r.range(1, 3), workers: r.range(1, 2), ..Srv::default() };
    let end = r.range(20_000, 80_000);
    let mut prod: Vec<(u64, serde_json::Value)> = vec![];
    let n = r.range(6, 16);
    for j in 0..n {
        let t = 300 + r.below(end - 1000);
        let tag = format!("s{j}");
        let k = if r.chance(1, 8) { 0 } else { r.range(1, 5) };
        prod.push((t, insert(r, &tag, k)));
        if r.chance(1, 5) {
            prod.push((t + r.below(end - t), json!({"op": "cancel", "tag": tag})));
        }
    }
    for _ in 0..r.range(0, 12) {
        prod.push((r.range(1000, end), json!({"op": "st", "tag": format!("s{}", r.below(n))})));
    }
    prod.sort_by_key(|x| x.0);
    let mut steps = vec![json!({"op": "up"})];
    for (t, v) in prod {
        steps.push(json!({"op": "par", "bg": true, "steps": [[{"op": "at", "t": t}, v]]}));
    }
    p.proc_("prod", 0, 1, vec![json!({"kind": "prod", "name": "prod", "raw": r.chance(1, 2), "steps": steps})]);
    // work comes in short episodes, so that submissions are left half-done for long
    let mut steps = vec![json!({"op": "conn"})];
    let mut t = r.range(400, 3000);
    while t < end {
        let max = r.range(1, 3);
        steps.push(json!({"op": "at", "t": t}));
        steps.push(json!({"op": "loop", "until": t + r.range(50, 700), "count": r.range(1, 6), "max": 1, "max2": max, "strats": ["random", "oldest"], "patience": 100, "work": 0, "work2": 40, "p_fail": *r.pick(&[0, 150_000, 500_000]), "p_drop": 0, "p_bye": 0, "p_dup": 0, "p_long": 0, "long": 0, "gap": 0, "gap2": 10}));
        t += r.range(1500, 9000);
    }
    p.proc_("work", 0, 1, vec![json!({"kind": "raw", "name": "w", "steps": steps})]);
    if jumps {
        for _ in 0..r.range(1, 3) {
            let a = age as i64 * 1000;
            let off = match r.below(8) {
                0..=1 => a / 2,
                2 => a - r.range(1, 4000) as i64,
                3..=6 => a + r.below(20_000) as i64,
                _ => -(r.below(a as u64) as i64) / 2,
            };
            let t = r.range(1000, end);
            p.fault(t, "clock", json!({"off_ms": off}));
        }
    }
    // a start cleans up as well
    for _ in 0..r.range(0, 3) {
        let t = r.range(2000, end);
        p.fault(t, r.clone().pick(&["kill", "sigint"]), json!({}));
    }
    p.down = (10, 800);
    p.heal_ms = end;
    p.quiet_ms = if r.chance(2, 3) { 72_000 } else { 500 };
    p.snap_every = 1000;
    p.snap_ppm = 10_000;
    p.snap_max = 400;
    p.finals = true;
    p
}
/// P14: peers that fall silent in every way among peers that do not.
pub fn beats(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 14);
    let r = &mut r;
    let mut p = Plan::new(prop, "beats", seed);
    p.kern = Kern::random(r);
    // (time limits are at stake: no machine that barely moves)
    if p.kern.edge_mean > 0 {
        p.kern.edge_mean = p.kern.edge_mean.max(4000);
    }
    p.kern.window = 1 << 20; // (big answers over a thin line take longer than the server waits)
    let hb = r.logrange(200, 1500);
    let miss = r.below(5);
    p.kern.lat_max_us = p.kern.lat_max_us.min(hb * 1000 / 10);
    p.kern.lat_min_us = p.kern.lat_min_us.min(p.kern.lat_max_us - 1);
    p.kern.spike_max_ms = p.kern.spike_max_ms.min(hb / 4);
    p.kern.delay_max_us = p.kern.delay_max_us.min(hb * 1000 / 20);
    p.srv = Srv { expiry_ms: 120_000, pool: *r.pick(&[2, 4, 16]), hb_ms: hb, miss, retries: 200, workers: r.range(1, 3), ..Srv::default() };
    let budget = hb * (miss + 2);
    let end = 3000 + 2 * budget + r.range(2000, 8000);
    let n = r.range(10, 60);
    let mut steps = vec![json!({"op": "up"}), insert(r, "s0", n)];
    for j in 1..r.range(2, 6) {
        let t = r.range(500, end);
        let k = r.range(1, 6);
        let v = insert(r, &format!("s{j}"), k);
        steps.push(json!({"op": "par", "bg": true, "steps": [[{"op": "at", "t": t}, v]]}));
    }
    p.proc_("prod", 0, 1, vec![json!({"kind": "prod", "name": "prod", "raw": true, "steps": steps})]);
    // ---- peers that always answer
    let mut live = vec![];
    for b in 0..r.range(1, 2) {
        live.push(json!({"kind": "raw", "name": format!("w{b}"), "steps": [{"op": "loop", "until": end + 20_000, "max": 1, "max2": r.range(1, 4), "strats": ["oldest", "newest", "random"],
            "work": 0, "work2": r.range(1, 60), "p_fail": 20_000, "p_dup": 20_000, "p_drop": 0, "p_bye": 0, "p_long": 0, "long": 0, "gap": 0, "gap2": 10}]}));
    }
    for b in 0..r.range(1, 3) {
        live.push(json!({"kind": "raw", "name": format!("idle{b}"), "steps": [{"op": "sleep", "ms": r.below(2000)}, {"op": "conn"}, {"op": "at", "t": end + 20_000}]}));
    }
    live.push(json!({"kind": "raw", "name": "slow", "steps": [{"op": "conn"}, {"op": "res", "max": r.range(1, 3), "strat": "random", "wait": 30_000}, {"op": "at", "t": end}, {"op": "done", "which": "all"}, {"op": "at", "t": end + 20_000}]}));
    p.proc_("live", 0, r.clone().range(1, 2), live);
    // ---- peers that fall silent
    let nv = r.range(1, 4);
    for b in 0..nv {
        let name = format!("v{b}");
        let t = r.range(1500, end - budget);
        let mut st = vec![json!({"op": "conn"})];
        if r.chance(3, 4) {
            st.push(json!({"op": "res", "max": r.range(1, 4), "strat": "random", "wait": 20_000}));
            if r.chance(1, 3) {
                st.push(json!({"op": "res", "max": 3, "strat": "oldest"}));
            }
        }
        let long = r.chance(2, 3);
        let ms = if long { budget + r.range(1500, 4000) } else { (hb * (miss + 1)).saturating_sub(r.range(150, 1800)).max(50) };
        let how = r.below(7);
        if how == 0 {
            st.push(json!({"op": "at", "t": t}));
            st.push(json!({"op": "freeze", "ms": ms}));
        }
        st.push(json!({"op": "at", "t": end + 20_000}));
        p.proc_(&name, r.clone().range(0, 400), 1, vec![json!({"kind": "raw", "name": name, "steps": st})]);
        match how {
            1 => p.fault(t, "halfopen", json!({"who": name})),
            2 => p.fault(t, "powerp", json!({"who": name})),
            3 => p.fault(t, "killp", json!({"who": name})),
            4 => p.fault(t, "pause", json!({"who": name, "ms": ms})),
            5 | 6 => p.fault(t, "cut", json!({"who": name, "ms": ms, "dir": r.pick(&["both", "to", "from"])})),
            _ => {}
        }
    }
    // ---- the real client
    for b in 0..r.range(1, 3) {
        let name = format!("real{b}");
        let busy = r.chance(1, 3);
        p.proc_(&name, r.clone().range(0, 400), r.clone().range(1, 2), vec![json!({"kind": "cons", "name": name, "health": true, "tasks": r.range(1, 2), "strat": "random", "max": 1, "max2": *r.pick(&[1u64, 2, 10, 30]),
            "work": if busy { 1 } else { r.range(0, 4000) }, "work2": if busy { 2 + r.below(hb) } else { end + 20_000 }, "stop": end + 20_000})]);
        p.opts["auto_fail"] = json!(true);
        let t = r.range(1500, end - budget);
        let ms = if r.chance(2, 3) { budget + r.range(1500, 4000) } else { (hb * (miss + 1)).saturating_sub(r.range(150, 1800)).max(50) };
        match r.below(5) {
            0 | 1 => p.fault(t, "cut", json!({"who": name, "ms": ms, "dir": r.pick(&["both", "to", "from"])})),
            2 => p.fault(t, "halfopen", json!({"who": name, "side": r.pick(&["client", "server"])})),
            3 => p.fault(t, "pause", json!({"who": name, "ms": ms})),
            _ => {}
        }
    }
    // ---- the server stalls, or dies without a word
    match r.below(6) {
        0 | 1 => {
            let t = r.range(1500, end - budget);
            let ms = r.range(50, 2 * budget + 1000);
            p.fault(t, "pause", json!({"who": "server", "ms": ms}));
        }
        2 => {
            let t = r.range(2000, end - budget);
            p.fault(t, if r.chance(2, 3) { "power" } else { "kill" }, json!({}));
            p.kern.track_disk = true;
        }
        _ => {}
    }
    p.down = (10, 2500);
    p.heal_ms = end + 6000;
    p.quiet_ms = 500;
    p.snap_ppm = 2000;
    p
}
/// P16: reports around the moment a reservation expires, many reservations at once.
pub fn expiry(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 16);
    let r = &mut r;
    let mut p = Plan::new(prop, "expiry", seed);
    let calm = r.chance(2, 3);
    p.kern = if calm { Kern::calm(r) } else { Kern::random(r) };
    p.opts["calm"] = json!(calm);
    let exp = r.logrange(250, 5000);
    p.srv = Srv { expiry_ms: exp, pool: *r.pick(&[2, 4, 16]), hb_ms: r.range(300, 3000), miss: r.range(1, 4), retries: if r.chance(1, 4) { r.range(1, 4) } else { 100 }, workers: r.range(1, 4), ..Srv::default() };
    let end = 1500 + 3 * exp + r.range(1000, 6000);
    let ns = r.range(1, 5);
    let mut steps = vec![json!({"op": "up"})];
    for j in 0..ns {
        let k = if r.chance(1, 4) { r.range(20, 60) } else { r.range(1, 12) };
        let v = insert(r, &format!("s{j}"), k);
        let t = if j == 0 { 100 } else { r.range(100, end / 2) };
        let mut s = vec![json!({"op": "at", "t": t}), v];
        if r.chance(1, 8) {
            s.push(json!({"op": "sleep", "ms": r.range(1, exp * 2)}));
            s.push(json!({"op": "cancel", "tag": format!("s{j}")}));
        }
        steps.push(json!({"op": "par", "bg": true, "steps": [s]}));
    }
    p.proc_("prod", 0, 1, vec![json!({"kind": "prod", "name": "prod", "raw": true, "steps": steps})]);
    let nh = r.range(1, 4);
    for b in 0..nh {
        let name = format!("h{b}");
        let mut actors = vec![];
        for x in 0..r.range(1, 3) {
            let nm = format!("{name}.{x}");
            let j = r.logrange(2, 400).min(exp - 50);
            let (w0, w1) = match r.below(4) {
                0 => (0, 2 * exp),
                1 | 2 => (exp - j, exp + j),
                _ => (exp + 100, exp + 1500),
            };
            if r.chance(1, 2) {
                actors.push(json!({"kind": "raw", "name": nm, "steps": [{"op": "loop", "until": end, "max": 1, "max2": *r.pick(&[1u64, 1, 3, 10]), "strats": ["oldest", "newest", "random"],
                    "work": w0, "work2": w1, "p_fail": *r.pick(&[0u64, 100_000, 400_000]), "p_dup": 50_000, "p_drop": 150_000, "p_bye": 0, "p_long": 0, "long": 0, "gap": 0, "gap2": 10, "autofail": r.chance(1, 2)}, {"op": "at", "t": end + 3000}]}));
            } else {
                // several requests at different times on one connection, each with its own end
                let mut s = vec![json!({"op": "sleep", "ms": r.below(600)}), json!({"op": "conn"})];
                for _ in 0..r.range(1, 6) {
                    s.push(json!({"op": "res", "max": r.range(1, *r.clone().pick(&[2, 8, 40])), "strat": *r.pick(&["oldest", "newest", "random"]), "wait": *r.pick(&[1u64, 200, exp + 500])}));
                    s.push(json!({"op": "collect"}));
                    match r.below(5) {
                        0 => s.push(json!({"op": "sleep", "ms": r.range(0, exp)})),
                        1 => {
                            s.push(json!({"op": "sleep", "ms": r.range(w0, w1)}));
                            s.push(json!({"op": "done", "which": *r.pick(&["all", "last", "rand"])}));
                        }
                        2 => {
                            s.push(json!({"op": "sleep", "ms": r.range(w0, w1)}));
                            s.push(json!({"op": "fail", "which": *r.pick(&["all", "last", "rand"])}));
                        }
                        3 => s.push(json!({"op": "sleep", "ms": r.range(0, 60)})),
                        _ => {
                            s.push(json!({"op": "sleep", "ms": r.range(w0, w1)}));
                            s.push(json!({"op": "done", "which": "rand"}));
                            s.push(json!({"op": "sleep", "ms": r.range(0, exp)}));
                            s.push(json!({"op": "done", "which": "all"}));
                        }
                    }
                }
                s.push(json!({"op": "at", "t": end + 3000}));
                actors.push(json!({"kind": "raw", "name": nm, "steps": s}));
            }
        }
        p.proc_(&name, r.clone().range(0, 300), r.clone().range(1, 2), actors);
    }
    // takes what becomes available
    if r.chance(2, 3) {
        p.proc_("live", 0, 1, vec![json!({"kind": "raw", "name": "w", "steps": [{"op": "loop", "until": end + 3000, "max": 1, "max2": r.range(1, 4), "strats": ["oldest", "newest", "random"], "work": 0, "work2": r.range(1, exp),
            "p_fail": 20_000, "p_dup": 0, "p_drop": 0, "p_bye": 0, "p_long": 0, "long": 0, "gap": 0, "gap2": 10}]})]);
    }
    if r.chance(1, 4) {
        p.opts["auto_fail"] = json!(true);
        p.proc_("real", 0, 1, vec![json!({"kind": "cons", "name": "real", "tasks": r.range(1, 3), "strat": "random", "max": 1, "max2": 4, "work": 0, "work2": exp + 300, "p_drop": 100_000, "stop": end})]);
    }
    if !calm {
        for _ in 0..r.below(3) {
            let t = r.range(300, end);
            match r.below(4) {
                0 => p.fault(t, "pause", json!({"who": "server", "ms": r.logrange(20, 2000)})),
                1 => p.fault(t, "pause", json!({"who": "h0", "ms": r.logrange(20, 2000)})),
                2 => p.fault(t, "cut", json!({"who": "h0", "ms": r.logrange(20, 2000), "dir": r.pick(&["both", "to", "from"])})),
                _ => p.fault(t, "killp", json!({"who": "h0"})),
            }
        }
    }
    p.heal_ms = end + 3000;
    p.quiet_ms = 500;
    p.snap_ppm = 20_000;
    p.snap_every = 500;
    p.snap_max = 60;
    p
}
