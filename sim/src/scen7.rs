//! Health and gauges (P21).
use crate::plan::*;
use crate::rng::Rng;
use crate::scen::*;
use serde_json::json;

/// Everything that makes the gauges move, with every way of ending it, then quiet;
/// or a database that cannot be used for a while.
pub fn reports(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed, 21);
    let r = &mut r;
    let ill = r.chance(1, 3);
    let m = Mix { kill: 12, arm: 8, net: 20, pause: 6, client: 20, sigint: 4, cancel: 30, fail: 25, dup: 6, drop: 8, bye: 8, long: 0, real: 40, empty: 8, poll: 20, short_expiry: r.chance(1, 2), small_retries: r.chance(1, 2), autofail: r.chance(1, 2) };
    let mut p = storm(prop, seed, &m);
    p.scen = "reports".into();
    p.srv.hb_ms = r.range(300, 900);
    p.srv.miss = r.range(1, 3);
    if r.chance(1, 3) {
        p.srv.expiry_ms = 600_000;
    }
    p.down = (10, 1500);
    let t0 = p.heal_ms;
    if ill {
        // ---- the database is out of reach for a while, once or more often
        let mut t = t0 + r.range(0, 12_000);
        for _ in 0..r.range(1, 2) {
            let ms = if r.chance(1, 4) { r.logrange(500, 40_000) } else { r.range(50_000, 90_000) };
            match r.below(6) {
                0 | 1 => p.fault(t, "disk", json!({"ms": ms, "locked": true})),
                2 | 3 => p.fault(t, "disk", json!({"ms": ms, "stall": true})),
                _ if r.chance(1, 3) => p.fault(t, "disk", json!({"ms": ms, "eio_read": 1_000_000, "eio_write": 1_000_000, "fsync": 1_000_000})),
                _ => p.fault(t, "disk", json!({"ms": ms, "eio_read": if r.chance(1, 2) { 1_000_000 } else { 300_000 }})),
            }
            t += ms + if r.chance(1, 3) { r.range(500, 20_000) } else { r.range(21_000, 30_000) };
            if r.chance(1, 4) {
                p.fault(t, if r.chance(1, 2) { "kill" } else { "sigint" }, json!({}));
                t += r.range(2000, 24_000);
            }
        }
        p.heal_ms = t;
        // someone goes on inserting, so that writes are under way
        let mut steps = vec![json!({"op": "up"}), json!({"op": "at", "t": t0})];
        let gap = r.logrange(20, 8000);
        let mut n = 0;
        let mut x = t0;
        while x < t && n < 60 {
            steps.push(json!({"op": "par", "bg": true, "steps": [[insert(r, &format!("more.{n}"), r.clone().range(1, 4))]]}));
            steps.push(json!({"op": "sleep", "ms": gap, "ms2": gap * 2}));
            x += gap * 3 / 2;
            n += 1;
        }
        p.proc_("more", 0, 1, vec![json!({"kind": "prod", "name": "more", "raw": r.chance(1, 2), "steps": steps})]);
    }
    let heal = p.heal_ms;
    p.quiet_ms = r.range(14_000, 26_000);
    let end = heal + p.quiet_ms;
    // ---- someone holds on to chunks, or goes away with them
    for b in 0..r.range(1, 3) {
        let mut actors = vec![];
        for c in 0..r.range(1, 2) {
            let t = heal + r.range(0, 1500);
            let mut s = vec![json!({"op": "at", "t": t}), json!({"op": "conn"})];
            for _ in 0..r.range(0, 2) {
                s.push(json!({"op": "res", "max": r.range(1, 5), "strat": r.pick(&["oldest", "newest", "random"]), "wait": r.range(100, 900)}));
            }
            match r.below(8) {
                0 => s.push(json!({"op": "close"})),
                1 => s.push(json!({"op": "abort"})),
                2 => s.push(json!({"op": "freeze", "ms": 60_000})),
                3 => s.push(json!({"op": "fail", "which": 1, "note": "no"})),
                4 => s.push(json!({"op": "done", "which": 1})),
                _ => {}
            }
            s.push(json!({"op": "at", "t": end + 1000}));
            actors.push(json!({"kind": "raw", "name": format!("hold{b}x{c}"), "steps": s}));
        }
        let name = format!("hold{b}");
        p.proc_(&name, 0, 1, actors);
        if r.chance(1, 4) {
            let t = heal + r.range(1500, 4000);
            let k = *r.pick(&["killp", "powerp", "reset", "halfopen"]);
            p.fault(t, k, json!({"who": name, "late": true}));
        }
    }
    // a submission nobody asks for before the end
    let late = json!({"kind": "prod", "name": "late", "raw": true, "steps": [{"op": "at", "t": heal + r.range(0, 3000)}, {"op": "up"}, insert(r, "late.0", r.clone().range(1, 30)), insert(r, "late.1", r.clone().range(1, 5)), {"op": "sleep", "ms": r.range(0, 500)}, {"op": "cancel", "tag": "late.1"}]});
    let every = r.range(700, 1900);
    let watch = json!({"kind": "prod", "name": "watch", "raw": true, "steps": [
        {"op": "loop", "until": end, "gap": every, "gap2": every, "steps": [{"op": "metrics"}, {"op": "ping"}]}]});
    p.proc_("watch", 0, 1, vec![watch, late]);
    let mut t = heal + 6000;
    while t < end {
        p.fault(t, "snap", json!({"late": true}));
        t += 1100;
    }
    if ill {
        let mut t = t0 + 6000;
        while t < heal {
            p.fault(t, "snap", json!({}));
            t += 2500;
        }
    }
    p.snap_ppm = 0;
    p.snap_max = 400;
    p
}
