//! The checks: seeded search, minimisation, replay files, evidence.
use crate::min;
use crate::plan::Plan;
use crate::pool::Pool;
use crate::rng::splitmix;
use crate::scen;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

fn verif() -> String {
    std::env::var("SIMQ_OUT").unwrap_or_else(|_| "/verif".into())
}
pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut s = base ^ crate::content::fnv(prop.as_bytes()) ^ i.wrapping_mul(0x2545_F491_4F6C_DD1D);
    // keep seeds short enough to be read and typed
    splitmix(&mut s) >> 16
}
/// Violations listed in the known-findings file do not raise an alarm.
fn known(prop: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{}/known-findings.txt", verif())).unwrap_or_default().lines() {
        let Some(x) = l.strip_prefix("known:").and_then(|l| serde_json::from_str::<Value>(l).ok()) else { continue };
        if x["property"] == prop {
            v.push((x["key"].as_str().unwrap_or("").into(), x["match"].as_str().unwrap_or("").into(), x["what"].as_str().unwrap_or("").into()));
        }
    }
    v
}
pub fn check(pool: &mut Pool, prop: &str, tier: &str) -> i32 {
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = std::env::var("SIMQ_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 780.0 } else { 40.0 });
    let t0 = Instant::now();
    let known = known(prop);
    let mut known_hit: BTreeSet<String> = BTreeSet::new();
    let (mut i, mut runs, mut inc, mut sim, mut steps, mut switches, mut events) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut incs: BTreeMap<String, u64> = BTreeMap::new();
    let mut cov: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut scheds: BTreeSet<u64> = BTreeSet::new();
    let mut shapes: BTreeSet<u64> = BTreeSet::new();
    let mut nontrivial: BTreeSet<u64> = BTreeSet::new();
    let mut hashes: BTreeMap<u64, String> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut scens: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: Option<(u64, String, String)> = None;
    loop {
        while found.is_none() && pool.busy() < pool.jobs && t0.elapsed().as_secs_f64() < secs {
            let s = seed_of(base, prop, i);
            pool.start(s, &scen::make(prop, s), false);
            i += 1;
        }
        let Some((seed, v)) = pool.next() else { break };
        runs += 1;
        if let Some(w) = v["inc"].as_str() {
            inc += 1;
            *incs.entry(w.chars().take(100).collect()).or_insert(0) += 1;
            continue;
        }
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        sim += n("sim_ns");
        steps += n("steps");
        switches += n("switches");
        events += n("nev");
        scheds.insert(n("sched"));
        for x in v["shapes"].as_array().into_iter().flatten() {
            shapes.insert(x.as_u64().unwrap_or(0));
        }
        let mut facts = 0;
        for (k, x) in v["cov"].as_object().into_iter().flatten() {
            facts += x.as_u64().unwrap_or(0);
            *cov.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
        }
        for (k, x) in v["stat"].as_object().into_iter().flatten() {
            *faults.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
        }
        let sc = scen::make(prop, seed).scen;
        *scens.entry(sc.clone()).or_insert(0) += 1;
        if facts > 0 {
            nontrivial.insert(n("sched"));
        }
        if hashes.len() < 6 {
            hashes.insert(seed, v["hash"].as_str().unwrap_or("").into());
        }
        if samples.len() < 6 {
            samples.push(json!({"seed": seed, "scenario": sc, "sim_s": n("sim_ns") as f64 / 1e9, "scheduling_points": n("steps"), "context_switches": n("switches"), "server_starts": n("srv"),
                "client_calls": n("calls"), "grants": n("grants"), "reports": n("reps"), "checked": v["cov"], "faults": v["stat"], "hash": v["hash"]}));
        }
        for x in v["viol"].as_array().into_iter().flatten() {
            let (key, msg) = (x[0].as_str().unwrap_or("").to_string(), x[1].as_str().unwrap_or("").to_string());
            if let Some(kf) = known.iter().find(|kf| kf.0 == key && msg.contains(&kf.1)) {
                known_hit.insert(kf.2.clone());
                continue;
            }
            if found.as_ref().is_none_or(|f| seed < f.0) {
                found = Some((seed, key, msg));
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    // one seed is one execution: repeat some seeds and compare everything that happened
    let mut repeat_bad = vec![];
    let mut repeated = 0;
    if found.is_none() {
        for (s, _) in hashes.iter() {
            pool.start(*s, &scen::make(prop, *s), false);
        }
        while let Some((s, v)) = pool.next() {
            repeated += 1;
            if v["hash"].as_str() != Some(hashes[&s].as_str()) {
                repeat_bad.push(s);
            }
        }
    }
    for w in known.iter().map(|k| &k.2).collect::<BTreeSet<_>>() {
        println!("KNOWN-FINDING: property={prop} {w}{}", if known_hit.contains(w) { "" } else { " (not hit in this run)" });
    }
    let mut violations = vec![];
    let mut code = 0;
    if let Some((seed, key, msg)) = &found {
        let plan = scen::make(prop, *seed);
        let (small, tried) = min::shrink(pool, &plan, key, if tier == "thorough" { 120.0 } else { 45.0 });
        let mut v = pool.one(&small, true);
        let mut used = small;
        if !min::has_key(&v, key) {
            v = pool.one(&plan, true);
            used = plan;
        }
        let again = pool.one(&used, false);
        let dir = format!("{}/replays", verif());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed}.json");
        let m = v["viol"].as_array().and_then(|a| a.iter().find(|x| x[0] == key.as_str())).map_or(msg.clone(), |x| x[1].as_str().unwrap_or("").into());
        let rep = json!({
            "property": prop, "seed": seed, "key": key, "violation": m, "found_as": msg, "minimisation_runs": tried,
            "exact_replay": again["hash"] == v["hash"], "hash": v["hash"], "faults": used.faults, "plan": used, "trace": v["trace"],
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("replay file");
        println!("seed {seed}: {key}: {m}");
        println!("VIOLATION property={prop} replay={path}");
        violations.push(json!({"seed": seed, "key": key, "what": m, "replay": path}));
        code = 1;
    }
    let e = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs - inc,
            "distinct_nontrivial": nontrivial.len(),
            "rule": "a simulated run counts as distinct if its complete scheduling history (hash over every thread chosen at every scheduling decision) differs from all others, and as non-trivial if the property's oracle compared at least one fact in it (see checked_facts)",
            "samples": samples,
            "runs": runs, "inconclusive_runs": inc, "inconclusive_reasons": incs,
            "runs_per_hour": (runs as f64 * 3600.0 / search_s) as u64,
            "seeds_per_hour": (runs as f64 * 3600.0 / search_s) as u64,
            "simulated_seconds": sim as f64 / 1e9,
            "scheduling_points": steps, "context_switches": switches, "recorded_events": events,
            "distinct_interleavings": scheds.len(),
            "distinct_queue_states": shapes.len(),
            "queue_state_measure": "multiset over submissions of (state, completed chunks up to 9, total chunks up to 9, retries up to 5) in the database images taken",
            "faults_injected": faults, "checked_facts": cov, "scenarios": scens,
            "seeds_repeated_and_compared": repeated, "seeds_not_reproduced": repeat_bad,
            "real_code": ["opsqueue server binary (app/main.rs and the opsqueue crate)", "opsqueue producer, consumer and object-store client library", "SQLite (bundled, as shipped)", "sqlx, tokio, axum, hyper, tungstenite, reqwest, moka"],
            "stubs": ["libc system interface (threads, futexes, clocks, sockets, epoll, file faults, randomness): the simulated kernel", "snowflaked crate (not available offline): own implementation of the same interface", "quanta crate without the TSC clock source", "aws-lc-sys (TLS is never used)", "object-storage service: own HTTP server (the client is real)"],
        },
        "assumptions": ["sequentially consistent memory: one thread runs at a time, switches only at scheduling points (system calls, lock and futex operations, random allocations)", "the local POSIX file system returns what was written unless a fault is injected", "submission ids come from the simulated snowflake generator"],
        "violations": violations, "wall_s": t0.elapsed().as_secs_f64(),
    });
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&e).unwrap()).expect("evidence");
    println!("{prop} {tier}: {runs} runs ({inc} inconclusive), {:.0} simulated s, {} distinct interleavings, {} queue states, {:.1} s", sim as f64 / 1e9, scheds.len(), shapes.len(), t0.elapsed().as_secs_f64());
    if code == 0 && runs > 0 && inc * 2 > runs {
        println!("most runs were inconclusive: {incs:?}");
        return 3;
    }
    if !repeat_bad.is_empty() {
        println!("warning: seeds {repeat_bad:?} did not repeat exactly");
    }
    code
}
pub fn replay(pool: &mut Pool, path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let plan: Plan = serde_json::from_value(v["plan"].clone()).expect("plan");
    let r = pool.one(&plan, true);
    for l in r["trace"].as_array().into_iter().flatten() {
        println!("{}", l.as_str().unwrap());
    }
    for x in r["viol"].as_array().into_iter().flatten() {
        println!("{}: {}", x[0].as_str().unwrap_or(""), x[1].as_str().unwrap_or(""));
    }
    println!("execution {} ({})", r["hash"], if r["hash"] == v["hash"] { "exactly the recorded one" } else { "DIFFERS from the recorded one" });
    if min::has_key(&r, v["key"].as_str().unwrap_or("")) {
        println!("VIOLATION property={} replay={path}", plan.prop);
        1
    } else {
        println!("not reproduced");
        0
    }
}
