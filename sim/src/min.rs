//! Shrinks a failing plan: fewer processes, actors, steps, faults and less noise.
use crate::plan::*;
use crate::pool::Pool;
use serde_json::Value;
use std::time::Instant;

fn candidates(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let mut add = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if serde_json::to_string(&q).unwrap() != serde_json::to_string(p).unwrap() {
            v.push(q);
        }
    };
    let keep = |n: &str| p.opts["keep"].as_array().is_some_and(|a| a.iter().any(|x| x == n));
    for i in 0..p.procs.len() {
        if !keep(&p.procs[i].name) {
            add(&|q| {
                q.procs.remove(i);
            });
        }
    }
    if p.faults.len() > 1 {
        add(&|q| q.faults.clear());
    }
    for i in 0..p.faults.len() {
        add(&|q| {
            q.faults.remove(i);
        });
    }
    let d = Kern::default();
    add(&|q| q.kern.alloc_mean = 0);
    add(&|q| q.kern.edge_mean = 0);
    add(&|q| q.kern.edge_long = false);
    add(&|q| {
        q.kern.delay_ppm = 0;
        q.kern.delay_max_us = 0;
    });
    add(&|q| {
        q.kern.spike_ppm = 0;
        q.kern.spike_max_ms = 0;
    });
    add(&|q| q.kern.short_io_ppm = 0);
    add(&|q| {
        q.kern.disk_lat_ppm = 0;
        q.kern.disk_lat_max_us = 0;
    });
    add(&|q| q.kern.window = d.window);
    add(&|q| {
        q.kern.lat_min_us = d.lat_min_us;
        q.kern.lat_max_us = d.lat_max_us;
    });
    add(&|q| q.kern.preempt_ppm = 1000);
    add(&|q| q.srv.workers = 1);
    for i in 0..p.procs.len() {
        for j in 0..p.procs[i].actors.len() {
            if p.procs[i].actors.len() > 1 {
                add(&|q| {
                    q.procs[i].actors.remove(j);
                });
            }
            if let Some(s) = p.procs[i].actors[j]["steps"].as_array() {
                for x in 0..s.len() {
                    add(&|q| {
                        q.procs[i].actors[j]["steps"].as_array_mut().unwrap().remove(x);
                    });
                    if let Some(ss) = s[x]["steps"].as_array() {
                        for y in 0..ss.len() {
                            if ss.len() > 1 {
                                add(&|q| {
                                    q.procs[i].actors[j]["steps"][x]["steps"].as_array_mut().unwrap().remove(y);
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn has_key(v: &Value, key: &str) -> bool {
    v["viol"].as_array().is_some_and(|a| a.iter().any(|x| x[0] == key))
}
/// Greedy reduction until nothing more can be removed or time is up.
pub fn shrink(pool: &mut Pool, plan: &Plan, key: &str, secs: f64) -> (Plan, u64) {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let mut tried = 0;
    'outer: loop {
        let c = candidates(&best);
        let mut i = 0;
        let mut hit: Option<usize> = None;
        // run candidates in parallel; accept the first (in order) that still fails
        while i < c.len() || pool.busy() > 0 {
            if t0.elapsed().as_secs_f64() > secs && pool.busy() == 0 {
                break 'outer;
            }
            while hit.is_none() && pool.busy() < pool.jobs && i < c.len() && t0.elapsed().as_secs_f64() <= secs {
                pool.start(i as u64, &c[i], false);
                tried += 1;
                i += 1;
            }
            match pool.next() {
                Some((tag, v)) => {
                    if v["inc"].is_null() && has_key(&v, key) {
                        hit = Some(hit.map_or(tag as usize, |h| h.min(tag as usize)));
                    }
                }
                None => break,
            }
            if hit.is_some() {
                while pool.next().is_some() {}
                break;
            }
        }
        match hit {
            Some(h) => best = c[h].clone(),
            None => break,
        }
    }
    (best, tried)
}
