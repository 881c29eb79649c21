//! Client calls (P17).
use crate::kernel::{MS, SEC};
use crate::oracle::*;
use std::collections::BTreeMap;

impl<'a> Ck<'a> {
    pub fn calls(&mut self) {
        let h = self.h;
        let end = self.plan.opts["calls_end"].as_u64().unwrap_or(0) * MS;
        for (_, e) in h.of("agent_panic") {
            self.bad("panic", format!("a client call panics: {}", e.v));
        }
        let hb = self.plan.srv.hb_ms * (self.plan.srv.miss + 2) * MS;
        // consumer: notice a silent server, connect again (with a back-off of at most 10 s), try again
        let cons = hb + 25 * SEC;
        // producer: as long as the keep-alive of its connections takes
        let prod = 100 * SEC;
        let mut worst: BTreeMap<&str, u64> = BTreeMap::new();
        for c in &h.calls {
            // (the supply of work does not use the client)
            if c.a["op"] == "hang" || c.a["tag"] == "supply" || c.a["tag"] == "first" {
                continue;
            }
            let is_cons = matches!(c.op.as_str(), "res" | "done" | "fail");
            let bound = if is_cons { cons } else { prod };
            // (when there is too little work, others may always be faster)
            let patient = c.op == "res" && self.plan.opts["scarce"] == true;
            let from = c.t0.max(h.t_heal);
            let lim = from + bound;
            let key = if is_cons { "consumer" } else { "producer" };
            match c.t1 {
                Some(t) => {
                    let d = t.saturating_sub(from);
                    let w = worst.entry(key).or_default();
                    *w = (*w).max(d);
                    self.n(&format!("{key}_calls_{}", if c.ok() { "ok" } else { "error" }), 1);
                    if c.t0 < h.t_heal && t > h.t_heal {
                        self.n("calls_open_at_the_end_of_the_faults", 1);
                    }
                    if t > lim && lim < end && !patient {
                        self.bad(&format!("late-{}", c.op), format!("call {} of {} from {} returns only at {}, although all faults are over since {}", c.op, c.a["c"].as_str().unwrap_or("a producer"), secs(c.t0), secs(t), secs(h.t_heal)));
                    }
                }
                None if lim < end && !patient => {
                    self.bad(&format!("hangs-{}", c.op), format!("call {} of {} from {} never returns (until {}), although all faults are over since {}", c.op, c.a["c"].as_str().unwrap_or("a producer"), secs(c.t0), secs(h.t_end), secs(h.t_heal)));
                }
                None => {}
            }
            // the answer belongs to the request
            if c.op == "res" && c.ok() {
                let n = c.r["ch"].as_array().map_or(0, |x| x.len() as u64);
                if n > c.a["max"].as_u64().unwrap_or(u64::MAX) {
                    self.bad("wrong-answer", format!("{} asked for at most {} chunks at {} and got {n}", c.a["c"], c.a["max"], secs(c.t0)));
                }
            }
        }
        for (k, w) in worst {
            self.n(&format!("ms_worst_{k}_after_faults"), w / MS);
        }
        // every client works again
        let mut objs: BTreeMap<(usize, String), (u64, u64)> = BTreeMap::new();
        for c in &h.calls {
            let is_cons = matches!(c.op.as_str(), "res" | "done" | "fail");
            let name = if is_cons { c.a["c"].as_str().unwrap_or("").rsplit_once('.').map_or("", |x| x.0).to_string() } else { "producer".to_string() };
            let from = h.t_heal + if is_cons { cons } else { prod };
            if c.t0 > from && c.t0 + SEC < end {
                let e = objs.entry((c.host, name)).or_default();
                e.0 += 1;
                if c.t1.is_some() && (c.ok() || c.op == "cancel") {
                    e.1 += 1;
                } else if c.t1.is_some() && c.r["err"] != "gave up" {
                    self.bad("still-fails", format!("call {} of {} at {} fails: {}, although all faults are over since {}", c.op, c.a["c"].as_str().unwrap_or("a producer"), secs(c.t0), c.r["err"], secs(h.t_heal)));
                }
            }
        }
        for v in objs.values() {
            self.n("clients_that_recovered", u64::from(v.1 > 0));
        }
        // every consumer client that was at work comes back to it
        for (hh, c) in h.calls.iter().filter(|c| c.op == "res").map(|c| (c.host, c.a["c"].as_str().unwrap_or("").to_string())).collect::<std::collections::BTreeSet<_>>() {
            let ok = h.calls.iter().any(|x| x.host == hh && x.op == "res" && x.a["c"] == c.as_str() && x.ok() && x.t1.is_some_and(|t| t > h.t_heal));
            // (where there is less work than workers, nobody is promised some)
            if !ok && self.plan.opts["scarce"] != serde_json::Value::Bool(true) && h.t_heal + cons + 10 * SEC < end {
                self.bad("no-recovery", format!("{c} gets no chunk any more after the end of all faults at {}", secs(h.t_heal)));
            }
        }
    }
}
impl<'a> Ck<'a> {
    // ---- P15 -----------------------------------------------------------------------------
    pub fn disk_errors(&mut self) {
        let h = self.h;
        // never corrupt, all or nothing, and what was reported as done is there
        self.db_sound();
        self.durable();
        self.monotonic(false);
        // normal service afterwards, without a restart
        for (_, e) in h.of("drain_timeout") {
            let left: Vec<String> = e.v["pending"].as_array().into_iter().flatten().take(8).map(|x| x.to_string()).collect();
            self.bad("stuck", format!("submissions {} are still in progress {} ms after the disk works again; pending chunks {}", e.v["open"], self.plan.drain_ms, left.join(" ")));
        }
        self.n("drains", h.of("drained").count() as u64);
        let windows: Vec<(u64, u64)> = h.of("fault").filter(|(_, e)| e.v["k"] == "disk").map(|(_, e)| (e.t, e.t + e.v["a"]["ms"].as_u64().unwrap_or(0) * MS)).collect();
        for (_, e) in h.of("srv_end").filter(|(_, e)| e.v["how"] == "unexpected") {
            // it may give up while starting on a broken disk
            let t0 = h.incs.iter().find(|i| i.t1 == e.t).map_or(0, |i| i.t0);
            let starting = e.t - t0 < 12 * SEC && windows.iter().any(|w| w.0 <= e.t && w.1 + 200 * MS >= t0);
            if starting {
                self.n("gave_up_starting_on_a_broken_disk", 1);
            } else {
                self.bad("server-exit", format!("the server exited by itself (code {}) at {}", e.v["code"], secs(e.t)));
            }
        }
        for c in &h.calls {
            let Some(t1) = c.t1 else { continue };
            let hit = windows.iter().any(|w| w.0 <= t1 && w.1 >= c.t0);
            if hit && matches!(c.op.as_str(), "ins" | "cancel" | "st") {
                self.n(&format!("{}_during_disk_errors_{}", c.op, if c.ok() { "ok" } else { "failed" }), 1);
            }
            // after the errors, requests succeed
            if c.t0 > h.t_heal + 6 * SEC && !c.ok() && matches!(c.op.as_str(), "ins" | "cancel" | "st" | "count" | "countc") && h.same_inc(c.t0 - 5 * SEC, t1) {
                self.bad("still-fails", format!("{} at {} fails ({} {}), {} s after the disk works again", c.op, secs(c.t0), c.r["code"], c.r["err"], (c.t0 - h.t_heal) / SEC));
            }
        }
    }
}
