//! Health and gauges (P21).
use crate::kernel::{MS, SEC};
use crate::oracle::*;
use std::collections::{BTreeMap, BTreeSet};

/// The watchdog asks every 10 s, waits up to 30 s for the connection and 5 s for the lock.
const ILL: u64 = 48 * SEC;
const WELL: u64 = 20 * SEC;

impl<'a> Ck<'a> {
    pub fn reports(&mut self) {
        let h = self.h;
        for (_, e) in h.of("agent_panic") {
            self.bad("panic", format!("a client call panics: {}", e.v));
        }
        // ---- health
        let ill: Vec<(u64, u64, char)> = h
            .of("fault")
            .filter(|(_, e)| e.v["k"] == "disk")
            .map(|(_, e)| (e.t, (e.t + e.v["a"]["ms"].as_u64().unwrap_or(0) * MS).min(h.t_heal.max(e.t)), if e.v["a"]["locked"] == true { 'l' } else if e.v["a"]["stall"] == true { 's' } else { 'e' }))
            .collect();
        for (_, e) in h.of("srv_end").filter(|(_, e)| e.v["how"] == "unexpected") {
            let t0 = h.incs.iter().find(|i| i.t1 == e.t).map_or(0, |i| i.t0);
            if !(e.t - t0 < 12 * SEC && ill.iter().any(|w| w.0 <= e.t && w.1 + 200 * MS >= t0)) {
                self.bad("server-exit", format!("the server exited by itself (code {}) at {}", e.v["code"], secs(e.t)));
            }
        }
        let sig: Vec<u64> = h.of("sigint").map(|(_, e)| e.t).collect();
        for c in h.calls.iter().filter(|c| c.op == "ping" && c.ok()) {
            let t1 = c.t1.unwrap();
            let Some(inc) = h.incs.iter().find(|i| i.t0 <= c.t0 && i.t1 >= t1) else { continue };
            let well = c.r["code"] == 200;
            self.n(if well { "pings_healthy" } else { "pings_unhealthy" }, 1);
            let mut pauses = 0;
            for (a, b) in &h.bad {
                if !ill.iter().any(|w| w.0 == *a) && *b > inc.t0 && *a < t1 {
                    pauses += b - a;
                }
            }
            if well {
                for w in &ill {
                    let from = w.0.max(inc.t0);
                    if t1 < w.1 && self.stuck(w, from).is_some_and(|f| c.t0 > f + ILL + pauses) {
                        self.bad("healthy-though-unusable", format!("/ping says healthy at {}, though the database cannot be written ({}) since {}", secs(c.t0), if w.2 == 'l' { "locked by another process" } else { "the disk does not respond" }, secs(w.0)));
                    }
                }
                for s in sig.iter().filter(|s| **s >= inc.t0 && **s < inc.t1) {
                    if c.t0 > s + 1500 * MS && ill.iter().all(|w| w.0 > t1 || w.1 + WELL < *s) && pauses == 0 {
                        self.bad("healthy-in-shutdown", format!("/ping says healthy at {}, though the server was told to stop at {}", secs(c.t0), secs(*s)));
                    }
                }
            } else {
                let a = ill.iter().filter(|w| w.0 <= t1).map(|w| w.1).max().unwrap_or(0).max(inc.t0);
                if t1 > a + WELL + pauses && !sig.iter().any(|s| *s >= inc.t0 && *s <= t1) {
                    self.bad("unhealthy-though-usable", format!("/ping says unhealthy ({}) at {}; the server runs since {}, the database works since {}", c.r["code"], secs(t1), secs(inc.t0), secs(a)));
                }
            }
            for w in &ill {
                if c.t0 > w.0.max(inc.t0) + ILL && t1 < w.1 {
                    self.n("pings_during_long_outage", 1);
                }
            }
            if ill.iter().any(|w| t1 > w.1 + WELL) {
                self.n("pings_after_outage", 1);
            }
        }
        // ---- gauges, whenever it has been quiet for long enough
        let q = (8 * SEC).max((self.plan.srv.miss + 2) * self.plan.srv.hb_ms * MS + 3 * SEC);
        let cons: BTreeSet<&str> = self.plan.procs.iter().filter(|p| p.actors.iter().any(|a| a["kind"] == "cons" || a["kind"] == "raw")).map(|p| p.name.as_str()).collect();
        let mut hosts = BTreeSet::new();
        for (_, e) in h.of("agent_start") {
            if cons.contains(e.v["name"].as_str().unwrap_or("")) {
                hosts.insert(e.v["h"].as_u64().unwrap_or(0) as usize);
            }
        }
        // when something happened
        let mut act: Vec<u64> = vec![];
        for e in &h.ev {
            let x = e.v["e"].as_str().unwrap_or("");
            let busy = match x {
                "call" | "ret" => !matches!(e.v["op"].as_str().unwrap_or(""), "ping" | "metrics" | "st" | "count" | "countc" | "version"),
                "k_conn" | "k_end" | "health" | "ping" | "log" | "mark" | "snap" => false,
                "fault" => e.v["k"] != "snap",
                _ => true,
            };
            if busy {
                act.push(e.t);
            }
        }
        for c in h.accs.iter().filter(|c| hosts.contains(&c.host)) {
            act.push(c.t);
            act.extend(c.end_c);
            act.extend(c.end_s);
        }
        act.sort();
        let open: Vec<(u64, u64)> = h.calls.iter().filter(|c| matches!(c.op.as_str(), "ins" | "cancel")).map(|c| (c.t0, c.t1.unwrap_or(u64::MAX))).collect();
        for c in h.calls.iter().filter(|c| c.op == "metrics" && c.ok()) {
            let t = c.t0;
            if t < q {
                continue;
            }
            let a = t - q;
            let k = act.partition_point(|x| *x < a);
            if act.get(k).is_some_and(|x| *x <= c.t1.unwrap()) || !h.clear(a, c.t1.unwrap()) || open.iter().any(|o| o.0 <= t && o.1 >= a) {
                continue;
            }
            let Some(inc) = h.incs.iter().find(|i| i.t0 <= a && i.t1 > t) else { continue };
            if sig.iter().any(|s| *s >= inc.t0 && *s <= t) {
                continue;
            }
            self.n("quiet_moments", 1);
            let g = |k: &str| c.r["m"][k].as_f64().unwrap_or(0.0);
            // backlog
            if let Some(s) = self.run.states.iter().find(|s| s.t >= a && s.t <= t && !s.hyp && s.ready && s.bad.is_none()) {
                let n = s.chunks.len();
                let got = g("chunks_in_backlog_count");
                if got != n as f64 {
                    self.bad("backlog-gauge", format!("after {} s of quiet, at {}: chunks_in_backlog_count is {got}, but {n} chunks wait", q / SEC, secs(t)));
                }
                let (mut lo, mut hi) = (0.0, 0.0);
                for (sid, _) in s.chunks.keys() {
                    let cs = s.one(*sid).and_then(|x| x.cs);
                    lo += cs.unwrap_or(0) as f64;
                    hi += cs.unwrap_or(1) as f64;
                }
                let got = g("operations_in_backlog_count");
                if got < lo - 0.001 * lo || got > hi + 0.001 * hi {
                    self.bad("operations-gauge", format!("after {} s of quiet, at {}: operations_in_backlog_count is {got}, but about {hi} operations wait in {n} chunks", q / SEC, secs(t)));
                }
                self.n("backlog_compared", 1);
                if n > 0 {
                    self.n("backlog_compared_nonempty", 1);
                }
            }
            // connections
            let mine = h.accs.iter().filter(|x| hosts.contains(&x.host) && x.t < a && x.t >= inc.t0);
            let (mut lo, mut hi) = (0, 0);
            for x in mine {
                if x.end_s.is_none_or(|e| e > t) {
                    hi += 1;
                    if x.end_c.is_none_or(|e| e > t) {
                        lo += 1;
                    }
                }
            }
            let got = g("consumers_connected_count");
            if got < lo as f64 || got > hi as f64 {
                self.bad("consumers-gauge", format!("after {} s of quiet, at {}: consumers_connected_count is {got}, but {hi} consumers are connected", q / SEC, secs(t)));
            }
            self.n("connections_compared", 1);
            if hi > 0 {
                self.n("connections_compared_nonempty", 1);
            }
            // reservations
            let exp = self.plan.srv.expiry_ms * MS;
            let db = self.run.states.iter().find(|s| s.t >= a && s.t <= t && !s.hyp && s.ready && s.bad.is_none());
            let mut last: BTreeMap<(i64, i64), (usize, i64)> = BTreeMap::new();
            for (gi, gr) in h.grants.iter().enumerate().filter(|(_, x)| x.t <= t && x.t >= inc.t0) {
                for ch in &gr.ch {
                    last.insert((ch.s, ch.i), (gi, ch.r));
                }
            }
            let (mut lo, mut hi) = (0u64, 0u64);
            for ((s, i), (gi, _)) in &last {
                let gr = &h.grants[*gi];
                if gr.t + exp + 1500 * MS < a {
                    continue;
                }
                let mut sure = gr.t_req >= inc.t0 && gr.t_req + exp > t + SEC;
                if gr.raw {
                    match h.conns.get(&gr.c).map(|x| (x.end_c, x.end_s)) {
                        Some((_, Some(e))) if e < a => continue,
                        Some((None, None)) => {}
                        _ => sure = false,
                    }
                } else {
                    if h.of("agent_end").any(|(_, e)| e.v["p"].as_u64() == Some(gr.proc_ as u64) && e.t >= gr.t && e.t < a) {
                        continue;
                    }
                    if h.host_ends.get(&gr.host).is_some_and(|v| v.iter().any(|x| x.0 >= gr.t_req && x.0 <= t)) {
                        sure = false;
                    }
                }
                let who = |c: &str, raw: bool| if raw { c.to_string() } else { c.rsplit_once('.').map_or(c, |x| x.0).to_string() };
                let holder = who(&gr.c, gr.raw);
                let mut gone = false;
                for r in h.reps.iter().filter(|r| (r.s, r.i) == (*s, *i) && r.t <= t && r.idx > gr.i_req) {
                    if who(&r.c, r.raw) == holder && r.sent && r.idx > gr.i {
                        gone = true;
                    } else {
                        sure = false;
                    }
                }
                if gone {
                    continue;
                }
                if db.is_none_or(|d| !d.chunks.contains_key(&(*s, *i))) {
                    sure = false;
                }
                hi += 1;
                lo += sure as u64;
            }
            for r in h.reqs.iter().filter(|r| r.grant.is_none() && (r.t >= inc.t0 || !h.conns.contains_key(&r.c)) && r.t <= t) {
                if h.conns.get(&r.c).is_none_or(|x| x.end_s.is_none_or(|e| e >= a)) {
                    hi += r.max;
                }
            }
            let got = g("reserver_chunks_reserved_count");
            if got < lo as f64 || got > hi as f64 {
                self.bad("reserved-gauge", format!("after {} s of quiet, at {}: reserver_chunks_reserved_count is {got}, but {} are reserved", q / SEC, secs(t), if lo == hi { format!("{lo} chunks") } else { format!("{lo} to {hi} chunks") }));
            }
            self.n("reservations_compared", 1);
            if lo > 0 {
                self.n("reservations_compared_nonempty", 1);
            }
        }
    }
    /// Since when the outage matters: a lock is always met (the log is checkpointed ten times
    /// a second, the check wants it as well); a stalled disk only if something is to be written.
    fn stuck(&self, w: &(u64, u64, char), from: u64) -> Option<u64> {
        match w.2 {
            'l' => return Some(from),
            's' => {}
            // reads may be answered from memory, and nothing is written
            _ => return None,
        }
        self.h.calls.iter().filter(|c| c.op == "ins" && c.t0 >= from && c.t0 < w.1).map(|c| c.t0 + 2 * SEC).min()
    }
}
