//! The order in which chunks are handed out (P10, P11).
use crate::kernel::{MS, SEC};
use crate::oracle::*;
use serde_json::Value;
use std::collections::BTreeMap;

/// A reservation as its holder saw it: it may exist during [a0, b1], and surely
/// exists during [a1, b0].
pub struct Hold {
    pub c: (i64, i64),
    pub g: usize,
    pub a0: u64,
    pub a1: u64,
    pub b0: u64,
    pub b1: u64,
}
fn parse(s: &Value) -> (Vec<String>, String) {
    let mut keys = vec![];
    let mut x = s;
    while let Some(a) = x.as_array() {
        keys.push(a[0].as_str().unwrap_or("").to_string());
        x = &a[1];
    }
    (keys, x.as_str().unwrap_or("").to_string())
}
impl<'a> Ck<'a> {
    /// All reservations, and the intervals in which any chunk may be reserved unseen.
    pub fn holds(&self) -> (Vec<Hold>, Vec<(u64, u64)>) {
        let h = self.h;
        let exp = self.plan.srv.expiry_ms * MS;
        // reports that ended the reservation they were about, unless that ended before the given time
        let ender: Vec<u64> = h
            .reps
            .iter()
            .map(|r| {
                let Some(g) = h.grants.iter().rev().find(|g| g.c == r.c && g.i < r.idx && g.ch.iter().any(|c| (c.s, c.i) == (r.s, r.i))) else { return 0 };
                let first = !h.reps.iter().any(|x| x.c == r.c && (x.s, x.i) == (r.s, r.i) && x.idx > g.i && x.idx < r.idx);
                if first && g.raw { h.conns.get(&g.c).map_or(0, |c| c.end()).min(g.t_req.saturating_add(exp)) } else { 0 }
            })
            .collect();
        let mut v = vec![];
        for (gi, g) in h.grants.iter().enumerate() {
            let inc_end = h.incs.iter().find(|i| i.t0 <= g.t && i.t1 > g.t).map_or(u64::MAX, |i| i.t1);
            let a0 = if !self.plan.kern.edge_long && h.clear(g.t.saturating_sub(SEC), g.t) { g.t_req.max(g.t.saturating_sub(800 * MS)) } else { g.t_req };
            let conn = if g.raw { h.conns.get(&g.c) } else { None };
            let (end, gone) = if g.raw {
                (conn.map_or(u64::MAX, |c| c.end()), conn.and_then(|c| self.conn_gone(c)).unwrap_or(u64::MAX))
            } else {
                // a real client: the ends of its host's connections from here on
                let e: Vec<u64> = h.host_ends.get(&g.host).map_or(vec![], |v| v.iter().map(|x| x.0).filter(|t| *t >= g.t).collect());
                (e.iter().min().copied().unwrap_or(u64::MAX), e.iter().max().map_or(u64::MAX, |t| t + self.hb_budget()))
            };
            for c in &g.ch {
                let rep = h.reps.iter().filter(|r| r.c == g.c && (r.s, r.i) == (c.s, c.i) && r.idx > g.i).map(|r| r.t).min().unwrap_or(u64::MAX);
                // somebody else's report: how that affects this reservation is another property's matter
                // (also a report of its own that was still under way when the chunk was granted again)
                let other = h.reps.iter().enumerate().filter(|(k, r)| !(r.idx < g.i && ender[*k] > g.t)).map(|(_, r)| r).filter(|r| (r.c != g.c || r.idx <= g.i) && (r.s, r.i) == (c.s, c.i) && r.t + 1500 * MS > a0).map(|r| r.t).min().unwrap_or(u64::MAX);
                let slow = if self.plan.kern.edge_long { 4 * SEC } else { 0 };
                let settle = slow + if rep != u64::MAX && h.clear(rep, rep.saturating_add(300 * MS)) { 250 * MS } else { 800 * MS };
                v.push(Hold {
                    c: (c.s, c.i), g: gi, a0, a1: g.t,
                    b0: end.min(rep).min(other).min(a0.saturating_add(exp)).min(inc_end),
                    b1: gone.min(rep.saturating_add(settle)).min(g.t.saturating_add(exp + slow + 800 * MS)).min(inc_end),
                });
            }
        }
        let mut u = vec![];
        for r in h.reqs.iter().filter(|r| r.grant.is_none()) {
            let b = h.conns.get(&r.c).and_then(|c| self.conn_gone(c)).unwrap_or(u64::MAX);
            // an unanswered request matters only once something could have been granted and the answer lost
            u.push((r.t, b));
        }
        for c in h.calls.iter().filter(|c| c.op == "res" && !c.ok()) {
            u.push((c.t0, c.t1.unwrap_or(h.t_end).saturating_add(exp + SEC)));
        }
        (v, u)
    }
    pub fn order(&mut self, pd: bool) {
        let h = self.h;
        let (holds, unseen) = self.holds();
        let imgs: Vec<_> = self.run.states.iter().filter(|d| !d.hyp && d.ready).collect();
        let mut series: BTreeMap<Vec<(i64, i64)>, Vec<(i64, i64)>> = BTreeMap::new();
        for (gi, g) in h.grants.iter().enumerate() {
            if g.ch.len() as u64 > g.max {
                self.bad("too-many", format!("{} asked for {} chunks and got {} at {:.3}s", g.c, g.max, g.ch.len(), g.t as f64 / 1e9));
            }
            let mut ids: Vec<_> = g.ch.iter().map(|c| (c.s, c.i)).collect();
            ids.sort_unstable();
            ids.dedup();
            if ids.len() != g.ch.len() {
                self.bad("twice", format!("{} got the same chunk twice in one answer at {:.3}s", g.c, g.t as f64 / 1e9));
            }
            self.n("grants", 1);
            if !g.raw || g.t - g.t_req > 300 * MS {
                continue;
            }
            let (t0, t1) = (g.t_req, g.t);
            if !h.clear(t0.saturating_sub(500 * MS), t1) || unseen.iter().any(|u| u.0 <= t1 && u.1 >= t0) {
                self.n("not_judged_unsettled", 1);
                dbgo(format!("unclear {} {:.3}", g.c, t1 as f64/1e9));
                continue;
            }
            let Some(x) = imgs.iter().rev().find(|d| d.t <= t0) else { continue };
            let Some(y) = imgs.iter().find(|d| d.t >= t1) else { continue };
            // Whatever else goes on: what was available all the time is handed out, in order.
            if y.t - x.t <= 900 * MS {
                // (given back long enough before: the failure of everybody who had it is on record)
                let past = imgs.iter().rev().find(|d| d.t + 1500 * MS <= t0);
                let mut had: BTreeMap<(i64, i64), i64> = BTreeMap::new();
                for (_, o) in h.grants.iter().enumerate().filter(|(k, o)| *k != gi && o.t_req <= t1) {
                    for c in &o.ch {
                        *had.entry((c.s, c.i)).or_insert(0) += 1;
                    }
                }
                let back = |c: &(i64, i64)| had.get(c).is_none_or(|r| past.and_then(|p| p.chunks.get(c)).is_some_and(|v| v.0 >= *r));
                let free: Vec<(i64, i64)> = x.chunks.keys().filter(|c| y.chunks.contains_key(c) && !ids.contains(c) && back(c)).filter(|c| !holds.iter().any(|o| o.g != gi && o.c == **c && o.a0 <= t1 && o.b1 >= t0)).copied().collect();
                let (keys, base) = parse(&g.strat);
                self.n("answers_judged_while_others_ask", u64::from(!free.is_empty()));
                if (ids.len() as u64) < g.max && !free.is_empty() {
                    self.bad("fewer", format!("{} asked for {} chunks ({}) at {:.3}s and got {} at {:.3}s although {} more, e.g. {:?}, were available all the time", g.c, g.max, g.strat, t0 as f64 / 1e9, ids.len(), t1 as f64 / 1e9, free.len(), free[0]));
                    continue;
                }
                let worse = match base.as_str() {
                    "oldest" => ids.iter().find_map(|c| free.iter().find(|f| f.0 < c.0).map(|f| (*c, *f))),
                    "newest" => ids.iter().find_map(|c| free.iter().find(|f| f.0 > c.0).map(|f| (*c, *f))),
                    _ => None,
                };
                if let (true, false, Some((c, f))) = (keys.is_empty(), pd, worse) {
                    self.bad("order", format!("{} asked for {} ({}) at {:.3}s and got {c:?} at {:.3}s although {f:?} was available all the time", g.c, g.max, g.strat, t0 as f64 / 1e9, t1 as f64 / 1e9));
                    continue;
                }
            }
            if y.t - x.t > 900 * MS || !x.chunks.keys().eq(y.chunks.keys()) {
                self.n("not_judged_changing", 1);
                dbgo(format!("changing {} {:.3} x {:.3} y {:.3} {}", g.c, t1 as f64/1e9, x.t as f64/1e9, y.t as f64/1e9, x.chunks.keys().eq(y.chunks.keys())));
                continue;
            }
            // a reservation of a chunk that has been completed matters no more
            let may: Vec<&Hold> = holds.iter().filter(|o| o.g != gi && o.a0 <= t1 && o.b1 >= t0 && (pd || x.chunks.contains_key(&o.c))).collect();
            if may.iter().any(|o| !(o.a1 <= t0 && o.b0 >= t1)) {
                { for o in may.iter().filter(|o| !(o.a1 <= t0 && o.b0 >= t1)) {dbgo(format!("unsettled {} {:.3} by {:?} of {} {:.3} {:.3} {:.3} {:.3}", g.c, t1 as f64/1e9, o.c, h.grants[o.g].c, o.a0 as f64/1e9, o.a1 as f64/1e9, o.b0 as f64/1e9, o.b1 as f64/1e9));} }
                self.n("not_judged_unsettled", 1);
                continue;
            }
            let held: Vec<(i64, i64)> = may.iter().map(|o| o.c).collect();
            let avail: Vec<(i64, i64)> = x.chunks.keys().filter(|c| !held.contains(c)).copied().collect();
            if let Some(c) = ids.iter().find(|c| !avail.contains(c)) {
                self.bad("not-available", format!("{} got chunk {}/{} at {:.3}s, which was not available", g.c, c.0, c.1, t1 as f64 / 1e9));
                continue;
            }
            let (keys, base) = parse(&g.strat);
            let n = avail.len().min(g.max as usize);
            self.n("answers_judged", 1);
            if ids.len() < n {
                self.bad("fewer", format!("{} asked for {} chunks ({}) and got {} at {:.3}s while {} were available", g.c, g.max, g.strat, ids.len(), t1 as f64 / 1e9, avail.len()));
                continue;
            }
            if pd == keys.is_empty() {
                continue;
            }
            // what is in flight, per key and value
            let mut ok = true;
            let mut cnt: BTreeMap<(&str, i64), i64> = BTreeMap::new();
            for c in &held {
                let Some(ins) = h.ins_of(c.0) else { ok = false; break };
                for k in &keys {
                    if let Some(v) = ins.sm.get(k) {
                        *cnt.entry((k.as_str(), *v)).or_insert(0) += 1;
                    }
                }
            }
            let mut rank = |c: &(i64, i64)| -> Vec<i64> {
                let Some(ins) = h.ins_of(c.0) else {
                    ok = false;
                    return vec![];
                };
                let mut v: Vec<i64> = keys.iter().map(|k| ins.sm.get(k).and_then(|v| cnt.get(&(k.as_str(), *v))).copied().unwrap_or(0)).collect();
                v.push(match base.as_str() {
                    "oldest" => c.0,
                    "newest" => -c.0,
                    _ => 0,
                });
                v
            };
            let mut all: Vec<Vec<i64>> = avail.iter().map(&mut rank).collect();
            let mut got: Vec<Vec<i64>> = ids.iter().map(&mut rank).collect();
            if !ok {
                self.n("not_judged_unknown", 1);
                continue;
            }
            all.sort();
            got.sort();
            all.dedup_by(|_, _| false);
            self.n(if pd { "preferences_judged" } else { "orders_judged" }, 1);
            if !cnt.is_empty() {
                self.n("with_work_in_flight", 1);
            }
            if all.first() != all.last() {
                self.n("with_a_choice", 1);
            }
            if got[..] != all[..got.len()] {
                let f = |v: &[Vec<i64>]| format!("{v:?}");
                self.bad(if pd { "preference" } else { "order" }, format!("{} asked for {} ({}) at {:.3}s and got {:?} with ranks {} although ranks {} were available (in flight: {:?})",
                    g.c, g.max, g.strat, t1 as f64 / 1e9, ids, f(&got), f(&all[..got.len()]), cnt));
            }
            if base == "random" && keys.is_empty() && g.max == 1 && ids.len() == 1 {
                series.entry(avail.clone()).or_default().push(ids[0]);
            }
        }
        for (a, v) in &series {
            if a.len() >= 8 && v.len() >= 24 {
                self.n("random_series_judged", 1);
                if v.iter().all(|x| x == &v[0]) {
                    self.bad("not-random", format!("{} requests with the random strategy in the same situation with {} available chunks all got {}/{}", v.len(), a.len(), v[0].0, v[0].1));
                }
            }
        }
        // earlier inserted means smaller id
        if !self.plan.faults.iter().any(|f| f.k == "clock") {
            let mut ins: Vec<(u64, u64, i64)> = h.calls.iter().filter(|c| c.op == "ins" && c.ok()).filter_map(|c| Some((c.t0, c.t1?, c.u("sid")?))).collect();
            ins.sort();
            for i in 0..ins.len() {
                for j in 0..ins.len() {
                    if ins[i].1 < ins[j].0 && ins[i].2 >= ins[j].2 {
                        self.bad("id-order", format!("submission {} was inserted before {}", ins[i].2, ins[j].2));
                    }
                }
            }
        }
    }
}
fn dbgo(s: String) {
    use std::io::Write;
    if let Ok(p) = std::env::var("SIMQ_DBG") {
        let _ = writeln!(std::fs::OpenOptions::new().append(true).create(true).open(p).unwrap(), "{s}");
    }
}
