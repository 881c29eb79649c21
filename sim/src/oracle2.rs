//! More properties over a finished run.
use crate::hist::*;
use crate::kernel::{MS, SEC};
use crate::oracle::*;

/// An interval in which a chunk (None: any chunk) may be reserved.
pub struct May {
    pub c: Option<(i64, i64)>,
    pub a: u64,
    pub b: u64,
}
impl<'a> Ck<'a> {
    /// How long the server may take to notice that a peer has gone silent.
    pub fn hb_budget(&self) -> u64 {
        self.plan.srv.hb_ms * (self.plan.srv.miss + 2) * MS + SEC
    }
    /// When the server surely has noticed the end of a consumer connection.
    pub fn conn_gone(&self, c: &ConnH) -> Option<u64> {
        match (c.end_s, c.end_c) {
            (Some(s), _) => Some(s + SEC),
            (None, Some(e)) => Some(e + self.hb_budget()),
            _ => None,
        }
    }
    /// Everything that may be reserved, and how long at most, from what clients saw.
    pub fn may_hold(&self) -> Vec<May> {
        let h = self.h;
        let exp = self.plan.srv.expiry_ms * MS + 1500 * MS;
        let mut v = vec![];
        for g in &h.grants {
            let a = if h.clear(g.t.saturating_sub(2 * SEC), g.t) { g.t_req.max(g.t.saturating_sub(2 * SEC)) } else { g.t_req };
            let gone = if g.raw { h.conns.get(&g.c).and_then(|c| self.conn_gone(c)).unwrap_or(u64::MAX) } else { u64::MAX };
            for c in &g.ch {
                let rep = h.reps.iter().filter(|r| r.c == g.c && (r.s, r.i) == (c.s, c.i) && r.idx > g.i && r.fail).map(|r| r.t + 1500 * MS).min().unwrap_or(u64::MAX);
                v.push(May { c: Some((c.s, c.i)), a, b: gone.min(rep).min(g.t.saturating_add(exp)) });
            }
        }
        // requests whose answer nobody saw
        for r in h.reqs.iter().filter(|r| r.grant.is_none()) {
            let Some(c) = h.conns.get(&r.c) else { continue };
            let end = c.end();
            if end < h.t_end {
                let a = if h.clear(end.saturating_sub(2 * SEC), end) { r.t.max(end.saturating_sub(2 * SEC)) } else { r.t };
                v.push(May { c: None, a, b: self.conn_gone(c).unwrap_or(u64::MAX).min(end.saturating_add(exp)) });
            } else {
                v.push(May { c: None, a: h.t_end.saturating_sub(2 * SEC), b: u64::MAX });
            }
        }
        for c in h.calls.iter().filter(|c| c.op == "res" && !c.ok()) {
            let host_end = h.host_ends.get(&c.host).and_then(|v| v.iter().map(|x| x.0).filter(|t| *t >= c.t0).max());
            match (c.t1, host_end) {
                (Some(t1), _) => v.push(May { c: None, a: c.t0, b: t1 + exp }),
                (None, Some(e)) => v.push(May { c: None, a: c.t0, b: e + self.hb_budget() + exp }),
                (None, None) => v.push(May { c: None, a: h.t_end.saturating_sub(2 * SEC), b: u64::MAX }),
            }
        }
        v
    }
    /// P09: nobody is left waiting while there is work.
    pub fn waking(&mut self, bound: u64) {
        let h = self.h;
        let imgs: Vec<_> = self.run.states.iter().filter(|d| !d.hyp && d.ready).collect();
        let may = self.may_hold();
        // intervals in which somebody waits for an answer
        let mut waits: Vec<(u64, u64, String)> = vec![];
        for r in &h.reqs {
            let e = r.grant.map_or(u64::MAX, |g| h.grants[g].t).min(h.conns.get(&r.c).map_or(0, |c| c.end()));
            let frozen = h.of("freeze").any(|(_, e)| e.v["c"] == r.c.as_str());
            if !frozen {
                waits.push((r.t, e.min(h.t_end), format!("{} (since {:.3}s)", r.c, r.t as f64 / 1e9)));
            }
            if let Some(g) = r.grant {
                let l = (h.grants[g].t - r.t) / (100 * MS);
                self.n(if l > 0 { "requests_that_waited" } else { "requests_answered_at_once" }, 1);
            }
        }
        for c in h.calls.iter().filter(|c| c.op == "res") {
            let e = c.t1.unwrap_or(u64::MAX).min(h.host_ends.get(&c.host).and_then(|v| v.iter().map(|x| x.0).filter(|t| *t >= c.t0).min()).unwrap_or(u64::MAX));
            waits.push((c.t0, e.min(h.t_end), c.a["c"].as_str().unwrap_or("").to_string()));
        }
        for y in &imgs {
            let Some(x) = imgs.iter().rev().find(|x| x.t + bound <= y.t) else { continue };
            if !h.clear(x.t.saturating_sub(500 * MS), y.t) {
                continue;
            }
            let Some(w) = waits.iter().find(|w| w.0 + 500 * MS <= x.t && w.1 > y.t + 500 * MS) else { continue };
            self.n("waits_judged", 1);
            if may.iter().any(|m| m.c.is_none() && m.a <= y.t && m.b >= x.t) {
                continue;
            }
            for (c, v) in &y.chunks {
                if x.chunks.get(c).is_some_and(|o| o.0 == v.0) && !may.iter().any(|m| m.c == Some(*c) && m.a <= y.t && m.b >= x.t) {
                    self.bad("not-woken", format!("chunk {}/{} is available from {:.3}s (at least) to {:.3}s, but {} is left waiting for work", c.0, c.1, x.t as f64 / 1e9, y.t as f64 / 1e9, w.2));
                    return;
                }
            }
        }
    }
}
