//! Heartbeats (P14).
use crate::kernel::{MS, SEC};
use crate::oracle::*;

/// Something that keeps one peer (or the server) from answering.
struct Dist {
    a: u64,
    b: u64,
    kind: String,
}
impl<'a> Ck<'a> {
    /// When the server stood still.
    fn stalls(&self) -> Vec<(u64, u64)> {
        self.h.of("fault").filter(|(_, e)| e.v["k"] == "pause" && e.v["a"]["who"] == "server").map(|(_, e)| (e.t, (e.t + e.v["a"]["ms"].as_u64().unwrap_or(0) * MS).min(self.h.t_heal.max(e.t)))).collect()
    }
    fn peer_dist(&self, host: usize, name: &str, conn: Option<&str>) -> Vec<Dist> {
        let h = self.h;
        let _ = host;
        let mut v: Vec<Dist> = vec![];
        for (_, e) in h.of("fault").filter(|(_, e)| e.v["a"]["who"] == name) {
            let ms = e.v["a"]["ms"].as_u64().unwrap_or(0);
            let b = match e.v["k"].as_str().unwrap_or("") {
                "cut" | "pause" => (e.t + ms * MS).min(h.t_heal.max(e.t)),
                _ => u64::MAX,
            };
            let mut kind = e.v["k"].as_str().unwrap_or("").to_string();
            if kind == "cut" {
                kind = format!("cut-{}", e.v["a"]["dir"].as_str().unwrap_or(""));
            }
            v.push(Dist { a: e.t, b, kind });
        }
        if let Some(c) = conn {
            for (i, e) in h.of("freeze").filter(|(_, e)| e.v["c"] == c) {
                let b = h.ev[i..].iter().find(|x| x.v["e"] == "thaw" && x.v["c"] == c).map_or(u64::MAX, |x| x.t);
                v.push(Dist { a: e.t, b, kind: "freeze".into() });
            }
        }
        v
    }
    pub fn beats(&mut self) {
        let h = self.h;
        let hb = self.plan.srv.hb_ms * MS;
        let m = self.plan.srv.miss;
        let spike = self.plan.kern.spike_max_ms * MS + self.plan.kern.lat_max_us * 1000 + self.plan.kern.delay_max_us * 1000;
        let slack = 400 * MS + 4 * spike;
        let budget = (m + 2) * hb + slack;
        let stalls = self.stalls();
        let meet = |v: &[(u64, u64)], a: u64, b: u64| v.iter().any(|(x, y)| *x <= b && *y >= a);
        let name_of = |host: usize| -> String { h.ev.iter().find(|e| e.v["e"] == "agent_start" && e.v["h"].as_u64() == Some(host as u64)).map(|e| e.v["name"].as_str().unwrap_or("").to_string()).unwrap_or_default() };
        let sigint = h.of("sigint").next().is_some();
        for c in h.conns.values() {
            let name = name_of(c.host);
            let ds = self.peer_dist(c.host, &name, Some(&c.c));
            // ---- a silent peer is noticed
            for d in ds.iter() {
                if c.t + 300 * MS > d.a || c.end() < d.a || d.b.saturating_sub(d.a) < budget || d.a + budget > h.t_heal.min(h.t_end) || !h.same_inc(c.t, d.a + budget) || sigint {
                    continue;
                }
                if meet(&stalls, d.a.saturating_sub(2 * SEC), d.a + budget) || (d.kind != "freeze" && ds.iter().any(|o| o.a != d.a && o.a <= d.a + budget && o.b >= d.a)) {
                    continue;
                }
                // only the way to the peer is cut, and the peer says something by itself
                if d.kind == "cut-from" && (h.reqs.iter().any(|r| r.c == c.c && r.t + SEC >= d.a && r.t <= d.a + budget) || h.reps.iter().any(|r| r.c == c.c && r.t + SEC >= d.a && r.t <= d.a + budget)) {
                    continue;
                }
                // the server may be sending it something that does not get through
                let pending = h.reqs.iter().any(|r| r.c == c.c && r.t <= d.a + budget && r.grant.is_none_or(|g| h.grants[g].t + SEC >= d.a));
                let budget = if pending { budget + (m + 1) * hb } else { budget };
                if d.b.saturating_sub(d.a) < budget || d.a + budget > h.t_heal.min(h.t_end) {
                    continue;
                }
                self.n("silent_peers", 1);
                self.n(&format!("silent_by_{}", d.kind), 1);
                let e = c.end_s.unwrap_or(u64::MAX);
                if e > d.a + budget {
                    self.bad("dead-kept", format!("connection {} is silent ({}) from {}, but the server (heartbeat {} ms, {m} may be missed) closes it {}", c.c, d.kind, secs(d.a), hb / MS, if e == u64::MAX { "never".into() } else { format!("only at {}", secs(e)) }));
                    continue;
                }
                // and what it held is given to somebody else
                for g in h.grants.iter().filter(|g| g.c == c.c && g.t < d.a) {
                    for x in &g.ch {
                        if h.reps.iter().any(|r| (r.c == c.c || (!r.fail && r.t <= e + 2500 * MS)) && (r.s, r.i) == (x.s, x.i)) {
                            continue;
                        }
                        let lim = e + 2500 * MS;
                        if lim > h.t_end.min(h.t_heal) || meet(&stalls, e, lim) || !h.same_inc(c.t, lim) {
                            continue;
                        }
                        self.n("chunks_released_by_silence", 1);
                        let again = h.grants.iter().any(|o| o.i > g.i && o.t <= lim && o.ch.iter().any(|y| (y.s, y.i) == (x.s, x.i)));
                        // a request of another silent peer may have got it, or of a client whose connection is broken
                        let taken = h.reqs.iter().any(|r| r.c != c.c && !r.c.starts_with('w') && r.t <= lim && r.grant.is_none_or(|j| h.grants[j].t > lim) && h.conns.get(&r.c).is_none_or(|k| k.end_s.is_none_or(|t| t > e)))
                            || h.calls.iter().any(|k| k.op == "res" && k.t0 <= lim && k.t1.is_none_or(|t| t > lim) && !self.peer_dist(0, k.a["c"].as_str().and_then(|x| x.split_once('.')).map_or("", |x| x.0), None).is_empty());
                        // somebody of the live ones is idle throughout
                        let idle = h.reqs.iter().any(|r| r.c.starts_with('w') && r.t + 200 * MS < e && r.grant.is_none_or(|j| h.grants[j].t > lim) && h.conns.get(&r.c).is_some_and(|k| k.end() > lim));
                        if !again && !taken && idle {
                            self.bad("not-released", format!("chunk {}/{} of connection {}, silent from {} and closed at {}, is not available until {} although somebody waits for work", x.s, x.i, c.c, secs(d.a), secs(e), secs(lim)));
                        }
                    }
                }
            }
            // ---- a peer that answers is kept
            let Some(t) = c.end_s else { continue };
            if c.end_c.is_some_and(|x| x <= t) || sigint || !h.incs.iter().any(|i| i.t0 <= c.t && i.t1 > t + MS) || t > h.t_end {
                continue;
            }
            let w = 2 * ((m + 2) * hb + SEC);
            let near: Vec<&Dist> = ds.iter().filter(|d| d.a <= t && d.b.saturating_add(w) >= t).collect();
            let stalled = meet(&stalls, t.saturating_sub(w), t);
            if !self.excused(&near, stalled, c.t, t) {
                self.bad("live-closed", format!("connection {} (open since {}) answers heartbeats in time, but the server (heartbeat {} ms, {m} may be missed) closes it at {}{}", c.c, secs(c.t), hb / MS, secs(t), if stalled { " after having stood still itself" } else { "" }));
            }
        }
        // how long connections were kept
        for c in h.conns.values() {
            let e = c.end().min(h.t_end);
            if e - c.t > (m + 2) * hb {
                self.n("connections_outliving_the_budget", 1);
            }
            for (a, b) in &stalls {
                if c.t < *a && e > *b && b - a > (m + 2) * hb {
                    self.n("connections_surviving_a_stalled_server", 1);
                }
            }
        }
        // ---- the real client
        let mut ok: std::collections::BTreeMap<String, Vec<(u64, bool)>> = Default::default();
        for (_, e) in h.of("health") {
            ok.entry(e.v["a"].as_str().unwrap_or("").to_string()).or_default().push((e.t, e.v["ok"] == true));
        }
        for (name, v) in &ok {
            let ds = self.peer_dist(0, name, None);
            // silence of the server, seen from this client: (from, to, sudden)
            let mut sil: Vec<(u64, u64, &str)> = ds.iter().filter(|d| matches!(d.kind.as_str(), "cut-both" | "cut-from" | "halfopen")).map(|d| (d.a, d.b, "unreachable")).collect();
            sil.extend(stalls.iter().map(|s| (s.0, s.1, "standing still")));
            for i in &h.incs {
                if i.how == "power" {
                    sil.push((i.t1, u64::MAX, "without power"));
                } else if i.how == "kill" {
                    sil.push((i.t1, u64::MAX, "killed"));
                }
            }
            for (a, b, why) in &sil {
                let bound = if *why == "killed" { slack } else { budget };
                if b.saturating_sub(*a) < bound || a + bound > h.t_end.min(h.t_heal) {
                    continue;
                }
                // in good health before
                let Some(j) = v.iter().rposition(|x| x.0 <= *a) else { continue };
                if !v[j].1 || v[j].0 + 300 * MS > *a {
                    continue;
                }
                let end = h.ev.iter().filter(|e| e.v["e"] == "agent_end" && e.v["name"] == name.as_str()).map(|e| e.t).min().unwrap_or(u64::MAX);
                if end < a + bound || ds.iter().any(|d| (d.kind == "pause" || d.kind == "cut-to" || *why == "killed") && d.a <= a + bound && d.b.saturating_add(2 * SEC) >= *a) {
                    continue;
                }
                // messages from before may have been held up, and reach it only now
                if ds.iter().any(|d| d.a < *a && d.b.saturating_add(2 * SEC) >= *a) {
                    continue;
                }
                // it lost its connection anyway, and built up a new one, perhaps before anybody looked
                let ip = h.ev.iter().find(|e| e.v["e"] == "agent_start" && e.v["name"] == name.as_str()).map(|e| e.v["ip"].clone());
                if *why == "unreachable" && h.of("k_conn").any(|(_, e)| Some(&e.v["ip"]) == ip.as_ref() && e.t > *a && e.t <= a + bound) {
                    continue;
                }
                let id = h.calls.iter().any(|c| c.a["c"].as_str().is_some_and(|x| x.starts_with(name.as_str())) && c.t1.is_some_and(|t| t >= *a && t <= a + bound) && !c.ok());
                if id {
                    continue;
                }
                self.n("silent_servers", 1);
                if v.get(j + 1).is_none_or(|x| x.0 > a + bound) {
                    self.bad("client-unaware", format!("the server is {why} from {}, but client {name} (heartbeat {} ms, {m} may be missed) {}", secs(*a), hb / MS, v.get(j + 1).map_or("never notices".into(), |x| format!("reports that only at {}", secs(x.0)))));
                }
            }
            // healthy while the server answers
            let mut up = false;
            for (t, o) in v {
                if *o {
                    up = true;
                    continue;
                }
                if !up {
                    continue;
                }
                let w = 2 * ((m + 2) * hb + SEC);
                let near: Vec<&Dist> = ds.iter().filter(|d| d.a <= *t && d.b.saturating_add(w) >= *t).collect();
                if !h.same_inc(t.saturating_sub(w), *t) && !(t.saturating_sub(w) < h.incs[0].t0 && h.same_inc(h.incs[0].t0, *t)) {
                    continue;
                }
                let st: Vec<&(u64, u64)> = stalls.iter().filter(|s| s.0 <= *t && s.1 + w >= *t).collect();
                self.n("health_losses_judged", 1);
                if st.iter().any(|s| s.1 - s.0 + 300 * MS + slack >= (m + 1) * hb || m == 0) || (!st.is_empty() && !near.is_empty()) {
                    continue;
                }
                if !self.excused(&near, false, 0, *t) {
                    self.bad("client-unhealthy", format!("client {name} says at {} that it lost the server (heartbeat {} ms, {m} may be missed), which answers all the time", secs(*t), hb / MS));
                }
            }
        }
    }
    /// May a connection have been closed because of what was done to its peer?
    fn excused(&self, near: &[&Dist], stalled: bool, opened: u64, t: u64) -> bool {
        let hb = self.plan.srv.hb_ms * MS;
        let m = self.plan.srv.miss;
        let spike = self.plan.kern.spike_max_ms * MS + self.plan.kern.lat_max_us * 1000 + self.plan.kern.delay_max_us * 1000;
        let _ = t;
        match near {
            [] => stalled && m == 0,
            [d] => {
                let extra = if d.kind.starts_with("cut") { 900 * MS } else { 50 * MS };
                let short = d.b != u64::MAX && d.b - d.a + extra + 4 * spike + 100 * MS < (m + 1) * hb;
                let own = d.kind == "pause" || d.kind == "freeze";
                !short || stalled || d.a < opened + 300 * MS || (own && m == 0)
            }
            _ => true,
        }
    }
}
impl<'a> Ck<'a> {
    // ---- P16 -----------------------------------------------------------------------------
    pub fn expiry(&mut self) {
        let h = self.h;
        let exp = self.plan.srv.expiry_ms * MS;
        let calm = self.plan.opts["calm"] == serde_json::Value::Bool(true);
        let slack = if calm { 500 * MS } else { 1500 * MS };
        let (holds, _) = self.holds();
        // conn and chunk -> expiry notices
        let notices: Vec<(usize, u64, &str, (i64, i64))> = h.of("exp").map(|(i, e)| (i, e.t, e.v["c"].as_str().unwrap_or(""), (e.v["s"].as_i64().unwrap_or(0), e.v["i"].as_i64().unwrap_or(0)))).collect();
        let mut used = vec![false; holds.len()];
        for (i, t, c, x) in &notices {
            let id = format!("{}/{}", x.0, x.1);
            // the latest hold of this connection that may have ended by expiry until then
            let cand = holds.iter().enumerate().filter(|(j, o)| !used[*j] && h.grants[o.g].c == *c && o.c == *x && h.grants[o.g].i < *i && h.grants[o.g].t_req + exp <= *t + MS).map(|(j, _)| j).next();
            let Some(j) = cand else {
                let own = holds.iter().filter(|o| h.grants[o.g].c == *c && o.c == *x && h.grants[o.g].i < *i).count();
                if own == 0 {
                    self.bad("not-mine", format!("{c} is told at {} that its reservation of chunk {id} expired, which it does not have", secs(*t)));
                } else {
                    let g = holds.iter().filter(|o| h.grants[o.g].c == *c && o.c == *x && h.grants[o.g].i < *i).last().unwrap();
                    self.bad("early-notice", format!("{c} asked at {} for chunks and was given {id} at {}; already at {} it is told that this reservation expired (after {} ms), once too often or too early", secs(h.grants[g.g].t_req), secs(g.a1), secs(*t), exp / MS));
                }
                continue;
            };
            used[j] = true;
            self.n("expiry_notices", 1);
        }
        // ---- told in time
        for o in &holds {
            let g = &h.grants[o.g];
            if !g.raw {
                continue;
            }
            let lim = o.a1 + exp + slack;
            let Some(conn) = h.conns.get(&g.c) else { continue };
            // nothing else ended it: no report by anyone, connection open, not granted again on this connection
            if conn.end() < lim || !h.clear(o.a0.saturating_sub(200 * MS), lim) || lim > h.t_end.min(h.t_heal) {
                continue;
            }
            if h.reps.iter().any(|r| (r.s, r.i) == o.c && r.idx > g.i_req && r.t < lim) || h.reps.iter().any(|r| (r.s, r.i) == o.c && r.idx <= g.i_req && r.t + 2 * SEC > g.t_req) {
                continue;
            }
            if holds.iter().any(|p| !std::ptr::eq(p, o) && p.c == o.c && p.a0 <= lim && h.grants[p.g].i > g.i && h.grants[p.g].c == g.c) {
                continue;
            }
            // real clients give back on their own what expired
            if holds.iter().any(|p| p.c == o.c && !h.grants[p.g].raw && p.a0 <= lim) {
                continue;
            }
            self.n("expiries_due", 1);
            if !notices.iter().any(|n| n.2 == g.c && n.3 == o.c && n.0 > g.i && n.1 <= lim) {
                self.bad("not-told", format!("{} holds chunk {}/{} from {} at the latest, but is not told until {} that this expired (after {} ms)", g.c, o.c.0, o.c.1, secs(o.a1), secs(lim), exp / MS));
            }
        }
        // ---- not given to others before
        for o in &holds {
            for p in &holds {
                // (whichever of the two was given away first: the answers may have been under way for long)
                if o.c == p.c && o.g != p.g && o.a1 < p.a1 && p.a1 < o.b0 && o.a1 < p.b0 && h.grants[o.g].c != h.grants[p.g].c && h.grants[o.g].raw {
                    self.bad("early-regrant", format!("chunk {}/{} is given to {} at {} and to {} at {}; the reservation lasts {} ms", o.c.0, o.c.1, h.grants[o.g].c, secs(o.a1), h.grants[p.g].c, secs(p.a1), exp / MS));
                }
            }
            if holds.iter().any(|p| p.c == o.c && p.a1 >= o.a1 + exp && h.grants[p.g].c != h.grants[o.g].c) {
                self.n("taken_over_after_expiry", 1);
            }
        }
        // ---- a report counts, also a late one
        for r in h.reps.iter().filter(|r| !r.fail && r.raw && r.sent) {
            let Some(c) = h.conns.get(&r.c) else { continue };
            let lag = slack + 500 * MS;
            if c.end() < r.t + lag || !h.clear(r.t.saturating_sub(200 * MS), r.t + lag) {
                continue;
            }
            let Some(g) = h.grants.iter().filter(|g| g.c == r.c && g.i < r.idx && g.ch.iter().any(|x| (x.s, x.i) == (r.s, r.i))).last() else { continue };
            let Some(d) = self.run.states.iter().find(|d| !d.hyp && d.ready && d.t >= r.t + lag) else { continue };
            let Some(s) = d.one(r.s) else { continue };
            if s.st != 'P' {
                continue;
            }
            let late = r.t > g.t + exp;
            self.n(if late { "late_reports_followed" } else if r.t + 100 * MS > g.t + exp { "reports_at_the_last_moment_followed" } else { "reports_followed" }, 1);
            if !d.done.contains_key(&(r.s, r.i)) {
                self.bad("uncounted", format!("chunk {}/{}, given to {} at {}, is reported done at {} ({}) and still not completed at {}", r.s, r.i, r.c, secs(g.t), secs(r.t), if late { "after the reservation expired" } else { "before the reservation expired" }, secs(d.t)));
            }
        }
        self.waking(2500 * MS);
    }
}
