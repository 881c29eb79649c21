//! Power loss (P20) and shutdown (P22).
use crate::db::DbState;
use crate::kernel::{MS, SEC};
use crate::oracle::*;
use serde_json::Value;

impl<'a> Ck<'a> {
    /// Power losses of the server: (time, event index).
    pub fn power_losses(&self) -> Vec<(u64, usize)> {
        let armed = self.plan.faults.iter().any(|f| f.k == "arm" && f.a["power"] == Value::Bool(true));
        // (the power can also fail while the server is down, before what it left behind has reached the disk)
        let mut v: Vec<(u64, usize)> = self.h.of("srv_end").filter(|(_, e)| e.v["how"] == "power" || (armed && e.v["how"] == "armed")).map(|(i, e)| (e.t, i)).collect();
        v.extend(self.h.of("fault").filter(|(_, e)| e.v["k"] == "power").map(|(i, e)| (e.t, i)));
        v.sort_unstable();
        v
    }
    /// Does `d` contain everything that `o`, an earlier state, contains?
    fn misses(d: &DbState, o: &DbState) -> Option<String> {
        for (id, v) in &o.subs {
            let Some(a) = v.first() else { continue };
            let Some(b) = d.one(*id) else { return Some(format!("submission {id}")) };
            if a.st != 'P' && a.st != b.st {
                return Some(format!("the end of submission {id} ({})", a.st));
            }
        }
        for c in o.done.keys() {
            if !d.done.contains_key(c) {
                return Some(format!("the completion of chunk {}/{}", c.0, c.1));
            }
        }
        for (c, x) in &o.chunks {
            if d.chunks.get(c).is_some_and(|y| y.0 < x.0) {
                return Some(format!("a failure of chunk {}/{}", c.0, c.1));
            }
        }
        None
    }
    /// Something in `d` that started at event `from` or later, but before `to`.
    fn newer(&self, d: &DbState, from: usize, to: usize) -> Option<String> {
        let h = self.h;
        for id in d.subs.keys() {
            if let Some(i) = h.ins_of(*id) {
                if i.i0 >= from && i.i0 < to {
                    return Some(format!("submission {id}"));
                }
            }
        }
        for (s, i) in d.done.keys() {
            let first = h.reps.iter().filter(|r| !r.fail && (r.s, r.i) == (*s, *i)).map(|r| r.idx).min();
            if first.is_some_and(|x| x >= from && x < to) {
                return Some(format!("the completion of chunk {s}/{i}"));
            }
        }
        for (id, v) in &d.subs {
            if v[0].st == 'X' {
                let first = h.calls.iter().filter(|c| c.op == "cancel" && (c.a["sid"].as_i64() == Some(*id) || c.u("q") == Some(*id) || h.sid_tag.get(id).is_some_and(|t| c.a["tag"] == t.as_str()))).map(|c| c.i0).min();
                if first.is_some_and(|x| x >= from && x < to) {
                    return Some(format!("the cancellation of submission {id}"));
                }
            }
        }
        None
    }
    pub fn power(&mut self) {
        let lag = self.plan.opts["durable_ms"].as_u64().unwrap_or(6500) * MS;
        let losses = self.power_losses();
        let mut marks: Vec<(u64, usize)> = vec![(0, 0)];
        marks.extend(&losses);
        let judge_age = self.plan.opts["calm_disk"] == Value::Bool(true);
        for d in &self.run.states {
            let what = if d.hyp { "power loss" } else { "image" };
            self.n(if d.hyp { "power_loss_images_checked" } else { "images_checked" }, 1);
            self.sound(d, what);
            if d.bad.is_some() || !d.ready {
                continue;
            }
            // ---- a prefix of the committed history
            let after = losses.iter().rposition(|l| l.0 == d.t && l.1 <= d.ev && !d.hyp);
            // the epoch whose history this image cuts short
            let k = match after {
                Some(j) => Some(j),
                None if d.hyp => Some(marks.iter().rposition(|m| m.1 <= d.ev).unwrap_or(0)),
                None => None,
            };
            if let Some(k) = k {
                let (t0, e0) = marks[k];
                let e1 = if after.is_some() { losses[k].1 } else { d.ev };
                // the state right after the previous loss counts as well
                for o in self.run.states.iter().filter(|o| !o.hyp && o.ready && o.bad.is_none() && o.t >= t0 && o.ev >= e0 && o.ev < e1 && o.t < d.t) {
                    self.n("prefix_pairs_compared", 1);
                    if let Some(m) = Self::misses(d, o) {
                        if let Some(n) = self.newer(d, o.ev, e1) {
                            self.bad("no-prefix", format!("{what} at {}: {m} (committed by {}) is gone although {n} (started later) is there", secs(d.t), secs(o.t)));
                            break;
                        }
                    }
                }
            }
            // ---- what is old enough survives
            if judge_age {
                self.lossy = losses.iter().filter(|l| l.1 <= d.ev).map(|l| (l.0.saturating_sub(lag), l.0)).collect();
                if d.hyp {
                    self.lossy.push((d.t.saturating_sub(lag), d.t));
                }
                self.kept(d, d.ev, what);
            }
        }
        self.lossy.clear();
        self.n("power_losses", losses.len() as u64);
        self.drained();
    }
    pub fn shutdown(&mut self) {
        let h = self.h;
        let calm = self.plan.opts["calm"] == Value::Bool(true);
        let sig: Vec<(u64, usize)> = h.of("sigint").map(|(i, e)| (e.t, i)).collect();
        for (t, i) in &sig {
            let Some(inc) = h.incs.iter().find(|x| x.t0 <= *t && x.t1 >= *t) else { continue };
            let bound = 500 * MS + if calm { 700 * MS } else { 3 * SEC };
            if !h.bad.iter().all(|(x, y)| *y < *t || *x > t + bound) || t + bound > h.t_end {
                continue;
            }
            self.n("shutdowns", 1);
            if inc.t1 > t + bound {
                self.bad("no-exit", format!("told to stop at {}, the server {}", secs(*t), if inc.t1 == u64::MAX { "never exits".into() } else { format!("exits only at {}", secs(inc.t1)) }));
            }
            // the connections of consumers are closed at once
            if calm && t - inc.t0 > SEC {
                for c in h.conns.values() {
                    if c.t + 100 * MS > *t || c.t < inc.t0 || c.end() <= *t {
                        continue;
                    }
                    // busy with a request or a report of this connection?
                    let near = |x: u64| x + 250 * MS > *t && x < t + 450 * MS;
                    if h.reqs.iter().any(|r| r.c == c.c && near(r.t)) || h.reps.iter().any(|r| r.c == c.c && near(r.t)) || h.grants.iter().any(|g| g.c == c.c && near(g.t)) {
                        continue;
                    }
                    self.n("connections_closed_on_shutdown", 1);
                    if c.end() > t + 400 * MS {
                        self.bad("not-closed", format!("told to stop at {}, the server leaves connection {} open until {}", secs(*t), c.c, secs(c.end().min(h.t_end))));
                    }
                }
            }
            let _ = i;
        }
        for (_, e) in h.of("srv_end").filter(|(_, e)| e.v["how"] == "sigint") {
            if e.v["code"] != 0 {
                // before it listens for signals it may simply be terminated
                let early = h.incs.iter().any(|x| x.t1 == e.t && e.t - x.t0 < 2 * SEC);
                if !early {
                    self.bad("exit-code", format!("told to stop, the server exits with code {} at {}", e.v["code"], secs(e.t)));
                }
            }
        }
        self.durable();
        self.drained();
    }
}
impl<'a> Ck<'a> {
    // ---- P12 -----------------------------------------------------------------------------
    pub fn retention(&mut self) {
        let h = self.h;
        let age = (self.plan.srv.age_s * SEC) as i64;
        let jumps: Vec<(u64, i64)> = h.of("fault").filter(|(_, e)| e.v["k"] == "clock").map(|(_, e)| (e.t, e.v["a"]["off_ms"].as_i64().unwrap_or(0) * MS as i64)).collect();
        let wall = |t: u64| t as i64 + jumps.iter().filter(|j| j.0 <= t).map(|j| j.1).sum::<i64>();
        // smallest and largest time the server's clock showed in [a, b]
        let span = |a: u64, b: u64| {
            let mut v = vec![wall(a), wall(b)];
            for j in jumps.iter().filter(|j| j.0 > a && j.0 <= b) {
                v.push(wall(j.0));
                v.push(wall(j.0 - 1));
            }
            (*v.iter().min().unwrap(), *v.iter().max().unwrap())
        };
        let forward = jumps.iter().all(|j| j.1 >= 0);
        let imgs: Vec<&DbState> = self.run.states.iter().chain(std::iter::once(&self.run.last)).filter(|d| !d.hyp && d.ready && d.bad.is_none()).collect();
        for d in &imgs {
            self.n("images_checked", 1);
            self.sound(d, "image");
        }
        let mut ids: Vec<i64> = imgs.iter().flat_map(|d| d.subs.keys().copied()).chain(h.calls.iter().filter(|c| c.op == "ins" && c.ok()).filter_map(|c| c.u("sid"))).collect();
        ids.sort_unstable();
        ids.dedup();
        for id in ids {
            // known to exist from here on
            let acked = h.calls.iter().filter(|c| c.op == "ins" && c.ok() && c.u("sid") == Some(id)).filter_map(|c| c.t1).min();
            let mut seen = acked;
            let mut last_p = h.ins_of(id).map_or(0, |i| i.t0);
            let mut term: Option<(u64, u64)> = None; // finished within this interval
            let mut gone: Option<u64> = None;
            let mut prev = 0;
            for d in &imgs {
                match d.one(id) {
                    Some(s) => {
                        if let Some(g) = gone {
                            self.bad("back", format!("submission {id} was gone at {} and is back at {}", secs(g), secs(d.t)));
                        }
                        seen.get_or_insert(d.t);
                        if s.st == 'P' {
                            last_p = d.t;
                        } else {
                            term.get_or_insert((last_p, d.t));
                            let (a, b) = term.unwrap();
                            if forward && d.t > b {
                                // due once the clock shows more than age after the latest possible end
                                let due = span(a, b).1 + age;
                                if wall(d.t) > due {
                                    // since when?
                                    let mut since = (due - wall(0)).max(0) as u64;
                                    let mut off = 0;
                                    for j in &jumps {
                                        off += j.1;
                                        if since > j.0 {
                                            since = (due - wall(0) - off).max(j.0 as i64) as u64;
                                        }
                                    }
                                    let since = since.max(b);
                                    self.n("overdue_seen", 1);
                                    if d.t > since + 70 * SEC {
                                        self.bad("too-late", format!("submission {id} ended by {} and is still there at {}, {} s after it was older than {} s", secs(b), secs(d.t), (d.t - since) / SEC, self.plan.srv.age_s));
                                    }
                                }
                            }
                        }
                    }
                    None => {
                        if seen.is_some_and(|s| s < d.t) && gone.is_none() {
                            gone = Some(d.t);
                            self.n("removals", 1);
                            let (a, b) = term.unwrap_or((last_p, d.t));
                            let most = span(prev.max(a), d.t).1 - span(a, b).0;
                            if most < age - 50 * MS as i64 {
                                let was = if term.is_some() { "ended not before" } else { "was in progress at" };
                                self.bad("too-early", format!("submission {id} {was} {} (by the server's clock at most {:.1} s ago) and is gone at {}; the maximum age is {} s", secs(a), most as f64 / 1e9, secs(d.t), self.plan.srv.age_s));
                            }
                        }
                    }
                }
                prev = d.t;
            }
            if term.is_some() && gone.is_none() {
                self.n("finished_and_kept", 1);
            }
            if term.is_none() && gone.is_none() {
                self.n("in_progress_and_kept", 1);
            }
        }
        // what is there is reported, what is gone is not
        for c in h.calls.iter().filter(|c| c.op == "st" && c.ok()) {
            let (Some(t1), Some(id)) = (c.t1, c.u("q")) else { continue };
            let a = imgs.iter().rev().find(|d| d.t <= c.t0).map(|d| d.one(id).is_some());
            let b = imgs.iter().find(|d| d.t >= t1).map(|d| d.one(id).is_some());
            let none = c.r["st"] == "none";
            match (a, b) {
                (Some(true), Some(true)) if none => self.bad("hidden", format!("submission {id} is reported as unknown at {}", secs(t1))),
                (Some(false), Some(false)) if !none && imgs.iter().any(|d| d.t <= c.t0 && d.one(id).is_some()) => self.bad("ghost", format!("submission {id}, gone, is reported as {} at {}", c.r["st"], secs(t1))),
                _ => self.n("statuses_compared", 1),
            }
        }
    }
}
