//! The properties, as checks over one finished run: database images taken while
//! the run proceeded and the recorded history of everything clients saw.
use crate::content;
use crate::db::DbState;
use crate::driver::Run;
use crate::hist::*;
use crate::kernel::{MS, SEC};
use crate::plan::Plan;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

pub struct Ck<'a> {
    pub plan: &'a Plan,
    pub run: &'a Run,
    pub h: &'a Hist,
    pub viol: Vec<(String, String)>,
    pub cov: BTreeMap<String, u64>,
    /// facts learnt in these intervals need not have survived
    pub lossy: Vec<(u64, u64)>,
}
pub fn secs(t: u64) -> String {
    format!("{:.3}s", t as f64 / 1e9)
}
/// Rank of a reported state and its progress, for "never goes backwards".
fn stc(s: &str) -> char {
    s.chars().next().unwrap_or('?')
}
impl<'a> Ck<'a> {
    pub fn new(plan: &'a Plan, run: &'a Run, h: &'a Hist) -> Self {
        Ck { plan, run, h, viol: vec![], cov: BTreeMap::new(), lossy: vec![] }
    }
    pub fn bad(&mut self, key: &str, msg: String) {
        if self.viol.len() < 40 {
            self.viol.push((key.into(), msg));
        }
    }
    pub fn n(&mut self, k: &str, n: u64) {
        *self.cov.entry(k.into()).or_insert(0) += n;
    }
    fn images(&self) -> Vec<&'a DbState> {
        self.run.states.iter().filter(|d| !d.hyp).chain(std::iter::once(&self.run.last)).collect()
    }

    // ---- P02: structural soundness of every image a crash may leave --------------------
    pub fn db_sound(&mut self) {
        for d in self.images() {
            self.n("images_checked", 1);
            self.sound(d, "image");
        }
    }
    pub fn sound(&mut self, d: &DbState, what: &str) {
        let at = format!("{what} at {}", secs(d.t));
        if let Some(b) = &d.bad {
            return self.bad("corrupt", format!("{at}: database damaged: {b}"));
        }
        if !d.ready {
            return;
        }
        let maxr = self.plan.srv.retries as i64;
        for (id, v) in &d.subs {
            if v.len() != 1 {
                let st: String = v.iter().map(|s| s.st).collect();
                self.bad("two-states", format!("{at}: submission {id} is in states {st} at once"));
                continue;
            }
            let s = &v[0];
            let pend: Vec<i64> = d.chunks.range((*id, i64::MIN)..=(*id, i64::MAX)).map(|(k, _)| k.1).collect();
            let done: BTreeSet<i64> = d.done.range((*id, i64::MIN)..=(*id, i64::MAX)).map(|(k, _)| k.1).collect();
            let failed: Vec<i64> = d.failed.range((*id, i64::MIN)..=(*id, i64::MAX)).map(|(k, _)| k.1).collect();
            self.n(match s.st { 'P' => "subs_in_progress", 'C' => "subs_completed", 'F' => "subs_failed", _ => "subs_cancelled" }, 1);
            match s.st {
                'P' => {
                    let mut all: Vec<i64> = pend.iter().copied().chain(done.iter().copied()).collect();
                    all.sort_unstable();
                    let want: Vec<i64> = (0..s.total).collect();
                    if all != want {
                        self.bad("chunk-set", format!("{at}: in-progress submission {id} of {} chunks has pending {pend:?} and completed {done:?}", s.total));
                    }
                    if s.done != Some(done.len() as i64) {
                        self.bad("progress", format!("{at}: in-progress submission {id} records progress {:?} but has {} completed chunks", s.done, done.len()));
                    }
                    if s.total == 0 || done.len() as i64 == s.total {
                        self.bad("unfinished", format!("{at}: submission {id} with all {} chunks completed is still in progress", s.total));
                    }
                    if !failed.is_empty() {
                        self.bad("failed-chunk", format!("{at}: in-progress submission {id} has failed chunks {failed:?}"));
                    }
                    for i in &pend {
                        if d.chunks[&(*id, *i)].0 >= maxr {
                            self.bad("retries", format!("{at}: chunk {id}/{i} still pending after {} failures (maximum {maxr})", d.chunks[&(*id, *i)].0));
                        }
                    }
                }
                'C' => {
                    let want: BTreeSet<i64> = (0..s.total).collect();
                    if done != want || !pend.is_empty() {
                        self.bad("completed-chunks", format!("{at}: completed submission {id} of {} chunks has completed {done:?} pending {pend:?}", s.total));
                    }
                }
                'F' => {
                    let f = s.fci.unwrap_or(-1);
                    if !pend.is_empty() {
                        self.bad("failed-pending", format!("{at}: failed submission {id} still has pending chunks {pend:?}"));
                    }
                    match d.failed.get(&(*id, f)) {
                        Some((_, false, _, _)) => {}
                        _ => self.bad("failed-row", format!("{at}: failed submission {id} names chunk {f}, which is not recorded as failed")),
                    }
                    if s.done.is_some_and(|x| x != done.len() as i64) {
                        self.bad("progress", format!("{at}: failed submission {id} records progress {:?} but has {} completed chunks", s.done, done.len()));
                    }
                    let mut all: Vec<i64> = failed.iter().copied().chain(done.iter().copied()).collect();
                    all.sort_unstable();
                    if all != (0..s.total).collect::<Vec<_>>() {
                        self.bad("chunk-set", format!("{at}: failed submission {id} of {} chunks has failed/skipped {failed:?} and completed {done:?}", s.total));
                    }
                }
                _ => {
                    if !pend.is_empty() {
                        self.bad("cancelled-pending", format!("{at}: cancelled submission {id} still has pending chunks {pend:?}"));
                    }
                    if s.done != Some(done.len() as i64) {
                        self.bad("progress", format!("{at}: cancelled submission {id} records progress {:?} but has {} completed chunks", s.done, done.len()));
                    }
                }
            }
        }
        for (n, ids) in [
            ("pending chunk", d.chunks.keys().map(|k| k.0).collect::<BTreeSet<_>>()),
            ("completed chunk", d.done.keys().map(|k| k.0).collect()),
            ("failed chunk", d.failed.keys().map(|k| k.0).collect()),
            ("metadata", d.meta.keys().copied().collect()),
        ] {
            for id in ids {
                if !d.subs.contains_key(&id) {
                    self.bad("orphan", format!("{at}: {n} of submission {id}, which does not exist"));
                }
            }
        }
    }

    // ---- P01: nothing acknowledged is lost ---------------------------------------------
    /// Does image `d` still contain everything clients knew by event `upto`?
    pub fn kept(&mut self, d: &DbState, upto: usize, what: &str) {
        let at = format!("{what} at {}", secs(d.t));
        let h = self.h;
        let lossy = self.lossy.clone();
        let gone = |t: u64| lossy.iter().any(|(a, b)| *a <= t && t <= *b);
        let mut checks = 0;
        for c in &h.calls {
            let Some(i1) = c.i1 else { continue };
            if i1 >= upto || !c.ok() || gone(c.t1.unwrap_or(0)) {
                continue;
            }
            match c.op.as_str() {
                "ins" => {
                    let Some(id) = c.u("sid") else { continue };
                    checks += 1;
                    let Some(s) = d.one(id) else {
                        self.bad("lost-insert", format!("{at}: submission {id} (acknowledged at {}) is gone", secs(c.t1.unwrap())));
                        continue;
                    };
                    let Some(ins) = h.ins.get(c.a["tag"].as_str().unwrap_or("")) else { continue };
                    if s.total != ins.n || s.md != ins.md || s.prefix != ins.prefix {
                        self.bad("lost-attr", format!("{at}: acknowledged submission {id} has wrong attributes"));
                    }
                    if d.meta.get(&id).cloned().unwrap_or_default() != ins.sm {
                        self.bad("lost-meta", format!("{at}: acknowledged submission {id} has strategic metadata {:?} instead of {:?}", d.meta.get(&id), ins.sm));
                    }
                    if s.st == 'P' {
                        for i in 0..ins.n {
                            match d.chunks.get(&(id, i)) {
                                Some((_, l, x)) => {
                                    if (*l, *x) != ins.sig(i) {
                                        self.bad("lost-content", format!("{at}: chunk {id}/{i} does not have its submitted content"));
                                    }
                                }
                                None if d.done.contains_key(&(id, i)) => {}
                                None => self.bad("lost-chunk", format!("{at}: chunk {id}/{i} of an acknowledged submission is gone")),
                            }
                        }
                    }
                }
                "cancel" if c.r["res"] == "cancelled" => {
                    checks += 1;
                    let id = c.u("q").unwrap_or(0);
                    if d.one(id).map(|s| s.st) != Some('X') {
                        self.bad("lost-cancel", format!("{at}: submission {id} was acknowledged as cancelled but is {:?}", d.one(id).map(|s| s.st)));
                    }
                }
                "st" => {
                    let id = c.u("q").unwrap_or(0);
                    let st = stc(c.r["st"].as_str().unwrap_or("none"));
                    if st == 'n' {
                        continue;
                    }
                    checks += 1;
                    let Some(s) = d.one(id) else {
                        self.bad("lost-known", format!("{at}: submission {id} was reported as {st} but is gone"));
                        continue;
                    };
                    if st != 'P' && s.st != st {
                        self.bad("lost-state", format!("{at}: submission {id} was reported as {st} but is {}", s.st));
                    }
                    if st == 'P' {
                        let dn = c.u("dn").unwrap_or(0);
                        let have = d.completed_of(id);
                        if have < dn || (s.st != 'C' && s.done.is_some_and(|x| x < dn)) {
                            self.bad("lost-progress", format!("{at}: submission {id} was reported with {dn} chunks done, now {have} ({:?})", s.done));
                        }
                    }
                }
                _ => {}
            }
        }
        for g in &h.grants {
            if g.i >= upto || gone(g.t) {
                continue;
            }
            for c in &g.ch {
                checks += 1;
                if d.one(c.s).is_none() {
                    self.bad("lost-known", format!("{at}: submission {} was handed out but is gone", c.s));
                }
                if let Some((r, _, _)) = d.chunks.get(&(c.s, c.i)) {
                    if *r < c.r {
                        self.bad("lost-retries", format!("{at}: chunk {}/{} was handed out with {} failures, now {r}", c.s, c.i, c.r));
                    }
                }
            }
        }
        self.n("durability_facts_checked", checks);
    }
    pub fn durable(&mut self) {
        for d in self.images() {
            if let Some(b) = &d.bad {
                self.bad("corrupt", format!("image at {}: {b}", secs(d.t)));
                continue;
            }
            if !d.ready {
                if self.h.calls.iter().any(|c| c.i1.is_some_and(|i| i < d.ev) && c.op == "ins" && c.ok()) {
                    self.bad("lost-all", format!("image at {}: no queue although submissions were acknowledged", secs(d.t)));
                }
                continue;
            }
            self.n("images_checked", 1);
            self.kept(d, d.ev, "a crash");
        }
        self.monotonic(true);
    }

    // ---- P06 (and, across restarts, P01): statuses only move forward --------------------
    /// `restarts_only`: only compare answers that have a server restart between them.
    pub fn monotonic(&mut self, restarts_only: bool) {
        let h = self.h;
        // facts per submission in order of the completion of the call that established them
        let mut by: BTreeMap<i64, Vec<&Call>> = BTreeMap::new();
        for c in &h.calls {
            if c.i1.is_none() {
                continue;
            }
            match c.op.as_str() {
                "ins" => {
                    if let Some(s) = c.u("sid") {
                        by.entry(s).or_default().push(c);
                    }
                }
                "st" | "cancel" => by.entry(c.r["q"].as_i64().unwrap_or(0)).or_default().push(c),
                _ => {}
            }
        }
        let starts: Vec<u64> = h.incs.iter().skip(1).map(|i| i.t0).collect();
        for (id, v) in by {
            let mut facts: Vec<(usize, u64, char, i64)> = vec![]; // (i1, t1, state, done)
            for c in &v {
                let st = match c.op.as_str() {
                    "ins" => 'P',
                    "st" => stc(c.r["st"].as_str().unwrap_or("-")),
                    _ => match c.r["res"].as_str() {
                        Some("cancelled") => 'X',
                        Some("conflict") => stc(c.r["st"].as_str().unwrap_or("-")),
                        _ => '-',
                    },
                };
                if c.ok() && matches!(st, 'P' | 'C' | 'F' | 'X') {
                    facts.push((c.i1.unwrap(), c.t1.unwrap(), st, c.u("dn").unwrap_or(if st == 'C' { c.u("tot").unwrap_or(0) } else { 0 })));
                }
            }
            for c in &v {
                if c.op == "ins" {
                    continue;
                }
                let prior: Vec<&(usize, u64, char, i64)> =
                    facts.iter().filter(|f| f.0 < c.i0 && (!restarts_only || starts.iter().any(|s| f.1 <= *s && *s <= c.t1.unwrap()))).collect();
                let known = !prior.is_empty();
                self.n("status_answers_compared", prior.len() as u64);
                if !c.ok() {
                    if c.op == "st" && !restarts_only {
                        // the disk does not let the server read it
                        let hit = h.of("fault").filter(|(_, e)| e.v["k"] == "disk").any(|(_, e)| e.t <= c.t1.unwrap() && (e.t + e.v["a"]["ms"].as_u64().unwrap_or(0) * MS).min(h.t_heal.max(e.t)) + 200 * MS >= c.t0);
                        if let Some(code) = c.r["code"].as_u64().filter(|_| !hit) {
                            self.bad("status-error", format!("status of submission {id} answered with HTTP {code} at {} {}", secs(c.t1.unwrap()), c.r["body"]));
                        }
                    }
                    continue;
                }
                let (st, dn) = if c.op == "st" {
                    (stc(c.r["st"].as_str().unwrap_or("-")), c.u("dn"))
                } else {
                    match c.r["res"].as_str() {
                        Some("notfound") => ('n', None),
                        Some("conflict") => (stc(c.r["st"].as_str().unwrap_or("-")), c.u("dn")),
                        _ => ('X', None),
                    }
                };
                if st == 'n' && known {
                    self.bad("unknown", format!("submission {id} is unknown to a {} at {}, after it had been acknowledged or reported", c.op, secs(c.t1.unwrap())));
                    continue;
                }
                for f in prior {
                    if f.2 != 'P' && c.op == "st" && st != f.2 {
                        self.bad("state-left", format!("submission {id} is {st} at {}, but was reported as {} at {}", secs(c.t1.unwrap()), f.2, secs(f.1)));
                    }
                    if f.2 != 'P' && c.op == "cancel" && st != f.2 && c.r["res"] != "cancelled" {
                        self.bad("state-left", format!("cancelling says {st} at {}, but submission {id} was reported as {} at {}", secs(c.t1.unwrap()), f.2, secs(f.1)));
                    }
                    if f.2 != 'P' && c.op == "cancel" && c.r["res"] == "cancelled" {
                        self.bad("state-left", format!("submission {id} was cancelled at {} although it was reported as {} at {}", secs(c.t1.unwrap()), f.2, secs(f.1)));
                    }
                    if let Some(dn) = dn {
                        if dn < f.3 {
                            self.bad("progress-back", format!("submission {id} has {dn} chunks done at {}, but {} were reported at {}", secs(c.t1.unwrap()), f.3, secs(f.1)));
                        }
                        if f.2 == 'X' && st == 'X' && f.3 != 0 && dn != f.3 {
                            self.bad("final-changed", format!("cancelled submission {id} changed its progress from {} to {dn}", f.3));
                        }
                    }
                }
                if st == 'P' && c.u("dn").is_some_and(|d| d >= c.u("tot").unwrap_or(0)) && !restarts_only {
                    self.bad("unfinished", format!("submission {id} is reported as in progress with {}/{} chunks done", c.r["dn"], c.r["tot"]));
                }
            }
        }
    }

    // ---- P03 / P19: exclusive reservations ---------------------------------------------
    /// Holds as the consumers see them; a second grant inside a hold is a violation.
    pub fn exclusive(&mut self) {
        let h = self.h;
        let exp = self.plan.srv.expiry_ms * MS;
        struct Hold {
            g: usize,
            a: u64,
            b: u64,
        }
        let mut by: BTreeMap<(i64, i64), Vec<Hold>> = BTreeMap::new();
        // reports by consumer connection / actor and chunk
        let mut reps: BTreeMap<(&str, i64, i64), Vec<&Rep>> = BTreeMap::new();
        // the tasks of one real client share its connection
        fn client<'x>(c: &'x str, raw: bool) -> &'x str {
            if raw { c } else { c.rsplit_once('.').map_or(c, |x| x.0) }
        }
        for r in &h.reps {
            reps.entry((client(&r.c, r.raw), r.s, r.i)).or_default().push(r);
        }
        let sticky_done = !h.disk_faults && !h.power;
        for (gi, g) in h.grants.iter().enumerate() {
            // conservative end of the connection: either side's end, less the time between
            // the server letting go of the reservations and its socket being closed
            let cend = if g.raw {
                h.conns.get(&g.c).map_or(u64::MAX, |c| c.end())
            } else {
                h.host_ends.get(&g.host).and_then(|v| v.iter().map(|x| x.0).filter(|t| *t >= g.t_req).min()).unwrap_or(u64::MAX)
            };
            let slack = 2 * SEC + h.bad.iter().filter(|(x, y)| *x <= cend && *y + 2 * SEC >= cend).map(|(x, y)| y - x).max().unwrap_or(0);
            let cend = cend.saturating_sub(slack);
            for c in &g.ch {
                // The client library itself reports an expired reservation as failed. Such a
                // report is not in the history, and may end a newer hold of the same client.
                if !g.raw && h.grants[..gi].iter().any(|o| o.host == g.host && !o.raw && o.ch.iter().any(|x| (x.s, x.i) == (c.s, c.i)) && o.t_req + exp <= g.t + 5 * SEC && !reps.get(&(client(&o.c, o.raw), c.s, c.i)).into_iter().flatten().any(|r| r.idx > o.i && r.t <= o.t_req + exp)) {
                    self.n("holds_after_own_expiry", 1);
                    continue;
                }
                // "done" ends the hold, but then the chunk is completed and never offered
                // again; so (unless commits may fail or be lost) only "fail" frees it
                // (also a report about an earlier hold, if it is sent after the request)
                let rep = reps.get(&(client(&g.c, g.raw), c.s, c.i)).into_iter().flatten().filter(|r| r.idx > g.i_req && (r.fail || !sticky_done)).map(|r| r.t).min().unwrap_or(u64::MAX);
                let b = rep.min(cend).min(g.t_req + exp).min(h.t_end + 1);
                if b > g.t {
                    self.n("holds", 1);
                    by.entry((c.s, c.i)).or_default().push(Hold { g: gi, a: g.t, b });
                }
            }
        }
        let mut overlaps = 0;
        for ((s, i), v) in &mut by {
            v.sort_by_key(|x| x.a);
            for x in 0..v.len() {
                for y in x + 1..v.len() {
                    overlaps += 1;
                    if v[y].a < v[x].b {
                        let (ga, gb) = (&h.grants[v[x].g], &h.grants[v[y].g]);
                        let k = if ga.c == gb.c { "same-twice" } else { "double-grant" };
                        self.viol.push((k.into(), format!("chunk {s}/{i}: given to {} at {} (held until at least {}), and to {} at {}", ga.c, secs(ga.t), secs(v[x].b), gb.c, secs(gb.t))));
                    }
                }
            }
        }
        self.n("hold_pairs_compared", overlaps);
        // the same chunk twice in one answer
        for g in &h.grants {
            let set: BTreeSet<(i64, i64)> = g.ch.iter().map(|c| (c.s, c.i)).collect();
            if set.len() != g.ch.len() {
                self.bad("same-twice", format!("{} was given the same chunk twice in one answer at {}", g.c, secs(g.t)));
            }
        }
        // a chunk whose completion was recorded is never handed out to a later request
        for d in self.images() {
            if d.hyp || h.power {
                continue;
            }
            for g in &h.grants {
                if g.i_req > d.ev {
                    for c in &g.ch {
                        if d.done.contains_key(&(c.s, c.i)) {
                            self.bad("completed-granted", format!("chunk {}/{} was recorded as completed at {}, but given to {} at {}", c.s, c.i, secs(d.t), g.c, secs(g.t)));
                        }
                    }
                }
            }
        }
    }

    // ---- P04: everything drains -----------------------------------------------------------
    pub fn drained(&mut self) {
        let h = self.h;
        for (_, e) in h.of("drain_timeout") {
            let left: Vec<String> = e.v["pending"].as_array().into_iter().flatten().take(8).map(|x| x.to_string()).collect();
            self.bad("stuck", format!("submissions {} are still in progress {} ms after faults stopped; pending chunks {}", e.v["open"], self.plan.drain_ms, left.join(" ")));
        }
        self.n("drains", h.of("drained").count() as u64);
        self.server_alive();
    }
    /// The server never exits by itself.
    pub fn server_alive(&mut self) {
        let v: Vec<String> = self.h.of("srv_end").filter(|(_, e)| e.v["how"] == "unexpected").map(|(_, e)| format!("the server exited by itself (code {}) at {}", e.v["code"], secs(e.t))).collect();
        for m in v {
            self.bad("server-exit", m);
        }
    }

    // ---- P05: completion exactly when every chunk was completed ------------------------------
    pub fn completion(&mut self) {
        let h = self.h;
        // first done report (event index) per chunk
        let mut first: BTreeMap<(i64, i64), usize> = BTreeMap::new();
        for r in &h.reps {
            if !r.fail {
                let e = first.entry((r.s, r.i)).or_insert(r.idx);
                *e = (*e).min(r.idx);
            }
        }
        let dones_before = |s: i64, idx: usize| first.range((s, i64::MIN)..=(s, i64::MAX)).filter(|(_, i)| **i < idx).count() as i64;
        for c in &h.calls {
            if c.op != "st" || !c.ok() {
                continue;
            }
            let Some(i1) = c.i1 else { continue };
            let id = c.u("q").unwrap_or(0);
            let n = dones_before(id, i1);
            let tot = c.u("tot").unwrap_or(0);
            match c.r["st"].as_str().unwrap_or("") {
                "C" => {
                    self.n("completed_statuses", 1);
                    if n < tot {
                        self.bad("early-complete", format!("submission {id} is reported as completed at {} after only {n} of {tot} chunks were reported done", secs(c.t1.unwrap())));
                    }
                }
                _ => {
                    if let Some(dn) = c.u("dn") {
                        self.n("progress_statuses", 1);
                        if dn > n || dn > tot {
                            self.bad("over-count", format!("submission {id} is reported with {dn} chunks done at {} after {n} of {tot} were reported done", secs(c.t1.unwrap())));
                        }
                    }
                }
            }
        }
        for g in &h.grants {
            for c in &g.ch {
                let n = dones_before(c.s, g.i);
                if c.v["dn"].as_i64().unwrap_or(0) > n {
                    self.bad("over-count", format!("chunk {}/{} handed out at {} with progress {} after {n} chunks were reported done", c.s, c.i, secs(g.t), c.v["dn"]));
                }
            }
        }
        for d in self.images() {
            if !d.ready {
                continue;
            }
            for (id, v) in &d.subs {
                let n = dones_before(*id, d.ev);
                let s = &v[0];
                if s.st == 'C' && n < s.total {
                    self.bad("early-complete", format!("submission {id} is completed at {} after only {n} of {} chunks were reported done", secs(d.t), s.total));
                }
                let have = d.completed_of(*id);
                if have > n {
                    self.bad("over-count", format!("submission {id} has {have} completed chunks at {} after {n} were reported done", secs(d.t)));
                }
                if s.st == 'P' && (have >= s.total || s.done != Some(have)) {
                    self.bad("miscount", format!("submission {id} is in progress at {} with {have} of {} chunks completed and progress {:?}", secs(d.t), s.total, s.done));
                }
            }
        }
        self.counts();
        // a report of the holder over a healthy connection is counted
        self.promptly_counted();
    }
    /// In the final, quiet phase the counters agree with the states.
    pub fn counts(&mut self) {
        let h = self.h;
        let Some((fi, _)) = h.of("finals").next() else { return };
        let d = &self.run.last;
        let set = |d: &DbState| d.subs.iter().map(|(i, v)| (*i, v[0].st)).collect::<BTreeSet<_>>();
        if self.run.before_finals.as_ref().is_none_or(|b| set(b) != set(d)) {
            return;
        }
        let open = d.open() as i64;
        let comp = d.subs.values().filter(|v| v[0].st == 'C').count() as i64;
        for c in &h.calls {
            if c.i0 < fi || !c.ok() {
                continue;
            }
            let want = match c.op.as_str() {
                "count" => open,
                "countc" => comp,
                _ => continue,
            };
            self.n("counts_compared", 1);
            if c.u("n") != Some(want) {
                self.bad("counts", format!("{} says {}, there are {want}", c.op, c.r["n"]));
            }
        }
    }
    /// A `done` sent by a connection that stays open is recorded within 5 s (fault-free time).
    fn promptly_counted(&mut self) {
        let h = self.h;
        let lag = 5 * SEC;
        for r in &h.reps {
            if r.fail || !r.raw || !r.sent {
                continue;
            }
            let Some(c) = h.conns.get(&r.c) else { continue };
            if c.end() < r.t + lag || !h.clear(r.t.saturating_sub(SEC), r.t + lag) || h.disk_faults {
                continue;
            }
            for d in self.images() {
                if d.hyp || !d.ready || d.t < r.t + lag {
                    continue;
                }
                let Some(s) = d.one(r.s) else { continue };
                self.n("done_reports_followed", 1);
                if matches!(s.st, 'P') && !d.done.contains_key(&(r.s, r.i)) {
                    self.bad("uncounted", format!("chunk {}/{} reported done by {} at {} is still not completed at {}", r.s, r.i, r.c, secs(r.t), secs(d.t)));
                }
                break;
            }
        }
    }

    // ---- P07: retries ------------------------------------------------------------------------
    pub fn retries(&mut self) {
        let h = self.h;
        let maxr = self.plan.srv.retries as i64;
        let auto = self.plan.opts["auto_fail"] == json!(true); // real clients fail chunks on their own
        let mut fails: BTreeMap<(i64, i64), Vec<&Rep>> = BTreeMap::new();
        for r in &h.reps {
            if r.fail {
                fails.entry((r.s, r.i)).or_default().push(r);
            }
        }
        let none = vec![];
        let lag = 3 * SEC;
        for g in &h.grants {
            for c in &g.ch {
                let f = fails.get(&(c.s, c.i)).unwrap_or(&none);
                let most = f.iter().filter(|r| r.idx < g.i).count() as i64;
                self.n("retry_counts_compared", 1);
                if c.r > most && !auto {
                    self.bad("too-many", format!("chunk {}/{} is handed out at {} with {} failures, only {most} were reported", c.s, c.i, secs(g.t), c.r));
                }
                if c.r >= maxr {
                    self.bad("beyond", format!("chunk {}/{} is handed out at {} after {} failures (maximum {maxr})", c.s, c.i, secs(g.t), c.r));
                }
                let least = f
                    .iter()
                    .filter(|r| r.raw && r.sent && r.t + lag < g.t_req && h.conns.get(&r.c).is_some_and(|c| c.end() > r.t + lag) && h.clear(r.t.saturating_sub(SEC), r.t + lag) && !h.disk_faults && !h.power)
                    .count() as i64;
                if c.r < least {
                    self.bad("too-few", format!("chunk {}/{} is handed out at {} with {} failures, although {least} were reported long before", c.s, c.i, secs(g.t), c.r));
                }
            }
        }
        // failed submissions
        let mut seen: BTreeMap<i64, usize> = BTreeMap::new();
        for c in &h.calls {
            if c.op == "st" && c.ok() && c.r["st"] == "F" {
                let id = c.u("q").unwrap_or(0);
                let i1 = c.i1.unwrap();
                let e = seen.entry(id).or_insert(i1);
                *e = (*e).min(i1);
                let fi = c.u("fi").unwrap_or(-1);
                if c.u("fci") != Some(fi) || c.u("fsid") != Some(id) {
                    self.bad("wrong-chunk", format!("failed submission {id} names chunk {fi} but carries chunk {}/{}", c.r["fsid"], c.r["fci"]));
                }
                let f = fails.get(&(id, fi)).unwrap_or(&none);
                let n = f.iter().filter(|r| r.idx < i1).count() as i64;
                self.n("failed_statuses", 1);
                if n < maxr && !auto {
                    self.bad("early-fail", format!("submission {id} failed at {} because of chunk {fi} after {n} failure reports (maximum {maxr})", secs(c.t1.unwrap())));
                }
                let m = c.r["fm"].as_str().unwrap_or("");
                if !auto && !f.iter().any(|r| r.idx < i1 && r.m == m) {
                    self.bad("wrong-failure", format!("failed submission {id} carries failure {m:?}, which nobody reported for chunk {fi}"));
                }
                if let Some(ins) = h.ins_of(id) {
                    let (l, x) = ins.sig(fi);
                    if c.r["fl"].as_i64() != Some(l) || c.r["fh"].as_u64() != Some(x) {
                        self.bad("wrong-content", format!("failed submission {id} does not carry the content of chunk {fi}"));
                    }
                }
            }
        }
        for g in &h.grants {
            for c in &g.ch {
                if seen.get(&c.s).is_some_and(|i| g.i_req > *i) {
                    self.bad("granted-failed", format!("chunk {}/{} of a submission reported as failed was given to {} at {}", c.s, c.i, g.c, secs(g.t)));
                }
            }
        }
        for d in self.images() {
            if !d.ready {
                continue;
            }
            for (id, v) in &d.subs {
                if v[0].st == 'F' && !auto {
                    let fi = v[0].fci.unwrap_or(-1);
                    let n = fails.get(&(*id, fi)).unwrap_or(&none).iter().filter(|r| r.idx < d.ev).count() as i64;
                    if n < maxr {
                        self.bad("early-fail", format!("submission {id} is failed at {} because of chunk {fi} after {n} failure reports (maximum {maxr})", secs(d.t)));
                    }
                }
            }
            for ((s, i), (r, _, _)) in &d.chunks {
                let f = fails.get(&(*s, *i)).unwrap_or(&none);
                let most = f.iter().filter(|x| x.idx < d.ev).count() as i64;
                if *r > most && !auto {
                    self.bad("too-many", format!("chunk {s}/{i} has {r} failures at {}, only {most} were reported", secs(d.t)));
                }
                if *r >= maxr {
                    self.bad("beyond", format!("chunk {s}/{i} is pending at {} after {r} failures (maximum {maxr})", secs(d.t)));
                }
                let least = f
                    .iter()
                    .filter(|x| x.raw && x.sent && x.t + lag < d.t && h.conns.get(&x.c).is_some_and(|c| c.end() > x.t + lag) && h.clear(x.t.saturating_sub(SEC), x.t + lag) && !h.disk_faults && !h.power)
                    .count() as i64;
                if *r < least {
                    self.bad("too-few", format!("chunk {s}/{i} has {r} failures at {}, although {least} were reported long before", secs(d.t)));
                }
            }
        }
    }

    // ---- P08: cancellation --------------------------------------------------------------------
    pub fn cancels(&mut self) {
        let h = self.h;
        let mut ack: BTreeMap<i64, Vec<&Call>> = BTreeMap::new();
        for c in &h.calls {
            if c.op != "cancel" || c.i1.is_none() {
                continue;
            }
            let id = c.u("q").unwrap_or(0);
            if !c.ok() {
                if let Some(code) = c.r["code"].as_u64().filter(|_| !h.disk_faults) {
                    self.bad("cancel-error", format!("cancelling {id} answered with HTTP {code} at {}", secs(c.t1.unwrap())));
                }
                continue;
            }
            self.n("cancel_answers", 1);
            match c.r["res"].as_str().unwrap_or("") {
                "cancelled" => ack.entry(id).or_default().push(c),
                "notfound" => {
                    if h.calls.iter().any(|x| x.op == "ins" && x.ok() && x.u("sid") == Some(id) && x.i1.is_some_and(|i| i < c.i0)) {
                        self.bad("cancel-unknown", format!("cancelling the acknowledged submission {id} says it is unknown at {}", secs(c.t1.unwrap())));
                    }
                }
                _ => {
                    // the reason must be the state it really ended in
                    let st = stc(c.r["st"].as_str().unwrap_or("-"));
                    for d in self.images() {
                        if d.ready && d.ev > c.i1.unwrap() && d.one(id).is_none_or(|s| s.st != st) {
                            self.bad("wrong-reason", format!("cancelling {id} says it is {st} at {}, but it is {:?} at {}", secs(c.t1.unwrap()), d.one(id).map(|s| s.st), secs(d.t)));
                        }
                    }
                    if c.u("sid") != Some(id) {
                        self.bad("wrong-reason", format!("cancelling {id} was answered about submission {}", c.r["sid"]));
                    }
                }
            }
        }
        for d in self.images().into_iter().filter(|d| d.ready) {
            for (id, v) in d.subs.iter().filter(|(_, v)| v.iter().any(|s| s.st == 'X')) {
                self.n("cancelled_in_images", 1);
                if v.len() > 1 {
                    self.bad("two-winners", format!("submission {id} is cancelled and {:?} at {}", v.iter().map(|s| s.st).filter(|s| *s != 'X').collect::<Vec<_>>(), secs(d.t)));
                }
                if d.chunks.range((*id, i64::MIN)..=(*id, i64::MAX)).next().is_some() {
                    self.bad("cancelled-pending", format!("cancelled submission {id} still has pending chunks at {}", secs(d.t)));
                }
            }
        }
        for (id, v) in &ack {
            if v.len() > 1 {
                self.bad("cancelled-twice", format!("submission {id} was successfully cancelled {} times", v.len()));
            }
            let c = v[0];
            let (i0, i1) = (c.i0, c.i1.unwrap());
            for g in &h.grants {
                if g.i_req > i1 && g.ch.iter().any(|x| x.s == *id) {
                    self.bad("granted-cancelled", format!("submission {id} was cancelled at {}, but a chunk of it was given at {} to {} for a request made at {}", secs(c.t1.unwrap()), secs(g.t), g.c, secs(g.t_req)));
                }
            }
            let mut dn: Option<i64> = None;
            for d in self.images() {
                if !d.ready || d.ev <= i1 {
                    continue;
                }
                match d.one(*id) {
                    Some(s) if s.st == 'X' => {
                        if d.chunks.range((*id, i64::MIN)..=(*id, i64::MAX)).next().is_some() {
                            self.bad("cancelled-pending", format!("cancelled submission {id} still has pending chunks at {}", secs(d.t)));
                        }
                        if dn.is_some() && dn != s.done {
                            self.bad("cancel-progress", format!("cancelled submission {id} changed its progress from {dn:?} to {:?}", s.done));
                        }
                        if s.done != Some(d.completed_of(*id)) {
                            self.bad("cancel-progress", format!("cancelled submission {id} says {:?} chunks done but has {}", s.done, d.completed_of(*id)));
                        }
                        dn = s.done;
                    }
                    s => self.bad("not-cancelled", format!("submission {id} was acknowledged as cancelled but is {:?} at {}", s.map(|s| s.st), secs(d.t))),
                }
            }
            // other ways of ending it were not reported before
            for x in &h.calls {
                if x.op == "st" && x.ok() && x.u("q") == Some(*id) {
                    let st = x.r["st"].as_str().unwrap_or("");
                    if matches!(st, "C" | "F") {
                        self.bad("two-winners", format!("submission {id} was acknowledged as cancelled but also reported as {st}"));
                    }
                    if st == "P" && x.i0 > i1 {
                        self.bad("not-cancelled", format!("submission {id} is reported in progress after its cancellation was acknowledged"));
                    }
                    if st == "X" && x.i1.unwrap() < i0 {
                        self.bad("two-winners", format!("submission {id} was already cancelled before the acknowledged cancellation"));
                    }
                }
            }
        }
        for d in self.images() {
            for (id, v) in &d.subs {
                if v[0].st == 'X' && !h.calls.iter().any(|c| c.op == "cancel" && c.a["sid"].as_i64() == Some(*id) && c.i0 < d.ev) {
                    self.bad("uncalled", format!("submission {id} is cancelled at {} although nobody cancelled it", secs(d.t)));
                }
            }
        }
        self.n("cancellations_acknowledged", ack.len() as u64);
    }

    // ---- P13: contents and attributes ------------------------------------------------------------
    pub fn contents(&mut self) {
        let h = self.h;
        let mut carriers: BTreeMap<i64, (String, String)> = BTreeMap::new();
        let mut carry = |me: &mut Self, id: i64, oc: &Value, what: &str| {
            if let Some(o) = oc.as_str() {
                match carriers.get(&id) {
                    None => {
                        carriers.insert(id, (o.into(), what.into()));
                    }
                    Some((p, w)) if p != o => me.bad("carrier", format!("submission {id}: trace carrier {o} in {what}, {p} in {w}")),
                    _ => {}
                }
            }
        };
        for g in &h.grants {
            for c in &g.ch {
                let Some(ins) = h.ins_of(c.s) else { continue };
                self.n("chunks_compared", 1);
                let (l, x) = ins.sig(c.i);
                if c.v["l"].as_i64() != Some(l) || c.v["h"].as_u64() != Some(x) {
                    self.bad("content", format!("chunk {}/{} was given to {} with other content than submitted", c.s, c.i, g.c));
                }
                if c.i < 0 || c.i >= ins.n {
                    self.bad("index", format!("chunk {}/{} does not exist (submission of {} chunks)", c.s, c.i, ins.n));
                }
                self.attrs(c.s, ins, &c.v, "P", "a consumer's answer");
                carry(self, c.s, &c.v["oc"], "a consumer's answer");
            }
        }
        for c in &h.calls {
            let isx = c.op == "st" || (c.op == "cancel" && c.r["res"] == "conflict");
            if !isx || !c.ok() || c.r["st"] == "none" {
                continue;
            }
            let id = c.u("q").unwrap_or(0);
            let Some(ins) = h.ins_of(id) else { continue };
            let st = c.r["st"].as_str().unwrap_or("").to_string();
            self.n(match st.as_str() { "P" => "st_P_compared", "C" => "st_C_compared", "F" => "st_F_compared", _ => "st_X_compared" }, 1);
            self.attrs(id, ins, &c.r, &st, "a status");
            carry(self, id, &c.r["oc"], &format!("a status {st}"));
            if let Some(at) = c.u("at") {
                // server's wall clock; only when nobody changed clocks
                if !h.ev.iter().any(|e| e.v["e"] == "fault" && e.v["k"] == "clock") {
                    let real = |t: u64| ((crate::kernel::REAL_BASE + t) / 1_000_000) as i64;
                    if at < real(ins.t0) - 1000 || at > real(c.t1.unwrap()) + 1000 {
                        self.bad("timestamp", format!("submission {id} is reported as finished at {at}, outside {}..{}", real(ins.t0), real(c.t1.unwrap())));
                    }
                }
            }
        }
        for d in self.images() {
            if !d.ready {
                continue;
            }
            for (id, v) in &d.subs {
                let s = &v[0];
                let Some(ins) = s.md.as_ref().map(|m| content::tag_of(m)).and_then(|t| h.ins.get(&t)).or_else(|| h.ins_of(*id)) else { continue };
                if s.total != ins.n || s.prefix != ins.prefix || s.md != ins.md || (s.st != 'X' && s.cs.unwrap_or(1) != ins.cs.unwrap_or(1)) {
                    self.bad("attr", format!("submission {id} ({}) is stored with total {} prefix {:?} chunk size {:?}", s.st, s.total, s.prefix, s.cs));
                }
                if d.meta.get(id).cloned().unwrap_or_default() != ins.sm {
                    self.bad("meta", format!("submission {id} ({}) is stored with strategic metadata {:?} instead of {:?}", s.st, d.meta.get(id), ins.sm));
                }
                if s.st != 'X' {
                    carry(self, *id, &json!(s.oc), &format!("the stored state {}", s.st));
                }
            }
            for (id, v) in d.subs.iter().filter(|(_, v)| v.len() == 1 && v[0].st == 'P') {
                let have = d.chunks.range((*id, i64::MIN)..=(*id, i64::MAX)).count() as i64 + d.completed_of(*id);
                if have != v[0].total {
                    self.bad("chunks", format!("submission {id} of {} chunks is stored with {have} chunks", v[0].total));
                }
                if v[0].total > 500 {
                    self.n("big_submissions_in_images", 1);
                }
            }
            for ((id, i), (_, l, x)) in &d.chunks {
                if let Some(ins) = h.ins_of(*id) {
                    if (*l, *x) != ins.sig(*i) {
                        self.bad("content", format!("chunk {id}/{i} is stored with other content than submitted"));
                    }
                }
            }
            for ((id, i), (l, x)) in &d.done {
                let want = content::sig(&Some(format!("out:{id}:{i}").into_bytes()));
                if (*l, *x) != want {
                    self.bad("result", format!("the result of chunk {id}/{i} is not what its consumer reported"));
                }
            }
        }
        self.lookups();
    }
    fn attrs(&mut self, id: i64, ins: &Ins, v: &Value, st: &str, what: &str) {
        let md = v["md"].as_str().map(unhex);
        let sm: BTreeMap<String, i64> = v["sm"].as_object().map(|o| o.iter().map(|(k, x)| (k.clone(), x.as_i64().unwrap_or(0))).collect()).unwrap_or_default();
        let mut wrong = vec![];
        if v["sid"].as_i64() != Some(id) {
            wrong.push(format!("id {}", v["sid"]));
        }
        if md != ins.md {
            wrong.push("metadata".into());
        }
        if sm != ins.sm {
            wrong.push(format!("strategic metadata {sm:?} instead of {:?}", ins.sm));
        }
        if v["tot"].as_i64() != Some(ins.n) {
            wrong.push(format!("total {} instead of {}", v["tot"], ins.n));
        }
        if v["px"].as_str() != ins.prefix.as_deref() {
            wrong.push(format!("prefix {} instead of {:?}", v["px"], ins.prefix));
        }
        if st != "X" && v["cs"].as_i64().unwrap_or(0) != ins.cs.unwrap_or(1) {
            wrong.push(format!("chunk size {} instead of {:?}", v["cs"], ins.cs));
        }
        if !wrong.is_empty() {
            self.bad("attr", format!("submission {id} in {what} ({st}) has wrong {}", wrong.join(", ")));
        }
    }
    /// Look-ups in the quiet final phase, against the final state.
    pub fn lookups(&mut self) {
        let h = self.h;
        let Some((fi, _)) = h.of("finals").next() else { return };
        let d = &self.run.last;
        for c in &h.calls {
            if c.i0 < fi || c.i1.is_none() {
                continue;
            }
            match c.op.as_str() {
                "prefix" => {
                    let p = c.a["p"].as_str().unwrap_or("");
                    let have: Vec<i64> = d.subs.iter().filter(|(_, v)| v[0].prefix.as_deref() == Some(p)).map(|(i, _)| *i).collect();
                    self.n("prefix_lookups", 1);
                    if !c.ok() {
                        self.bad("lookup-error", format!("look-up of prefix {p} failed: {}", c.r["err"]));
                        continue;
                    }
                    match c.u("sid") {
                        None if !have.is_empty() => self.bad("prefix", format!("prefix {p} is not found, submission {} ({}) has it", have[0], d.subs[&have[0]][0].st)),
                        Some(x) if !have.contains(&x) => self.bad("prefix", format!("prefix {p} finds {x}, which does not have it")),
                        _ => {}
                    }
                }
                "meta" => {
                    let want: BTreeMap<String, i64> = c.a["sm"].as_object().map(|o| o.iter().map(|(k, x)| (k.clone(), x.as_i64().unwrap_or(0))).collect()).unwrap_or_default();
                    let mut have: Vec<i64> = d.subs.iter().filter(|(i, v)| v[0].st == 'P' && want.iter().all(|(k, x)| d.meta.get(i).and_then(|m| m.get(k)) == Some(x))).map(|(i, _)| *i).collect();
                    have.sort_unstable();
                    self.n("meta_lookups", 1);
                    if !c.ok() {
                        self.bad("lookup-error", format!("look-up by metadata {want:?} failed: {}", c.r["err"]));
                        continue;
                    }
                    if have.len() as u64 > self.plan.srv.maxret {
                        if c.r["too_many"].is_null() {
                            self.bad("meta-lookup", format!("{} submissions match {want:?} (maximum {}), but there was no error", have.len(), self.plan.srv.maxret));
                        }
                    } else {
                        let got: Option<Vec<i64>> = c.r["sids"].as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap_or(0)).collect());
                        if got.as_ref() != Some(&have) {
                            self.bad("meta-lookup", format!("look-up by {want:?} finds {got:?} instead of {have:?}"));
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
