//! Object storage (P18).
use crate::content::*;
use crate::kernel::{MS, SEC};
use crate::oracle::*;
use std::collections::BTreeMap;

struct W {
    v: (i64, u64),
    t0: u64,
    /// known to be in effect from here
    t1: u64,
    ok: bool,
    /// the request may (again) take effect at any later time
    late: bool,
}
impl<'a> Ck<'a> {
    pub fn objects(&mut self) {
        let h = self.h;
        let calm = h.t_heal + 5 * SEC;
        for (_, e) in h.of("agent_panic") {
            self.bad("panic", format!("a client call panics: {}", e.v));
        }
        for (_, e) in h.of("obj_init") {
            self.bad("init", format!("no client can be built: {}", e.v));
        }
        let faults: Vec<u64> = h.of("fault").map(|(_, e)| e.t).chain(h.of("unpause").map(|(_, e)| e.t)).chain(h.of("uncut").map(|(_, e)| e.t)).collect();
        // ---- what was written
        let mut ws: BTreeMap<(String, String, u64), Vec<W>> = BTreeMap::new();
        let g = |v: &serde_json::Value, k: &str| v[k].as_str().unwrap_or("").to_string();
        for c in h.calls.iter().filter(|c| c.op == "put1" || c.op == "store") {
            let (px, ty) = (g(&c.a, "px"), g(&c.a, "ty"));
            let rev = c.a["rev"].as_u64().unwrap_or(0);
            let kind = g(&c.a, "kind");
            let val = |i: u64| {
                let b = chunk(&format!("{px}@{ty}~{rev}"), i, &kind).unwrap_or_default();
                (b.len() as i64, fnv(&b))
            };
            let t1 = c.t1.unwrap_or(u64::MAX);
            let late = t1.saturating_sub(c.t0) > 4 * SEC || faults.iter().any(|f| *f + SEC >= c.t0 && *f <= t1);
            let idx: Vec<u64> = if c.op == "put1" { vec![c.a["i"].as_u64().unwrap_or(0)] } else { (0..c.a["n"].as_u64().unwrap_or(0)).collect() };
            let bad = c.a["bad"].as_u64();
            if c.op == "store" && c.t1.is_some() {
                if c.ok() {
                    if let Some(b) = bad {
                        self.bad("false-success", format!("storing {px}/{ty} succeeds at {} although content {b} could not be had", secs(t1)));
                    } else if c.r["n"].as_u64() != c.a["n"].as_u64() {
                        self.bad("count", format!("storing {} contents as {px}/{ty} reports {} at {}", c.a["n"], c.r["n"], secs(t1)));
                    }
                    self.n("stores_ok", 1);
                } else {
                    self.n(if bad.is_some() { "stores_of_bad_input_refused" } else { "stores_failed" }, 1);
                }
            } else if c.t1.is_some() {
                self.n(if c.ok() { "puts_ok" } else { "puts_failed" }, 1);
            }
            for i in idx {
                // nothing is stored from the content on that could not be had
                if bad.is_some_and(|b| i >= b) {
                    continue;
                }
                ws.entry((px.clone(), ty.clone(), i)).or_default().push(W { v: val(i), t0: c.t0, t1, ok: c.ok(), late });
            }
            if c.t0 > calm && c.t1.is_some() && !c.ok() && bad.is_none() {
                self.bad("still-fails", format!("{} of {px}/{ty} at {} fails ({}) although the store works since {}", c.op, secs(c.t0), c.r["err"], secs(h.t_heal)));
            }
        }
        // ---- what was read
        let none = vec![];
        for c in h.calls.iter().filter(|c| (c.op == "get1" || c.op == "getall") && c.t1.is_some()) {
            let (px, ty) = (g(&c.a, "px"), g(&c.a, "ty"));
            let t1 = c.t1.unwrap();
            let mut reads: Vec<(u64, Option<(i64, u64)>, String)> = vec![];
            if c.op == "get1" {
                let v = c.ok().then(|| (c.r["l"].as_i64().unwrap_or(-9), c.r["h"].as_u64().unwrap_or(0)));
                reads.push((c.a["i"].as_u64().unwrap_or(0), v, c.r["err"].to_string()));
            } else {
                let n = c.a["n"].as_u64().unwrap_or(0);
                let items = c.r["items"].as_array().cloned().unwrap_or_default();
                let cut = c.r["cut"] == true;
                if items.len() as u64 > n || (!cut && items.len() as u64 != n) {
                    self.bad("stream-length", format!("streaming {n} contents of {px}/{ty} at {} yields {} (without an error)", secs(c.t0), items.len()));
                }
                for (i, it) in items.iter().enumerate() {
                    let v = it.as_array().map(|x| (x[0].as_i64().unwrap_or(-9), x[1].as_u64().unwrap_or(0)));
                    reads.push((i as u64, v, it["err"].to_string()));
                }
                self.n("streams", 1);
            }
            for (i, v, err) in reads {
                let w = ws.get(&(px.clone(), ty.clone(), i)).unwrap_or(&none);
                let over = |x: &W| !x.late && x.ok && w.iter().any(|y| y.ok && y.t0 > x.t1 && y.t1 < c.t0);
                // a write that failed may have got through partly, but never later than its call
                let over_failed = |x: &W| !x.late && !x.ok && x.t1 != u64::MAX && w.iter().any(|y| y.ok && y.t0 > x.t1 && y.t1 < c.t0);
                let cand: Vec<&W> = w.iter().filter(|x| x.t0 <= t1 && !over(x) && !over_failed(x)).collect();
                let there = w.iter().any(|x| x.ok && x.t1 < c.t0);
                match v {
                    Some(v) => {
                        self.n("contents_compared", 1);
                        if !cand.iter().any(|x| x.v == v) {
                            let what = if w.is_empty() {
                                "nothing was ever stored there".to_string()
                            } else if w.iter().any(|x| x.v == v) {
                                "that is outdated or not stored yet".to_string()
                            } else {
                                format!("expected one of {:?}", cand.iter().map(|x| x.v).take(4).collect::<Vec<_>>())
                            };
                            self.bad(if w.is_empty() { "phantom" } else { "wrong-content" }, format!("{} of {px}/{ty}/{i} at {} returns {} bytes with hash {}: {what}", c.op, secs(c.t0), v.0, v.1));
                        }
                    }
                    None => {
                        self.n(if there { "errors_reading" } else { "missing_reported" }, 1);
                        if there && c.t0 > calm {
                            self.bad("unreadable", format!("{} of {px}/{ty}/{i} at {} fails ({err}), but it was stored and the store works since {}", c.op, secs(c.t0), secs(h.t_heal)));
                        }
                    }
                }
            }
        }
        // ---- submissions: all results are there in the end
        for c in h.calls.iter().filter(|c| c.op == "st" && c.ok() && c.r["st"] == "C") {
            let Some(px) = c.r["px"].as_str() else { continue };
            let n = c.r["tot"].as_u64().unwrap_or(0);
            for i in 0..n {
                let w = ws.get(&(px.to_string(), "out".to_string(), i)).unwrap_or(&none);
                if !w.iter().any(|x| x.ok && x.t1 <= c.t1.unwrap()) {
                    self.bad("no-result", format!("submission with prefix {px} is completed at {}, but nobody stored a result for chunk {i}", secs(c.t1.unwrap())));
                }
            }
            self.n("submissions_through_the_store", 1);
        }
        let _ = MS;
    }
}
