//! The recorded history of one run, indexed for the oracles.
use crate::content;
use crate::kernel::{MS, k};
use crate::plan::Plan;
use serde_json::Value;
use std::collections::BTreeMap;

pub struct Ev {
    pub t: u64,
    pub host: usize,
    pub proc_: usize,
    pub v: Value,
}
/// A client call with its reply (producer operations, real consumer client calls).
pub struct Call {
    pub host: usize,
    pub proc_: usize,
    pub op: String,
    pub a: Value,
    pub t0: u64,
    pub i0: usize,
    pub t1: Option<u64>,
    pub i1: Option<usize>,
    pub r: Value,
}
impl Call {
    pub fn ok(&self) -> bool {
        self.r["ok"] == Value::Bool(true)
    }
    pub fn u(&self, k: &str) -> Option<i64> {
        self.r[k].as_i64()
    }
}
#[derive(Clone, Debug)]
pub struct GCh {
    pub s: i64,
    pub i: i64,
    pub r: i64,
    pub v: Value,
}
/// Chunks received by a consumer in answer to one reservation request.
pub struct Grant {
    pub c: String,
    pub host: usize,
    pub proc_: usize,
    pub raw: bool,
    pub n: u64,
    pub t_req: u64,
    pub i_req: usize,
    pub t: u64,
    pub i: usize,
    pub max: u64,
    pub strat: Value,
    pub ch: Vec<GCh>,
}
pub struct Req {
    pub c: String,
    pub n: u64,
    pub t: u64,
    pub i: usize,
    pub max: u64,
    pub strat: Value,
    pub host: usize,
    pub grant: Option<usize>,
}
pub struct Rep {
    pub c: String,
    pub host: usize,
    pub raw: bool,
    pub fail: bool,
    pub s: i64,
    pub i: i64,
    pub m: String,
    pub t: u64,
    pub idx: usize,
    pub sent: bool,
}
pub struct ConnH {
    pub c: String,
    pub host: usize,
    pub port: u16,
    pub t: u64,
    pub i: usize,
    pub end_c: Option<u64>,
    pub end_s: Option<u64>,
}
impl ConnH {
    pub fn end(&self) -> u64 {
        self.end_c.unwrap_or(u64::MAX).min(self.end_s.unwrap_or(u64::MAX))
    }
}
#[derive(Clone)]
pub struct Inc {
    pub t0: u64,
    pub t1: u64,
    pub how: String,
}
#[derive(Clone, Debug)]
pub struct Ins {
    pub tag: String,
    pub n: i64,
    pub kind: String,
    pub prefix: Option<String>,
    pub sm: BTreeMap<String, i64>,
    pub cs: Option<i64>,
    pub md: Option<Vec<u8>>,
    pub i0: usize,
    pub t0: u64,
}
impl Ins {
    pub fn sig(&self, i: i64) -> (i64, u64) {
        content::sig(&content::chunk(&self.tag, i as u64, &self.kind))
    }
}
pub struct Hist {
    pub ev: Vec<Ev>,
    pub calls: Vec<Call>,
    pub grants: Vec<Grant>,
    pub reqs: Vec<Req>,
    pub reps: Vec<Rep>,
    pub conns: BTreeMap<String, ConnH>,
    /// host -> connection ends (time, port) on either side
    pub host_ends: BTreeMap<usize, Vec<(u64, u16)>>,
    /// connections accepted by the server
    pub accs: Vec<ConnH>,
    pub incs: Vec<Inc>,
    /// tag -> what was submitted
    pub ins: BTreeMap<String, Ins>,
    /// acknowledged or otherwise learnt id -> tag
    pub sid_tag: BTreeMap<i64, String>,
    /// windows in which something other than the code under test slows or breaks things
    pub bad: Vec<(u64, u64)>,
    pub t_heal: u64,
    pub t_end: u64,
    pub disk_faults: bool,
    pub power: bool,
    pub kills: bool,
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
pub fn tag_of_md(v: &Value) -> Option<String> {
    v.as_str().map(|m| content::tag_of(&unhex(m)))
}
impl Hist {
    pub fn build(plan: &Plan) -> Hist {
        let mut h = Hist {
            ev: vec![], calls: vec![], grants: vec![], reqs: vec![], reps: vec![], conns: BTreeMap::new(), host_ends: BTreeMap::new(), accs: vec![], incs: vec![], ins: BTreeMap::new(),
            sid_tag: BTreeMap::new(), bad: vec![], t_heal: u64::MAX, t_end: k().now, disk_faults: false, power: false, kills: false,
        };
        for e in &k().events {
            let v: Value = serde_json::from_str(&e.s).unwrap_or(Value::Null);
            h.ev.push(Ev { t: e.t, host: e.host, proc_: e.proc_, v });
        }
        let mut open: BTreeMap<(usize, u64), usize> = BTreeMap::new();
        let mut reqs: BTreeMap<(String, u64), usize> = BTreeMap::new();
        let mut ip_host: BTreeMap<u64, usize> = BTreeMap::new();
        let mut port_conn: BTreeMap<(usize, u16), String> = BTreeMap::new();
        let mut fault_open: BTreeMap<String, u64> = BTreeMap::new();
        let (mut bad, mut incs): (Vec<(u64, u64)>, Vec<Inc>) = (vec![], vec![]);
        for idx in 0..h.ev.len() {
            let (t, host, proc_) = (h.ev[idx].t, h.ev[idx].host, h.ev[idx].proc_);
            let v = h.ev[idx].v.clone();
            let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
            match v["e"].as_str().unwrap_or("") {
                "agent_start" => {
                    ip_host.insert(v["ip"].as_u64().unwrap_or(0), v["h"].as_u64().unwrap_or(0) as usize);
                }
                "call" => {
                    let id = v["id"].as_u64().unwrap_or(0);
                    open.insert((proc_, id), h.calls.len());
                    if v["op"] == "ins" {
                        let tag = s("tag");
                        let md = (v["nometa"] != Value::Bool(true)).then(|| content::metadata(&tag, v["mtail"].as_u64().unwrap_or(0)));
                        let sm = v["sm"].as_object().map(|o| o.iter().map(|(k, x)| (k.clone(), x.as_i64().unwrap_or(0))).collect()).unwrap_or_default();
                        let kind = s("kind");
                        let prefix = (kind == "obj").then(|| v["prefix"].as_str().unwrap_or(&tag).to_string());
                        h.ins.entry(tag.clone()).or_insert(Ins { tag, n: v["n"].as_i64().unwrap_or(0), kind, prefix, sm, cs: v["cs"].as_i64(), md, i0: idx, t0: t });
                    }
                    if v["op"] == "done" || v["op"] == "fail" {
                        let fail = v["op"] == "fail";
                        let m = format!("f:{}:{}:{}:{}", s("c"), v["s"], v["i"], id);
                        h.reps.push(Rep { c: s("c"), host, raw: false, fail, s: v["s"].as_i64().unwrap_or(0), i: v["i"].as_i64().unwrap_or(0), m: if fail { m } else { String::new() }, t, idx, sent: true });
                    }
                    h.calls.push(Call { host, proc_, op: s("op"), a: v, t0: t, i0: idx, t1: None, i1: None, r: Value::Null });
                }
                "ret" => {
                    if let Some(ci) = open.remove(&(proc_, v["id"].as_u64().unwrap_or(0))) {
                        if v["op"] == "res" && v["ok"] == Value::Bool(true) {
                            let c = &h.calls[ci];
                            let g = Grant {
                                c: s("c"), host, proc_, raw: false, n: 0, t_req: c.t0, i_req: c.i0, t, i: idx, max: c.a["max"].as_u64().unwrap_or(0), strat: c.a["strat"].clone(), ch: chs(&v["ch"]),
                            };
                            h.grants.push(g);
                        }
                        if v["op"] == "ins" {
                            if let (Some(i), tag) = (v["sid"].as_i64(), s("tag")) {
                                h.sid_tag.insert(i, tag);
                            }
                        }
                        if v["op"] == "st" {
                            if let (Some(i), Some(tag)) = (v["sid"].as_i64(), tag_of_md(&v["md"])) {
                                h.sid_tag.entry(i).or_insert(tag);
                            }
                        }
                        let c = &mut h.calls[ci];
                        c.t1 = Some(t);
                        c.i1 = Some(idx);
                        c.r = v;
                    }
                }
                "conn" => {
                    let port = v["port"].as_u64().unwrap_or(0) as u16;
                    port_conn.insert((host, port), s("c"));
                    h.conns.insert(s("c"), ConnH { c: s("c"), host, port, t, i: idx, end_c: None, end_s: None });
                }
                "k_conn" => {
                    let port = v["port"].as_u64().unwrap_or(0) as u16;
                    if let Some(hh) = ip_host.get(&v["ip"].as_u64().unwrap_or(0)) {
                        h.accs.push(ConnH { c: String::new(), host: *hh, port, t, i: idx, end_c: None, end_s: None });
                    }
                }
                "k_end" => {
                    let port = v["port"].as_u64().unwrap_or(0) as u16;
                    if let Some(hh) = ip_host.get(&v["ip"].as_u64().unwrap_or(0)) {
                        if let Some(c) = h.accs.iter_mut().rev().find(|c| c.host == *hh && c.port == port) {
                            let side = if v["side"] == "c" { &mut c.end_c } else { &mut c.end_s };
                            side.get_or_insert(t);
                        }
                        h.host_ends.entry(*hh).or_default().push((t, port));
                        if let Some(c) = port_conn.get(&(*hh, port)) {
                            let c = h.conns.get_mut(c).unwrap();
                            let side = if v["side"] == "c" { &mut c.end_c } else { &mut c.end_s };
                            side.get_or_insert(t);
                        }
                    }
                }
                "req" => {
                    let n = v["n"].as_u64().unwrap_or(0);
                    reqs.insert((s("c"), n), h.reqs.len());
                    h.reqs.push(Req { c: s("c"), n, t, i: idx, max: v["max"].as_u64().unwrap_or(0), strat: v["strat"].clone(), host, grant: None });
                }
                "grant" => {
                    let n = v["n"].as_u64().unwrap_or(0);
                    let gi = h.grants.len();
                    let (mut t_req, mut i_req, mut max, mut strat) = (0, 0, 0, Value::Null);
                    if let Some(r) = reqs.get(&(s("c"), n)) {
                        let r = &mut h.reqs[*r];
                        r.grant = Some(gi);
                        (t_req, i_req, max, strat) = (r.t, r.i, r.max, r.strat.clone());
                    }
                    h.grants.push(Grant { c: s("c"), host, proc_, raw: true, n, t_req, i_req, t, i: idx, max, strat, ch: chs(&v["ch"]) });
                }
                "rep" => {
                    h.reps.push(Rep { c: s("c"), host, raw: true, fail: v["k"] == "fail", s: v["s"].as_i64().unwrap_or(0), i: v["i"].as_i64().unwrap_or(0), m: s("m"), t, idx, sent: true });
                }
                "repfail" => {
                    let (c, si, ii) = (s("c"), v["s"].as_i64().unwrap_or(0), v["i"].as_i64().unwrap_or(0));
                    if let Some(r) = h.reps.iter_mut().rev().find(|r| r.c == c && r.s == si && r.i == ii) {
                        r.sent = false;
                    }
                }
                "srv_start" => incs.push(Inc { t0: t, t1: u64::MAX, how: String::new() }),
                "srv_end" => {
                    if let Some(i) = incs.last_mut() {
                        i.t1 = t;
                        i.how = s("how");
                    }
                    h.kills = true;
                }
                "fault" => match v["k"].as_str().unwrap_or("") {
                    "pause" | "cut" => {
                        let ms = v["a"]["ms"].as_u64().unwrap_or(0);
                        bad.push((t, t + ms * MS + 900 * MS));
                    }
                    "disk" => {
                        h.disk_faults = true;
                        fault_open.insert("disk".into(), t);
                    }
                    "power" => h.power = true,
                    "arm" => {
                        if v["a"]["power"] == Value::Bool(true) {
                            h.power = true;
                        }
                    }
                    _ => {}
                },
                "disk_ok" => {
                    if let Some(t0) = fault_open.remove("disk") {
                        bad.push((t0, t));
                    }
                }
                "healed" => {
                    h.t_heal = t;
                    if let Some(t0) = fault_open.remove("disk") {
                        bad.push((t0, t));
                    }
                }
                _ => {}
            }
        }
        for g in &h.grants {
            for c in &g.ch {
                if let Some(t) = tag_of_md(&c.v["md"]) {
                    h.sid_tag.entry(c.s).or_insert(t);
                }
            }
        }
        let _ = plan;
        h.bad = bad;
        h.incs = incs;
        h
    }
    /// Was the server up, and nothing injected that could delay it, during all of [a, b]?
    pub fn clear(&self, a: u64, b: u64) -> bool {
        self.bad.iter().all(|(x, y)| *y < a || *x > b) && self.incs.iter().any(|i| i.t0 <= a && i.t1 > b)
    }
    /// No server crash in [a, b].
    pub fn same_inc(&self, a: u64, b: u64) -> bool {
        self.incs.iter().any(|i| i.t0 <= a && i.t1 > b)
    }
    pub fn ins_of(&self, sid: i64) -> Option<&Ins> {
        self.sid_tag.get(&sid).and_then(|t| self.ins.get(t))
    }
    pub fn of<'a>(&'a self, e: &'a str) -> impl Iterator<Item = (usize, &'a Ev)> + 'a {
        self.ev.iter().enumerate().filter(move |(_, x)| x.v["e"] == e)
    }
}
fn chs(v: &Value) -> Vec<GCh> {
    v.as_array().map(|a| a.iter().map(|x| GCh { s: x["s"].as_i64().unwrap_or(0), i: x["i"].as_i64().unwrap_or(0), r: x["r"].as_i64().unwrap_or(0), v: x.clone() }).collect()).unwrap_or_default()
}
