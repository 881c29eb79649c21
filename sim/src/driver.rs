//! Executes one plan: boots the real server, starts the agents, injects the
//! faults, heals, drains, asks the final questions and records everything.
use crate::db::{self, DbState};
use crate::image::Images;
use crate::kernel::*;
use crate::plan::Plan;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::BTreeMap;

pub const SRV_IP: u32 = 0x0a00_0002;
pub const NARGS: usize = 9;
unsafe extern "C" {
    fn shim_set_args(a: *const *const libc::c_char, n: i32);
    fn shim_nargs() -> i32;
}
enum Act {
    Start(usize),
    Fault(usize),
    Unpause(usize),
    Uncut(usize, usize),
    DiskOff,
    Restart,
    Snap,
}
pub struct World<'a> {
    pub plan: &'a Plan,
    im: &'a Images,
    next_img: usize,
    srv_host: usize,
    srv: Option<usize>,
    srv_end_cause: Option<String>,
    hosts: BTreeMap<String, (usize, usize)>,
    acts: BTreeMap<(u64, u64), Act>,
    seq: u64,
    healed: bool,
    frozen_down: bool,
    rng: Rng,
    pub scratch: String,
    pub out_of_images: bool,
    watch: BTreeMap<usize, String>,
}
/// Everything a finished run leaves for the oracles.
pub struct Run {
    pub states: Vec<DbState>,
    pub last: DbState,
    /// before the final questions
    pub before_finals: Option<DbState>,
    pub inconclusive: Option<String>,
}
fn ev(v: Value) {
    k().log_as(0, v.to_string());
}
impl<'a> World<'a> {
    fn at(&mut self, t: u64, a: Act) {
        self.seq += 1;
        self.acts.insert((t, self.seq), a);
    }
    fn start_server(&mut self) {
        if self.srv.is_some() {
            return;
        }
        if self.next_img >= self.im.entries.len() {
            self.out_of_images = true;
            return;
        }
        let e = self.im.entries[self.next_img];
        self.next_img += 1;
        let p = k().spawn_proc(self.srv_host, true, Box::new(move || {
            let r = e(0, b"".as_ptr(), 0);
            if r != 0 {
                unsafe { libc::exit(r) };
            }
        }));
        self.srv = Some(p);
        self.srv_end_cause = None;
        ev(json!({"e": "srv_start", "p": p}));
    }
    fn start_agent(&mut self, name: &str, threads: u64, actors: &[Value]) -> Option<usize> {
        if self.next_img >= self.im.entries.len() {
            self.out_of_images = true;
            return None;
        }
        let e = self.im.entries[self.next_img];
        self.next_img += 1;
        let h = match self.hosts.get(name) {
            Some((h, _)) => *h,
            None => k().add_host(0x0a00_000a + self.hosts.len() as u32),
        };
        let js = json!({"addr": "10.0.0.2:3999", "threads": threads, "actors": actors}).to_string();
        let p = k().spawn_proc(h, false, Box::new(move || {
            let js = js;
            let r = e(1, js.as_ptr(), js.len());
            if r != 0 {
                unsafe { libc::exit(r) };
            }
        }));
        self.hosts.insert(name.into(), (h, p));
        self.watch.insert(p, name.into());
        ev(json!({"e": "agent_start", "name": name, "p": p, "h": h, "ip": k().hosts[h].ip}));
        Some(p)
    }
    /// The other end of a network fault: the server, unless said otherwise.
    fn with(&self, a: &Value) -> usize {
        a["with"].as_str().and_then(|n| self.hosts.get(n)).map_or(self.srv_host, |x| x.0)
    }
    fn who(&self, a: &Value) -> (usize, Option<usize>) {
        let n = a["who"].as_str().unwrap_or("server");
        if n == "server" {
            (self.srv_host, self.srv)
        } else {
            self.hosts.get(n).map_or((0, None), |(h, p)| (*h, Some(*p)))
        }
    }
    fn deaths(&mut self) {
        if let Some(p) = self.srv {
            if !k().procs[p].alive {
                let code = k().procs[p].exit_code.unwrap_or(0);
                let how = self.srv_end_cause.take();
                let armed = code == 137 || code == -1;
                let how = match how {
                    Some(h) => h,
                    None if armed => "armed".into(),
                    None => "unexpected".into(),
                };
                ev(json!({"e": "srv_end", "p": p, "how": how, "code": code}));
                self.srv = None;
                if self.plan.kern.track_disk {
                    // what the crash left behind
                    k().take_snap(false);
                }
                if !self.frozen_down {
                    let (a, b) = self.plan.down;
                    let d = if self.healed { 10 } else { self.rng.logrange(a.max(1), b.max(2)) };
                    self.at(k().now + d * MS, Act::Restart);
                }
            }
        }
        let dead: Vec<usize> = self.watch.keys().copied().filter(|p| !k().procs[*p].alive).collect();
        for p in dead {
            let n = self.watch.remove(&p).unwrap();
            ev(json!({"e": "agent_end", "name": n, "p": p, "code": k().procs[p].exit_code}));
        }
    }
    fn fault(&mut self, i: usize) {
        let f = self.plan.faults[i].clone();
        let a = &f.a;
        let ms = a["ms"].as_u64().unwrap_or(0);
        let now = k().now;
        ev(json!({"e": "fault", "k": f.k, "a": a}));
        match f.k.as_str() {
            "kill" => {
                if let Some(p) = self.srv {
                    k().bump("crash.kill");
                    self.srv_end_cause = Some("kill".into());
                    k().proc_exit(p, 137);
                }
            }
            "power" => {
                k().bump("crash.power");
                self.srv_end_cause = Some("power".into());
                k().power_loss(self.srv_host);
            }
            "arm" => {
                k().armed = Some(Armed {
                    host: self.srv_host,
                    mask: a["mask"].as_u64().unwrap_or(4) as u32,
                    countdown: a["count"].as_u64().unwrap_or(0),
                    torn: a["torn"] == json!(true),
                    power: a["power"] == json!(true),
                });
            }
            "sigint" => {
                if let Some(p) = self.srv {
                    k().bump("proc.sigint");
                    if self.srv_end_cause.is_none() {
                        self.srv_end_cause = Some("sigint".into());
                    }
                    ev(json!({"e": "sigint", "p": p}));
                    signal(p, libc::SIGINT);
                }
            }
            "down" => self.frozen_down = true,
            "up" => {
                self.frozen_down = false;
                if self.srv.is_none() {
                    self.start_server();
                }
            }
            "pause" => {
                if let (_, Some(p)) = self.who(a) {
                    k().bump("proc.pause");
                    k().pause(p, true);
                    self.at(now + ms * MS, Act::Unpause(p));
                }
            }
            "cut" => {
                let (h, _) = self.who(a);
                let s = self.with(a);
                if h == s {
                    return;
                }
                k().bump("net.partition");
                match a["dir"].as_str().unwrap_or("both") {
                    "to" => k().set_cut(h, s, true),
                    "from" => k().set_cut(s, h, true),
                    _ => {
                        k().set_cut(h, s, true);
                        k().set_cut(s, h, true);
                    }
                }
                self.at(now + ms * MS, Act::Uncut(h, s));
            }
            "reset" => {
                let (h, _) = self.who(a);
                let n = k().reset_conns(h, self.with(a));
                for _ in 0..n {
                    k().bump("net.reset");
                }
            }
            "halfopen" => {
                let (h, _) = self.who(a);
                let n = k().half_open(h, if a["side"] == "server" { self.srv_host } else { h });
                for _ in 0..n {
                    k().bump("net.half_open");
                }
            }
            "killp" => {
                if let (_, Some(p)) = self.who(a) {
                    k().bump("crash.client_kill");
                    k().proc_exit(p, 137);
                }
            }
            "powerp" => {
                let (h, _) = self.who(a);
                k().bump("crash.client_power");
                k().power_loss(h);
            }
            "disk" => {
                let g = |n: &str| a[n].as_u64().unwrap_or(0);
                k().set_disk(DiskFaults {
                    eio_read_ppm: g("eio_read"),
                    eio_write_ppm: g("eio_write"),
                    enospc_ppm: g("enospc"),
                    short_write_ppm: g("short"),
                    fsync_fail_ppm: g("fsync"),
                    full: a["full"] == json!(true),
                    stall: a["stall"] == json!(true),
                    locked: a["locked"] == json!(true),
                    nomem: g("nomem"),
                    emfile_ppm: g("emfile"),
                });
                if ms > 0 {
                    self.at(now + ms * MS, Act::DiskOff);
                }
            }
            "clock" => {
                let (h, _) = self.who(a);
                k().bump("clock.jump");
                k().hosts[h].clock_off += a["off_ms"].as_i64().unwrap_or(0) * MS as i64;
            }
            "put" => {
                k().board.insert(a["key"].as_str().unwrap_or("").into(), a["val"].as_str().unwrap_or("1").into());
            }
            "start" => {
                let n = a["name"].as_str().unwrap_or("");
                if let Some(i) = self.plan.procs.iter().position(|p| p.name == n) {
                    let p = self.plan.procs[i].clone();
                    self.start_agent(&p.name, p.threads, &p.actors);
                }
            }
            "snap" => {
                k().take_snap(a["hyp"] == json!(true));
            }
            o => panic!("unknown fault {o}"),
        }
    }
    fn act(&mut self, a: Act) {
        match a {
            Act::Start(i) => {
                let p = self.plan.procs[i].clone();
                self.start_agent(&p.name, p.threads, &p.actors);
            }
            Act::Fault(i) => {
                if !self.healed || self.plan.faults[i].a["late"] == json!(true) {
                    self.fault(i)
                }
            }
            Act::Unpause(p) => {
                if k().procs[p].alive {
                    k().pause(p, false);
                }
                ev(json!({"e": "unpause", "p": p}));
            }
            Act::Uncut(a, b) => {
                k().set_cut(a, b, false);
                k().set_cut(b, a, false);
                ev(json!({"e": "uncut", "h": a}));
            }
            Act::DiskOff => {
                k().set_disk(DiskFaults::default());
                ev(json!({"e": "disk_ok"}));
            }
            Act::Restart => self.start_server(),
            Act::Snap => {
                if k().snaps.len() < self.plan.snap_max {
                    k().take_snap(false);
                }
                let t = k().now + self.plan.snap_every * MS;
                self.at(t, Act::Snap);
            }
        }
        self.deaths();
    }
    pub fn advance(&mut self, until: u64) {
        loop {
            self.deaths();
            while let Some((&(t, s), _)) = self.acts.iter().next() {
                if t > k().now || t > until {
                    break;
                }
                let a = self.acts.remove(&(t, s)).unwrap();
                self.act(a);
            }
            if k().now >= until {
                return;
            }
            let next = self.acts.keys().next().map_or(until, |(t, _)| (*t).min(until));
            k().world_sleep_until(next);
        }
    }
    fn look(&mut self) -> DbState {
        let i = k().take_snap(false);
        let s = k().snaps.remove(i);
        db::parse(&s, &self.scratch)
    }
    fn heal(&mut self) {
        self.healed = true;
        self.frozen_down = false;
        k().chaos = false;
        k().set_disk(DiskFaults::default());
        k().armed = None;
        let mut un = vec![];
        for (key, a) in &self.acts {
            if matches!(a, Act::Unpause(_) | Act::Uncut(..) | Act::DiskOff) {
                un.push(*key);
            }
        }
        for u in un {
            let a = self.acts.remove(&u).unwrap();
            self.act(a);
        }
        self.acts.retain(|_, a| !matches!(a, Act::Restart));
        self.deaths();
        self.start_server();
        ev(json!({"e": "healed"}));
    }
    fn drain(&mut self) {
        let o = &self.plan.opts;
        let max = o["drain_max"].as_u64().unwrap_or(4);
        let n = o["drain_tasks"].as_u64().unwrap_or(4);
        let mut actors = vec![];
        let kinds = if o["drain_strats"].is_array() { o["drain_strats"].as_array().unwrap().clone() } else { vec![json!("oldest"), json!("random")] };
        for (i, s) in kinds.iter().enumerate() {
            actors.push(json!({"kind": "cons", "name": format!("drain{i}"), "tasks": n, "strat": s, "max": 1, "max2": max, "work": 1, "work2": 5}));
        }
        k().board.remove("stop");
        if self.start_agent("drain", 2, &actors).is_none() {
            return;
        }
        ev(json!({"e": "drain_start"}));
        let end = k().now + self.plan.drain_ms * MS;
        loop {
            let t = (k().now + 250 * MS).min(end);
            self.advance(t);
            let d = self.look();
            if d.bad.is_some() || (d.ready && d.open() == 0) {
                ev(json!({"e": "drained", "bad": d.bad}));
                break;
            }
            if k().now >= end {
                let open: Vec<i64> = d.subs.iter().filter(|(_, v)| v[0].st == 'P').map(|(i, _)| *i).collect();
                ev(json!({"e": "drain_timeout", "open": open, "pending": d.chunks.keys().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()}));
                break;
            }
        }
        k().board.insert("stop".into(), "1".into());
    }
    fn finals(&mut self) -> DbState {
        let d = self.look();
        let mut steps = vec![json!({"op": "up"})];
        for (id, v) in &d.subs {
            steps.push(json!({"op": "st", "sid": id}));
            if let Some(p) = &v[0].prefix {
                steps.push(json!({"op": "prefix", "p": p}));
            }
        }
        for f in ["count", "countc", "metrics", "ping"] {
            steps.push(json!({"op": f}));
        }
        for q in self.plan.opts["final_steps"].as_array().cloned().unwrap_or_default() {
            steps.push(q);
        }
        steps.push(json!({"op": "put", "key": "final_done"}));
        k().board.remove("final_done");
        ev(json!({"e": "finals"}));
        self.start_agent("final", 1, &[json!({"kind": "prod", "name": "final", "steps": steps})]);
        let end = k().now + 60 * SEC;
        while k().now < end && !k().board.contains_key("final_done") {
            let t = k().now + 50 * MS;
            self.advance(t);
        }
        ev(json!({"e": "finals_end", "ok": k().board.contains_key("final_done")}));
        d
    }
}
pub fn set_args(a: &[String]) {
    let v: Vec<std::ffi::CString> = a.iter().map(|s| std::ffi::CString::new(s.as_str()).unwrap()).collect();
    let ptrs: Vec<_> = v.iter().map(|c| c.as_ptr()).collect();
    unsafe {
        assert!(shim_nargs() as usize == NARGS + 1 && a.len() == NARGS);
        shim_set_args(ptrs.as_ptr(), NARGS as i32);
    }
    std::mem::forget(v);
    std::mem::forget(ptrs);
}
/// Run in a freshly forked child only (the simulated threads never end).
pub fn execute(plan: &Plan, im: &Images, scratch: &str, verbose: bool) -> Run {
    unsafe {
        libc::mallopt(libc::M_ARENA_MAX, 1);
        libc::mallopt(libc::M_MMAP_THRESHOLD, 64 << 20);
        std::env::set_var("TOKIO_WORKER_THREADS", plan.srv.workers.to_string());
        std::env::set_var("OPSQUEUE_OTEL_DEFAULT_TRACE_SAMPLE_RATE", "0");
        std::env::set_var("OTEL_EXPORTER_OTLP_ENDPOINT", "http://127.0.0.1:4318");
        if std::env::var("RUST_LOG").is_err() {
            std::env::set_var("RUST_LOG", "off");
        }
    }
    let s = &plan.srv;
    let dbf = format!("{scratch}/q.db");
    set_args(&[
        "--port=3999".to_string(),
        format!("--database-filename={dbf}"),
        format!("--reservation-expiration={}ms", s.expiry_ms),
        format!("--max-read-pool-size={}", s.pool),
        format!("--heartbeat-interval={}ms", s.hb_ms),
        format!("--max-missable-heartbeats={}", s.miss),
        format!("--max-chunk-retries={}", s.retries),
        format!("--max-submission-age={}s", s.age_s),
        format!("--max-submissions-returned={}", s.maxret),
    ]);
    Kernel::install(plan.kern.cfg(plan.seed, scratch, verbose));
    let kk = k();
    kk.snap = SnapCfg { db: dbf, ppm: plan.snap_ppm, max: plan.snap_max, hyp_ppm: plan.hyp_ppm };
    kk.limit_steps = 60_000_000;
    let h = kk.add_host(SRV_IP);
    let mut w = World {
        plan, im, next_img: 0, srv_host: h, srv: None, srv_end_cause: None, hosts: BTreeMap::new(), acts: BTreeMap::new(), seq: 0, healed: false, frozen_down: false,
        rng: Rng::new(plan.seed, 77), scratch: scratch.into(), out_of_images: false, watch: BTreeMap::new(),
    };
    if plan.opts["late_boot"] != json!(true) {
        w.start_server();
    }
    for (i, p) in plan.procs.iter().enumerate() {
        if p.start_ms != u64::MAX {
            w.at(p.start_ms * MS, Act::Start(i));
        }
    }
    for (i, f) in plan.faults.iter().enumerate() {
        w.at(f.t * MS, Act::Fault(i));
    }
    if plan.snap_every > 0 {
        w.at(plan.snap_every * MS, Act::Snap);
    }
    w.advance(plan.heal_ms * MS);
    w.heal();
    if plan.drain_ms > 0 {
        w.drain();
    }
    if plan.quiet_ms > 0 {
        let t = k().now + plan.quiet_ms * MS;
        w.advance(t);
    }
    let before_finals = plan.finals.then(|| w.finals());
    let last = w.look();
    let snaps = std::mem::take(&mut k().snaps);
    let mut states = vec![];
    let mut prev: Option<(u64, usize)> = None;
    for s in &snaps {
        // identical images are parsed once
        let h = crate::rng::digest(s.db.as_deref().unwrap_or(&[])) ^ crate::rng::digest(s.wal.as_deref().unwrap_or(&[])).rotate_left(17) ^ crate::rng::digest(s.journal.as_deref().unwrap_or(&[])).rotate_left(31);
        match prev {
            Some((ph, i)) if ph == h && !s.hyp => {
                let mut d: DbState = DbState::clone(&states[i]);
                d.t = s.t;
                d.ev = s.ev;
                states.push(d);
            }
            _ => {
                states.push(db::parse(s, &w.scratch));
                prev = (!s.hyp).then(|| (h, states.len() - 1));
            }
        }
    }
    let inconclusive = w.out_of_images.then(|| "too many processes for the loaded images".to_string());
    Run { states, last, before_finals, inconclusive }
}
