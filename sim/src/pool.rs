//! Runs plans in forked children (one simulated run per child) and collects results.
use crate::driver;
use crate::hist::Hist;
use crate::image::Images;
use crate::kernel::k;
use crate::oracle::Ck;
use crate::plan::Plan;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

pub struct Pool<'a> {
    pub im: &'a Images,
    pub dir: String,
    pub jobs: usize,
    seq: u64,
    live: BTreeMap<i32, Job>,
    pub verbose: bool,
}
struct Job {
    fd: std::fs::File,
    buf: Vec<u8>,
    tag: u64,
    t0: Instant,
    scratch: String,
    pid: i32,
    slot: usize,
}
const LIMIT: Duration = Duration::from_secs(90);

/// The body of a child: run, judge, report.
fn child(plan: &Plan, im: &Images, scratch: &str, fd: i32, trace: bool, verbose: bool) -> ! {
    unsafe { crate::kernel::DIE_FD = fd };
    if !verbose && std::env::var("SIMQ_DUMP").is_err() {
        unsafe {
            let z = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(z, 1);
            libc::dup2(z, 2);
            libc::close(z);
        }
    }
    let t0 = Instant::now();
    let run = driver::execute(plan, im, scratch, verbose);
    let t1 = t0.elapsed();
    let h = Hist::build(plan);
    let mut ck = Ck::new(plan, &run, &h);
    let mut inc = run.inconclusive.clone();
    for e in &h.ev {
        if e.v["e"] == "agent_panic" && plan.prop != "P17" && plan.prop != "P18" {
            inc = Some(format!("agent panic: {}", e.v));
        }
    }
    if inc.is_none() {
        crate::props::judge(&mut ck);
    }
    let shapes: std::collections::BTreeSet<u64> = run.states.iter().chain(std::iter::once(&run.last)).map(abstract_state).collect();
    let kk = k();
    let mut out = json!({
        "viol": ck.viol, "cov": ck.cov, "hash": format!("{:016x}", kk.hash), "sched": kk.sched_hash, "steps": kk.steps, "switches": kk.switches,
        "sim_ns": kk.now, "stat": kk.stat, "nev": kk.events.len(), "inc": inc, "shapes": shapes.into_iter().collect::<Vec<_>>(),
        "ms_exec": t1.as_millis() as u64, "ms_all": t0.elapsed().as_millis() as u64, "srv": h.incs.len(), "calls": h.calls.len(), "grants": h.grants.len(), "reps": h.reps.len(),
    });
    if trace {
        let lines: Vec<String> = kk.events.iter().map(|e| format!("{:.6} h{} p{} {}", e.t as f64 / 1e9, e.host, e.proc_, e.s)).collect();
        out["trace"] = json!(lines);
    }
    let b = out.to_string().into_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(fd, b[o..].as_ptr().cast(), b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
    let _ = std::fs::remove_dir_all(scratch);
    unsafe { libc::_exit(0) }
}
/// Abstraction used to count distinct queue states: per submission its state, size class
/// and progress class, sorted.
fn abstract_state(d: &crate::db::DbState) -> u64 {
    let mut v: Vec<String> = d
        .subs
        .iter()
        .map(|(id, v)| {
            let s = &v[0];
            let done = d.completed_of(*id);
            let retr: i64 = d.chunks.range((*id, i64::MIN)..=(*id, i64::MAX)).map(|(_, c)| c.0).sum();
            format!("{}{}/{}r{}", s.st, done.min(9), s.total.min(9), retr.min(5))
        })
        .collect();
    v.sort();
    crate::content::fnv(v.join(",").as_bytes())
}
impl<'a> Pool<'a> {
    pub fn new(im: &'a Images, jobs: usize) -> Self {
        let dir = format!("/dev/shm/simq-run.{:08}", std::process::id());
        std::fs::create_dir_all(&dir).expect("scratch");
        Pool { im, dir, jobs, seq: 0, live: BTreeMap::new(), verbose: false }
    }
    pub fn busy(&self) -> usize {
        self.live.len()
    }
    pub fn start(&mut self, tag: u64, plan: &Plan, trace: bool) {
        self.seq += 1;
        let scratch = format!("{}/{:08}", self.dir, self.seq);
        std::fs::create_dir_all(&scratch).expect("scratch");
        let slot = (0..).find(|s| self.live.values().all(|j| j.slot != *s)).unwrap();
        let mut p = [0i32; 2];
        unsafe { libc::pipe(p.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                libc::close(p[0]);
                // only one simulated thread runs at a time: one core is enough and faster
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
                libc::CPU_SET(slot % n, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
            child(plan, self.im, &scratch, p[1], trace, self.verbose);
        }
        unsafe { libc::close(p[1]) };
        let fd = unsafe { std::fs::File::from_raw_fd(p[0]) };
        self.live.insert(p[0], Job { fd, buf: vec![], tag, t0: Instant::now(), scratch, pid, slot });
    }
    /// Wait for the next finished run.
    pub fn next(&mut self) -> Option<(u64, Value)> {
        while !self.live.is_empty() {
            let mut fds: Vec<libc::pollfd> = self.live.keys().map(|f| libc::pollfd { fd: *f, events: libc::POLLIN, revents: 0 }).collect();
            unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as u64, 500) };
            for f in fds {
                if f.revents != 0 {
                    let j = self.live.get_mut(&f.fd).unwrap();
                    let mut b = [0u8; 65536];
                    let n = j.fd.read(&mut b).unwrap_or(0);
                    if n > 0 {
                        j.buf.extend_from_slice(&b[..n]);
                        continue;
                    }
                    return Some(self.finish(f.fd, None));
                }
            }
            let late: Vec<i32> = self.live.iter().filter(|(_, j)| j.t0.elapsed() > LIMIT).map(|(f, _)| *f).collect();
            if let Some(f) = late.first() {
                unsafe { libc::kill(self.live[f].pid, libc::SIGKILL) };
                return Some(self.finish(*f, Some("wall-clock limit")));
            }
        }
        None
    }
    fn finish(&mut self, fd: i32, why: Option<&str>) -> (u64, Value) {
        let j = self.live.remove(&fd).unwrap();
        let mut st = 0;
        unsafe { libc::waitpid(j.pid, &mut st, 0) };
        let _ = std::fs::remove_dir_all(&j.scratch);
        let mut v = match serde_json::from_slice::<Value>(&j.buf) {
            Ok(v) => v,
            Err(_) => json!({"inc": why.map_or_else(|| format!("child ended with status {st:#x}"), |w| w.to_string()), "viol": []}),
        };
        v["wall_ms"] = json!(j.t0.elapsed().as_millis() as u64);
        (j.tag, v)
    }
    pub fn one(&mut self, plan: &Plan, trace: bool) -> Value {
        self.start(0, plan, trace);
        self.next().unwrap().1
    }
}
impl Drop for Pool<'_> {
    fn drop(&mut self) {
        for j in self.live.values() {
            unsafe {
                libc::kill(j.pid, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(j.pid, &mut st, 0);
            }
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
