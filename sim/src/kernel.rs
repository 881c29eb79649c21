//! The simulated kernel: threads, time, futexes, sockets, epoll, disk faults.
//!
//! Exactly one simulated thread runs at any moment (it "holds the baton"); all
//! kernel state is only touched by the baton holder, so no locking is needed.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};
use std::cmp::Reverse;

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
const MONO_BASE: u64 = 1_000 * SEC;
pub const REAL_BASE: u64 = 1_790_000_000 * SEC;
const FD_BASE: i32 = 100_000;

unsafe extern "C" {
    fn shim_set_tid(t: i32);
    fn shim_set_ink(v: i32);
    fn shim_set_alloc_ctr(v: i64);
    fn shim_set_nomem_ctr(v: i64);
    fn shim_set_edge_ctr(v: i64);
    fn shim_sem_wait(s: *mut i32);
    fn shim_switch(theirs: *mut i32, mine: *mut i32, k: *mut libc::c_void);
    fn shim_reg_sem(tid: i32, s: *mut i32);
    fn shim_spawn(
        th: *mut libc::pthread_t,
        attr: *const libc::pthread_attr_t,
        f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
        arg: *mut libc::c_void,
        tid: i32,
    ) -> i32;
    fn shim_raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Runnable,
    Blocked,
    Exited,
    Zombie,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    Woken,
    Timeout,
}

struct Thr {
    proc_: usize,
    st: St,
    sem: Box<i32>,
    generation: u64,
    why: Why,
    pos: usize, // index in `run`, usize::MAX if absent
    pthread: libc::pthread_t,
    joiners: Vec<(usize, u64)>,
    what: u32,
}

/// One simulated OS process (an incarnation of a host).
pub struct Proc {
    pub host: usize,
    pub alive: bool,
    pub exit_code: Option<i32>,
    pub paused: bool,
    parked: Vec<usize>,
    rng: Rng,
    sig: BTreeMap<i32, (usize, bool)>,
    pub is_server: bool,
}
pub struct Host {
    pub ip: u32,
    pub up: bool,
    pub cur: Option<usize>,
    pub clock_off: i64,
    next_port: u16,
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Ev {
    Wake(usize, u64),
    Pump(usize),
    Syn(usize, u32),
    ConnDone(usize, i32),
    Rst(usize),
    Dead(usize, u64),
    /// the bytes a short read left behind arrive
    More(usize),
    /// there is still space after a short write
    Space(usize),
}

enum Seg {
    Data(Vec<u8>),
    Fin,
    Rst,
}

#[derive(Default)]
struct Stream {
    peer: Option<usize>,
    rx: VecDeque<u8>,
    rx_fin: bool,
    reset: bool,
    err: i32,
    tx_fin: bool,
    connecting: bool,
    connected: bool,
    closed: bool,
    hostdead: bool,
    local_ipc: bool,
    out: VecDeque<(u64, Seg)>,
    out_bytes: usize,
    last_at: u64,
    pumping: bool,
    stalled: bool,
    local: (u32, u16),
    remote: (u32, u16),
    keepalive: bool,
    ka: (u64, u64, u64),
    user_timeout: u64,
    epoch: u64,
    wfull: bool,
    opened_at: u64,
}

struct EpItem {
    events: u32,
    data: u64,
    obj: usize,
}
enum Kind {
    Unconn,
    Listener { backlog: VecDeque<usize>, open: bool },
    Stream(Box<Stream>),
    EventFd(u64),
    Epoll { items: BTreeMap<i32, EpItem>, ready: Vec<i32> },
    Urandom,
}
struct Obj {
    kind: Kind,
    refs: u32,
    nonblock: bool,
    watchers: Vec<(usize, i32)>, // (epoll object, fd)
    waiters: Vec<(usize, u64)>,
    proc_: usize,
    bound: (u32, u16),
}

// ---- disk -------------------------------------------------------------------------
#[derive(Clone)]
enum DiskOp {
    Write(u64, Vec<u8>),
    Trunc(u64),
}
#[derive(Default)]
pub struct TFile {
    shadow: Vec<u8>,
    unsynced: Vec<DiskOp>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct DiskFaults {
    pub eio_read_ppm: u64,
    pub eio_write_ppm: u64,
    pub enospc_ppm: u64,
    pub short_write_ppm: u64,
    pub fsync_fail_ppm: u64,
    pub full: bool,
    /// writes and syncs do not come back until the fault ends
    pub stall: bool,
    /// another process holds the write lock of the database
    pub locked: bool,
    /// one in so many of SQLite's allocations fails (0: none)
    pub nomem: u64,
    /// one in so many attempts of the server to get a file descriptor fails (ppm)
    pub emfile_ppm: u64,
}
#[derive(Clone, Debug)]
pub struct Armed {
    pub host: usize,
    /// bit mask over file ops (1<<F_WRITE ...), or bit 0 = any scheduling point
    pub mask: u32,
    pub countdown: u64,
    pub torn: bool,
    pub power: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub step_cost: u64,
    pub preempt_ppm: u64,
    pub alloc_mean: u64, // 0 = off
    pub edge_mean: u64,  // 0 = off
    pub edge_long: bool,
    pub delay_ppm: u64,
    pub delay_max: u64,
    pub lat_min: u64,
    pub lat_max: u64,
    pub spike_ppm: u64,
    pub spike_max: u64,
    pub short_io_ppm: u64,
    pub window: usize,
    pub disk_lat_ppm: u64,
    pub disk_lat_max: u64,
    pub fifo_sched: bool,
    pub track_disk: bool,
    /// the server cannot map the database into memory, and has to read it
    pub no_mmap: bool,
    pub scratch: String,
    pub verbose: bool,
}

pub struct Event {
    pub t: u64,
    pub host: usize,
    pub proc_: usize,
    pub s: String,
}

pub struct Kernel {
    pub cfg: Cfg,
    pub now: u64,
    pub steps: u64,
    pub switches: u64,
    pub hash: u64,
    pub sched_hash: u64,
    cur: usize,
    thr: Vec<Thr>,
    run: Vec<usize>,
    timers: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    tseq: u64,
    futex: BTreeMap<usize, VecDeque<(usize, u64)>>,
    mutexw: BTreeMap<usize, Vec<(usize, u64)>>,
    objs: Vec<Obj>,
    fds: Vec<Option<usize>>,
    pub procs: Vec<Proc>,
    pub hosts: Vec<Host>,
    cut: BTreeSet<(usize, usize)>, // directed host pairs
    stalled: BTreeSet<usize>,
    srng: Rng,
    nrng: Rng,
    drng: Rng,
    pub chaos: bool,
    files: BTreeMap<i32, (String, u32)>,
    pub tfiles: BTreeMap<String, TFile>,
    pub disk: DiskFaults,
    pub armed: Option<Armed>,
    pub world_wake: bool,
    pub events: Vec<Event>,
    pub board: BTreeMap<String, String>,
    pub stat: BTreeMap<&'static str, u64>,
    pub fileops: u64,
    main_entry: Vec<Option<Box<dyn FnOnce()>>>,
    pub rx_tap: Option<Box<dyn FnMut(u64, (u32, u16), (u32, u16), &[u8])>>,
    pub limit_steps: u64,
    pub snap: SnapCfg,
    pub snaps: Vec<Snap>,
    snrng: Rng,
}
/// When to copy the database files ("what a process kill right now would leave").
#[derive(Clone, Debug, Default)]
pub struct SnapCfg {
    pub db: String,
    pub ppm: u64,
    pub max: usize,
    /// of the snapshots taken, how many (ppm) are power-loss images
    pub hyp_ppm: u64,
}
pub struct Snap {
    pub t: u64,
    pub ev: usize,
    pub db: Option<Vec<u8>>,
    pub wal: Option<Vec<u8>>,
    pub journal: Option<Vec<u8>>,
    pub hyp: bool,
}

pub static mut DIE_FD: i32 = -1;
pub static mut KP: *mut Kernel = std::ptr::null_mut();
#[inline]
pub fn k() -> &'static mut Kernel {
    unsafe { &mut *KP }
}

fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29)
}

const EPOLLIN: u32 = 1;
const EPOLLOUT: u32 = 4;
const EPOLLERR: u32 = 8;
const EPOLLHUP: u32 = 16;
const EPOLLRDHUP: u32 = 0x2000;
const EPOLLET: u32 = 1 << 31;

pub const F_READ: i32 = 1;
pub const F_WRITE: i32 = 2;
pub const F_FSYNC: i32 = 3;
pub const F_TRUNC: i32 = 4;
pub const F_OPEN: i32 = 5;
pub const F_UNLINK: i32 = 6;
pub const F_RENAME: i32 = 7;
/// network operations, as crash points
pub const N_ACCEPT: i32 = 8;
pub const N_READ: i32 = 9;
pub const N_WRITE: i32 = 10;

impl Kernel {
    pub fn install(cfg: Cfg) {
        let seed = cfg.seed;
        let kr = Box::new(Kernel {
            now: 0,
            steps: 0,
            switches: 0,
            hash: 0,
            sched_hash: 0,
            cur: 0,
            thr: vec![],
            run: vec![],
            timers: BinaryHeap::new(),
            tseq: 0,
            futex: BTreeMap::new(),
            mutexw: BTreeMap::new(),
            objs: vec![],
            fds: vec![],
            procs: vec![],
            hosts: vec![],
            cut: BTreeSet::new(),
            stalled: BTreeSet::new(),
            srng: Rng::new(seed, 11),
            nrng: Rng::new(seed, 12),
            drng: Rng::new(seed, 13),
            chaos: true,
            files: BTreeMap::new(),
            tfiles: BTreeMap::new(),
            disk: DiskFaults::default(),
            armed: None,
            world_wake: false,
            events: vec![],
            board: BTreeMap::new(),
            stat: BTreeMap::new(),
            fileops: 0,
            main_entry: vec![],
            rx_tap: None,
            limit_steps: u64::MAX,
            snap: SnapCfg::default(),
            snaps: vec![],
            snrng: Rng::new(seed, 14),
            cfg,
        });
        unsafe {
            KP = Box::into_raw(kr);
            let kk = k();
            // host 0 / proc 0 / thread 0 = the world driver
            kk.hosts.push(Host { ip: 0x0a00_0001, up: true, cur: Some(0), clock_off: 0, next_port: 30000 });
            kk.procs.push(Proc {
                host: 0, alive: true, exit_code: None, paused: false, parked: vec![], rng: Rng::new(seed, 99),
                sig: BTreeMap::new(), is_server: false,
            });
            kk.new_thr(0);
            shim_set_tid(0);
            shim_set_ink(1);
            kk.reset_alloc();
            kk.reset_edge();
        }
    }
    pub fn bump(&mut self, s: &'static str) {
        *self.stat.entry(s).or_insert(0) += 1;
    }
    fn reset_alloc(&mut self) {
        let m = self.cfg.alloc_mean;
        let v = if m == 0 { i64::MAX } else { (1 + self.srng.below(2 * m)) as i64 };
        unsafe { shim_set_alloc_ctr(v) };
    }
    fn out_of_fds(&mut self) -> bool {
        let p = self.my_proc();
        let hit = self.chaos && self.disk.emfile_ppm > 0 && self.procs[p].is_server && self.drng.ppm(self.disk.emfile_ppm);
        if hit {
            self.bump("fd.emfile");
        }
        hit
    }
    fn reset_edge(&mut self) {
        let m = self.cfg.edge_mean;
        let v = if m == 0 || !self.chaos {
            i64::MAX
        } else if self.srng.chance(1, 4) {
            1 + self.srng.below(30) as i64
        } else {
            1 + self.srng.below(2 * m) as i64
        };
        unsafe { shim_set_edge_ctr(v) };
    }
    pub fn set_disk(&mut self, d: DiskFaults) {
        self.disk = d;
        self.reset_nomem();
    }
    fn reset_nomem(&mut self) {
        let m = self.disk.nomem;
        let v = if m == 0 || !self.chaos { i64::MAX } else if self.drng.chance(1, 3) { 1 + self.drng.below(3) as i64 } else { 1 + self.drng.below(2 * m) as i64 };
        unsafe { shim_set_nomem_ctr(v) };
    }
    fn new_thr(&mut self, proc_: usize) -> usize {
        let tid = self.thr.len();
        self.thr.push(Thr {
            proc_, st: St::Runnable, sem: Box::new(0), generation: 0, why: Why::Woken, pos: usize::MAX,
            pthread: 0, joiners: vec![], what: 0,
        });
        unsafe { shim_reg_sem(tid as i32, &mut *self.thr[tid].sem) };
        self.main_entry.push(None);
        self.run_add(tid);
        tid
    }
    fn run_add(&mut self, t: usize) {
        let p = self.thr[t].proc_;
        if self.procs[p].paused {
            self.procs[p].parked.push(t);
            return;
        }
        if self.thr[t].pos == usize::MAX {
            self.thr[t].pos = self.run.len();
            self.run.push(t);
        }
    }
    fn run_del(&mut self, t: usize) {
        let p = self.thr[t].pos;
        if p != usize::MAX {
            self.run.swap_remove(p);
            if p < self.run.len() {
                let m = self.run[p];
                self.thr[m].pos = p;
            }
            self.thr[t].pos = usize::MAX;
        }
    }
    fn timer(&mut self, at: u64, ev: Ev) {
        self.tseq += 1;
        self.timers.push(Reverse((at, self.tseq, ev)));
    }
    fn wake(&mut self, w: (usize, u64), why: Why) -> bool {
        let (t, g) = w;
        if self.thr[t].st == St::Blocked && self.thr[t].generation == g {
            self.thr[t].st = St::Runnable;
            self.thr[t].why = why;
            self.thr[t].generation += 1;
            self.run_add(t);
            true
        } else {
            false
        }
    }
    fn fire_due(&mut self) {
        while let Some(Reverse((at, _, _))) = self.timers.peek() {
            if *at > self.now {
                break;
            }
            let Reverse((_, _, ev)) = self.timers.pop().unwrap();
            match ev {
                Ev::Wake(t, g) => {
                    self.wake((t, g), Why::Timeout);
                }
                Ev::Pump(o) => self.pump(o),
                Ev::Syn(o, n) => self.syn(o, n),
                Ev::More(o) => self.edge(o, EPOLLIN),
                Ev::Space(o) => {
                    if self.space(o) > 0 {
                        if let Kind::Stream(q) = &mut self.objs[o].kind {
                            q.wfull = false;
                        }
                        self.edge(o, EPOLLOUT);
                    }
                }
                Ev::ConnDone(o, e) => self.conn_done(o, e),
                Ev::Rst(o) => self.do_reset(o, libc::ECONNRESET),
                Ev::Dead(o, ep) => {
                    if let Kind::Stream(s) = &self.objs[o].kind {
                        if s.epoch == ep && !s.closed {
                            self.bump("net.keepalive_timeout");
                            self.do_reset(o, libc::ETIMEDOUT);
                        }
                    }
                }
            }
        }
    }
    /// Give up the CPU; `me` continues when it is scheduled again.
    fn resched(&mut self, me: usize) {
        loop {
            self.fire_due();
            if !self.run.is_empty() {
                let i = if self.run.len() == 1 { 0 } else { self.srng.below(self.run.len() as u64) as usize };
                let t = self.run[i];
                self.sched_hash = mix(self.sched_hash, t as u64);
                if t == me {
                    self.cur = t;
                    return;
                }
                self.switches += 1;
                self.cur = t;
                self.hash = mix(self.hash, 0x5000 + t as u64);
                let mine: *mut i32 = &mut *self.thr[me].sem;
                let theirs: *mut i32 = &mut *self.thr[t].sem;
                unsafe { shim_switch(theirs, mine, self as *mut Kernel as *mut libc::c_void) };
                return;
            }
            match self.timers.peek() {
                Some(Reverse((at, _, _))) => self.now = self.now.max(*at),
                None => die("simulation deadlock: no runnable thread and no timer"),
            }
        }
    }
    fn block(&mut self, me: usize, deadline: Option<u64>) -> Why {
        let g = self.thr[me].generation;
        self.thr[me].st = St::Blocked;
        self.run_del(me);
        if let Some(d) = deadline {
            self.timer(d.max(self.now), Ev::Wake(me, g));
        }
        self.resched(me);
        self.thr[me].why
    }
    /// (tid, generation) handle under which `me` will be blocked next.
    fn handle(&self, me: usize) -> (usize, u64) {
        (me, self.thr[me].generation)
    }
    fn point(&mut self, kind: i32, arg: u64) {
        self.steps += 1;
        self.now += self.cfg.step_cost;
        let me = self.cur;
        self.thr[me].what = kind as u32;
        self.hash = mix(self.hash, (kind as u64) << 32 ^ arg ^ (me as u64) << 48);
        if self.steps > self.limit_steps {
            die("step limit");
        }
        if let Some(a) = &mut self.armed {
            if a.mask & 1 != 0 && self.hosts[a.host].cur == Some(self.thr[me].proc_) {
                if a.countdown == 0 {
                    let a = self.armed.take().unwrap();
                    self.crash_self(a.power);
                } else {
                    a.countdown -= 1;
                }
            }
        }
        if let Some(Reverse((at, _, _))) = self.timers.peek() {
            if *at <= self.now {
                self.fire_due();
            }
        }
        if self.chaos && self.cfg.delay_ppm > 0 && self.thr[me].proc_ != 0 && self.srng.ppm(self.cfg.delay_ppm) {
            let d = self.srng.logrange(10_000, self.cfg.delay_max.max(20_000));
            self.bump("sched.thread_delay");
            self.block(me, Some(self.now + d));
            return;
        }
        if self.run.len() > 1 && self.srng.ppm(self.cfg.preempt_ppm) {
            self.resched(me);
        }
    }
    fn my_proc(&self) -> usize {
        self.thr[self.cur].proc_
    }
    fn my_host(&self) -> usize {
        self.procs[self.my_proc()].host
    }

    // ---- hosts and processes -------------------------------------------------------
    pub fn add_host(&mut self, ip: u32) -> usize {
        self.hosts.push(Host { ip, up: true, cur: None, clock_off: 0, next_port: 30000 });
        self.hosts.len() - 1
    }
    /// Start a process on `host`; `f` is its main function.
    pub fn spawn_proc(&mut self, host: usize, is_server: bool, f: Box<dyn FnOnce()>) -> usize {
        let p = self.procs.len();
        self.procs.push(Proc {
            host, alive: true, exit_code: None, paused: false, parked: vec![],
            rng: Rng::new(self.cfg.seed, 1000 + p as u64), sig: BTreeMap::new(), is_server,
        });
        self.hosts[host].cur = Some(p);
        self.hosts[host].up = true;
        let tid = self.new_thr(p);
        self.main_entry[tid] = Some(f);
        let mut th: libc::pthread_t = 0;
        extern "C" fn main_thread(arg: *mut libc::c_void) -> *mut libc::c_void {
            let tid = arg as usize;
            unsafe { shim_set_ink(1) };
            let f = k().main_entry[tid].take().unwrap();
            unsafe { shim_set_ink(0) };
            f();
            unsafe { shim_set_ink(1) };
            let p = k().thr[tid].proc_;
            k().proc_exit(p, 0);
            // this thread is now a zombie: hand over forever
            k().park_forever()
        }
        unsafe {
            let mut attr: libc::pthread_attr_t = std::mem::zeroed();
            libc::pthread_attr_init(&mut attr);
            libc::pthread_attr_setstacksize(&mut attr, 8 << 20);
            let r = shim_spawn(&mut th, &attr, main_thread, tid as *mut libc::c_void, tid as i32);
            if r != 0 {
                die("cannot create thread");
            }
        }
        self.thr[tid].pthread = th;
        self.unstall_all();
        p
    }
    fn park_forever(&mut self) -> ! {
        let me = self.cur;
        self.run_del(me);
        if self.thr[me].st != St::Zombie {
            self.thr[me].st = St::Exited;
        }
        self.resched(me);
        loop {
            unsafe { shim_sem_wait(&mut *self.thr[me].sem) };
        }
    }
    fn zombify(&mut self, p: usize) {
        self.procs[p].alive = false;
        for t in 0..self.thr.len() {
            if self.thr[t].proc_ == p && self.thr[t].st != St::Exited {
                self.run_del(t);
                self.thr[t].st = St::Zombie;
                self.thr[t].generation += 1;
            }
        }
        self.procs[p].parked.clear();
        let h = self.procs[p].host;
        if self.hosts[h].cur == Some(p) {
            self.hosts[h].cur = None;
        }
        self.files.retain(|_, v| v.1 as usize != p);
    }
    /// Process exits or is killed: its OS closes the sockets.
    pub fn proc_exit(&mut self, p: usize, code: i32) {
        if !self.procs[p].alive {
            return;
        }
        self.zombify(p);
        self.procs[p].exit_code = Some(code);
        for o in 0..self.objs.len() {
            if self.objs[o].proc_ == p && self.objs[o].refs > 0 {
                self.objs[o].refs = 0;
                self.obj_close(o);
            }
        }
        self.world_wake = true;
        self.wake_world();
    }
    /// Host loses power: nothing is sent to the peers, unsynced data may be lost.
    pub fn power_loss(&mut self, h: usize) {
        if let Some(p) = self.hosts[h].cur {
            self.zombify(p);
            self.procs[p].exit_code = Some(-1);
        }
        self.hosts[h].up = false;
        for o in 0..self.objs.len() {
            if self.procs[self.objs[o].proc_].host == h {
                self.objs[o].refs = 0;
                let mut end = None;
                match &mut self.objs[o].kind {
                    Kind::Stream(s) => {
                        if s.connected && !s.closed && !s.reset && !s.local_ipc {
                            end = Some((s.local, s.remote));
                        }
                        s.hostdead = true;
                        s.closed = true;
                        s.out.clear();
                        s.out_bytes = 0;
                    }
                    Kind::Listener { open, .. } => *open = false,
                    _ => {}
                }
                if let Some((l, r)) = end {
                    self.log_end(o, l, r, "power");
                }
            }
        }
        self.note_cuts();
        // (the database is on the server's disk)
        if self.cfg.track_disk && self.hosts[h].ip == crate::driver::SRV_IP {
            self.lose_unsynced();
        }
        self.world_wake = true;
        self.wake_world();
    }
    /// What a power failure right now would leave of `f` (mode 0: synced data only,
    /// 1: everything, 2: a prefix of the unsynced writes, 3: an arbitrary subset, torn).
    fn loss_image(f: &TFile, mode: u64, r: &mut Rng, lost: &mut u64, torn_n: &mut u64) -> Vec<u8> {
        let mut img = f.shadow.clone();
        let total = f.unsynced.len() as u64;
        let cutoff = if total == 0 { 0 } else { r.below(total + 1) };
        for (i, op) in f.unsynced.iter().enumerate() {
            let i = i as u64;
            let keep = match mode {
                0 => false,
                1 => true,
                2 => i < cutoff,
                _ => r.chance(1, 2),
            };
            let torn = !keep && ((mode == 2 && i == cutoff) || (mode == 3 && r.chance(1, 4)));
            match op {
                DiskOp::Write(off, d) => {
                    let off = *off as usize;
                    if keep {
                        if img.len() < off + d.len() {
                            img.resize(off + d.len(), 0);
                        }
                        img[off..off + d.len()].copy_from_slice(d);
                    } else if torn {
                        *torn_n += 1;
                        for (j, c) in d.chunks(512).enumerate() {
                            if r.chance(1, 2) {
                                let o = off + j * 512;
                                if img.len() < o + c.len() {
                                    img.resize(o + c.len(), 0);
                                }
                                img[o..o + c.len()].copy_from_slice(c);
                            }
                        }
                    }
                    if !keep {
                        *lost += 1;
                    }
                }
                DiskOp::Trunc(l) => {
                    if keep {
                        img.resize(*l as usize, 0);
                    }
                }
            }
        }
        img
    }
    fn lose_unsynced(&mut self) {
        let names: Vec<String> = self.tfiles.keys().cloned().collect();
        let mode = self.drng.below(4);
        for n in names {
            let f = self.tfiles.remove(&n).unwrap();
            if n.ends_with("-shm") {
                let _ = std::fs::remove_file(&n);
                continue;
            }
            let (mut lost, mut torn) = (0, 0);
            let img = Self::loss_image(&f, mode, &mut self.drng, &mut lost, &mut torn);
            *self.stat.entry("disk.lost_write").or_insert(0) += lost;
            *self.stat.entry("disk.torn_write").or_insert(0) += torn;
            if std::path::Path::new(&n).exists() {
                let tmp = format!("{n}.pl");
                std::fs::write(&tmp, &img).expect("power-loss image");
                std::fs::rename(&tmp, &n).expect("power-loss rename");
            }
        }
        self.tfiles.clear();
    }
    /// Copy the database files as they are (or, with `hyp`, as a power loss may leave them).
    pub fn take_snap(&mut self, hyp: bool) -> usize {
        let db = self.snap.db.clone();
        let hyp = hyp && self.cfg.track_disk;
        let mode = if hyp { self.snrng.below(4) } else { 0 };
        let mut get = |suffix: &str| -> Option<Vec<u8>> {
            let n = format!("{db}{suffix}");
            if hyp {
                if let Some(f) = self.tfiles.get(&n) {
                    if std::path::Path::new(&n).exists() {
                        let (mut a, mut b) = (0, 0);
                        return Some(Self::loss_image(f, mode, &mut self.snrng, &mut a, &mut b));
                    }
                    return None;
                }
            }
            std::fs::read(&n).ok()
        };
        let (d, w, j) = (get(""), get("-wal"), get("-journal"));
        self.bump(if hyp { "crash.image_power" } else { "crash.image_kill" });
        self.snaps.push(Snap { t: self.now, ev: self.events.len(), db: d, wal: w, journal: j, hyp });
        self.snaps.len() - 1
    }
    fn crash_self(&mut self, power: bool) -> ! {
        let p = self.my_proc();
        let h = self.procs[p].host;
        self.bump(if power { "crash.power_at_op" } else { "crash.kill_at_op" });
        if power {
            self.power_loss(h);
        } else {
            self.proc_exit(p, 137);
        }
        self.park_forever()
    }
    pub fn pause(&mut self, p: usize, on: bool) {
        if self.procs[p].paused == on || !self.procs[p].alive {
            return;
        }
        if on {
            let v: Vec<usize> = self.run.iter().copied().filter(|t| self.thr[*t].proc_ == p).collect();
            for t in v {
                self.run_del(t);
                self.procs[p].parked.push(t);
            }
            self.procs[p].paused = true;
        } else {
            self.procs[p].paused = false;
            let v = std::mem::take(&mut self.procs[p].parked);
            for t in v {
                if self.thr[t].st == St::Runnable {
                    self.run_add(t);
                }
            }
        }
    }
    pub fn set_cut(&mut self, a: usize, b: usize, on: bool) {
        let ch = if on { self.cut.insert((a, b)) } else { self.cut.remove(&(a, b)) };
        if ch {
            if on {
                self.note_cuts();
            } else {
                self.unstall_all();
            }
        }
    }
    fn is_cut(&self, a: usize, b: usize) -> bool {
        a != b && self.cut.contains(&(a, b))
    }
    fn host_by_ip(&self, ip: u32) -> Option<usize> {
        (0..self.hosts.len()).find(|h| self.hosts[*h].ip == ip)
    }
    /// Keep-alive / user-timeout handling for connections whose path just broke.
    fn note_cuts(&mut self) {
        for o in 0..self.objs.len() {
            let host = self.procs[self.objs[o].proc_].host;
            let Kind::Stream(s) = &self.objs[o].kind else { continue };
            if s.closed || !s.connected || s.local_ipc {
                continue;
            }
            let Some(rh) = self.host_by_ip(s.remote.0) else { continue };
            let broken = self.is_cut(host, rh) || self.is_cut(rh, host) || !self.hosts[rh].up;
            // the peer's OS no longer knows the connection: it answers the first probe with a reset
            let gone = s.peer.is_some_and(|p| matches!(&self.objs[p].kind, Kind::Stream(q) if q.hostdead || q.reset));
            if !(broken || gone) || !s.keepalive {
                continue;
            }
            let d = if broken { s.ka.0 + s.ka.1 * s.ka.2.max(1) } else { s.ka.0 };
            let ep = s.epoch;
            self.timer(self.now + d, Ev::Dead(o, ep));
        }
    }
    fn unstall_all(&mut self) {
        let v: Vec<usize> = self.stalled.iter().copied().collect();
        self.stalled.clear();
        for o in v {
            let d = self.nrng.logrange(5 * MS, 800 * MS);
            if let Kind::Stream(s) = &mut self.objs[o].kind {
                s.stalled = false;
                s.pumping = true;
            }
            self.timer(self.now + d, Ev::Pump(o));
        }
        // the path works again: pending keep-alive deadlines are void
        for o in 0..self.objs.len() {
            if let Kind::Stream(s) = &mut self.objs[o].kind {
                s.epoch += 1;
            }
        }
        self.note_cuts();
    }

    // ---- the world thread ------------------------------------------------------------
    fn wake_world(&mut self) {
        if self.cur != 0 && self.thr[0].st == St::Blocked {
            let g = self.thr[0].generation;
            self.wake((0, g), Why::Woken);
        }
    }
    /// World thread sleeps until `t` (or until a process died).
    pub fn world_sleep_until(&mut self, t: u64) {
        if self.now >= t {
            // let others run at least once
            self.resched_world(self.now + 1);
            return;
        }
        self.resched_world(t);
    }
    fn resched_world(&mut self, t: u64) {
        assert!(self.cur == 0);
        self.world_wake = false;
        self.block(0, Some(t));
    }

    // ---- objects ----------------------------------------------------------------------
    fn new_obj(&mut self, kind: Kind, nonblock: bool) -> (i32, usize) {
        let o = self.objs.len();
        let p = self.my_proc();
        self.objs.push(Obj { kind, refs: 1, nonblock, watchers: vec![], waiters: vec![], proc_: p, bound: (0, 0) });
        (self.new_fd(o), o)
    }
    fn new_fd(&mut self, o: usize) -> i32 {
        self.fds.push(Some(o));
        FD_BASE + self.fds.len() as i32 - 1
    }
    fn obj(&self, fd: i32) -> Option<usize> {
        self.fds.get((fd - FD_BASE) as usize).copied().flatten()
    }
    fn readiness(&self, o: usize) -> u32 {
        match &self.objs[o].kind {
            Kind::Listener { backlog, .. } => if backlog.is_empty() { 0 } else { EPOLLIN },
            Kind::EventFd(c) => EPOLLOUT | if *c > 0 { EPOLLIN } else { 0 },
            Kind::Stream(s) => {
                let mut m = 0;
                if s.connecting {
                    return 0;
                }
                if !s.rx.is_empty() || s.rx_fin || s.reset || s.err != 0 {
                    m |= EPOLLIN;
                }
                if s.reset || s.err != 0 || s.tx_fin || (s.connected && self.space(o) > 0) {
                    m |= EPOLLOUT;
                }
                if s.rx_fin || s.reset {
                    m |= EPOLLRDHUP;
                }
                if s.reset || (s.rx_fin && s.tx_fin) {
                    m |= EPOLLHUP;
                }
                if s.err != 0 {
                    m |= EPOLLERR;
                }
                m
            }
            Kind::Unconn => EPOLLOUT | EPOLLHUP,
            Kind::Urandom => EPOLLIN,
            Kind::Epoll { .. } => 0,
        }
    }
    fn space(&self, o: usize) -> usize {
        let Kind::Stream(s) = &self.objs[o].kind else { return 0 };
        let rx = match s.peer {
            Some(p) => match &self.objs[p].kind {
                Kind::Stream(q) => q.rx.len(),
                _ => 0,
            },
            None => 0,
        };
        self.cfg.window.saturating_sub(s.out_bytes + rx)
    }
    fn edge(&mut self, o: usize, mask: u32) {
        let ws = std::mem::take(&mut self.objs[o].waiters);
        for w in ws {
            self.wake(w, Why::Woken);
        }
        let watchers = self.objs[o].watchers.clone();
        for (ep, fd) in watchers {
            let mut hit = false;
            if let Kind::Epoll { items, ready } = &mut self.objs[ep].kind {
                if let Some(it) = items.get(&fd) {
                    if it.events & mask != 0 || mask & (EPOLLERR | EPOLLHUP) != 0 {
                        if !ready.contains(&fd) {
                            ready.push(fd);
                        }
                        hit = true;
                    }
                }
            }
            if hit {
                let ws = std::mem::take(&mut self.objs[ep].waiters);
                for w in ws {
                    self.wake(w, Why::Woken);
                }
            }
        }
    }
    fn obj_close(&mut self, o: usize) {
        // remove from epoll sets
        let watchers = std::mem::take(&mut self.objs[o].watchers);
        for (ep, fd) in watchers {
            if let Kind::Epoll { items, ready } = &mut self.objs[ep].kind {
                items.remove(&fd);
                ready.retain(|f| *f != fd);
            }
        }
        let now = self.now;
        match &mut self.objs[o].kind {
            Kind::Listener { backlog, open } => {
                *open = false;
                let b = std::mem::take(backlog);
                for s in b {
                    self.send_seg(s, Seg::Rst);
                    if let Kind::Stream(st) = &mut self.objs[s].kind {
                        st.closed = true;
                    }
                }
            }
            Kind::Stream(s) => {
                if s.closed {
                    return;
                }
                s.closed = true;
                let _ = now;
                let (ended, ports) = (s.connected && !s.reset && !s.local_ipc, (s.local, s.remote));
                if ended {
                    self.log_end(o, ports.0, ports.1, "close");
                }
                let Kind::Stream(s) = &mut self.objs[o].kind else { return };
                if s.connected && !s.reset {
                    let rst = !s.rx.is_empty();
                    s.rx.clear();
                    let fin = s.tx_fin;
                    s.tx_fin = true;
                    if rst {
                        self.send_seg(o, Seg::Rst);
                    } else if !fin {
                        self.send_seg(o, Seg::Fin);
                    }
                }
            }
            _ => {}
        }
    }

    // ---- network -----------------------------------------------------------------------
    fn latency(&mut self) -> u64 {
        let (a, b) = (self.cfg.lat_min, self.cfg.lat_max);
        let mut l = self.nrng.range(a, b.max(a));
        if self.chaos && self.nrng.ppm(self.cfg.spike_ppm) {
            l += self.nrng.logrange(MS, self.cfg.spike_max.max(2 * MS));
            self.bump("net.delay_spike");
        }
        l
    }
    fn send_seg(&mut self, o: usize, seg: Seg) {
        let ipc = matches!(&self.objs[o].kind, Kind::Stream(s) if s.local_ipc);
        let lat = if ipc { 0 } else { self.latency() };
        let now = self.now;
        let Kind::Stream(s) = &mut self.objs[o].kind else { return };
        let at = s.last_at.max(now + lat);
        s.last_at = at;
        if let Seg::Data(d) = &seg {
            s.out_bytes += d.len();
        }
        if let Seg::Rst = seg {
            s.out.clear();
            s.out_bytes = 0;
        }
        s.out.push_back((at, seg));
        if ipc {
            self.pump(o);
        } else if !s.pumping && !s.stalled {
            s.pumping = true;
            self.timer(at, Ev::Pump(o));
        }
    }
    fn pump(&mut self, o: usize) {
        loop {
            let host = self.procs[self.objs[o].proc_].host;
            let Kind::Stream(s) = &mut self.objs[o].kind else { return };
            s.pumping = false;
            let Some((at, _)) = s.out.front() else { return };
            let (at, peer, ipc, remote) = (*at, s.peer, s.local_ipc, s.remote.0);
            if at > self.now {
                s.pumping = true;
                self.timer(at, Ev::Pump(o));
                return;
            }
            if !ipc {
                let rh = self.host_by_ip(remote).unwrap_or(host);
                if self.is_cut(host, rh) || (!self.hosts[rh].up) {
                    let Kind::Stream(s) = &mut self.objs[o].kind else { return };
                    s.stalled = true;
                    self.stalled.insert(o);
                    return;
                }
            }
            let Kind::Stream(s) = &mut self.objs[o].kind else { return };
            let (_, seg) = s.out.pop_front().unwrap();
            if let Seg::Data(d) = &seg {
                s.out_bytes -= d.len();
            }
            let (src, dst) = (s.local, s.remote);
            let Some(p) = peer else { continue };
            let Kind::Stream(q) = &mut self.objs[p].kind else { continue };
            match seg {
                Seg::Data(d) => {
                    if q.closed || q.reset {
                        // nobody there: the peer's OS answers with a reset
                        let back = self.latency();
                        self.timer(self.now + back, Ev::Rst(o));
                        continue;
                    }
                    if !ipc {
                        if let Some(mut tap) = self.rx_tap.take() {
                            tap(self.now, src, dst, &d);
                            self.rx_tap = Some(tap);
                        }
                    }
                    let Kind::Stream(q) = &mut self.objs[p].kind else { continue };
                    q.rx.extend(d);
                    self.edge(p, EPOLLIN);
                }
                Seg::Fin => {
                    if q.hostdead {
                        continue;
                    }
                    q.rx_fin = true;
                    self.edge(p, EPOLLIN | EPOLLRDHUP);
                }
                Seg::Rst => {
                    self.do_reset(p, libc::ECONNRESET);
                }
            }
        }
    }
    fn do_reset(&mut self, o: usize, err: i32) {
        let Kind::Stream(s) = &mut self.objs[o].kind else { return };
        if s.reset {
            return;
        }
        let (ended, local, remote) = (s.connected && !s.closed && !s.local_ipc, s.local, s.remote);
        s.reset = true;
        s.err = err;
        s.out.clear();
        s.out_bytes = 0;
        s.connecting = false;
        if s.closed {
            return;
        }
        if ended {
            self.log_end(o, local, remote, "reset");
        }
        self.edge(o, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
    }
    /// Record the end of a connection to the server as seen by one side's OS.
    fn log_end(&mut self, o: usize, local: (u32, u16), remote: (u32, u16), how: &str) {
        let (side, ip, port) = if remote.1 == 3999 {
            ("c", local.0, local.1)
        } else if local.1 == 3999 {
            ("s", remote.0, remote.1)
        } else {
            return;
        };
        let p = self.objs[o].proc_;
        self.log_as(p, format!("{{\"e\":\"k_end\",\"ip\":{ip},\"port\":{port},\"side\":\"{side}\",\"how\":\"{how}\"}}"));
    }
    /// Fault: reset every established connection between two hosts (both ends).
    pub fn reset_conns(&mut self, a: usize, b: usize) -> usize {
        let mut n = 0;
        for o in 0..self.objs.len() {
            let ha = self.procs[self.objs[o].proc_].host;
            let Kind::Stream(s) = &self.objs[o].kind else { continue };
            if s.local_ipc || s.closed || !s.connected || s.reset {
                continue;
            }
            let Some(hb) = self.host_by_ip(s.remote.0) else { continue };
            if (ha, hb) == (a, b) || (ha, hb) == (b, a) {
                self.do_reset(o, libc::ECONNRESET);
                n += 1;
            }
        }
        n
    }
    /// Fault: silently drop one side (half-open): the peer is told nothing.
    pub fn half_open(&mut self, client: usize, forgets: usize) -> usize {
        // the OS of one side forgets its connections with the client (NAT timeout / VM restore)
        let mut n = 0;
        let ip = self.hosts[client].ip;
        for o in 0..self.objs.len() {
            if self.procs[self.objs[o].proc_].host != forgets {
                continue;
            }
            if forgets != client && !matches!(&self.objs[o].kind, Kind::Stream(s) if s.remote.0 == ip) {
                continue;
            }
            if let Kind::Stream(s) = &mut self.objs[o].kind {
                if !s.local_ipc && s.connected && !s.closed && !s.reset {
                    s.out.clear();
                    s.out_bytes = 0;
                    self.do_reset(o, libc::ETIMEDOUT);
                    n += 1;
                }
            }
        }
        self.note_cuts();
        n
    }
    fn syn(&mut self, o: usize, attempt: u32) {
        let host = self.procs[self.objs[o].proc_].host;
        let Kind::Stream(s) = &self.objs[o].kind else { return };
        if s.closed || !s.connecting {
            return;
        }
        let (remote, local) = (s.remote, s.local);
        let rh = if remote.0 >> 24 == 127 { Some(host) } else { self.host_by_ip(remote.0) };
        let reach = match rh {
            Some(r) => !self.is_cut(host, r) && !self.is_cut(r, host) && self.hosts[r].up,
            None => false,
        };
        if !reach {
            if attempt >= 6 {
                self.conn_done(o, libc::ETIMEDOUT);
            } else {
                let d = SEC << attempt;
                self.timer(self.now + d, Ev::Syn(o, attempt + 1));
            }
            return;
        }
        let r = rh.unwrap();
        let lat = self.latency();
        let l = (0..self.objs.len()).find(|i| {
            matches!(&self.objs[*i].kind, Kind::Listener { open: true, .. })
                && self.objs[*i].bound.1 == remote.1
                && self.procs[self.objs[*i].proc_].host == r
                && self.procs[self.objs[*i].proc_].alive
        });
        match l {
            None => self.timer(self.now + lat, Ev::ConnDone(o, libc::ECONNREFUSED)),
            Some(l) => {
                let srv = self.objs.len();
                let lp = self.objs[l].proc_;
                let mut st = Stream {
                    peer: Some(o), connected: true, local: remote, remote: local, opened_at: self.now, ..Stream::default()
                };
                st.ka = (7200 * SEC, 75 * SEC, 9);
                self.objs.push(Obj {
                    kind: Kind::Stream(Box::new(st)), refs: 1, nonblock: false, watchers: vec![], waiters: vec![], proc_: lp, bound: remote,
                });
                if let Kind::Stream(s) = &mut self.objs[o].kind {
                    s.peer = Some(srv);
                }
                if let Kind::Listener { backlog, .. } = &mut self.objs[l].kind {
                    backlog.push_back(srv);
                }
                self.edge(l, EPOLLIN);
                self.timer(self.now + lat, Ev::ConnDone(o, 0));
            }
        }
    }
    fn conn_done(&mut self, o: usize, err: i32) {
        let Kind::Stream(s) = &mut self.objs[o].kind else { return };
        if !s.connecting {
            return;
        }
        s.connecting = false;
        if err == 0 {
            s.connected = true;
            s.last_at = s.last_at.max(self.now);
            self.edge(o, EPOLLOUT);
        } else {
            s.err = err;
            s.reset = true;
            self.edge(o, EPOLLOUT | EPOLLERR | EPOLLHUP);
        }
    }

    // ---- reporting -----------------------------------------------------------------------
    pub fn log(&mut self, s: String) {
        let p = self.my_proc();
        self.log_as(p, s);
    }
    pub fn log_as(&mut self, p: usize, s: String) {
        if self.cfg.verbose {
            eprintln!("[{:>12.6}] h{} p{} {}", self.now as f64 / 1e9, self.procs[p].host, p, s);
        }
        let host = self.procs[p].host;
        let mut h = self.hash;
        for c in s.as_bytes().chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            h = mix(h, u64::from_le_bytes(b));
        }
        self.hash = h;
        self.events.push(Event { t: self.now, host, proc_: p, s });
    }
    pub fn real_now(&self, host: usize) -> i64 {
        (REAL_BASE + self.now) as i64 + self.hosts[host].clock_off
    }
    pub fn threads_dump(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.thr.iter().enumerate() {
            if t.st != St::Exited && t.st != St::Zombie {
                s += &format!("t{i} p{} {:?} what={}; ", t.proc_, t.st, t.what);
            }
        }
        s
    }
    pub fn live_threads(&self) -> usize {
        self.thr.len()
    }
}

/// Deliver a signal to process `p`: runs the handler on the world thread's
/// stack, as an asynchronous signal would run on some thread's stack.
pub fn signal(p: usize, sig: i32) -> bool {
    if !k().procs[p].alive {
        return false;
    }
    match k().procs[p].sig.get(&sig).copied() {
        Some((h, siginfo)) if h > 1 => {
            unsafe {
                let save = k().thr[0].proc_;
                k().thr[0].proc_ = p;
                shim_set_ink(0);
                if siginfo {
                    let mut si: libc::siginfo_t = std::mem::zeroed();
                    si.si_signo = sig;
                    let f: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) = std::mem::transmute(h);
                    f(sig, &mut si, std::ptr::null_mut());
                } else {
                    let f: extern "C" fn(i32) = std::mem::transmute(h);
                    f(sig);
                }
                shim_set_ink(1);
                k().thr[0].proc_ = save;
            }
            true
        }
        Some((1, _)) => true,
        _ => {
            k().proc_exit(p, 128 + sig);
            true
        }
    }
}

pub fn die(msg: &str) -> ! {
    unsafe { shim_set_ink(1) };
    unsafe {
        if DIE_FD >= 0 {
            let m = format!("{{\"inc\":\"{msg} (t={} steps={})\",\"viol\":[]}}", k().now as f64 / 1e9, k().steps);
            libc::write(DIE_FD, m.as_ptr().cast(), m.len());
        }
    }
    eprintln!("SIM-ABORT {msg} (t={} steps={})", k().now as f64 / 1e9, k().steps);
    if std::env::var("SIMQ_DUMP").is_ok() {
        eprintln!("{}", k().threads_dump());
    }
    unsafe { shim_raw(231, 97, 0, 0, 0, 0, 0) };
    loop {}
}

// =====================================================================================
// entry points called by shim.c (in_kernel flag already set)
// =====================================================================================
#[unsafe(no_mangle)]
extern "C" fn k_point(kind: i32, arg: i64) {
    k().point(kind, arg as u64);
}
#[unsafe(no_mangle)]
extern "C" fn k_nomem() -> i32 {
    let kk = k();
    kk.reset_nomem();
    if kk.disk.nomem == 0 || !kk.chaos {
        return 0;
    }
    kk.bump("mem.alloc_failed");
    kk.hash = mix(kk.hash, 0x03e3 ^ (kk.cur as u64) << 40);
    1
}
#[unsafe(no_mangle)]
extern "C" fn k_edge_point() {
    let kk = k();
    kk.reset_edge();
    kk.steps += 1;
    kk.now += kk.cfg.step_cost;
    kk.hash = mix(kk.hash, 0xed9e ^ (kk.cur as u64) << 40);
    if kk.chaos {
        let me = kk.cur;
        let (often, long) = if kk.cfg.edge_long { (2, 2) } else { (8, 1) };
        if kk.srng.chance(1, often) {
            kk.bump("sched.block_preempt");
            // (sometimes long enough for others to do something that takes a while, like a query)
            let d = if kk.cfg.edge_long && kk.srng.chance(1, long) { kk.srng.logrange(300_000, 20_000_000) } else { kk.srng.logrange(1000, 300_000) };
            kk.block(me, Some(kk.now + d));
        } else if kk.run.len() > 1 {
            kk.bump("sched.block_preempt");
            kk.resched(me);
        }
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_alloc_point() {
    let kk = k();
    kk.reset_alloc();
    kk.steps += 1;
    kk.now += kk.cfg.step_cost;
    kk.hash = mix(kk.hash, 0xa110c ^ (kk.cur as u64) << 40);
    if kk.chaos && kk.run.len() > 1 {
        let me = kk.cur;
        kk.bump("sched.alloc_preempt");
        if kk.cfg.delay_ppm > 0 && kk.srng.ppm(kk.cfg.delay_ppm * 8) {
            let d = kk.srng.logrange(10_000, kk.cfg.delay_max.max(20_000));
            kk.bump("sched.thread_delay");
            kk.block(me, Some(kk.now + d));
        } else {
            kk.resched(me);
        }
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_clock_gettime(clk: i32, ts: *mut libc::timespec) -> i64 {
    let kk = k();
    kk.now += 40;
    let ns: u64 = match clk {
        libc::CLOCK_REALTIME | 5 => kk.real_now(kk.my_host()) as u64,
        _ => MONO_BASE + kk.now,
    };
    unsafe {
        (*ts).tv_sec = (ns / SEC) as i64;
        (*ts).tv_nsec = (ns % SEC) as i64;
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_now_mono() -> u64 {
    MONO_BASE + k().now
}
#[unsafe(no_mangle)]
extern "C" fn k_sleep(ns: u64) -> i64 {
    let kk = k();
    kk.point(1, 0);
    let me = kk.cur;
    kk.block(me, Some(kk.now + ns));
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_sleep_until_clk(_clk: i32, abs: u64) -> i64 {
    let kk = k();
    kk.point(1, 0);
    let me = kk.cur;
    let t = abs.saturating_sub(MONO_BASE);
    kk.block(me, Some(t));
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_getrandom(buf: *mut u8, n: usize) -> i64 {
    let kk = k();
    let p = kk.my_proc();
    let s = unsafe { std::slice::from_raw_parts_mut(buf, n) };
    kk.procs[p].rng.fill(s);
    n as i64
}
#[unsafe(no_mangle)]
extern "C" fn k_futex_wait(addr: *const u32, val: u32, has: i32, abs: u64) -> i64 {
    let kk = k();
    kk.point(2, 0);
    if unsafe { std::ptr::read_volatile(addr) } != val {
        return -(libc::EAGAIN as i64);
    }
    let me = kk.cur;
    let h = kk.handle(me);
    kk.futex.entry(addr as usize).or_default().push_back(h);
    let dl = if has != 0 { Some(abs.saturating_sub(MONO_BASE)) } else { None };
    match kk.block(me, dl) {
        Why::Woken => 0,
        Why::Timeout => -(libc::ETIMEDOUT as i64),
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_futex_wake(addr: *const u32, n: i32) -> i64 {
    let kk = k();
    let mut woken = 0;
    if let Some(mut q) = kk.futex.remove(&(addr as usize)) {
        while woken < n as i64 {
            let w = if q.len() > 1 && !kk.cfg.fifo_sched {
                let i = kk.srng.below(q.len() as u64) as usize;
                q.swap_remove_back(i)
            } else {
                q.pop_front()
            };
            let Some(w) = w else { break };
            if kk.wake(w, Why::Woken) {
                woken += 1;
            }
        }
        q.retain(|(t, g)| kk.thr[*t].st == St::Blocked && kk.thr[*t].generation == *g);
        if !q.is_empty() {
            kk.futex.insert(addr as usize, q);
        }
    }
    kk.point(3, woken as u64);
    woken
}
#[unsafe(no_mangle)]
extern "C" fn k_thread_new() -> i32 {
    let kk = k();
    let p = kk.my_proc();
    kk.new_thr(p) as i32
}
#[unsafe(no_mangle)]
extern "C" fn k_thread_started(tid: i32, th: libc::pthread_t) {
    let kk = k();
    kk.thr[tid as usize].pthread = th;
    kk.point(4, tid as u64);
}
#[unsafe(no_mangle)]
extern "C" fn k_thread_exit(_tid: i32, _rv: *mut libc::c_void) {
    let kk = k();
    let me = kk.cur;
    kk.point(5, 0);
    let js = std::mem::take(&mut kk.thr[me].joiners);
    kk.thr[me].st = St::Exited;
    for j in js {
        kk.wake(j, Why::Woken);
    }
    kk.park_forever();
}
#[unsafe(no_mangle)]
extern "C" fn k_thread_known(th: libc::pthread_t) -> i32 {
    k().thr.iter().any(|t| t.pthread == th) as i32
}
#[unsafe(no_mangle)]
extern "C" fn k_thread_join(th: libc::pthread_t, rv: *mut *mut libc::c_void) -> i64 {
    let kk = k();
    kk.point(6, 0);
    let t = kk.thr.iter().position(|t| t.pthread == th).unwrap();
    while kk.thr[t].st != St::Exited {
        let me = kk.cur;
        let h = kk.handle(me);
        kk.thr[t].joiners.push(h);
        kk.block(me, None);
    }
    if !rv.is_null() {
        unsafe { *rv = std::ptr::null_mut() };
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_mutex_block(addr: usize) {
    let kk = k();
    let me = kk.cur;
    let h = kk.handle(me);
    kk.mutexw.entry(addr).or_default().push(h);
    kk.block(me, Some(kk.now + 50 * MS));
}
#[unsafe(no_mangle)]
extern "C" fn k_mutex_unlocked(addr: usize) {
    let kk = k();
    if let Some(ws) = kk.mutexw.remove(&addr) {
        for w in ws {
            kk.wake(w, Why::Woken);
        }
        kk.point(7, 0);
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_yield() -> i64 {
    let kk = k();
    kk.point(8, 0);
    kk.now += 1000;
    let me = kk.cur;
    if kk.run.len() > 1 {
        // make sure somebody else runs
        kk.run_del(me);
        kk.run_add(me);
        let t = kk.now + 1;
        kk.block(me, Some(t));
    } else {
        kk.now += 10_000;
        kk.fire_due();
        if kk.run.len() > 1 {
            kk.block(me, Some(kk.now + 1));
        }
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_ncpu() -> i64 {
    4
}

fn sa_get(a: *const libc::sockaddr) -> (u32, u16) {
    unsafe {
        if (*a).sa_family as i32 == libc::AF_INET {
            let s = a as *const libc::sockaddr_in;
            (u32::from_be((*s).sin_addr.s_addr), u16::from_be((*s).sin_port))
        } else if (*a).sa_family as i32 == libc::AF_INET6 {
            let s = a as *const libc::sockaddr_in6;
            (0x7f00_0001, u16::from_be((*s).sin6_port))
        } else {
            (0, 0)
        }
    }
}
fn sa_put(a: *mut libc::sockaddr, l: *mut libc::socklen_t, v: (u32, u16)) {
    if a.is_null() {
        return;
    }
    unsafe {
        let mut s: libc::sockaddr_in = std::mem::zeroed();
        s.sin_family = libc::AF_INET as u16;
        s.sin_addr.s_addr = v.0.to_be();
        s.sin_port = v.1.to_be();
        let n = (*l as usize).min(std::mem::size_of::<libc::sockaddr_in>());
        std::ptr::copy_nonoverlapping(&raw const s as *const u8, a as *mut u8, n);
        *l = std::mem::size_of::<libc::sockaddr_in>() as u32;
    }
}
const EBADF: i64 = -(libc::EBADF as i64);
const EAGAIN: i64 = -(libc::EAGAIN as i64);
const EINVAL: i64 = -(libc::EINVAL as i64);

#[unsafe(no_mangle)]
extern "C" fn k_socket(dom: i32, ty: i32, _p: i32) -> i64 {
    let kk = k();
    kk.point(30, 0);
    if (dom != libc::AF_INET && dom != libc::AF_UNIX) || (ty & 0xf) != libc::SOCK_STREAM {
        return -(libc::EAFNOSUPPORT as i64);
    }
    kk.new_obj(Kind::Unconn, ty & libc::SOCK_NONBLOCK != 0).0 as i64
}
#[unsafe(no_mangle)]
extern "C" fn k_socketpair(_d: i32, ty: i32, _p: i32, sv: *mut i32) -> i64 {
    let kk = k();
    kk.point(31, 0);
    let nb = ty & libc::SOCK_NONBLOCK != 0;
    let mk = || Box::new(Stream { connected: true, local_ipc: true, ..Stream::default() });
    let (fa, oa) = kk.new_obj(Kind::Stream(mk()), nb);
    let (fb, ob) = kk.new_obj(Kind::Stream(mk()), nb);
    if let Kind::Stream(s) = &mut kk.objs[oa].kind {
        s.peer = Some(ob);
    }
    if let Kind::Stream(s) = &mut kk.objs[ob].kind {
        s.peer = Some(oa);
    }
    unsafe {
        *sv = fa;
        *sv.add(1) = fb;
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_bind(fd: i32, a: *const libc::sockaddr, _l: u32) -> i64 {
    let kk = k();
    kk.point(32, 0);
    let Some(o) = kk.obj(fd) else { return EBADF };
    let (ip, port) = sa_get(a);
    let h = kk.my_host();
    // port in use by a live listener of this host?
    if port != 0
        && kk.objs.iter().any(|x| {
            matches!(x.kind, Kind::Listener { open: true, .. }) && x.bound.1 == port && kk.procs[x.proc_].host == h && kk.procs[x.proc_].alive
        })
    {
        return -(libc::EADDRINUSE as i64);
    }
    let port = if port == 0 {
        kk.hosts[h].next_port += 1;
        kk.hosts[h].next_port
    } else {
        port
    };
    kk.objs[o].bound = (ip, port);
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_listen(fd: i32, _b: i32) -> i64 {
    let kk = k();
    kk.point(33, 0);
    let Some(o) = kk.obj(fd) else { return EBADF };
    kk.objs[o].kind = Kind::Listener { backlog: VecDeque::new(), open: true };
    let p = kk.my_proc();
    kk.log_as(p, format!("{{\"ev\":\"listen\",\"port\":{}}}", kk.objs[o].bound.1));
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_accept4(fd: i32, a: *mut libc::sockaddr, l: *mut libc::socklen_t, fl: i32) -> i64 {
    let kk = k();
    kk.point(34, 0);
    loop {
        let Some(o) = kk.obj(fd) else { return EBADF };
        let Kind::Listener { backlog, .. } = &mut kk.objs[o].kind else { return EINVAL };
        if !backlog.is_empty() {
            net_crash(kk, N_ACCEPT);
            if kk.out_of_fds() {
                return -(libc::EMFILE as i64);
            }
        }
        let Kind::Listener { backlog, .. } = &mut kk.objs[o].kind else { return EINVAL };
        if let Some(s) = backlog.pop_front() {
            kk.objs[s].nonblock = fl & libc::SOCK_NONBLOCK != 0;
            let (local, remote) = match &kk.objs[s].kind {
                Kind::Stream(st) => (st.local, st.remote),
                _ => ((0, 0), (0, 0)),
            };
            sa_put(a, l, remote);
            if local.1 == 3999 {
                let p = kk.my_proc();
                kk.log_as(p, format!("{{\"e\":\"k_conn\",\"ip\":{},\"port\":{}}}", remote.0, remote.1));
            }
            return kk.new_fd(s) as i64;
        }
        if kk.objs[o].nonblock {
            return EAGAIN;
        }
        let me = kk.cur;
        let h = kk.handle(me);
        kk.objs[o].waiters.push(h);
        kk.block(me, None);
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_connect(fd: i32, a: *const libc::sockaddr, _l: u32) -> i64 {
    let kk = k();
    kk.point(35, 0);
    let Some(o) = kk.obj(fd) else { return EBADF };
    match &kk.objs[o].kind {
        Kind::Unconn => {}
        Kind::Stream(s) if s.connecting => return -(libc::EALREADY as i64),
        Kind::Stream(_) => return -(libc::EISCONN as i64),
        _ => return EINVAL,
    }
    if unsafe { (*a).sa_family } as i32 == libc::AF_UNIX {
        return -(libc::ECONNREFUSED as i64);
    }
    let remote = sa_get(a);
    let h = kk.my_host();
    kk.hosts[h].next_port += 1;
    let local = (kk.hosts[h].ip, kk.hosts[h].next_port);
    let keep = kk.objs[o].bound.1 == 0xffff; // keepalive marker set before connect
    let mut st = Stream { connecting: true, local, remote, opened_at: kk.now, ..Stream::default() };
    st.ka = (7200 * SEC, 75 * SEC, 9);
    if keep {
        st.keepalive = true;
        st.ka = (15 * SEC, 15 * SEC, 3);
    }
    kk.objs[o].kind = Kind::Stream(Box::new(st));
    let lat = kk.latency();
    kk.timer(kk.now + lat, Ev::Syn(o, 0));
    if kk.objs[o].nonblock {
        return -(libc::EINPROGRESS as i64);
    }
    loop {
        let Kind::Stream(s) = &mut kk.objs[o].kind else { return EINVAL };
        if s.connected {
            return 0;
        }
        if !s.connecting {
            let e = s.err;
            s.err = 0;
            return -(e as i64);
        }
        let me = kk.cur;
        let hd = kk.handle(me);
        kk.objs[o].waiters.push(hd);
        kk.block(me, None);
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_getsockname(fd: i32, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> i64 {
    let kk = k();
    let Some(o) = kk.obj(fd) else { return EBADF };
    let v = match &kk.objs[o].kind {
        Kind::Stream(s) => s.local,
        _ => kk.objs[o].bound,
    };
    sa_put(a, l, v);
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_getpeername(fd: i32, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> i64 {
    let kk = k();
    let Some(o) = kk.obj(fd) else { return EBADF };
    match &kk.objs[o].kind {
        Kind::Stream(s) if s.connected && !s.reset => {
            sa_put(a, l, s.remote);
            0
        }
        _ => -(libc::ENOTCONN as i64),
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_setsockopt(fd: i32, level: i32, name: i32, v: *const u8, l: u32) -> i64 {
    let kk = k();
    let Some(o) = kk.obj(fd) else { return EBADF };
    let val = if l >= 4 { unsafe { *(v as *const i32) } } else { 0 };
    if level == libc::SOL_SOCKET && name == libc::SO_KEEPALIVE && val != 0 {
        match &mut kk.objs[o].kind {
            Kind::Stream(s) => s.keepalive = true,
            _ => kk.objs[o].bound.1 = 0xffff,
        }
    }
    if level == libc::IPPROTO_TCP {
        if let Kind::Stream(s) = &mut kk.objs[o].kind {
            match name {
                libc::TCP_KEEPIDLE => s.ka.0 = val as u64 * SEC,
                libc::TCP_KEEPINTVL => s.ka.1 = val as u64 * SEC,
                libc::TCP_KEEPCNT => s.ka.2 = val as u64,
                libc::TCP_USER_TIMEOUT => s.user_timeout = val as u64 * MS,
                _ => {}
            }
        }
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_getsockopt(fd: i32, level: i32, name: i32, v: *mut i32, l: *mut libc::socklen_t) -> i64 {
    let kk = k();
    let Some(o) = kk.obj(fd) else { return EBADF };
    let mut r = 0;
    if level == libc::SOL_SOCKET && name == libc::SO_ERROR {
        if let Kind::Stream(s) = &mut kk.objs[o].kind {
            r = s.err;
            s.err = 0;
        }
    }
    unsafe {
        if *l >= 4 {
            *v = r;
            *l = 4;
        }
    }
    0
}
fn iov<'a>(v: *const libc::iovec, n: i32) -> &'a [libc::iovec] {
    unsafe { std::slice::from_raw_parts(v, n as usize) }
}
#[unsafe(no_mangle)]
extern "C" fn k_readv(fd: i32, v: *const libc::iovec, n: i32, flags: i32) -> i64 {
    let kk = k();
    kk.point(36, 0);
    let bufs = iov(v, n);
    if kk.obj(fd).is_some_and(|o| matches!(&kk.objs[o].kind, Kind::Stream(s) if !s.local_ipc && !s.rx.is_empty())) {
        net_crash(kk, N_READ);
    }
    loop {
        let Some(o) = kk.obj(fd) else { return EBADF };
        let want: usize = bufs.iter().map(|b| b.iov_len).sum();
        let short = kk.chaos && kk.nrng.ppm(kk.cfg.short_io_ppm);
        let nb = kk.objs[o].nonblock || flags & libc::MSG_DONTWAIT != 0;
        match &mut kk.objs[o].kind {
            Kind::Urandom => {
                let p = kk.my_proc();
                for b in bufs {
                    let s = unsafe { std::slice::from_raw_parts_mut(b.iov_base as *mut u8, b.iov_len) };
                    kk.procs[p].rng.fill(s);
                }
                return want as i64;
            }
            Kind::EventFd(c) => {
                if *c > 0 {
                    let val = *c;
                    *c = 0;
                    if want >= 8 {
                        unsafe { *(bufs[0].iov_base as *mut u64) = val };
                    }
                    return 8;
                }
                if nb {
                    return EAGAIN;
                }
            }
            Kind::Stream(s) => {
                if want == 0 {
                    return 0;
                }
                if !s.rx.is_empty() {
                    let mut m = want.min(s.rx.len());
                    if short && m > 1 && !s.local_ipc {
                        m = 1 + kk.nrng.below(m as u64) as usize;
                        *kk.stat.entry("net.short_read").or_insert(0) += 1;
                    }
                    let mut left = m;
                    for b in bufs {
                        if left == 0 {
                            break;
                        }
                        let c = left.min(b.iov_len);
                        let dst = unsafe { std::slice::from_raw_parts_mut(b.iov_base as *mut u8, c) };
                        if flags & libc::MSG_PEEK != 0 {
                            for (i, d) in dst.iter_mut().enumerate() {
                                *d = s.rx[i];
                            }
                        } else {
                            for d in dst.iter_mut() {
                                *d = s.rx.pop_front().unwrap();
                            }
                        }
                        left -= c;
                    }
                    let peer = s.peer;
                    // an edge-triggered reader takes a short read for an empty buffer
                    if !s.rx.is_empty() && m < want {
                        let t = kk.now + 1 + kk.nrng.below(kk.cfg.lat_max);
                        kk.timer(t, Ev::More(o));
                    }
                    if let Some(p) = peer {
                        let full = matches!(&kk.objs[p].kind, Kind::Stream(q) if q.wfull);
                        if full && kk.space(p) > 0 {
                            if let Kind::Stream(q) = &mut kk.objs[p].kind {
                                q.wfull = false;
                            }
                            kk.edge(p, EPOLLOUT);
                        }
                    }
                    return m as i64;
                }
                if s.reset {
                    let e = std::mem::take(&mut s.err);
                    return if e != 0 { -(e as i64) } else { 0 };
                }
                if s.rx_fin {
                    return 0;
                }
                if !s.connected {
                    return -(libc::ENOTCONN as i64);
                }
                if nb {
                    return EAGAIN;
                }
            }
            _ => return EINVAL,
        }
        let me = kk.cur;
        let h = kk.handle(me);
        kk.objs[o].waiters.push(h);
        kk.block(me, None);
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_writev(fd: i32, v: *const libc::iovec, n: i32, _flags: i32) -> i64 {
    let kk = k();
    kk.point(37, 0);
    if kk.obj(fd).is_some_and(|o| matches!(&kk.objs[o].kind, Kind::Stream(s) if !s.local_ipc)) {
        net_crash(kk, N_WRITE);
    }
    let bufs = iov(v, n);
    loop {
        let Some(o) = kk.obj(fd) else { return EBADF };
        let want: usize = bufs.iter().map(|b| b.iov_len).sum();
        let short = kk.chaos && kk.nrng.ppm(kk.cfg.short_io_ppm);
        let nb = kk.objs[o].nonblock;
        let space = kk.space(o);
        match &mut kk.objs[o].kind {
            Kind::EventFd(c) => {
                *c = c.saturating_add(unsafe { *(bufs[0].iov_base as *const u64) });
                kk.edge(o, EPOLLIN);
                return 8;
            }
            Kind::Stream(s) => {
                if s.reset {
                    let e = std::mem::take(&mut s.err);
                    return -((if e != 0 { e } else { libc::EPIPE }) as i64);
                }
                if s.tx_fin {
                    return -(libc::EPIPE as i64);
                }
                if !s.connected {
                    return if s.connecting { EAGAIN } else { -(libc::ENOTCONN as i64) };
                }
                if want == 0 {
                    return 0;
                }
                if space > 0 {
                    let mut m = want.min(space);
                    if short && m > 1 && !s.local_ipc {
                        m = 1 + kk.nrng.below(m as u64) as usize;
                        *kk.stat.entry("net.short_write").or_insert(0) += 1;
                    }
                    if m < want {
                        if let Kind::Stream(s) = &mut kk.objs[o].kind {
                            s.wfull = true;
                        }
                    }
                    let mut d = Vec::with_capacity(m);
                    for b in bufs {
                        let c = (m - d.len()).min(b.iov_len);
                        d.extend_from_slice(unsafe { std::slice::from_raw_parts(b.iov_base as *const u8, c) });
                    }
                    kk.send_seg(o, Seg::Data(d));
                    if m < want && m < space {
                        let t = kk.now + 1 + kk.nrng.below(kk.cfg.lat_max);
                        kk.timer(t, Ev::Space(o));
                    }
                    return m as i64;
                }
                s.wfull = true;
                if nb {
                    return EAGAIN;
                }
            }
            Kind::Unconn => return -(libc::ENOTCONN as i64),
            _ => return EINVAL,
        }
        let me = kk.cur;
        let h = kk.handle(me);
        kk.objs[o].waiters.push(h);
        kk.block(me, None);
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_shutdown(fd: i32, how: i32) -> i64 {
    let kk = k();
    kk.point(38, 0);
    let Some(o) = kk.obj(fd) else { return EBADF };
    let Kind::Stream(s) = &mut kk.objs[o].kind else { return -(libc::ENOTCONN as i64) };
    if !s.connected || s.reset {
        return -(libc::ENOTCONN as i64);
    }
    if how != libc::SHUT_RD && !s.tx_fin {
        s.tx_fin = true;
        kk.send_seg(o, Seg::Fin);
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_close(fd: i32) -> i64 {
    let kk = k();
    kk.point(39, 0);
    let Some(o) = kk.obj(fd) else { return EBADF };
    kk.fds[(fd - FD_BASE) as usize] = None;
    // an epoll item is keyed by fd: closing the fd that was registered removes it
    let ws: Vec<(usize, i32)> = kk.objs[o].watchers.iter().copied().filter(|w| w.1 == fd).collect();
    for (ep, f) in ws {
        if let Kind::Epoll { items, ready } = &mut kk.objs[ep].kind {
            items.remove(&f);
            ready.retain(|x| *x != f);
        }
        kk.objs[o].watchers.retain(|w| !(w.0 == ep && w.1 == f));
    }
    kk.objs[o].refs -= 1;
    if kk.objs[o].refs == 0 {
        kk.obj_close(o);
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_dup(fd: i32) -> i64 {
    let kk = k();
    let Some(o) = kk.obj(fd) else { return EBADF };
    kk.objs[o].refs += 1;
    kk.new_fd(o) as i64
}
#[unsafe(no_mangle)]
extern "C" fn k_setnonblock(fd: i32, on: i32) -> i64 {
    let kk = k();
    let Some(o) = kk.obj(fd) else { return EBADF };
    kk.objs[o].nonblock = on != 0;
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_getfl(fd: i32) -> i64 {
    let kk = k();
    let Some(o) = kk.obj(fd) else { return EBADF };
    (libc::O_RDWR | if kk.objs[o].nonblock { libc::O_NONBLOCK } else { 0 }) as i64
}
#[unsafe(no_mangle)]
extern "C" fn k_poll(fds: *mut libc::pollfd, n: u64, timeout: i32) -> i64 {
    let kk = k();
    kk.point(40, 0);
    let dl = if timeout < 0 { u64::MAX } else { kk.now + timeout as u64 * MS };
    loop {
        let mut cnt = 0;
        let s = unsafe { std::slice::from_raw_parts_mut(fds, n as usize) };
        for f in s.iter_mut() {
            f.revents = 0;
            if f.fd >= FD_BASE {
                if let Some(o) = kk.obj(f.fd) {
                    let r = kk.readiness(o);
                    f.revents = (r & (f.events as u32 | EPOLLERR | EPOLLHUP)) as i16;
                } else {
                    f.revents = libc::POLLNVAL;
                }
            }
            if f.revents != 0 {
                cnt += 1;
            }
        }
        if cnt > 0 || kk.now >= dl {
            return cnt;
        }
        let me = kk.cur;
        let t = dl.min(kk.now + MS);
        kk.block(me, Some(t));
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_epoll_create() -> i64 {
    let kk = k();
    kk.new_obj(Kind::Epoll { items: BTreeMap::new(), ready: vec![] }, true).0 as i64
}
#[unsafe(no_mangle)]
extern "C" fn k_epoll_ctl(ep: i32, op: i32, fd: i32, ev: *const libc::epoll_event) -> i64 {
    let kk = k();
    kk.point(41, 0);
    let Some(e) = kk.obj(ep) else { return EBADF };
    if fd < FD_BASE {
        return -(libc::EPERM as i64);
    }
    let Some(o) = kk.obj(fd) else { return EBADF };
    match op {
        libc::EPOLL_CTL_ADD | libc::EPOLL_CTL_MOD => {
            let (events, data) = unsafe { ((*ev).events, (*ev).u64) };
            let Kind::Epoll { items, .. } = &mut kk.objs[e].kind else { return EINVAL };
            if op == libc::EPOLL_CTL_ADD && items.contains_key(&fd) {
                return -(libc::EEXIST as i64);
            }
            if op == libc::EPOLL_CTL_MOD && !items.contains_key(&fd) {
                return -(libc::ENOENT as i64);
            }
            items.insert(fd, EpItem { events, data, obj: o });
            if op == libc::EPOLL_CTL_ADD {
                kk.objs[o].watchers.push((e, fd));
            }
            let r = kk.readiness(o) & (events | EPOLLERR | EPOLLHUP);
            if r != 0 {
                kk.edge(o, r);
            }
            0
        }
        _ => {
            let Kind::Epoll { items, ready } = &mut kk.objs[e].kind else { return EINVAL };
            if items.remove(&fd).is_none() {
                return -(libc::ENOENT as i64);
            }
            ready.retain(|x| *x != fd);
            kk.objs[o].watchers.retain(|w| !(w.0 == e && w.1 == fd));
            0
        }
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_epoll_wait(ep: i32, out: *mut libc::epoll_event, max: i32, timeout: i32) -> i64 {
    let kk = k();
    kk.point(42, 0);
    let dl = if timeout < 0 { None } else { Some(kk.now + timeout as u64 * MS) };
    loop {
        let Some(e) = kk.obj(ep) else { return EBADF };
        let Kind::Epoll { ready, .. } = &mut kk.objs[e].kind else { return EINVAL };
        let mut list = std::mem::take(ready);
        if list.len() > 1 && !kk.cfg.fifo_sched {
            for i in (1..list.len()).rev() {
                let j = kk.srng.below(i as u64 + 1) as usize;
                list.swap(i, j);
            }
        }
        let mut keep = vec![];
        let mut cnt = 0;
        for fd in list {
            let Kind::Epoll { items, .. } = &kk.objs[e].kind else { return EINVAL };
            let Some(it) = items.get(&fd) else { continue };
            let (events, data, obj) = (it.events, it.data, it.obj);
            if cnt >= max {
                keep.push(fd);
                continue;
            }
            let r = kk.readiness(obj) & (events | EPOLLERR | EPOLLHUP);
            if r != 0 {
                unsafe {
                    let p = out.add(cnt as usize);
                    (*p).events = r;
                    (*p).u64 = data;
                }
                cnt += 1;
                if events & EPOLLET == 0 {
                    keep.push(fd);
                }
            }
        }
        let Kind::Epoll { ready, .. } = &mut kk.objs[e].kind else { return EINVAL };
        *ready = keep;
        if cnt > 0 {
            return cnt as i64;
        }
        if let Some(d) = dl {
            if kk.now >= d {
                return 0;
            }
        }
        let me = kk.cur;
        let h = kk.handle(me);
        kk.objs[e].waiters.push(h);
        kk.block(me, dl);
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_eventfd(init: u32, flags: i32) -> i64 {
    let kk = k();
    kk.new_obj(Kind::EventFd(init as u64), flags & libc::EFD_NONBLOCK != 0).0 as i64
}
#[unsafe(no_mangle)]
extern "C" fn k_urandom_open() -> i64 {
    k().new_obj(Kind::Urandom, false).0 as i64
}

// ---- files ----------------------------------------------------------------------------------
fn cstr(p: *const libc::c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned()
}
fn is_db(p: &str) -> bool {
    p.ends_with(".db") || p.ends_with(".db-wal") || p.ends_with(".db-journal")
}
#[unsafe(no_mangle)]
extern "C" fn k_file_opened(fd: i32, path: *const libc::c_char, _flags: i32) {
    let kk = k();
    let p = cstr(path);
    if !p.starts_with(&kk.cfg.scratch) {
        return;
    }
    if kk.cfg.track_disk && (is_db(&p) || p.ends_with("-shm")) && !kk.tfiles.contains_key(&p) {
        let shadow = std::fs::read(&p).unwrap_or_default();
        kk.tfiles.insert(p.clone(), TFile { shadow, unsynced: vec![] });
    }
    let pr = kk.my_proc() as u32;
    kk.files.insert(fd, (p, pr));
}
#[unsafe(no_mangle)]
extern "C" fn k_file_closed(fd: i32) {
    k().files.remove(&fd);
}
fn net_crash(kk: &mut Kernel, op: i32) {
    if armed_hit(kk, op) {
        let a = kk.armed.take().unwrap();
        kk.crash_self(a.power);
    }
}
fn armed_hit(kk: &mut Kernel, op: i32) -> bool {
    let p = kk.my_proc();
    if let Some(a) = &mut kk.armed {
        if a.mask & (1 << op) != 0 && kk.hosts[a.host].cur == Some(p) {
            if a.countdown == 0 {
                return true;
            }
            a.countdown -= 1;
        }
    }
    false
}
#[unsafe(no_mangle)]
extern "C" fn k_file_pre(op: i32, fd: i32, off: i64, len: usize, buf: *const u8) -> i64 {
    let kk = k();
    let Some((path, _)) = kk.files.get(&fd) else { return len as i64 };
    let path = path.clone();
    kk.fileops += 1;
    kk.point(50 + op, len as u64);
    let db = is_db(&path);
    if db && (op == F_WRITE || op == F_FSYNC || op == F_TRUNC) && kk.snap.ppm > 0 && kk.snaps.len() < kk.snap.max && kk.snrng.ppm(kk.snap.ppm) {
        let hyp = kk.snrng.ppm(kk.snap.hyp_ppm);
        kk.take_snap(hyp);
    }
    if db && armed_hit(kk, op) {
        let a = kk.armed.take().unwrap();
        if op == F_WRITE && a.torn && len > 1 {
            let n = 1 + kk.drng.below(len as u64 - 1) as usize;
            unsafe {
                shim_raw(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0);
            }
            if kk.cfg.track_disk {
                let d = unsafe { std::slice::from_raw_parts(buf, n) }.to_vec();
                if let Some(t) = kk.tfiles.get_mut(&path) {
                    t.unsynced.push(DiskOp::Write(off as u64, d));
                }
            }
            kk.bump("disk.partial_write_crash");
        }
        kk.crash_self(a.power);
    }
    if kk.chaos && kk.cfg.disk_lat_ppm > 0 {
        let p = if op == F_FSYNC { kk.cfg.disk_lat_ppm * 10 } else { kk.cfg.disk_lat_ppm };
        if kk.drng.ppm(p) {
            let d = kk.drng.logrange(20_000, kk.cfg.disk_lat_max.max(40_000));
            kk.bump("disk.latency");
            let me = kk.cur;
            kk.block(me, Some(kk.now + d));
        }
    }
    if db && (op == F_WRITE || op == F_FSYNC) && kk.disk.stall {
        kk.bump("disk.stall");
        while kk.chaos && kk.disk.stall {
            let me = kk.cur;
            kk.block(me, Some(kk.now + 20 * MS));
        }
    }
    if db && kk.chaos {
        let d = kk.disk.clone();
        match op {
            F_READ => {
                if kk.drng.ppm(d.eio_read_ppm) {
                    kk.bump("disk.eio_read");
                    return -(libc::EIO as i64);
                }
            }
            F_WRITE => {
                if d.full && path.ends_with("-wal") {
                    kk.bump("disk.full");
                    return -(libc::ENOSPC as i64);
                }
                if kk.drng.ppm(d.eio_write_ppm) {
                    kk.bump("disk.eio_write");
                    return -(libc::EIO as i64);
                }
                if kk.drng.ppm(d.enospc_ppm) {
                    kk.bump("disk.enospc");
                    return -(libc::ENOSPC as i64);
                }
                if len > 1 && kk.drng.ppm(d.short_write_ppm) {
                    kk.bump("disk.short_write");
                    return 1 + kk.drng.below(len as u64 - 1) as i64;
                }
            }
            F_FSYNC => {
                if kk.drng.ppm(d.fsync_fail_ppm) {
                    kk.bump("disk.fsync_eio");
                    return -(libc::EIO as i64);
                }
            }
            _ => {}
        }
    }
    len as i64
}
/// The write lock of a database in WAL mode is byte 120 of its "-shm" file.
#[unsafe(no_mangle)]
extern "C" fn k_lock_pre(fd: i32, excl: i32, start: i64, len: i64) -> i64 {
    let kk = k();
    if !kk.disk.locked || !kk.chaos || excl == 0 || start > 120 || (len > 0 && start + len <= 120) {
        return 0;
    }
    let Some((path, _)) = kk.files.get(&fd) else { return 0 };
    if !path.ends_with("-shm") {
        return 0;
    }
    kk.bump("disk.locked_by_other");
    -(libc::EAGAIN as i64)
}
#[unsafe(no_mangle)]
extern "C" fn k_file_post(op: i32, fd: i32, off: i64, res: i64, buf: *const u8) {
    let kk = k();
    if !kk.cfg.track_disk {
        return;
    }
    let Some((path, _)) = kk.files.get(&fd) else { return };
    let Some(t) = kk.tfiles.get_mut(path) else { return };
    match op {
        F_WRITE if res > 0 => {
            let d = unsafe { std::slice::from_raw_parts(buf, res as usize) }.to_vec();
            let off = if off < 0 {
                let cur = unsafe { shim_raw(libc::SYS_lseek, fd as i64, 0, libc::SEEK_CUR as i64, 0, 0, 0) };
                (cur - res) as u64
            } else {
                off as u64
            };
            t.unsynced.push(DiskOp::Write(off, d));
        }
        F_TRUNC if res == 0 => t.unsynced.push(DiskOp::Trunc(off as u64)),
        F_FSYNC => {
            for o in std::mem::take(&mut t.unsynced) {
                match o {
                    DiskOp::Write(off, d) => {
                        let off = off as usize;
                        if t.shadow.len() < off + d.len() {
                            t.shadow.resize(off + d.len(), 0);
                        }
                        t.shadow[off..off + d.len()].copy_from_slice(&d);
                    }
                    DiskOp::Trunc(l) => t.shadow.resize(l as usize, 0),
                }
            }
        }
        _ => {}
    }
}
#[unsafe(no_mangle)]
extern "C" fn k_mmap_pre(fd: i32) -> i64 {
    let kk = k();
    if kk.cfg.no_mmap && kk.files.get(&fd).is_some_and(|(p, _)| is_db(p)) {
        kk.bump("mem.mmap_failed");
        return -(libc::ENOMEM as i64);
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_path_pre(op: i32, path: *const libc::c_char, _q: *const libc::c_char) -> i64 {
    let kk = k();
    let p = cstr(path);
    if !p.starts_with(&kk.cfg.scratch) {
        return 0;
    }
    kk.point(60 + op, 0);
    if is_db(&p) && armed_hit(kk, op) {
        let a = kk.armed.take().unwrap();
        kk.crash_self(a.power);
    }
    if op == F_OPEN && is_db(&p) && kk.out_of_fds() {
        return -(libc::EMFILE as i64);
    }
    if op == F_UNLINK {
        kk.tfiles.remove(&p);
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_sigaction(sig: i32, act: *const libc::sigaction, old: *mut libc::sigaction) -> i64 {
    let kk = k();
    let p = kk.my_proc();
    unsafe {
        if !old.is_null() {
            std::ptr::write_bytes(old as *mut u8, 0, std::mem::size_of::<libc::sigaction>());
            if let Some((h, si)) = kk.procs[p].sig.get(&sig) {
                (*old).sa_sigaction = *h;
                (*old).sa_flags = if *si { libc::SA_SIGINFO } else { 0 };
            }
        }
        if !act.is_null() {
            kk.procs[p].sig.insert(sig, ((*act).sa_sigaction, (*act).sa_flags & libc::SA_SIGINFO != 0));
        }
    }
    0
}
#[unsafe(no_mangle)]
extern "C" fn k_node_exit(code: i32, how: i32) {
    let kk = k();
    let p = kk.my_proc();
    kk.log_as(p, format!("{{\"ev\":\"proc_exit_call\",\"code\":{code},\"how\":{how}}}"));
    kk.proc_exit(p, code);
    kk.park_forever();
}

// ---- services for agents -----------------------------------------------------------------------
// (exported through shim symbols simk_*; these do set the in-kernel flag themselves)
fn enter<R>(f: impl FnOnce(&mut Kernel) -> R) -> R {
    unsafe { shim_set_ink(1) };
    let r = f(k());
    unsafe { shim_set_ink(0) };
    r
}
fn bytes<'a>(p: *const u8, n: usize) -> &'a [u8] {
    unsafe { std::slice::from_raw_parts(p, n) }
}
#[unsafe(no_mangle)]
pub extern "C" fn simk_event(p: *const u8, n: usize) {
    enter(|kk| {
        let s = String::from_utf8_lossy(bytes(p, n)).into_owned();
        kk.log(s);
    });
}
#[unsafe(no_mangle)]
pub extern "C" fn simk_now() -> u64 {
    enter(|kk| kk.now)
}
#[unsafe(no_mangle)]
pub extern "C" fn simk_board_put(kp: *const u8, kn: usize, vp: *const u8, vn: usize) {
    enter(|kk| {
        let key = String::from_utf8_lossy(bytes(kp, kn)).into_owned();
        let v = String::from_utf8_lossy(bytes(vp, vn)).into_owned();
        kk.board.insert(key, v);
    });
}
/// Copies the value into `out` (at most `cap` bytes) and returns its length, or -1.
#[unsafe(no_mangle)]
pub extern "C" fn simk_board_get(kp: *const u8, kn: usize, out: *mut u8, cap: usize) -> i64 {
    enter(|kk| {
        let key = String::from_utf8_lossy(bytes(kp, kn)).into_owned();
        match kk.board.get(&key) {
            None => -1,
            Some(v) => {
                let n = v.len().min(cap);
                unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), out, n) };
                v.len() as i64
            }
        }
    })
}
/// Uniform random number from the world's stream for agents.
#[unsafe(no_mangle)]
pub extern "C" fn simk_rand() -> u64 {
    enter(|kk| {
        let p = kk.my_proc();
        kk.procs[p].rng.next()
    })
}
