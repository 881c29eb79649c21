//! A plan is one complete simulated experiment: everything that happens in a run
//! follows from it (it contains the seed). Plans are what replay files hold.
use crate::kernel::{Cfg, MS};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Kern {
    pub step_ns: u64,
    pub preempt_ppm: u64,
    pub alloc_mean: u64,
    pub delay_ppm: u64,
    pub delay_max_us: u64,
    pub lat_min_us: u64,
    pub lat_max_us: u64,
    pub spike_ppm: u64,
    pub spike_max_ms: u64,
    pub short_io_ppm: u64,
    pub window: usize,
    pub disk_lat_ppm: u64,
    pub disk_lat_max_us: u64,
    pub fifo: bool,
    pub track_disk: bool,
    #[serde(default)]
    pub no_mmap: bool,
    #[serde(default)]
    pub edge_mean: u64,
    /// Preempted at a basic block for long, and often.
    #[serde(default)]
    pub edge_long: bool,
}
impl Default for Kern {
    fn default() -> Self {
        Kern {
            step_ns: 1000, preempt_ppm: 20_000, alloc_mean: 0, delay_ppm: 0, delay_max_us: 0, lat_min_us: 100, lat_max_us: 1000, spike_ppm: 0, spike_max_ms: 0,
            short_io_ppm: 0, window: 1 << 18, disk_lat_ppm: 0, disk_lat_max_us: 0, fifo: false, track_disk: false, no_mmap: false, edge_mean: 0, edge_long: false,
        }
    }
}
impl Kern {
    /// A random environment: scheduling, network and disk timing.
    pub fn random(r: &mut Rng) -> Kern {
        let mut k = Kern { preempt_ppm: *r.pick(&[1000, 20_000, 100_000, 300_000]), ..Kern::default() };
        if r.chance(1, 3) {
            k.alloc_mean = r.logrange(30, 2000);
        }
        if r.chance(1, 2) {
            k.delay_ppm = r.logrange(20, 3000);
            k.delay_max_us = r.logrange(200, 60_000);
        }
        k.lat_min_us = r.logrange(20, 2000);
        k.lat_max_us = k.lat_min_us + r.logrange(1, 8000);
        if r.chance(1, 2) {
            k.spike_ppm = r.logrange(1000, 40_000);
            k.spike_max_ms = r.logrange(5, 400);
        }
        if r.chance(1, 4) {
            k.short_io_ppm = r.logrange(1000, 100_000);
        }
        if r.chance(1, 6) {
            k.window = *r.pick(&[2048, 8192, 32768]);
        }
        if r.chance(1, 2) {
            k.disk_lat_ppm = r.logrange(500, 60_000);
            k.disk_lat_max_us = r.logrange(100, 30_000);
        }
        k.fifo = r.chance(1, 4);
        k.no_mmap = r.chance(1, 8);
        if r.chance(1, 3) {
            k.edge_mean = r.logrange(100, 20_000);
        }
        k
    }
    pub fn calm(r: &mut Rng) -> Kern {
        Kern { preempt_ppm: *r.pick(&[1000, 20_000, 100_000]), lat_min_us: 50, lat_max_us: r.range(100, 1500), ..Kern::default() }
    }
    pub fn cfg(&self, seed: u64, scratch: &str, verbose: bool) -> Cfg {
        Cfg {
            seed,
            step_cost: self.step_ns,
            preempt_ppm: self.preempt_ppm,
            alloc_mean: self.alloc_mean,
            edge_mean: self.edge_mean,
            edge_long: self.edge_long,
            delay_ppm: self.delay_ppm,
            delay_max: self.delay_max_us * 1000,
            lat_min: self.lat_min_us * 1000,
            lat_max: self.lat_max_us * 1000,
            spike_ppm: self.spike_ppm,
            spike_max: self.spike_max_ms * MS,
            short_io_ppm: self.short_io_ppm,
            window: self.window,
            disk_lat_ppm: self.disk_lat_ppm,
            disk_lat_max: self.disk_lat_max_us * 1000,
            fifo_sched: self.fifo,
            track_disk: self.track_disk,
            no_mmap: self.no_mmap,
            scratch: scratch.into(),
            verbose,
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Srv {
    pub expiry_ms: u64,
    pub pool: u64,
    pub hb_ms: u64,
    pub miss: u64,
    pub retries: u64,
    pub age_s: u64,
    pub maxret: u64,
    pub workers: u64,
}
impl Default for Srv {
    fn default() -> Self {
        Srv { expiry_ms: 20_000, pool: 16, hb_ms: 3000, miss: 3, retries: 5, age_s: 86_400, maxret: 100, workers: 2 }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ProcPlan {
    pub name: String,
    pub start_ms: u64,
    pub threads: u64,
    pub actors: Vec<Value>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fault {
    pub t: u64,
    pub k: String,
    #[serde(default)]
    pub a: Value,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Plan {
    pub prop: String,
    pub scen: String,
    pub seed: u64,
    pub kern: Kern,
    pub srv: Srv,
    pub procs: Vec<ProcPlan>,
    pub faults: Vec<Fault>,
    /// end of the fault phase
    pub heal_ms: u64,
    /// how long the drain phase may take (0: no drain)
    pub drain_ms: u64,
    /// quiet time after heal/drain before the final queries
    pub quiet_ms: u64,
    pub finals: bool,
    pub snap_ppm: u64,
    pub snap_max: usize,
    pub hyp_ppm: u64,
    /// take a snapshot every so many ms (0: never)
    pub snap_every: u64,
    /// a crashed server is restarted after a delay drawn from this range
    pub down: (u64, u64),
    pub opts: Value,
}
impl Plan {
    pub fn new(prop: &str, scen: &str, seed: u64) -> Plan {
        Plan { prop: prop.into(), scen: scen.into(), seed, heal_ms: 3000, down: (10, 1500), snap_max: 40, opts: json!({}), ..Default::default() }
    }
    pub fn proc_(&mut self, name: &str, start_ms: u64, threads: u64, actors: Vec<Value>) {
        self.procs.push(ProcPlan { name: name.into(), start_ms, threads, actors });
    }
    pub fn fault(&mut self, t: u64, k: &str, a: Value) {
        self.faults.push(Fault { t, k: k.into(), a });
    }
}
