mod db;
mod driver;
mod hist;
mod image;
#[allow(dead_code)]
mod kernel;
mod min;
mod oracle;
mod oracle2;
mod oracle3;
mod oracle4;
mod oracle5;
mod oracle6;
mod oracle7;
mod oracle8;
mod plan;
mod pool;
mod props;
mod report;
#[allow(dead_code)]
mod rng;
mod scen;
mod scen2;
mod scen3;
mod scen4;
mod scen5;
mod scen6;
mod scen7;
#[path = "../shared/content.rs"]
#[allow(dead_code)]
mod content;

use plan::Plan;
use pool::Pool;
use std::collections::BTreeMap;
use std::time::Instant;

const IMAGES: usize = 16;

fn main() {
    let cli = match std::env::var("SIMQ_ARGS") {
        Ok(v) => v,
        Err(_) => {
            // re-exec with a fixed-size argv and without address-space randomisation
            let a: Vec<String> = std::env::args().skip(1).collect();
            let exe = std::env::current_exe().unwrap();
            unsafe {
                libc::personality(0x0040000);
            }
            use std::os::unix::process::CommandExt;
            let mut c = std::process::Command::new(exe);
            c.args((0..driver::NARGS).map(|i| format!("--placeholder{i}")));
            // a fixed environment: its size moves the stack
            c.env_clear();
            for n in ["RUST_LOG", "RUST_BACKTRACE", "SIMQ_DUMP", "VERIF_SEED", "VERIF_TIER", "SIMQ_SECS", "SIMQ_JOBS", "SIMQ_OUT", "SIMQ_DBG"] {
                if let Ok(v) = std::env::var(n) {
                    c.env(n, v);
                }
            }
            c.env("SSL_CERT_FILE", concat!(env!("CARGO_MANIFEST_DIR"), "/ca.pem"));
            let e = c.env("SIMQ_ARGS", a.join("\u{1f}")).exec();
            panic!("exec: {e}");
        }
    };
    let args: Vec<&str> = cli.split('\u{1f}').collect();
    let exe = std::env::current_exe().unwrap();
    let so = exe.parent().unwrap().join("libsimnode.so");
    let im = image::Images::load(so.to_str().unwrap(), IMAGES);
    let jobs = std::env::var("SIMQ_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let mut pool = Pool::new(&im, jobs);
    let code = match args[0] {
        "one" => {
            // one PROP SEED [v] [file.json]: run a single seed and show what happened
            let p = scen::make(args[1], args[2].parse().unwrap());
            show(&mut pool, &p, args.get(3) == Some(&"v"))
        }
        "plan" => {
            let p = scen::make(args[1], args[2].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        "replay" => report::replay(&mut pool, args[1]),
        "sweep" => sweep(&mut pool, args[1], args[2].parse().unwrap(), args[3].parse().unwrap()),
        "min" => {
            let p = scen::make(args[1], args[2].parse().unwrap());
            let (q, n) = min::shrink(&mut pool, &p, args[3], 120.0);
            println!("{}\n({n} runs)", serde_json::to_string_pretty(&q).unwrap());
            let v = pool.one(&q, true);
            for l in v["trace"].as_array().unwrap() {
                println!("{}", l.as_str().unwrap());
            }
            println!("{:#}", v["viol"]);
            0
        }
        "check" => report::check(&mut pool, args[1], args.get(2).copied().unwrap_or("quick")),
        a => panic!("unknown command {a}"),
    };
    drop(pool);
    std::process::exit(code);
}
fn show(pool: &mut Pool, p: &Plan, v: bool) -> i32 {
    let t0 = Instant::now();
    let r = pool.one(p, v);
    if v {
        for l in r["trace"].as_array().into_iter().flatten() {
            println!("{}", l.as_str().unwrap());
        }
    }
    let mut q = r.clone();
    q.as_object_mut().unwrap().remove("trace");
    q.as_object_mut().unwrap().remove("shapes");
    println!("{q:#}\n{:?}", t0.elapsed());
    0
}
fn sweep(pool: &mut Pool, prop: &str, from: u64, n: u64) -> i32 {
    let t0 = Instant::now();
    let mut i = from;
    let mut keys: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut inc: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut cov: BTreeMap<String, u64> = BTreeMap::new();
    let (mut done, mut wall, mut sim, mut maxw) = (0u64, 0u64, 0u64, (0, 0));
    let filt: Option<Vec<&str>> = None;
    let _ = filt;
    loop {
        while pool.busy() < pool.jobs && i < from + n {
            let p = scen::make(prop, i);
            pool.start(i, &p, false);
            i += 1;
        }
        let Some((seed, v)) = pool.next() else { break };
        done += 1;
        let w = v["wall_ms"].as_u64().unwrap_or(0);
        wall += w;
        if w > maxw.0 {
            maxw = (w, seed);
        }
        sim += v["sim_ns"].as_u64().unwrap_or(0);
        if let Some(s) = v["inc"].as_str() {
            inc.entry(s.chars().take(80).collect()).or_insert((0, seed)).0 += 1;
        }
        for (k, x) in v["cov"].as_object().into_iter().flatten() {
            *cov.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
        }
        for (k, x) in v["stat"].as_object().into_iter().flatten() {
            *cov.entry(format!("~{k}")).or_insert(0) += x.as_u64().unwrap_or(0);
        }
        let mut seen = std::collections::BTreeSet::new();
        for x in v["viol"].as_array().into_iter().flatten() {
            let k = x[0].as_str().unwrap_or("").to_string();
            if seen.insert(k.clone()) {
                let e = keys.entry(k).or_insert((0, seed, x[1].as_str().unwrap_or("").into()));
                e.0 += 1;
                if seed < e.1 {
                    *e = (e.0, seed, x[1].as_str().unwrap_or("").into());
                }
            }
        }
    }
    println!("{prop}: {done} runs in {:.1}s, {:.0} ms/run/core (max {} ms seed {}), {:.1} sim s/run", t0.elapsed().as_secs_f64(), wall as f64 / done as f64, maxw.0, maxw.1, sim as f64 / 1e9 / done as f64);
    for (k, (n, s, m)) in &keys {
        println!("  VIOL {k}: {n} runs, e.g. seed {s}: {m}");
    }
    for (k, (n, s)) in &inc {
        println!("  INCONCLUSIVE {k}: {n} runs, e.g. seed {s}");
    }
    println!("  cov {}", cov.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "));
    0
}
