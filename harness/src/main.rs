mod c;
mod dhgroups;
mod keys;
mod names;
mod ops;
mod p11;
mod props;
mod refc;
mod shim;
mod sql;
mod tok;
#[macro_use]
mod w;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Job {
    pub name: String,
    /// workload parameter (usually number of cases)
    pub arg: u64,
    pub budget_ms: u64,
    pub envs: Vec<(String, String)>,
    /// load the file/lib-call shim
    pub shim: bool,
    /// use the sanitizer build of the module and this harness
    pub san: Option<String>,
}
pub fn job(name: &str, arg: u64, budget_ms: u64) -> Job {
    Job { name: name.into(), arg, budget_ms, envs: vec![], shim: false, san: None }
}
impl Job {
    pub fn env(mut self, k: &str, v: &str) -> Job {
        self.envs.push((k.into(), v.into()));
        self
    }
    pub fn jit(self) -> Job {
        self.env("KV_JIT", "1")
    }
    pub fn san(mut self, s: &str) -> Job {
        self.san = Some(s.into());
        self
    }
    pub fn shim(mut self) -> Job {
        self.shim = true;
        self
    }
}
pub fn times(n: usize, f: impl Fn(usize) -> Job) -> Vec<Job> {
    (0..n).map(f).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(&a[2])),
        Some("worker") => worker(&a[2..]),
        Some("replay") => std::process::exit(replay(&a[2])),
        Some("jobs") => {
            for j in props::jobs(&a[2], false) {
                println!("{} {} {}ms", j.name, j.arg, j.budget_ms);
            }
        }
        _ => {
            eprintln!("usage: kv check <prop> | replay <file>");
            std::process::exit(2)
        }
    }
}

// worker <prop> <job> <arg> <seed> <dir> <tier> <budget>
fn worker(a: &[String]) {
    let (prop, jobn, arg, seed, dir, tier, budget) = (&a[0], &a[1], a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), &a[4], &a[5], a[6].parse::<usize>().unwrap());
    w::init(prop, dir, seed, tier, budget);
    if std::env::var("KV_NOLOG").is_err() {
        w::ring_open(&format!("{}/ring", dir));
    }
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<tok::Bail>().is_none() {
            eprintln!("{}", i);
            w::ring(&format!("harness panic: {}\n", i));
        }
    }));
    c::load(&std::env::var("KV_SO").expect("KV_SO"));
    let r = std::panic::catch_unwind(|| props::run(prop, jobn, arg, &mut w::Rng::new(seed)));
    if let Err(e) = r {
        if e.downcast_ref::<tok::Bail>().is_none() {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
            w::viol(&[prop], &format!("monitor-panic:{}", jobn), &format!("the monitor could not follow the behaviour seen: {}", m));
        }
    }
    w::finish();
    // leave without running destructors of the module (a hang there is another workload's business)
    unsafe { libc::_exit(0) }
}

struct Found {
    tags: Vec<String>,
    sig: String,
    detail: String,
    trace: String,
    cmd: Value,
}

fn verif() -> String {
    std::env::var("KV_VERIF").unwrap_or("/verif".into())
}

fn spawn(prop: &str, j: &Job, seed: u64, dir: &str, tier: &str, found: &Mutex<Vec<Found>>, herr: &Mutex<Vec<String>>) -> Option<Value> {
    let _ = std::fs::create_dir_all(dir);
    let mut exe = std::env::current_exe().unwrap();
    let mut so = std::env::var("KV_SO").expect("KV_SO");
    let mut extra: Vec<(String, String)> = vec![];
    let lg = format!("{}/san.log", dir);
    if j.san.as_deref() == Some("VG") {
        extra.push(("KV_SAN".into(), "VG".into()));
    } else if let Some(s) = &j.san {
        exe = std::env::var(format!("KV_{}_EXE", s)).expect("san exe").into();
        so = std::env::var(format!("KV_{}_SO", s)).expect("san so");
        extra.push(("KV_SAN".into(), s.clone()));
        extra.push(("TSAN_OPTIONS".into(), format!("log_path={} exitcode=66 halt_on_error=0 second_deadlock_stack=1 suppressions={}/harness/tsan.supp history_size=4", lg, verif())));
        extra.push(("ASAN_OPTIONS".into(), format!("log_path={} exitcode=66 halt_on_error=1 detect_leaks=0 detect_stack_use_after_return=1 allocator_may_return_null=1 handle_segv=1", lg)));
    }
    let args: Vec<String> = vec!["worker".into(), prop.into(), j.name.clone(), j.arg.to_string(), seed.to_string(), dir.into(), tier.into(), j.budget_ms.to_string()];
    let mut cmd = Command::new(if j.san.as_deref() == Some("VG") { std::path::Path::new("/usr/bin/valgrind") } else { exe.as_path() });
    if j.san.as_deref() == Some("VG") {
        cmd.args(["-q", &format!("--log-file={}.vg", lg), "--num-callers=30", "--error-limit=no", "--leak-check=no", &format!("--suppressions={}/harness/vg.supp", verif())]);
        cmd.arg(&exe);
    }
    cmd.args(&args).stdin(Stdio::null()).stdout(Stdio::null());
    let errp = format!("{}/stderr", dir);
    cmd.stderr(std::fs::File::create(&errp).unwrap());
    cmd.env("KV_SO", &so);
    cmd.env_remove("KRYOPTIC_CONF");
    cmd.env("HOME", dir);
    for (k, v) in j.envs.iter().chain(extra.iter()) {
        cmd.env(k, v);
    }
    if j.shim {
        cmd.env("LD_PRELOAD", std::env::var("KV_SHIM").expect("KV_SHIM"));
    }
    if j.envs.iter().any(|e| e.0 == "KV_JIT") {
        cmd.env("LD_PRELOAD", std::env::var("KV_SHIM").expect("KV_SHIM").replace("kvshim", "kvjit"));
    }
    let cmdv = json!({"args": args, "envs": j.envs, "shim": j.shim, "san": j.san, "so": so});
    let mut ch = cmd.spawn().expect("spawn");
    let t0 = Instant::now();
    let limit = Duration::from_millis((j.budget_ms * 3).max(j.budget_ms + 100_000));
    let mut hang = false;
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > limit {
            hang = true;
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let ring = w::ring_file_tail(&format!("{}/ring", dir), 6000);
    let stderr = std::fs::read(&errp).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let stail: String = stderr.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
    let add = |sig: String, detail: String| {
        found.lock().unwrap().push(Found { tags: vec![prop.into()], sig, detail, trace: ring.clone(), cmd: cmdv.clone() });
    };
    let lastcall = || -> String {
        let l = ring.lines().rev().find(|l| l.contains("] C_")).unwrap_or("");
        let l = l.split("] ").nth(1).unwrap_or("");
        l.split('(').next().unwrap_or("").to_string()
    };
    if hang {
        add(format!("hang:{}:{}", j.name, lastcall()), format!("workload did not finish within {:?}; last call {}", limit, lastcall()));
    } else if let Some(s) = st {
        if let Some(sig) = s.signal() {
            add(format!("died:{}:{}", j.name, lastcall()), format!("process ended by signal {} in {}; stderr: {}", sig, lastcall(), stail));
        } else if s.code() == Some(66) && j.san.is_some() {
            // handled through the log files below
        } else if s.code() != Some(0) {
            herr.lock().unwrap().push(format!("job {} exit {:?}: {}", j.name, s.code(), stail));
        }
    }
    if j.san.is_some() {
        for (sig, detail) in props::san_reports(dir) {
            add(sig, detail);
        }
    }
    if let Ok(t) = std::fs::read_to_string(format!("{}/viol.jsonl", dir)) {
        for l in t.lines() {
            if let Ok(v) = serde_json::from_str::<Value>(l) {
                found.lock().unwrap().push(Found {
                    tags: v["tags"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
                    sig: v["sig"].as_str().unwrap_or("").into(),
                    detail: v["detail"].as_str().unwrap_or("").into(),
                    trace: v["trace"].as_str().unwrap_or("").into(),
                    cmd: cmdv.clone(),
                });
            }
        }
    }
    let r = std::fs::read_to_string(format!("{}/result.json", dir)).ok().and_then(|t| serde_json::from_str(&t).ok());
    if std::env::var("KV_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(dir);
    }
    r
}

fn check(prop: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let t0 = Instant::now();
    let mut jobs = props::jobs(prop, tier == "thorough");
    if jobs.is_empty() {
        eprintln!("no jobs for {}", prop);
        return 2;
    }
    let base = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) && std::fs::write(format!("/dev/shm/kv-probe-{}", std::process::id()), b"x").is_ok() {
        let _ = std::fs::remove_file(format!("/dev/shm/kv-probe-{}", std::process::id()));
        "/dev/shm"
    } else {
        "/tmp"
    };
    let root = format!("{}/kv-{}-{}", base, prop, std::process::id());
    std::fs::create_dir_all(&root).unwrap();
    if let Some(p) = std::env::var("KV_SCALE").ok().and_then(|s| s.parse::<u64>().ok()) {
        for j in jobs.iter_mut() {
            j.budget_ms = (j.budget_ms * p / 100).max(1200);
        }
    }
    let njobs = jobs.len();
    let only = std::env::var("KV_ONLY").ok();
    let q: Arc<Mutex<Vec<(usize, Job)>>> = Arc::new(Mutex::new(jobs.into_iter().enumerate().filter(|(_, j)| only.as_ref().map(|o| j.name.starts_with(o.as_str())).unwrap_or(true)).rev().collect()));
    let found: Arc<Mutex<Vec<Found>>> = Arc::new(Mutex::new(vec![]));
    let herr: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let results: Arc<Mutex<Vec<(String, Value)>>> = Arc::new(Mutex::new(vec![]));
    let np: usize = std::env::var("KV_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let stop_after = Duration::from_secs(if tier == "thorough" { 3000 } else { 420 });
    let mut ths = vec![];
    for _ in 0..np {
        let (q, found, herr, results, root) = (q.clone(), found.clone(), herr.clone(), results.clone(), root.clone());
        let (prop, tier) = (prop.to_string(), tier.to_string());
        ths.push(std::thread::spawn(move || loop {
            let (i, j) = match q.lock().unwrap().pop() {
                Some(x) => x,
                None => break,
            };
            if t0.elapsed() > stop_after {
                continue;
            }
            let s = w::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(w::hash64(format!("{}/{}/{}", prop, j.name, i).as_bytes()))).next() >> 1;
            let dir = format!("{}/{}", root, i);
            let tj = Instant::now();
            if let Some(r) = spawn(&prop, &j, s, &dir, &tier, &found, &herr) {
                results.lock().unwrap().push((j.name.clone(), r));
            }
            if std::env::var("KV_V").is_ok() {
                eprintln!("job {} {} took {:?}", i, j.name, tj.elapsed());
            }
        }));
    }
    for t in ths {
        t.join().unwrap();
    }
    if std::env::var("KV_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&root);
    } else {
        eprintln!("kept {}", root);
    }

    // ---- evidence ----
    let results = results.lock().unwrap();
    let mut evals = 0u64;
    let mut distinct: HashSet<String> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut perjob: BTreeMap<String, u64> = BTreeMap::new();
    for (n, r) in results.iter() {
        evals += r["evals"].as_u64().unwrap_or(0);
        *perjob.entry(n.clone()).or_insert(0) += r["evals"].as_u64().unwrap_or(0);
        for d in r["distinct"].as_array().unwrap_or(&vec![]) {
            distinct.insert(d.as_str().unwrap_or("").to_string());
        }
        for s in r["samples"].as_array().unwrap_or(&vec![]).iter().take(3) {
            if samples.len() < 30 {
                samples.push(json!(format!("{}: {}", n, s.as_str().unwrap_or(""))));
            }
        }
        if let Some(o) = r["counters"].as_object() {
            for (k, v) in o {
                *counters.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
            }
        }
    }
    // ---- findings ----
    let known = known();
    let found = found.lock().unwrap();
    let mut seen: HashSet<String> = HashSet::new();
    let mut code = 0;
    let mut nv = 0;
    let mut other = 0;
    let mut out = std::io::stdout();
    let outdir = format!("{}/out/{}", verif(), prop);
    let _ = std::fs::create_dir_all(&outdir);
    let mut knownhit: HashSet<String> = HashSet::new();
    for f in found.iter() {
        if !f.tags.iter().any(|t| t == prop) {
            other += 1;
            if std::env::var("KV_V").is_ok() {
                eprintln!("other property {:?}: {}: {}", f.tags, f.sig, f.detail);
            }
            continue;
        }
        if known.iter().any(|(p, s, _)| p == prop && *s == f.sig) {
            knownhit.insert(f.sig.clone());
            continue;
        }
        if !seen.insert(f.sig.clone()) || nv >= 20 {
            continue;
        }
        let path = format!("{}/{}.json", outdir, nv);
        nv += 1;
        code = 1;
        let v = json!({"property": prop, "sig": f.sig, "detail": f.detail, "worker": f.cmd, "trace": f.trace.lines().collect::<Vec<_>>()});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        let _ = writeln!(out, "VIOLATION property={} replay={}", prop, path);
        let _ = writeln!(out, "  {}: {}", f.sig, f.detail);
    }
    // listed findings are printed whether or not this run met the failing history
    for (p, s, what) in &known {
        if p == prop {
            let _ = writeln!(out, "KNOWN-FINDING: property={} {} ({})", prop, what, if knownhit.contains(s) { "seen in this run" } else { "not exercised in this run" });
        }
    }
    let herr = herr.lock().unwrap();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": props::level(prop),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": props::rule(prop), "samples": samples,
            "jobs": njobs, "jobs_completed": results.len(), "evaluations_per_workload": perjob, "observed": counters,
            "violations": nv, "monitor_hits_on_other_properties": other,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    std::fs::write(format!("{}/evidence/{}.json", verif(), prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{}: {} evaluations, {} distinct, {} jobs, {:.1}s, {} violations", prop, evals, distinct.len(), njobs, t0.elapsed().as_secs_f64(), nv);
    if code == 0 && (!herr.is_empty() || evals == 0) {
        for h in herr.iter() {
            println!("harness error: {}", h);
        }
        return 2;
    }
    code
}

fn known() -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.jsonl", verif())) {
        for l in t.lines() {
            if let Ok(j) = serde_json::from_str::<Value>(l) {
                if j["status"] == "known" {
                    v.push((j["property"].as_str().unwrap_or("").into(), j["sig"].as_str().unwrap_or("").into(), j["what"].as_str().unwrap_or("").into()));
                }
            }
        }
    }
    v
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).unwrap();
    let a: Vec<String> = v["worker"]["args"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let mut j = job(&a[2], a[3].parse().unwrap(), a[7].parse().unwrap());
    j.shim = v["worker"]["shim"].as_bool().unwrap_or(false);
    j.san = v["worker"]["san"].as_str().map(String::from);
    for e in v["worker"]["envs"].as_array().unwrap() {
        j.envs.push((e[0].as_str().unwrap().into(), e[1].as_str().unwrap().into()));
    }
    let dir = format!("/tmp/kv-replay-{}", std::process::id());
    let found = Mutex::new(vec![]);
    let herr = Mutex::new(vec![]);
    spawn(&a[1], &j, a[4].parse().unwrap(), &dir, &a[6], &found, &herr);
    let mut code = 0;
    for f in found.lock().unwrap().iter() {
        println!("{:?} {}: {}\n{}", f.tags, f.sig, f.detail, f.trace);
        code = 1;
    }
    for h in herr.lock().unwrap().iter() {
        println!("{}", h);
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}
