//! Batch driver: seeded search over simulated runs, minimisation, replay and evidence.
use serde_json::{json, Value};
use simrt::{
    rng::{mix2, tag},
    Replay, Report, RunCfg, Rng,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    fs,
    io::Write,
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{exit, Child, Command, Stdio},
    sync::atomic::{AtomicBool, AtomicU64, Ordering},
    time::{Duration, Instant, SystemTime, UNIX_EPOCH},
};

pub struct Scenario {
    pub name: &'static str,
    pub weight: u32,
    pub max_steps: u64,
    pub run: fn(),
}

pub struct Check {
    pub id: &'static str,
    pub scenarios: &'static [Scenario],
    /// Once per process, before any run.
    pub prepare: fn(),
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub quick_secs: u64,
    pub thorough_secs: u64,
}

const WORKERS: usize = 8;
const EXIT_FAIL: i32 = 33;
const EXIT_RESTART: i32 = 34;
const HANG_SECS: u64 = 60;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("SPFSIM_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn now_ms() -> u64 {
    SystemTime::now()
        .duration_since(UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}

fn run_seed(base: u64, id: &str, i: u64) -> u64 {
    mix2(mix2(base, tag(id)), i)
}

fn scenario_for(c: &Check, seed: u64) -> &'static Scenario {
    let total: u32 = c.scenarios.iter().map(|s| s.weight).sum();
    let only = std::env::var("SPFSIM_SCENARIO").ok();
    if let Some(o) = only {
        return c.scenarios.iter().find(|s| s.name == o).expect("scenario");
    }
    let mut k = Rng::new(mix2(seed, tag("scenario"))).below(total as usize) as u32;
    for s in c.scenarios {
        if k < s.weight {
            return s;
        }
        k -= s.weight;
    }
    unreachable!()
}

fn execute(c: &Check, cfg: RunCfg) -> (Report, &'static str) {
    let s = scenario_for(c, cfg.seed);
    let mut cfg = cfg;
    cfg.max_steps = s.max_steps;
    (simrt::run(cfg, s.run), s.name)
}

fn report_json(r: &Report, scen: &str, full: bool) -> Value {
    let mut v = json!({
        "scenario": scen,
        "steps": r.steps, "threads": r.threads, "strategy": r.strategy,
        "digest": format!("{:016x}", r.digest),
        "sched_digest": format!("{:016x}", r.sched_digest),
        "counters": r.counters, "max_item": r.max_item,
        "n_switches": r.switches.len(), "n_choices": r.choices.len(),
    });
    if let Some(f) = &r.failure {
        v["failure"] = json!({"kind": f.kind, "sig": f.sig, "msg": f.msg});
    }
    if full {
        v["switches"] = json!(r.switches);
        v["choices"] = json!(r.choices);
        if !r.log.is_empty() {
            v["log"] = json!(r.log);
        }
    }
    v
}

fn choice_digest(r: &Report) -> u64 {
    let mut h = r.sched_digest;
    for (a, b) in &r.choices {
        h = mix2(h, a ^ b.rotate_left(32));
    }
    h
}

static WATCH_ON: AtomicBool = AtomicBool::new(false);

/// Kills the process with a report when simulated code runs without reaching a scheduling point.
fn watchdog(on_hang: impl Fn() + Send + 'static) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = simrt::PROGRESS.load(Ordering::Relaxed);
            if p != last || !WATCH_ON.load(Ordering::Relaxed) {
                last = p;
                since = Instant::now();
            } else if since.elapsed().as_secs() > HANG_SECS {
                on_hang();
            }
        }
    });
}

fn write_atomic(p: &Path, s: &str) {
    let t = p.with_extension("tmp");
    fs::write(&t, s).unwrap();
    fs::rename(&t, p).unwrap();
}

fn rss_mb() -> u64 {
    let s = fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace()
        .nth(1)
        .and_then(|x| x.parse::<u64>().ok())
        .unwrap_or(0)
        * 4096
        >> 20
}

struct Agg {
    runs: u64,
    steps: u64,
    threads: u64,
    switches: u64,
    counters: BTreeMap<String, u64>,
    runs_with: BTreeMap<String, u64>,
    scen: BTreeMap<String, u64>,
    strat: BTreeMap<String, u64>,
    edges: HashSet<u64>,
    nontrivial: HashSet<u64>,
    sched: HashSet<u64>,
    samples: Vec<Value>,
}

impl Agg {
    fn new() -> Self {
        Agg {
            runs: 0,
            steps: 0,
            threads: 0,
            switches: 0,
            counters: Default::default(),
            runs_with: Default::default(),
            scen: Default::default(),
            strat: Default::default(),
            edges: Default::default(),
            nontrivial: Default::default(),
            sched: Default::default(),
            samples: vec![],
        }
    }

    fn add(&mut self, r: &Report, scen: &str, i: u64, seed: u64) {
        self.runs += 1;
        self.steps += r.steps;
        self.threads += r.threads as u64;
        self.switches += r.switches.len() as u64;
        for (k, v) in &r.counters {
            *self.counters.entry(k.clone()).or_default() += v;
            *self.runs_with.entry(k.clone()).or_default() += 1;
        }
        *self.scen.entry(scen.into()).or_default() += 1;
        *self.strat.entry(r.strategy.clone()).or_default() += 1;
        self.edges.extend(&r.edges);
        self.sched.insert(r.sched_digest);
        let faulty = r.counters.keys().any(|k| k.starts_with("fault."));
        if r.switches.len() > 1 || faulty {
            self.nontrivial.insert(choice_digest(r));
        }
        if self.samples.len() < 2 {
            self.samples.push(json!({
                "run": i, "seed": format!("{seed:016x}"), "scenario": scen, "steps": r.steps,
                "threads": r.threads, "switches": r.switches.len(), "strategy": r.strategy,
                "digest": format!("{:016x}", r.digest), "counters": r.counters,
            }));
        }
    }

    fn to_json(&self) -> Value {
        let hx = |s: &HashSet<u64>| s.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>();
        json!({
            "runs": self.runs, "steps": self.steps, "threads": self.threads, "switches": self.switches,
            "counters": self.counters, "runs_with": self.runs_with, "scen": self.scen, "strat": self.strat,
            "edges": hx(&self.edges), "nontrivial": hx(&self.nontrivial), "sched": hx(&self.sched),
            "samples": self.samples,
        })
    }

    fn merge(&mut self, v: &Value) {
        let u = |k: &str| v[k].as_u64().unwrap_or(0);
        self.runs += u("runs");
        self.steps += u("steps");
        self.threads += u("threads");
        self.switches += u("switches");
        let mm = |m: &mut BTreeMap<String, u64>, k: &str| {
            if let Some(o) = v[k].as_object() {
                for (a, b) in o {
                    *m.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
                }
            }
        };
        mm(&mut self.counters, "counters");
        mm(&mut self.runs_with, "runs_with");
        mm(&mut self.scen, "scen");
        mm(&mut self.strat, "strat");
        let ms = |m: &mut HashSet<u64>, k: &str| {
            if let Some(o) = v[k].as_array() {
                for a in o {
                    m.insert(u64::from_str_radix(a.as_str().unwrap(), 16).unwrap());
                }
            }
        };
        ms(&mut self.edges, "edges");
        ms(&mut self.nontrivial, "nontrivial");
        ms(&mut self.sched, "sched");
        if let Some(a) = v["samples"].as_array() {
            self.samples.extend(a.iter().cloned());
        }
    }
}

/// worker ID base start stride deadline_ms dir slot
fn worker_main(c: &'static Check, a: &[String]) -> ! {
    let p = |k: usize| a[k].parse::<u64>().unwrap();
    let (base, start, stride, deadline) = (p(0), p(1), p(2), p(3));
    let dir = PathBuf::from(&a[4]);
    let slot = a[5].clone();
    let max_runs: u64 = std::env::var("SPFSIM_RUNS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(u64::MAX);
    let status = dir.join(format!("status-{slot}"));
    let result = dir.join(format!("result-{slot}"));
    let cur: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(start)));
    {
        let result = result.clone();
        watchdog(move || {
            let i = cur.load(Ordering::SeqCst);
            write_atomic(
                &result,
                &json!({"next": i + stride, "fail": {"index": i, "failure": {
                    "kind": "hang", "sig": "hang", "msg": "no scheduling point reached for a minute"}}})
                .to_string(),
            );
            exit(EXIT_FAIL);
        });
    }
    (c.prepare)();
    let mut agg = Agg::new();
    let mut i = start;
    let mut done = 0;
    let mut f = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(&status)
        .unwrap();
    loop {
        if now_ms() >= deadline || done >= max_runs {
            write_atomic(&result, &json!({"next": i, "agg": agg.to_json()}).to_string());
            exit(0);
        }
        if done >= 20_000 || (done % 32 == 31 && rss_mb() > 2500) {
            write_atomic(&result, &json!({"next": i, "agg": agg.to_json()}).to_string());
            exit(EXIT_RESTART);
        }
        let seed = run_seed(base, c.id, i);
        cur.store(i, Ordering::SeqCst);
        {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{i:020}").as_bytes(), 0);
        }
        let _ = f.flush();
        WATCH_ON.store(true, Ordering::SeqCst);
        let (r, scen) = execute(c, RunCfg::new(seed));
        WATCH_ON.store(false, Ordering::SeqCst);
        if r.failure.is_some() {
            let v = json!({"next": i + stride, "agg": agg.to_json(),
                "fail": {"index": i, "start": start, "report": report_json(&r, scen, true),
                "failure": report_json(&r, scen, false)["failure"]}});
            write_atomic(&result, &v.to_string());
            exit(EXIT_FAIL);
        }
        agg.add(&r, scen, i, seed);
        done += 1;
        i += stride;
    }
}

fn parse_trace(v: &Value) -> RunCfg {
    let seed = u64::from_str_radix(v["seed"].as_str().unwrap(), 16).unwrap();
    let mut cfg = RunCfg::new(seed);
    cfg.salt = v["salt"].as_u64().unwrap_or(0);
    cfg.log = v["log"].as_bool().unwrap_or(false);
    if let Some(d) = v["drops"].as_array() {
        cfg.drops = d.iter().map(|x| x.as_u64().unwrap() as u32).collect();
    }
    if let Some(r) = v.get("replay").filter(|r| r.is_object()) {
        let pairs = |k: &str| -> Vec<(u64, u64)> {
            r[k].as_array()
                .map(|a| {
                    a.iter()
                        .map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap()))
                        .collect()
                })
                .unwrap_or_default()
        };
        cfg.replay = Some(Replay {
            switches: pairs("switches")
                .into_iter()
                .map(|(a, b)| (a, b as u32))
                .collect(),
            choices: pairs("choices").into_iter().collect(),
        });
    }
    cfg
}

/// one ID trace out
fn one_main(c: &'static Check, a: &[String]) -> ! {
    let v: Value = serde_json::from_str(&fs::read_to_string(&a[0]).unwrap()).unwrap();
    let out = PathBuf::from(&a[1]);
    {
        let out = out.clone();
        watchdog(move || {
            write_atomic(
                &out,
                &json!({"failure": {"kind": "hang", "sig": "hang",
                    "msg": "no scheduling point reached for a minute"}})
                .to_string(),
            );
            exit(0);
        });
    }
    (c.prepare)();
    WATCH_ON.store(true, Ordering::SeqCst);
    if let Some(s) = v.get("sequence").filter(|s| s.is_object()) {
        let u = |k: &str| s[k].as_u64().unwrap();
        let mut i = u("start");
        loop {
            let mut cfg = RunCfg::new(run_seed(u("base"), c.id, i));
            cfg.log = v["log"].as_bool().unwrap_or(false) && i >= u("end");
            let (r, scen) = execute(c, cfg);
            for l in &r.log {
                println!("{l}");
            }
            if r.failure.is_some() || i >= u("end") {
                write_atomic(&out, &report_json(&r, scen, true).to_string());
                exit(0);
            }
            i += u("stride");
        }
    }
    let (r, scen) = execute(c, parse_trace(&v));
    write_atomic(&out, &report_json(&r, scen, true).to_string());
    exit(0)
}

fn self_cmd() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

struct Runner {
    id: String,
    dir: PathBuf,
    n: u64,
}

impl Runner {
    /// Run traces in fresh processes, in parallel.
    fn run_many(&mut self, traces: &[Value]) -> Vec<Value> {
        let mut out = vec![Value::Null; traces.len()];
        let mut live: Vec<(usize, Child, PathBuf, PathBuf, Instant)> = vec![];
        let mut next = 0;
        while next < traces.len() || !live.is_empty() {
            while next < traces.len() && live.len() < WORKERS {
                self.n += 1;
                let t = self.dir.join(format!("t{}.json", self.n));
                let o = self.dir.join(format!("o{}.json", self.n));
                fs::write(&t, traces[next].to_string()).unwrap();
                let ch = self_cmd()
                    .args(["one", &self.id])
                    .arg(&t)
                    .arg(&o)
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn()
                    .unwrap();
                live.push((next, ch, t, o, Instant::now()));
                next += 1;
            }
            let mut k = 0;
            while k < live.len() {
                let fin = match live[k].1.try_wait().unwrap() {
                    Some(st) => Some(st),
                    None if live[k].4.elapsed().as_secs() > HANG_SECS + 60 => {
                        let _ = live[k].1.kill();
                        Some(live[k].1.wait().unwrap())
                    }
                    None => None,
                };
                if let Some(st) = fin {
                    let (i, _, t, o, _) = live.swap_remove(k);
                    out[i] = match fs::read_to_string(&o) {
                        Ok(s) => serde_json::from_str(&s).unwrap_or(Value::Null),
                        Err(_) => crash_report(st),
                    };
                    let _ = fs::remove_file(t);
                    let _ = fs::remove_file(o);
                } else {
                    k += 1;
                }
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        out
    }
}

fn crash_report(st: std::process::ExitStatus) -> Value {
    let what = match st.signal() {
        Some(s) => format!("signal{s}"),
        None => format!("exit{}", st.code().unwrap_or(-1)),
    };
    json!({"failure": {"kind": "crash", "sig": format!("crash:{what}"),
        "msg": format!("the process died during a run ({what})")}})
}

fn sig_of(v: &Value) -> Option<&str> {
    v["failure"]["sig"].as_str()
}

/// Shrink a failing run; returns the trace and its report.
fn minimise(run: &mut Runner, seed: u64, sig: &str, first: Value, secs: u64) -> (Value, Value) {
    let t0 = Instant::now();
    let left = |frac: f64| t0.elapsed().as_secs_f64() < secs as f64 * frac;
    let mk = |drops: &BTreeSet<u32>, salt: u64, replay: Value| json!({"seed": format!("{seed:016x}"),
        "salt": salt, "drops": drops, "replay": replay});
    let mut drops: BTreeSet<u32> = BTreeSet::new();
    let mut salt = 0u64;
    let mut best = first;
    if best.get("switches").is_none() {
        return (mk(&drops, 0, Value::Null), best);
    }
    // Drop workload items.
    let items = best["max_item"].as_u64().unwrap_or(0) as u32;
    let mut chunk = items.div_ceil(2).max(1);
    while items > 0 && left(0.5) {
        let alive: Vec<u32> = (0..items).filter(|i| !drops.contains(i)).collect();
        let mut progressed = false;
        let cand: Vec<(BTreeSet<u32>, u64)> = alive
            .chunks(chunk as usize)
            .flat_map(|c| {
                let mut d = drops.clone();
                d.extend(c);
                [(d.clone(), salt), (d, salt + 1)]
            })
            .collect();
        for batch in cand.chunks(16) {
            if !left(0.5) {
                break;
            }
            let rs = run.run_many(
                &batch
                    .iter()
                    .map(|(d, s)| mk(d, *s, Value::Null))
                    .collect::<Vec<_>>(),
            );
            if let Some(k) = rs.iter().position(|r| sig_of(r) == Some(sig)) {
                drops = batch[k].0.clone();
                salt = batch[k].1;
                best = rs[k].clone();
                progressed = true;
                break;
            }
        }
        if !progressed {
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
    }
    // Shrink the schedule and fault trace.
    let mut sw: Vec<Value> = best["switches"].as_array().cloned().unwrap_or_default();
    let mut ch: Vec<Value> = best["choices"].as_array().cloned().unwrap_or_default();
    let full = mk(&drops, salt, json!({"switches": sw, "choices": ch}));
    let r = run.run_many(std::slice::from_ref(&full));
    if sig_of(&r[0]) != Some(sig) {
        return (mk(&drops, salt, Value::Null), best);
    }
    best = r[0].clone();
    for which in [1, 0, 1, 0] {
        let mut n = 1usize;
        loop {
            let list = if which == 0 { &sw } else { &ch };
            if list.is_empty() || !left(1.0) {
                break;
            }
            let size = list.len().div_ceil(n);
            let cands: Vec<Vec<Value>> = (0..list.len())
                .step_by(size)
                .map(|s| {
                    let mut l = list[..s].to_vec();
                    l.extend_from_slice(&list[(s + size).min(list.len())..]);
                    l
                })
                .collect();
            let mut hit = None;
            for batch in cands.chunks(16) {
                if !left(1.0) {
                    break;
                }
                let rs = run.run_many(
                    &batch
                        .iter()
                        .map(|l| {
                            let (s, c) = if which == 0 { (l, &ch) } else { (&sw, l) };
                            mk(&drops, salt, json!({"switches": s, "choices": c}))
                        })
                        .collect::<Vec<_>>(),
                );
                if let Some(k) = rs.iter().position(|r| sig_of(r) == Some(sig)) {
                    hit = Some((batch[k].clone(), rs[k].clone()));
                    break;
                }
            }
            match hit {
                Some((l, r)) => {
                    // Keep only what was actually taken in the replayed run.
                    best = r;
                    if which == 0 {
                        sw = l
                    } else {
                        ch = l
                    }
                    n = n.saturating_sub(1).max(1);
                }
                None => {
                    if size == 1 {
                        break;
                    }
                    n = (n * 2).min(if which == 0 { sw.len() } else { ch.len() });
                }
            }
        }
    }
    (
        mk(&drops, salt, json!({"switches": sw, "choices": ch})),
        best,
    )
}

struct Known {
    property: String,
    sig: String,
    what: String,
}

fn known_findings() -> Vec<Known> {
    let s = fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, r) = l.split_once(" sig=")?;
            let (sig, what) = r.split_once(" :: ")?;
            Some(Known {
                property: p.trim().into(),
                sig: sig.trim().into(),
                what: what.trim().into(),
            })
        })
        .collect()
}

fn check_main(c: &'static Check, tier: &str, base: u64) -> ! {
    let t0 = Instant::now();
    let secs = std::env::var("SPFSIM_SECS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if tier == "thorough" {
            c.thorough_secs
        } else {
            c.quick_secs
        });
    println!("property={} tier={tier} seed={base} budget={secs}s", c.id);
    let dir = root().join("sim/target/run").join(format!(
        "{}-{}-{}",
        c.id,
        std::process::id(),
        now_ms()
    ));
    fs::create_dir_all(&dir).unwrap();
    let known = known_findings();
    let deadline = now_ms() + secs * 1000;
    let mut agg = Agg::new();
    let mut live: Vec<(usize, Child, u64)> = vec![];
    let spawn = |k: usize, start: u64| {
        let slot = format!("{k}-{start}");
        let ch = self_cmd()
            .args(["worker", c.id])
            .args([
                base.to_string(),
                start.to_string(),
                WORKERS.to_string(),
                deadline.to_string(),
            ])
            .arg(&dir)
            .arg(slot)
            .stdout(Stdio::null())
            .stderr(if std::env::var_os("SPFSIM_STDERR").is_some() {
                Stdio::inherit()
            } else {
                Stdio::null()
            })
            .spawn()
            .unwrap();
        (k, ch, start)
    };
    for k in 0..WORKERS {
        live.push(spawn(k, k as u64));
    }
    let mut runner = Runner {
        id: c.id.into(),
        dir: dir.clone(),
        n: 0,
    };
    let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
    let mut unreproduced: Vec<Value> = vec![];
    let mut violation: Option<(Value, Value)> = None;
    'main: while !live.is_empty() {
        let mut k = 0;
        while k < live.len() {
            let Some(st) = live[k].1.try_wait().unwrap() else {
                k += 1;
                continue;
            };
            let (slot, _, start) = live.swap_remove(k);
            let name = format!("{slot}-{start}");
            let res: Option<Value> = fs::read_to_string(dir.join(format!("result-{name}")))
                .ok()
                .and_then(|s| serde_json::from_str(&s).ok());
            let _ = fs::remove_file(dir.join(format!("result-{name}")));
            let mut fail: Option<(u64, Value, Value)> = None;
            let next;
            match res {
                Some(v) => {
                    agg.merge(&v["agg"]);
                    next = v["next"].as_u64().unwrap();
                    if let Some(f) = v.get("fail") {
                        fail = Some((
                            f["index"].as_u64().unwrap(),
                            json!({"failure": f["failure"]}),
                            f["report"].clone(),
                        ));
                    }
                }
                None => {
                    let i = fs::read_to_string(dir.join(format!("status-{name}")))
                        .ok()
                        .and_then(|s| s.trim().parse::<u64>().ok())
                        .unwrap_or(start);
                    next = i + WORKERS as u64;
                    fail = Some((i, crash_report(st), Value::Null));
                }
            }
            let mut restart = st.code() == Some(EXIT_RESTART);
            if let Some((i, f, rep)) = fail {
                let sig = sig_of(&f).unwrap().to_string();
                let seed = run_seed(base, c.id, i);
                if let Some(kf) = known
                    .iter()
                    .find(|x| x.property == c.id && x.sig == sig)
                {
                    *seen_known.entry(kf.what.clone()).or_default() += 1;
                    agg.runs += 1;
                    restart = true;
                } else {
                    eprintln!(
                        "candidate violation run={i} seed={seed:016x} sig={sig}: {}",
                        f["failure"]["msg"].as_str().unwrap_or("")
                    );
                    let trace = json!({"seed": format!("{seed:016x}")});
                    let again = runner.run_many(&[trace.clone()]);
                    if sig_of(&again[0]).is_some() {
                        for (_, ch, _) in live.iter_mut() {
                            let _ = ch.kill();
                            let _ = ch.wait();
                        }
                        live.clear();
                        let sig = sig_of(&again[0]).unwrap().to_string();
                        let budget = std::env::var("SPFSIM_MIN_SECS")
                            .ok()
                            .and_then(|x| x.parse().ok())
                            .unwrap_or(60);
                        violation = Some(minimise(
                            &mut runner,
                            seed,
                            &sig,
                            again[0].clone(),
                            budget,
                        ));
                        agg.runs += 1;
                        break 'main;
                    }
                    // Depends on what earlier runs left in the process?
                    let seq = json!({"seed": format!("{seed:016x}"), "sequence": {
                        "base": base, "start": start, "stride": WORKERS, "end": i}});
                    let again = if (i - start) / WORKERS as u64 <= 3000 {
                        runner.run_many(&[seq.clone()])
                    } else {
                        vec![Value::Null]
                    };
                    if sig_of(&again[0]) == Some(&sig) {
                        for (_, ch, _) in live.iter_mut() {
                            let _ = ch.kill();
                            let _ = ch.wait();
                        }
                        live.clear();
                        violation = Some((seq, again[0].clone()));
                        break 'main;
                    }
                    eprintln!("not reproduced in a fresh process: set aside");
                    unreproduced.push(json!({"run": i, "seed": format!("{seed:016x}"),
                        "failure": f["failure"], "scenario": rep["scenario"]}));
                    restart = true;
                }
            }
            if restart && now_ms() < deadline && unreproduced.len() < 20 {
                live.push(spawn(slot, next));
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let search_s = t0.elapsed().as_secs_f64();
    // Determinism audit: repeat some runs in fresh processes and compare digests.
    let mut audited = 0u64;
    let mut diverged: Vec<Value> = vec![];
    if violation.is_none() {
        let s: Vec<Value> = agg.samples.iter().take(16).cloned().collect();
        let rs = runner.run_many(
            &s.iter()
                .map(|x| json!({"seed": x["seed"]}))
                .collect::<Vec<_>>(),
        );
        for (a, b) in s.iter().zip(&rs) {
            audited += 1;
            if a["digest"] != b["digest"] {
                diverged.push(json!({"seed": a["seed"], "first": a["digest"], "again": b["digest"]}));
            }
        }
        if !diverged.is_empty() {
            eprintln!("WARNING: {} of {audited} audited runs diverged", diverged.len());
        }
    }
    let faults: BTreeMap<_, _> = agg
        .counters
        .iter()
        .filter(|(k, _)| k.starts_with("fault."))
        .collect();
    let probes: BTreeMap<_, _> = agg
        .counters
        .iter()
        .filter(|(k, _)| !k.starts_with("fault."))
        .collect();
    let mut replay_path = None;
    if let Some((trace, rep)) = &violation {
        let p = root().join("sim/target/replay");
        fs::create_dir_all(&p).unwrap();
        let f = p.join(format!("{}-{}.json", c.id, trace["seed"].as_str().unwrap()));
        let mut t = trace.clone();
        t["property"] = json!(c.id);
        t["base_seed"] = json!(base);
        t["expect"] = rep["failure"].clone();
        t["expect_digest"] = rep["digest"].clone();
        t["scenario"] = rep["scenario"].clone();
        t["steps"] = rep["steps"].clone();
        t["harness"] = json!(std::env::current_exe().unwrap());
        fs::write(&f, serde_json::to_string_pretty(&t).unwrap()).unwrap();
        // The replay must reproduce it.
        let again = runner.run_many(std::slice::from_ref(&t));
        let ok = again[0]["failure"]["sig"] == rep["failure"]["sig"];
        println!(
            "failure: {}",
            rep["failure"]["msg"].as_str().unwrap_or("")
        );
        println!(
            "signature: {} scenario: {} switches: {} choices: {} replay-reproduces: {ok}",
            rep["failure"]["sig"].as_str().unwrap_or(""),
            rep["scenario"].as_str().unwrap_or("?"),
            trace["replay"]["switches"].as_array().map_or(0, |a| a.len()),
            trace["replay"]["choices"].as_array().map_or(0, |a| a.len()),
        );
        replay_path = Some(f);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": c.id, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nontrivial.len(),
            "rule": c.rule,
            "samples": agg.samples.iter().take(6).collect::<Vec<_>>(),
            "simulated_runs": agg.runs,
            "seeds_per_hour": (agg.runs as f64 / search_s * 3600.0) as u64,
            "simulated_steps": agg.steps,
            "simulated_time_note": "the code under test reads no clock; simulated time is counted in scheduler steps",
            "simulated_threads": agg.threads,
            "context_switches": agg.switches,
            "distinct_interleavings": agg.sched.len(),
            "distinct_interleavings_measure": "digest of the run's sequence of (thread, operation kind) steps",
            "distinct_switch_edges": agg.edges.len(),
            "faults_injected": faults,
            "probes": probes,
            "runs_with": agg.runs_with,
            "scenarios": agg.scen,
            "strategies": agg.strat,
            "real_components": c.real,
            "stub_components": c.stub,
            "determinism_audit": {"reruns_in_fresh_process": audited, "diverged": diverged},
            "unreproduced_candidates": unreproduced,
            "known_findings_hit": seen_known,
        },
        "assumptions": c.assumptions,
        "wall_s": wall,
        "violations": violation.is_some() as u32,
    });
    let evdir = root().join("evidence");
    fs::create_dir_all(&evdir).unwrap();
    write_atomic(
        &evdir.join(format!("{}.json", c.id)),
        &serde_json::to_string_pretty(&ev).unwrap(),
    );
    let _ = fs::remove_dir_all(&dir);
    println!(
        "runs={} steps={} distinct={} switches={} faults={} wall={wall:.1}s",
        agg.runs,
        agg.steps,
        agg.nontrivial.len(),
        agg.switches,
        faults.values().map(|x| **x).sum::<u64>()
    );
    for k in known.iter().filter(|k| k.property == c.id) {
        println!("KNOWN-FINDING: property={} {}", c.id, k.what);
    }
    if let Some(p) = replay_path {
        println!("VIOLATION property={} replay={}", c.id, p.display());
        exit(1);
    }
    exit(0)
}

fn replay_main(checks: &'static [Check], file: &str, log: bool) -> ! {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let dir = root().join("sim/target/run").join(format!("replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    checks.iter().find(|c| c.id == id).expect("property");
    let mut t = v.clone();
    t["log"] = json!(log);
    let r = Runner {
        id: id.into(),
        dir: dir.clone(),
        n: 0,
    }
    .run_many(&[t])
    .remove(0);
    let _ = fs::remove_dir_all(&dir);
    if let Some(l) = r["log"].as_array() {
        for x in l {
            println!("{}", x.as_str().unwrap_or(""));
        }
    }
    match sig_of(&r) {
        Some(s) => {
            println!("{}", r["failure"]["msg"].as_str().unwrap_or(""));
            println!(
                "signature {s} (expected {}), digest {} (expected {})",
                v["expect"]["sig"], r["digest"], v["expect_digest"]
            );
            println!("VIOLATION property={id} replay={file}");
            exit(1)
        }
        None => {
            println!("the violation does not occur");
            exit(0)
        }
    }
}

pub fn main(checks: &'static [Check]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &'static Check {
        checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            exit(2)
        })
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = args.get(3).map(|s| s.as_str()).unwrap_or("quick");
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.trim().parse().ok())
                .unwrap_or(1);
            check_main(find(&args[2]), tier, seed)
        }
        Some("worker") => worker_main(find(&args[2]), &args[3..]),
        Some("one") => one_main(find(&args[2]), &args[3..]),
        Some("replay") => replay_main(checks, &args[2], args.len() > 3),
        Some("seed") => {
            // Run one seed and print its report.
            let c = find(&args[2]);
            (c.prepare)();
            let mut cfg = RunCfg::new(u64::from_str_radix(&args[3], 16).unwrap());
            cfg.log = args.len() > 4;
            let t = Instant::now();
            let (r, s) = execute(c, cfg);
            for l in &r.log {
                println!("{l}");
            }
            println!("{} {:?}", report_json(&r, s, false), t.elapsed());
            exit(0)
        }
        Some("list") => {
            for c in checks {
                println!("{}", c.id);
            }
            exit(0)
        }
        _ => {
            eprintln!("usage: check ID [quick|thorough] | replay FILE [log] | seed ID HEX [log] | list");
            exit(2)
        }
    }
}
