//! The check of one property: seeded search, minimisation, replay file, evidence.

use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    path::{Path, PathBuf},
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};

use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::{
    minimize::Minimizer,
    pool::{self, Finding, Job, Report},
    profiles,
    rng::Rng,
    scenario::{self, Scenario},
};

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub rule: String,
    pub violation: String,
    /// Fingerprint of the whole execution: every scheduling choice, I/O and answer.
    pub hash: String,
    pub found_with_seed: u64,
    pub scenario: Scenario,
    #[serde(default)]
    pub trace: Vec<String>,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn root() -> PathBuf {
    std::env::var("TONBO_VERIF").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}

pub fn run_seed(base: u64, id: &str, i: u64) -> u64 {
    Rng::derive(base.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(i), id).u64() >> 12
}

#[derive(Default)]
struct Acc {
    runs: u64,
    nontrivial: HashSet<u64>,
    hashes: HashSet<u64>,
    steps: u64,
    choices: u64,
    timers: u64,
    virt_ns: u128,
    crashes: u64,
    opens: u64,
    writes_ok: u64,
    writes_unknown: u64,
    reads: u64,
    read_errors: u64,
    conflicts: u64,
    io: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    features: BTreeMap<String, u64>,
    crash_sites: BTreeSet<(usize, u64)>,
    samples: Vec<serde_json::Value>,
    broken: Vec<String>,
}

impl Acc {
    fn add(&mut self, id: &str, seed: u64, needs: &[&str], r: &Report) {
        self.runs += 1;
        if let Some(b) = &r.broken {
            self.broken.push(format!("seed {seed}: {b}"));
            return;
        }
        self.hashes.insert(r.hash);
        let has = |f: &str| r.features.iter().any(|x| x == f);
        if r.writes_ok > 0 && r.reads > 0 && needs.iter().all(|n| n.split('|').any(has)) {
            self.nontrivial.insert(r.hash);
            if self.samples.len() < 3 {
                self.samples.push(json!({
                    "property": id, "seed": seed, "steps": r.steps, "choices": r.choices,
                    "simulated_ms": r.virtual_ns / 1_000_000, "acknowledged_writes": r.writes_ok,
                    "unknown_writes": r.writes_unknown, "reads": r.reads, "crashes": r.crashes,
                    "crash_points": r.crash_points, "faults": r.faults, "features": r.features,
                    "hash": format!("{:016x}", r.hash),
                }));
            }
        }
        self.steps += r.steps;
        self.choices += r.choices;
        self.timers += r.timer_fires;
        self.virt_ns += u128::from(r.virtual_ns);
        self.crashes += r.crashes;
        self.opens += r.opens;
        self.writes_ok += r.writes_ok;
        self.writes_unknown += r.writes_unknown;
        self.reads += r.reads;
        self.read_errors += r.read_errors;
        self.conflicts += r.conflicts;
        for (k, v) in &r.io {
            *self.io.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for f in &r.features {
            *self.features.entry(f.clone()).or_default() += 1;
        }
        self.crash_sites.extend(r.crash_points.iter().copied());
    }
}

fn read_dir(dir: &Path, id: &str) -> Vec<(PathBuf, Replay)> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    v.sort();
    v.retain(|p| p.extension().is_some_and(|e| e == "json"));
    v.into_iter()
        .map(|p| {
            let r = load(&p);
            (p, r)
        })
        .filter(|(_, r)| r.property == id)
        .collect()
}

pub fn load(p: &Path) -> Replay {
    let text = std::fs::read_to_string(p).unwrap_or_else(|e| die(&format!("{}: {e}", p.display())));
    serde_json::from_str(&text).unwrap_or_else(|e| die(&format!("{}: {e}", p.display())))
}

fn die(msg: &str) -> ! {
    eprintln!("ERROR: {msg}");
    std::process::exit(2)
}

fn write_replay(id: &str, seed: u64, rule: &str, sc: &Scenario) -> Option<(PathBuf, Finding)> {
    let (a, b) = std::thread::scope(|s| {
        let a = s.spawn(|| pool::run(sc, true));
        let b = pool::run(sc, false);
        (a.join().expect("join"), b)
    });
    let hit = a.violations.iter().find(|v| v.rule == rule)?.clone();
    if a.hash != b.hash || !b.has(rule) {
        die(&format!("seed {seed}: the violation does not replay ({:016x} / {:016x})", a.hash, b.hash));
    }
    let dir = root().join("work/replays");
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("{}: {e}", dir.display())));
    let path = dir.join(format!("{id}-{rule}-{seed}.json"));
    let rep = Replay {
        property: id.into(),
        rule: rule.into(),
        violation: hit.text.clone(),
        hash: format!("{:016x}", a.hash),
        found_with_seed: seed,
        scenario: sc.clone(),
        trace: a.trace,
    };
    std::fs::write(&path, serde_json::to_vec_pretty(&rep).expect("encode"))
        .unwrap_or_else(|e| die(&format!("{}: {e}", path.display())));
    Some((path, hit))
}

pub fn check(id: &str) -> i32 {
    let Some(prof) = profiles::get(id) else { die(&format!("no such property: {id}")) };
    let t0 = Instant::now();
    let base = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let runs = env_u64("SIM_RUNS", if thorough { u64::MAX } else { prof.runs });
    let secs = env_u64("SIM_SECONDS", if thorough { 600 } else { 120 });
    let deadline = t0 + Duration::from_secs(secs);
    let workers = std::thread::available_parallelism().map_or(8, |n| n.get());
    println!("check {id}: VERIF_SEED={base} runs={runs} seconds={secs} workers={workers}");

    // Recorded defects that are not repaired.
    let mut known = 0;
    for (path, f) in read_dir(&root().join("findings"), id) {
        let r = pool::run(&f.scenario, false);
        if r.has(&f.rule) {
            known += 1;
            println!("KNOWN-FINDING: property={id} {} ({})", f.violation, path.display());
        } else {
            println!("note: {} no longer fails", path.display());
        }
    }

    let acc = Mutex::new(Acc::default());
    let hit: Mutex<Option<(u64, u64, Finding, Option<Scenario>)>> = Mutex::new(None);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    // Histories of repaired defects: replayed first, since the search may need long to find them.
    let pinned = read_dir(&root().join("regress"), id);
    let npinned = pinned.len() as u64;
    // A sample is run twice, in different processes, and must not differ in anything.
    let double = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| {
                loop {
                    if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= runs.saturating_add(npinned) {
                        break;
                    }
                    let (seed, r, sc) = if i < npinned {
                        let sc = &pinned[i as usize].1.scenario;
                        (sc.seed, pool::run(sc, false), Some(sc.clone()))
                    } else {
                        let seed = run_seed(base, id, i - npinned);
                        let job = Job::Seed(id.into(), seed, false);
                        let r = pool::run_job(&job);
                        if i % 50 == 7 && r.broken.is_none() {
                            let again = pool::run_job(&Job::Seed(id.into(), seed, true));
                            double.fetch_add(1, Ordering::Relaxed);
                            if again.hash != r.hash && again.broken.is_none() {
                                acc.lock().unwrap().broken.push(format!(
                                    "seed {seed}: two executions differ ({:016x} / {:016x})",
                                    r.hash, again.hash
                                ));
                            }
                        }
                        (seed, r, None)
                    };
                    if let Some(v) = r.violations.iter().find(|v| !prof.ignore.contains(&v.rule.as_str())) {
                        let mut h = hit.lock().unwrap();
                        if h.as_ref().is_none_or(|(j, ..)| i < *j) {
                            *h = Some((i, seed, v.clone(), sc));
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                    acc.lock().unwrap().add(id, seed, prof.needs, &r);
                }
            });
        }
    });
    let acc = acc.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    let hit = hit.into_inner().unwrap();
    let mut violations = Vec::new();
    let mut code = 0;
    if let Some((_, seed, v, sc)) = hit {
        println!("seed {seed}: {}: {}", v.rule, v.text);
        let sc = sc.unwrap_or_else(|| scenario::generate(&prof, seed));
        let budget = if thorough { 240 } else { 60 };
        let mut m = Minimizer::new(&v.rule, Duration::from_secs(budget), workers);
        pool::short_runs(v.text.starts_with(pool::SPINS));
        let small = m.run(&sc);
        pool::short_runs(false);
        let (path, f) = write_replay(id, seed, &v.rule, &small)
            .or_else(|| write_replay(id, seed, &v.rule, &sc))
            .unwrap_or_else(|| die(&format!("seed {seed}: the violation does not replay")));
        println!("minimised with {} runs to {} operations", m.tried, small.op_count());
        println!("{}: {}", f.rule, f.text);
        println!("VIOLATION property={id} replay={}", path.display());
        violations.push(json!({"rule": f.rule, "text": f.text, "seed": seed, "replay": path}));
        code = 1;
    } else if !acc.broken.is_empty() {
        for b in acc.broken.iter().take(5) {
            eprintln!("ERROR: {b}");
        }
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": acc.runs,
            "distinct_nontrivial": acc.nontrivial.len(),
            "rule": format!(
                "each case is one simulated execution drawn from a seed (configuration, client scripts, \
                 schedule, latencies, crash points, faults); it counts when its execution fingerprint is new, \
                 at least one write was acknowledged, at least one read answered, and it reached: {}",
                if prof.needs.is_empty() { "(nothing further)".to_string() } else { prof.needs.join(", ") }
            ),
            "samples": acc.samples,
            "runs_per_hour": (acc.runs as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (acc.runs as f64 / search_s * 3600.0) as u64,
            "simulated_seconds": (acc.virt_ns / 1_000_000_000) as u64,
            "distinct_executions": acc.hashes.len(),
            "distinct_executions_measure":
                "fingerprint over every scheduling choice, timer, I/O call with its path and its outcome",
            "scheduler_steps": acc.steps,
            "seeded_choices": acc.choices,
            "timers_fired": acc.timers,
            "process_lifetimes": acc.opens,
            "crashes_injected": acc.crashes,
            "distinct_crash_points": acc.crash_sites.len(),
            "faults_injected": acc.faults,
            "io_calls": acc.io,
            "runs_reaching": acc.features,
            "acknowledged_writes": acc.writes_ok,
            "writes_with_unknown_outcome": acc.writes_unknown,
            "reads_checked": acc.reads,
            "read_errors_answered": acc.read_errors,
            "transaction_conflicts": acc.conflicts,
            "determinism_double_runs": double.into_inner(),
            "regression_histories_replayed": npinned,
            "known_findings": known,
            "simulator_errors": acc.broken.len(),
            "real_components": [
                "tonbo (whole crate: ingest, transactions, mvcc, memtables, wal, flush, compaction, manifest, scans)",
                "fusio-manifest", "parquet", "arrow", "typed-arrow-dyn"
            ],
            "stub_components": [
                "file system and object store (simulated disk behind fusio's Fs traits and libc open/fsync)",
                "executor, timers, clocks, randomness (seeded simulator)",
                "aisle predicate pruning (stand-in crate: the real one is not available offline)"
            ],
        },
        "assumptions": [
            "one process opens the database at a time",
            "scheduling points are the await points of the code; preemption inside a poll is not simulated",
            "a file closed or renamed into place is durable unless the run loses power before its fsync where the code issues one"
        ],
        "wall_s": wall,
        "violations": violations.len(),
        "violation_details": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}.json"));
    std::fs::write(&path, serde_json::to_vec_pretty(&ev).expect("encode"))
        .unwrap_or_else(|e| die(&format!("{}: {e}", path.display())));
    println!(
        "{id}: {} runs ({} non-trivial), {:.0} s simulated, {} crashes, {} faults, {:.0} s wall, exit {code}",
        acc.runs,
        acc.nontrivial.len(),
        acc.virt_ns as f64 / 1e9,
        acc.crashes,
        acc.faults.values().sum::<u64>(),
        wall
    );
    pool::shutdown();
    code
}

pub fn replay(file: &str) -> i32 {
    let f = load(Path::new(file));
    let r = pool::run(&f.scenario, true);
    for l in &r.trace {
        println!("{l}");
    }
    for v in &r.violations {
        println!("!! {}: {}", v.rule, v.text);
    }
    let same = format!("{:016x}", r.hash) == f.hash;
    println!(
        "execution {:016x} ({})",
        r.hash,
        if same { "identical to the recorded one" } else { "differs from the recorded one" }
    );
    if r.has(&f.rule) {
        println!("VIOLATION property={} replay={file}", f.property);
        1
    } else {
        0
    }
}

/// Run many seeds twice, in different processes and orders, and compare the fingerprints.
pub fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    for p in profiles::all() {
        let next = AtomicU64::new(0);
        let first: Mutex<BTreeMap<u64, u64>> = Mutex::new(BTreeMap::new());
        for pass in 0..2u64 {
            next.store(0, Ordering::Relaxed);
            let workers = if pass == 0 { 8 } else { 3 };
            let diff = AtomicU64::new(0);
            std::thread::scope(|s| {
                for _ in 0..workers {
                    s.spawn(|| {
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            let i = if pass == 0 { i } else { n - 1 - i };
                            let seed = run_seed(99, p.id, i);
                            let r = pool::run_job(&Job::Seed(p.id.into(), seed, pass == 1));
                            if let Some(old) = first.lock().unwrap().insert(seed, r.hash)
                                && old != r.hash
                            {
                                diff.fetch_add(1, Ordering::Relaxed);
                                println!("{} seed {seed} differs", p.id);
                            }
                        }
                    });
                }
            });
            pool::shutdown();
            bad += diff.into_inner();
        }
        println!("{}: {n} seeds twice, {bad} differences so far", p.id);
    }
    i32::from(bad > 0)
}
