//! Runs every simulation in a forked child of a single-threaded worker process.
//!
//! Libraries keep process-wide counters (select! shuffles, hasher seeds). A fork starts each run
//! from the same process image, so one scenario is one execution no matter what ran before it,
//! and a run that aborts or spins cannot take the search down.

use std::{
    collections::BTreeMap,
    io::{BufRead, BufReader, Read, Write},
    os::{fd::FromRawFd, unix::process::CommandExt},
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
    sync::{
        Mutex,
        atomic::{AtomicU64, Ordering},
    },
};

use serde::{Deserialize, Serialize};

use crate::{
    disk::Fault,
    driver, profiles,
    scenario::{self, Scenario},
};

#[derive(Serialize, Deserialize)]
pub enum Job {
    Seed(String, u64, bool),
    Full(Box<Scenario>, bool),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Finding {
    pub rule: String,
    pub text: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Report {
    pub violations: Vec<Finding>,
    pub hash: u64,
    pub steps: u64,
    pub choices: u64,
    pub timer_fires: u64,
    pub io: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub injected: Vec<(u64, Fault)>,
    pub virtual_ns: u64,
    pub trace: Vec<String>,
    pub crashes: u64,
    pub opens: u64,
    pub writes_ok: u64,
    pub writes_unknown: u64,
    pub conflicts: u64,
    pub reads: u64,
    pub read_errors: u64,
    pub crash_points: Vec<(usize, u64)>,
    pub disk_files: Vec<(String, usize)>,
    pub features: Vec<String>,
    /// The simulator itself failed; says nothing about the code under test.
    pub broken: Option<String>,
}

impl Report {
    fn from(r: driver::RunResult) -> Self {
        Report {
            violations: r
                .violations
                .into_iter()
                .map(|v| Finding { rule: v.rule.to_string(), text: v.text })
                .collect(),
            hash: r.hash,
            steps: r.stats.steps,
            choices: r.stats.choices,
            timer_fires: r.stats.timer_fires,
            io: r.stats.io.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
            faults: r.stats.faults.clone(),
            injected: r.injected,
            virtual_ns: r.virtual_ns,
            trace: r.trace,
            crashes: r.crashes,
            opens: r.opens,
            writes_ok: r.writes_ok,
            writes_unknown: r.writes_unknown,
            conflicts: r.conflicts,
            reads: r.reads,
            read_errors: r.read_errors,
            crash_points: r.crash_points,
            disk_files: r.disk_files,
            features: r.features.iter().map(|s| s.to_string()).collect(),
            broken: None,
        }
    }
    pub fn has(&self, rule: &str) -> bool {
        self.violations.iter().any(|v| v.rule == rule)
    }
}

const CPU_SECONDS: u64 = 100;
pub const SPINS: &str = "the code spins";

/// What a run may use of the processor, in seconds.
static LIMIT: AtomicU64 = AtomicU64::new(CPU_SECONDS);

/// While a run that spins is minimised, the candidates need not spin that long.
pub fn short_runs(on: bool) {
    LIMIT.store(if on { CPU_SECONDS / 6 } else { CPU_SECONDS }, Ordering::Relaxed);
}

/// Body of a worker process: one JSON job per line in, one JSON report per line out.
pub fn worker_main() -> ! {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    let mut line = String::new();
    loop {
        line.clear();
        match stdin.lock().read_line(&mut line) {
            Ok(0) | Err(_) => std::process::exit(0),
            Ok(_) => {}
        }
        let rep = isolated(&line);
        let mut bytes = serde_json::to_vec(&rep).expect("encode report");
        bytes.push(b'\n');
        if out.write_all(&bytes).and_then(|()| out.flush()).is_err() {
            std::process::exit(0);
        }
    }
}

fn job(job: Job) -> Report {
    let (sc, trace) = match job {
        Job::Seed(id, seed, trace) => {
            (scenario::generate(&profiles::get(&id).expect("profile"), seed), trace)
        }
        Job::Full(sc, trace) => (*sc, trace),
    };
    Report::from(driver::execute(&sc, trace))
}

fn isolated(line: &str) -> Report {
    let (todo, cpu_seconds) = serde_json::from_str::<(Job, u64)>(line).expect("job");
    let mut fds = [0; 2];
    // SAFETY: the worker is single-threaded, so the child may run arbitrary code after fork.
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::close(0);
            let lim = |s: u64| libc::rlimit { rlim_cur: s, rlim_max: s };
            // The soft limit first: the signal tells a run that spins from one killed from outside.
            let cpu = libc::rlimit { rlim_cur: cpu_seconds, rlim_max: cpu_seconds + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            libc::setrlimit(libc::RLIMIT_AS, &lim(6 << 30));
            libc::setrlimit(libc::RLIMIT_CORE, &lim(0));
            let rep = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job(todo))).unwrap_or_else(|p| Report {
                broken: Some(crate::rt::panic_text(p.as_ref())),
                ..Report::default()
            });
            let bytes = serde_json::to_vec(&rep).unwrap_or_default();
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&bytes);
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = Vec::new();
        let _ = f.read_to_end(&mut buf);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if let Ok(r) = serde_json::from_slice::<Report>(&buf) {
            return r;
        }
        let mut r = Report::default();
        if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGKILL => r.broken = Some("the run was killed from outside".into()),
                libc::SIGXCPU => r.violations.push(Finding {
                    rule: "liveness".into(),
                    text: format!("{SPINS}: {cpu_seconds} s of CPU without yielding to the scheduler"),
                }),
                s => r.violations.push(Finding {
                    rule: "panic".into(),
                    text: format!("the process died of signal {s}"),
                }),
            }
        } else {
            r.broken = Some(format!("the run ended with status {st} and no report"));
        }
        r
    }
}

struct Worker {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Worker {
    fn new() -> Self {
        let mut cmd = Command::new(std::env::current_exe().expect("own path"));
        let debug = std::env::var_os("SIM_STDERR").is_some();
        cmd.arg("worker").stdin(Stdio::piped()).stdout(Stdio::piped());
        cmd.env_clear().stderr(if debug { Stdio::inherit() } else { Stdio::null() });
        if debug {
            cmd.env("SIM_STDERR", "1");
        }
        // SAFETY: only async-signal-safe calls; same addresses in every worker where permitted.
        unsafe {
            cmd.pre_exec(|| {
                libc::personality(libc::ADDR_NO_RANDOMIZE as _);
                Ok(())
            });
        }
        let mut child = cmd.spawn().expect("spawn worker");
        let stdin = child.stdin.take().expect("stdin");
        let stdout = BufReader::new(child.stdout.take().expect("stdout"));
        Worker { child, stdin, stdout }
    }
    fn run(&mut self, j: &Job) -> std::io::Result<Report> {
        let mut b = serde_json::to_vec(&(j, LIMIT.load(Ordering::Relaxed)))?;
        b.push(b'\n');
        self.stdin.write_all(&b)?;
        self.stdin.flush()?;
        let mut line = String::new();
        self.stdout.read_line(&mut line)?;
        Ok(serde_json::from_str(&line)?)
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

static IDLE: Mutex<Vec<Worker>> = Mutex::new(Vec::new());

pub fn run_job(j: &Job) -> Report {
    let w = IDLE.lock().unwrap().pop();
    let mut w = w.unwrap_or_else(Worker::new);
    match w.run(j) {
        Ok(r) => {
            IDLE.lock().unwrap().push(w);
            r
        }
        Err(e) => Report {
            broken: Some(format!("worker failed: {e}")),
            ..Report::default()
        },
    }
}

pub fn run(sc: &Scenario, trace: bool) -> Report {
    run_job(&Job::Full(Box::new(sc.clone()), trace))
}

pub fn shutdown() {
    IDLE.lock().unwrap().clear();
}
