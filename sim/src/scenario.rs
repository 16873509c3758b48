//! One simulated run, written out: configuration, client scripts, crash points and faults.
//! A `Scenario` plus its seed determines the execution completely; replay files hold one.

use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};

use crate::{
    disk::{CrashKind, Fault, FaultCfg, Mode},
    model::{Cmp, Key, KeyKind, Pred, ScanSpec, Table, Wid},
    rng::Rng,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Sync {
    Always,
    Bytes(usize),
    TimeMs(u64),
    Disabled,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CompactionCfg {
    /// 0: leveled defaults, 1: leveled eager, 2: tiered
    pub style: u8,
    pub jobs: usize,
    pub queue: usize,
    pub max_rows: Option<usize>,
    pub max_bytes: Option<usize>,
    pub tick_ms: u64,
    pub backpressure: Option<(usize, usize)>,
    pub follow_ups: usize,
    pub cooldown_ms: u64,
    /// Leveled trigger: files in L0 and size multiplier knobs.
    pub l0_trigger: usize,
    pub l0_inputs: usize,
    pub level_files: usize,
    /// Thresholds in bytes: of L0, of a deeper level, of one task.
    #[serde(default)]
    pub sizes: Option<(usize, usize, usize)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunCfg {
    pub table: Table,
    pub mode: Mode,
    pub seal_batches: Option<usize>,
    pub mem_slots: Option<usize>,
    pub row_group_rows: Option<usize>,
    pub scan_batch_rows: Option<usize>,
    pub wal_segment_bytes: usize,
    pub wal_segment_age_ms: Option<u64>,
    pub sync: Sync,
    pub wal_flush_ms: u64,
    pub wal_queue: usize,
    pub retention: Option<usize>,
    pub minor: Option<usize>,
    pub compaction: Option<CompactionCfg>,
    pub ack_fast: bool,
    pub faults: FaultCfg,
}

pub type Row = (Key, Option<Wid>);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    Upsert(Key, Wid),
    /// Upsert several rows through `upsert_batch`.
    UpsertBatch(Vec<(Key, Wid)>),
    Delete(Key),
    Get(Key),
    Scan(ScanSpec),
    SleepUs(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Put(Vec<Row>),
    Scan(ScanSpec),
    Txn { ops: Vec<TOp>, commit: bool },
    SnapOpen(u32),
    SnapScan(u32, ScanSpec),
    SnapDrop(u32),
    /// Remember the newest listed version together with what a snapshot of it holds.
    VersionOpen(u32),
    /// Re-read a remembered version through `snapshot_at`.
    VersionScan(u32),
    Versions,
    SleepUs(u64),
    WallJumpMs(i64),
    /// The caller gives up on the next write, transaction or scan after this many microseconds.
    Hurry(u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    /// Stop the process at the n-th I/O of the incarnation (counted from open).
    CrashIo(CrashKind, u64),
    /// Stop at the n-th I/O matching `op:path-part`.
    CrashOn(CrashKind, String, u32),
    /// Stop after all clients finished and this many microseconds passed.
    CrashAfter(CrashKind, u64),
    /// Drop every handle, wait, exit.
    Drop(u64),
}

/// Damage done to the write-ahead log while the database is closed.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Corrupt {
    /// 0: flip a bit, 1: cut, 2: append garbage, 3: zero the end, 4: overwrite a few bytes
    pub kind: u8,
    /// Which segment, counted from the newest.
    pub segment: u64,
    /// Position in thousandths of the file.
    pub at: u64,
    pub arg: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Phase {
    pub clients: Vec<Vec<Op>>,
    /// Inject I/O faults while the clients run.
    pub faults: bool,
    /// Inject I/O faults into the open as well.
    pub faults_at_open: bool,
    /// Crashes during successive attempts to open before this phase.
    pub open_crashes: Vec<(CrashKind, u64)>,
    pub end: End,
    #[serde(default)]
    pub corrupt: Option<Corrupt>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub property: String,
    pub seed: u64,
    pub cfg: RunCfg,
    pub phases: Vec<Phase>,
    /// Explicit faults by I/O ordinal; None draws them from the seed.
    pub fault_plan: Option<BTreeMap<u64, Fault>>,
    /// Scheduling decisions taken from the seed before falling back to first-in first-out.
    pub sched_cut: Option<u64>,
}

impl Scenario {
    pub fn op_count(&self) -> usize {
        self.phases.iter().flat_map(|p| &p.clients).map(Vec::len).sum()
    }
}

/// Tunable mix from which scenarios of one property are drawn.
#[derive(Clone, Debug)]
pub struct Profile {
    pub id: &'static str,
    /// Runs of the quick tier.
    pub runs: u64,
    /// What a run must reach to count as non-trivial; `a|b` is either.
    pub needs: &'static [&'static str],
    /// Rules that say nothing about this property.
    pub ignore: &'static [&'static str],
    pub max_clients: u64,
    pub phases: (u64, u64),
    pub ops: (u64, u64),
    /// Weights: put, delete-put, scan, txn, snapshot, sleep, versions
    pub w: [u32; 7],
    /// Per cent of phases ending in a crash, and of those, power losses.
    pub crash: u32,
    pub power: u32,
    pub open_crash: u32,
    /// Per cent of runs with I/O faults.
    pub faults: u32,
    /// Per cent of runs with compaction.
    pub compaction: u32,
    pub minor: u32,
    pub object: u32,
    /// Per cent of runs with Always sync.
    pub always: u32,
    pub fast: u32,
    pub preds: u32,
    pub limit: u32,
    pub int_keys_only: bool,
    /// Per cent of runs whose log is damaged after the first phase.
    pub corrupt: u32,
    /// Memtables are sealed after at most this many batches.
    pub seal: usize,
}

fn weighted(r: &mut Rng, w: &[u32]) -> usize {
    let total: u32 = w.iter().sum();
    let mut x = r.below(total.max(1) as u64) as u32;
    for (i, v) in w.iter().enumerate() {
        if x < *v {
            return i;
        }
        x -= v;
    }
    0
}

struct Gen<'a> {
    r: Rng,
    p: &'a Profile,
    t: Table,
    next: Wid,
    /// Hot keys get more traffic.
    hot: Vec<Key>,
    /// Callers give up waiting now and then.
    impatient: bool,
    /// The wall clock jumps.
    clock: bool,
}

impl Gen<'_> {
    fn wid(&mut self) -> Wid {
        self.next += 1;
        self.next
    }
    fn key(&mut self) -> Key {
        if !self.hot.is_empty() && self.r.pct(60) {
            *self.r.pick(&self.hot.clone())
        } else {
            self.r.below(self.t.nkeys as u64) as Key
        }
    }
    fn keys(&mut self, n: usize) -> Vec<Key> {
        let mut v: Vec<Key> = Vec::new();
        for _ in 0..n * 3 {
            let k = self.key();
            if !v.contains(&k) {
                v.push(k);
            }
            if v.len() == n {
                break;
            }
        }
        v
    }
    fn pred(&mut self, depth: u32) -> Pred {
        let n = self.next.max(1);
        match self.r.below(if depth == 0 { 13 } else { 10 }) {
            0 | 1 => Pred::Key(*self.r.pick(&Cmp::ALL), self.key()),
            2 => {
                let n = 1 + self.r.usize(4);
                Pred::KeyIn(self.keys(n))
            }
            3 => {
                let (a, b) = (self.key(), self.key());
                Pred::KeyBetween(a, b)
            }
            4 => Pred::KeyPrefix(self.r.pick(&["a", "key", "key-1", "b", "z", ""]).to_string()),
            5 => Pred::V(*self.r.pick(&Cmp::ALL), self.r.range(1, n + 3)),
            6 => Pred::Grp(*self.r.pick(&Cmp::ALL), self.r.range(0, 7) as i32 - 2),
            7 => Pred::SNull(self.r.pct(50)),
            8 => Pred::SPrefix(self.r.pick(&["s1", "s2-", "s", "x"]).to_string()),
            9 => Pred::B(self.r.pct(50)),
            10 => Pred::And(vec![self.pred(1), self.pred(1)]),
            11 => Pred::Or(vec![self.pred(1), self.pred(1)]),
            _ => Pred::Not(Box::new(self.pred(1))),
        }
    }
    fn scan(&mut self) -> ScanSpec {
        let mut s = ScanSpec::full();
        if self.r.pct(self.p.preds) {
            s.pred = self.pred(0);
        }
        if self.r.pct(30) {
            let mut cols: Vec<&str> = match self.t.kind {
                KeyKind::Pair => vec!["tenant", "seq", "grp", "s", "b"],
                _ => vec!["id", "grp", "s", "b"],
            };
            self.r.shuffle(&mut cols);
            let n = self.r.usize(cols.len() + 1);
            cols.truncate(n);
            let at = self.r.usize(cols.len() + 1);
            cols.insert(at, "v");
            s.proj = Some(cols.into_iter().map(String::from).collect());
        }
        if self.r.pct(self.p.limit) {
            s.limit = Some(self.r.usize(self.t.nkeys as usize + 2));
        }
        if self.r.pct(50) {
            s.pace = self.r.below(200) as u32;
        }
        if self.r.pct(4) {
            s.drop_after = Some(self.r.below(3) as u32);
        }
        s
    }
    fn rows(&mut self, deletes: bool) -> Vec<Row> {
        let n = match self.r.below(10) {
            0..4 => 1,
            4..9 => 2 + self.r.usize(4),
            _ => 6 + self.r.usize(self.t.nkeys as usize),
        };
        let ks = self.keys(n);
        let all_del = deletes && self.r.pct(30);
        let mut out = Vec::new();
        for k in ks {
            // A key may repeat in a batch: a delete counts wherever it stands, else the last row.
            while self.r.pct(6) {
                let del = deletes && self.r.pct(30);
                out.push((k, if del { None } else { Some(self.wid()) }));
            }
            let del = deletes && (all_del || self.r.pct(45));
            out.push((k, if del { None } else { Some(self.wid()) }));
        }
        if self.r.pct(20) {
            // Repeats need not be neighbours.
            let last: Vec<Row> = out.iter().enumerate().filter(|(i, r)| out[i + 1..].iter().all(|o| o.0 != r.0)).map(|(_, r)| *r).collect();
            out.retain(|r| !last.contains(r));
            out.extend(last);
        }
        out
    }
    fn txn(&mut self) -> Op {
        let mut ops = Vec::new();
        let n = 1 + self.r.usize(5);
        let rmw = self.r.pct(45);
        let point = self.t.has_point_keys();
        for _ in 0..n {
            match self.r.below(10) {
                0..4 => {
                    let k = self.key();
                    if rmw && point {
                        ops.push(TOp::Get(k));
                        if self.r.pct(40) {
                            ops.push(TOp::SleepUs(self.r.below(2000)));
                        }
                    }
                    let w = self.wid();
                    ops.push(TOp::Upsert(k, w));
                }
                4 => {
                    let n = 1 + self.r.usize(3);
                    let ks = self.keys(n);
                    let mut rows: Vec<(Key, Wid)> = ks.iter().map(|k| (*k, self.wid())).collect();
                    if self.r.pct(15) {
                        rows.push((ks[0], self.wid()));
                    }
                    ops.push(TOp::UpsertBatch(rows));
                }
                5 | 6 if point => ops.push(TOp::Delete(self.key())),
                7 if point => ops.push(TOp::Get(self.key())),
                8 => {
                    let mut s = self.scan();
                    s.drop_after = None;
                    ops.push(TOp::Scan(s));
                }
                _ => ops.push(TOp::SleepUs(self.r.below(3000))),
            }
        }
        Op::Txn {
            ops,
            commit: !self.r.pct(12),
        }
    }
    fn script(&mut self, n: usize) -> Vec<Op> {
        let mut out = Vec::new();
        let mut slots: Vec<u32> = Vec::new();
        let mut vslots: Vec<u32> = Vec::new();
        for _ in 0..n {
            if self.clock && self.r.pct(8) {
                let ms = match self.r.below(3) {
                    0 => self.r.below(2_000),
                    1 => self.r.below(70_000),
                    _ => self.r.below(4_000_000),
                } as i64;
                out.push(Op::WallJumpMs(if self.r.pct(50) { ms } else { -ms }));
            }
            if self.impatient && self.r.pct(15) {
                out.push(Op::Hurry(match self.r.below(4) {
                    0 => 0,
                    1 => self.r.below(100),
                    2 => self.r.below(3_000),
                    _ => self.r.below(60_000),
                }));
            }
            match weighted(&mut self.r, &self.p.w) {
                0 => out.push(Op::Put(self.rows(false))),
                1 => out.push(Op::Put(self.rows(true))),
                2 => out.push(Op::Scan(self.scan())),
                3 => out.push(self.txn()),
                4 => match self.r.below(4) {
                    0 if slots.len() < 3 => {
                        let s = (0..3).find(|s| !slots.contains(s)).unwrap_or(0);
                        slots.push(s);
                        out.push(Op::SnapOpen(s));
                    }
                    1 if slots.len() > 1 => {
                        let i = self.r.usize(slots.len());
                        out.push(Op::SnapDrop(slots.remove(i)));
                    }
                    _ if !slots.is_empty() => {
                        let s = *self.r.pick(&slots);
                        let spec = self.scan();
                        out.push(Op::SnapScan(s, spec));
                    }
                    _ => {
                        slots.push(0);
                        out.push(Op::SnapOpen(0));
                    }
                },
                5 => out.push(Op::SleepUs(match self.r.below(3) {
                    0 => self.r.below(1000),
                    1 => self.r.below(60_000),
                    _ => self.r.below(1_500_000),
                })),
                _ => match self.r.below(3) {
                    0 => out.push(Op::Versions),
                    1 if vslots.len() < 3 => {
                        let s = vslots.len() as u32;
                        vslots.push(s);
                        out.push(Op::VersionOpen(s));
                    }
                    _ if !vslots.is_empty() => {
                        let s = *self.r.pick(&vslots);
                        out.push(Op::VersionScan(s));
                    }
                    _ => out.push(Op::Versions),
                },
            }
        }
        out
    }
}

pub fn generate(p: &Profile, seed: u64) -> Scenario {
    let mut r = Rng::derive(seed, p.id);
    let kind = if p.int_keys_only || r.pct(35) {
        KeyKind::I64
    } else {
        *r.pick(&[
            KeyKind::I32,
            KeyKind::U64,
            KeyKind::F64,
            KeyKind::Str,
            KeyKind::Str,
            KeyKind::Bin,
            KeyKind::Pair,
            KeyKind::Pair,
        ])
    };
    let table = Table {
        kind,
        nkeys: *r.pick(&[3, 6, 10, 16, 24]),
        key_last: r.pct(25),
    };
    let mode = if r.pct(p.object) { Mode::Object } else { Mode::Local };
    let faulty = r.pct(p.faults);
    let mut f = FaultCfg {
        latency: *r.pick(&[0, 1, 2, 2, 2, 3]),
        lazy_writes: false,
        undelete: r.pct(30),
        close_durable: true,
        orphan_power: std::env::var_os("SIM_ORPHAN_POWER").is_some(),
        ..FaultCfg::default()
    };
    if faulty {
        let rate = *r.pick(&[3u32, 10, 25, 60]);
        for slot in [
            &mut f.read,
            &mut f.write,
            &mut f.open,
            &mut f.close,
            &mut f.list,
            &mut f.remove,
            &mut f.cas,
            &mut f.conflict,
            &mut f.sync,
        ] {
            if r.pct(35) {
                *slot = rate;
            }
        }
        if r.pct(50) {
            f.only = r.pick(&["/wal/", "/sst/", "/manifest/"]).to_string();
        }
        if !f.any() {
            f.write = rate;
            f.cas = rate;
        }
    }
    let minor = r.pct(p.minor).then(|| 1 + r.usize(3));
    let mut compaction = (minor.is_some() && r.pct(p.compaction)).then(|| CompactionCfg {
        style: r.below(3) as u8,
        jobs: 1 + r.usize(2),
        queue: 1 + r.usize(3),
        max_rows: r.pct(50).then(|| 1 + r.usize(12)),
        max_bytes: r.pct(15).then(|| 200 + r.usize(4000)),
        tick_ms: *r.pick(&[1, 5, 20, 100]),
        backpressure: r.pct(60).then(|| {
            let s = 1 + r.usize(6);
            (s, s + r.usize(8))
        }),
        follow_ups: r.usize(3),
        cooldown_ms: *r.pick(&[0, 1, 50]),
        l0_trigger: 1 + r.usize(4),
        l0_inputs: 1 + r.usize(6),
        level_files: 1 + r.usize(3),
        sizes: None,
    });
    if let Some(c) = &mut compaction {
        let mut s = Rng::derive(seed, "sizes");
        if s.pct(25) {
            let mut n = || *s.pick(&[1, 2_000, 5_000, 12_000, 1 << 30]);
            c.sizes = Some((n(), n(), n()));
        }
        // Writers may only be made to wait for a compaction that the planner will schedule: the
        // default leveled planner leaves up to 8 files in L0 alone.
        let least = if c.style == 0 { 9 } else { c.l0_trigger.max(c.l0_inputs) + 1 };
        if let Some((slow, stop)) = &mut c.backpressure {
            *slow += least;
            *stop += least;
        }
    }
    let sync = if r.pct(p.always) {
        Sync::Always
    } else {
        match r.below(4) {
            0 => Sync::Bytes(1 + r.usize(4000)),
            1 | 2 => Sync::TimeMs(1 + r.below(60)),
            _ => Sync::Disabled,
        }
    };
    let cfg = RunCfg {
        table: table.clone(),
        mode,
        seal_batches: if r.pct(88) { Some(1 + r.usize(p.seal)) } else { None },
        mem_slots: Rng::derive(seed, "slots").pct(15).then(|| 2 + Rng::derive(seed, "nslots").usize(6)),
        row_group_rows: r.pct(60).then(|| 1 + r.usize(6)),
        scan_batch_rows: r.pct(60).then(|| 1 + r.usize(4)),
        wal_segment_bytes: *r.pick(&[1, 600, 2000, 6000, 1 << 20]),
        wal_segment_age_ms: r.pct(20).then(|| 1 + r.below(100)),
        sync,
        wal_flush_ms: *r.pick(&[1, 5, 20, 100]),
        wal_queue: *r.pick(&[1, 2, 16, 1024]),
        retention: None,
        minor,
        compaction,
        ack_fast: r.pct(p.fast),
        faults: f,
    };
    let nclients = 1 + r.below(p.max_clients);
    let nphases = r.range(p.phases.0, p.phases.1);
    let mut hot: Vec<Key> = Vec::new();
    if r.pct(60) {
        for _ in 0..1 + r.usize(3) {
            hot.push(r.below(table.nkeys as u64) as Key);
        }
    }
    let mut g = Gen {
        r: Rng::derive(seed, "ops"),
        p,
        t: table,
        next: 0,
        hot,
        impatient: Rng::derive(seed, "hurry").pct(20),
        clock: Rng::derive(seed, "clock").pct(12),
    };
    let mut phases = Vec::new();
    for i in 0..nphases {
        let n = if r.pct(30) { 1 } else { nclients };
        let total = r.range(p.ops.0, p.ops.1) as usize;
        let clients = (0..n)
            .map(|_| {
                let m = (total / n as usize).max(1);
                g.script(m)
            })
            .collect();
        let end = if r.pct(p.crash) {
            let kind = if r.pct(p.power) { CrashKind::Power } else { CrashKind::Process };
            match r.below(10) {
                0..4 => End::CrashIo(kind, 5 + r.below(10 + (total as u64) * 12)),
                4..8 => {
                    let pat = r
                        .pick(&[
                            "write:/wal/", "write:/wal/", "write:/wal/", "write:/wal/", "flush:/wal/", "sync:/wal/", "put:/wal/", "open:/wal/",
                            "remove:/wal/", "close:/wal/", "write:/sst/", "close:/sst/", "open:/sst/",
                            "remove:/sst/", "put:/manifest/", "put:version", "put:gc", "remove:",
                            "list:/wal/", "read:/sst/", "read:/wal/",
                        ])
                        .to_string();
                    End::CrashOn(kind, pat, r.below(1 + total as u64 / 2) as u32)
                }
                _ => End::CrashAfter(kind, r.below(500_000)),
            }
        } else if r.pct(50) {
            End::Drop(r.below(300_000))
        } else {
            End::CrashAfter(CrashKind::Process, r.below(100_000))
        };
        let mut open_crashes = Vec::new();
        while i > 0 && open_crashes.len() < 3 && r.pct(p.open_crash) {
            let kind = if r.pct(p.power) { CrashKind::Power } else { CrashKind::Process };
            open_crashes.push((kind, 1 + r.below(60)));
        }
        phases.push(Phase {
            clients,
            faults: faulty && r.pct(80),
            faults_at_open: faulty && r.pct(30),
            open_crashes,
            end,
            corrupt: (i == 0 && r.pct(p.corrupt)).then(|| Corrupt {
                kind: r.below(5) as u8,
                segment: if r.pct(70) { 0 } else { r.below(4) },
                at: r.below(1000),
                arg: r.u64() >> 32,
            }),
        });
    }
    let mut cfg = cfg;
    if let Sync::TimeMs(ms) = cfg.sync
        && p.id == "P11"
    {
        let mut s = Rng::derive(seed, "steady");
        if s.pct(40) {
            // Writes that arrive faster than the interval, for several intervals, and a power cut.
            cfg.faults.latency = s.below(2) as u8;
            // Nothing else may sync the log in between.
            cfg.wal_segment_bytes = 1 << 20;
            cfg.wal_segment_age_ms = None;
            let at = s.usize(phases.len());
            let gap = (ms * 1000 / (2 + s.below(4))).max(200);
            let mut script = Vec::new();
            for _ in 0..10 + s.usize(20) {
                script.push(Op::Put(g.rows(false)));
                script.push(Op::SleepUs(gap));
            }
            let n = script.len();
            let phase = &mut phases[at];
            phase.faults = false;
            phase.corrupt = None;
            phase.clients.truncate(s.usize(2));
            phase.clients.push(script);
            phase.end = match s.below(3) {
                0 => End::CrashAfter(CrashKind::Power, s.below(3_000)),
                1 => End::CrashOn(CrashKind::Power, "write:/wal/".into(), (n as u64 / 4 + s.below(n as u64 / 4 + 1)) as u32),
                _ => End::CrashIo(CrashKind::Power, 10 + s.below(n as u64 * 6)),
            };
        }
    }
    Scenario {
        property: p.id.to_string(),
        seed,
        cfg,
        phases,
        fault_plan: None,
        sched_cut: None,
    }
}
