//! Runs a scenario against the real tonbo code and records the history.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    rc::Rc,
    sync::Arc,
    time::Duration,
};

use futures::{StreamExt, channel::oneshot};
use parking_lot::Mutex;
use tonbo::db::{
    CommitAckMode, CompactionOptions, CompactionStrategy, DB, DBError, DbBuilder,
    L0BackpressureConfig, LeveledPlannerConfig, ScanBuilder, WalConfig, WalSyncPolicy,
    wal_tuning::WalConfigExt,
};

use crate::{
    check,
    disk::{CrashKind, Disk, Fault, Mode, SimFs, Stats},
    history::*,
    interpose,
    model::{self, Key, Table, Wid},
    rt::{self, Core, Exit, Limits, SimExec},
    scenario::{End, Op, RunCfg, Scenario, Sync, TOp},
};

type Db = DB<SimFs, SimExec>;
type Shared = Arc<Mutex<History>>;

pub struct RunResult {
    pub violations: Vec<Violation>,
    pub hash: u64,
    pub stats: Stats,
    pub injected: Vec<(u64, Fault)>,
    pub virtual_ns: u64,
    pub trace: Vec<String>,
    pub crashes: u64,
    pub opens: u64,
    pub writes_ok: u64,
    pub writes_unknown: u64,
    pub conflicts: u64,
    pub reads: u64,
    pub read_errors: u64,
    pub sched_used: u64,
    pub disk_files: Vec<(String, usize)>,
    /// Where each crash actually fired (phase, I/O ordinal).
    pub crash_points: Vec<(usize, u64)>,
    pub features: Vec<&'static str>,
}

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Record panics of simulation threads instead of printing them.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if std::thread::current().name() == Some("sim") {
            let msg = format!(
                "{} at {}",
                rt::panic_text(info.payload()),
                info.location().map(|l| l.to_string()).unwrap_or_default()
            );
            let _ = PANICS.try_with(|p| p.borrow_mut().push(msg));
        } else {
            old(info);
        }
    }));
}

/// Execute in a fresh thread so that thread-local state of std and the libraries starts equal.
pub fn execute(sc: &Scenario, trace: bool) -> RunResult {
    let sc = sc.clone();
    std::thread::Builder::new()
        .name("sim".into())
        .stack_size(16 << 20)
        .spawn(move || execute_here(&sc, trace))
        .expect("spawn simulation thread")
        .join()
        .unwrap_or_else(|p| panic!("simulator fault: {}", rt::panic_text(p.as_ref())))
}

async fn open(cfg: &RunCfg, core: &Arc<Core>) -> Result<Db, String> {
    let t = &cfg.table;
    let fs = Arc::new(SimFs::new(core));
    let b = DbBuilder::from_schema_key_indices(t.schema(), t.key_indices())
        .map_err(|e| format!("schema: {e}"))?;
    let b = match cfg.mode {
        Mode::Local => b
            .on_durable_fs(fs, format!("{}/db", interpose::SIM_ROOT))
            .map_err(|e| format!("path: {e}"))?,
        Mode::Object => b
            .object_store_with_fs(fs, fusio::path::Path::from("tonbo-sim-disk/db"))
            .map_err(|e| format!("path: {e}"))?,
    };
    let mut wal = WalConfig::default()
        .segment_max_bytes(cfg.wal_segment_bytes)
        .flush_interval(Duration::from_millis(cfg.wal_flush_ms))
        .queue_size(cfg.wal_queue)
        .sync_policy(match cfg.sync {
            Sync::Always => WalSyncPolicy::Always,
            Sync::Bytes(n) => WalSyncPolicy::IntervalBytes(n),
            Sync::TimeMs(n) => WalSyncPolicy::IntervalTime(Duration::from_millis(n)),
            Sync::Disabled => WalSyncPolicy::Disabled,
        });
    if let Some(ms) = cfg.wal_segment_age_ms {
        wal = wal.segment_max_age(Some(Duration::from_millis(ms)));
    }
    if let Some(r) = cfg.retention {
        wal = wal.retention_bytes(Some(r));
    }
    let mut b = WalConfigExt::wal_config(b, wal).table_name("sim");
    b = match cfg.minor {
        Some(n) => b.with_minor_compaction(n, 0),
        None => b.disable_minor_compaction(),
    };
    if let Some(c) = &cfg.compaction {
        let mut o = CompactionOptions::new()
            .max_concurrent_jobs(c.jobs)
            .queue_capacity(c.queue)
            .periodic_tick(Duration::from_millis(c.tick_ms))
            .cascade(tonbo::db::CascadeConfig::new(
                c.follow_ups,
                Duration::from_millis(c.cooldown_ms),
            ));
        if c.style > 0 {
            o = o.strategy(CompactionStrategy::Leveled(LeveledPlannerConfig {
                l0_trigger: c.l0_trigger,
                l0_max_inputs: c.l0_inputs,
                l0_max_bytes: c.sizes.map(|s| s.0),
                level_thresholds: vec![c.level_files, c.level_files + 1, c.level_files + 2],
                level_max_bytes: c.sizes.map(|s| vec![Some(s.1), None, Some(s.1)]).unwrap_or_default(),
                max_inputs_per_task: c.l0_inputs + 1,
                max_task_bytes: c.sizes.map(|s| s.2),
            }));
        }
        if let Some(n) = c.max_rows {
            o = o.max_output_rows(n);
        }
        if let Some(n) = c.max_bytes {
            o = o.max_output_bytes(n);
        }
        o = match c.backpressure {
            Some((a, b)) => o.l0_backpressure(
                L0BackpressureConfig::new(a, b)
                    .slowdown_delay(Duration::from_millis(1))
                    .stop_delay(Duration::from_millis(3)),
            ),
            None => o.disable_l0_backpressure(),
        };
        b = b.with_compaction_options(o);
    }
    if cfg.ack_fast {
        b = b.with_commit_ack_mode(CommitAckMode::Fast);
    }
    b.open_with_executor(Arc::new(SimExec(Arc::clone(core))))
        .await
        .map_err(|e| format!("{e}"))
}

struct Ctx {
    core: Arc<Core>,
    h: Shared,
    t: Table,
    owner: Rc<HashMap<Wid, Key>>,
    db: Db,
    client: usize,
}

fn scan_builder<'a>(
    b: ScanBuilder<'a, SimFs, SimExec>,
    t: &Table,
    spec: &model::ScanSpec,
) -> ScanBuilder<'a, SimFs, SimExec> {
    let mut b = b;
    if spec.pred != model::Pred::True {
        b = b.filter(spec.pred.expr(t));
    }
    if let Some(cols) = &spec.proj {
        let schema = t.schema();
        let fields: Vec<_> = cols
            .iter()
            .map(|c| schema.field_with_name(c).expect("known column").clone())
            .collect();
        b = b.projection(Arc::new(arrow_schema::Schema::new(fields)));
    }
    if let Some(n) = spec.limit {
        b = b.limit(n);
    }
    b
}

/// Drive a scan, pausing between batches. Returns rows and whether the stream was cut short.
async fn drain(
    core: &Arc<Core>,
    b: ScanBuilder<'_, SimFs, SimExec>,
    spec: &model::ScanSpec,
    t: &Table,
    owner: &HashMap<Wid, Key>,
) -> Result<(Vec<(Key, Wid)>, bool), Result<String, String>> {
    let err = |e: DBError| Err(e.to_string());
    let mut out = Vec::new();
    let mut s = b.stream().await.map_err(err)?;
    let mut n = 0u32;
    loop {
        if spec.drop_after == Some(n) {
            return Ok((out, true));
        }
        let Some(item) = s.next().await else { break };
        let batch = item.map_err(err)?;
        let rows = model::decode(t, &batch, &|w| owner.get(&w).copied()).map_err(Ok)?;
        if let Some(cols) = &spec.proj {
            let got: Vec<String> =
                batch.schema().fields().iter().map(|f| f.name().clone()).collect();
            if &got != cols {
                return Err(Ok(format!("asked for columns {cols:?}, got {got:?}")));
            }
        } else if batch.num_columns() != t.schema().fields().len() {
            return Err(Ok(format!("full scan returned {} columns", batch.num_columns())));
        }
        out.extend(rows);
        n += 1;
        match spec.pace {
            0 => {}
            1 => core.yield_now().await,
            p => core.sleep(Duration::from_micros(p as u64 * 10)).await,
        }
    }
    Ok((out, false))
}

impl Ctx {
    fn log(&self, f: impl FnOnce() -> String) {
        let now = self.core.now_ns();
        self.core.lock().log(now, f);
    }

    fn begin_read(
        &self,
        view: View,
        win: Option<(Seq, Seq)>,
        spec: model::ScanSpec,
        what: &'static str,
    ) -> usize {
        let mut h = self.h.lock();
        let inv = h.next();
        let epoch = h.epoch();
        let (lo, hi) = win.unwrap_or((inv, NEVER));
        h.reads.push(Read {
            epoch,
            client: self.client,
            lo,
            hi,
            inv,
            resp: NEVER,
            view,
            spec,
            rows: Vec::new(),
            point: None,
            overlay: Vec::new(),
            err: None,
            partial: false,
            what,
        });
        h.reads.len() - 1
    }

    fn end_read(&self, id: usize, res: Result<(Vec<(Key, Wid)>, bool), Result<String, String>>) {
        if self.dead() {
            return;
        }
        let mut h = self.h.lock();
        let seq = h.next();
        let live = h.reads[id].hi == NEVER;
        let r = &mut h.reads[id];
        r.resp = seq;
        if live {
            r.hi = seq;
        }
        let (client, what, inv) = (r.client, r.what, r.inv);
        let mut bad = None;
        match res {
            Ok((rows, partial)) => {
                r.rows = rows;
                r.partial = partial;
            }
            Err(Err(e)) => r.err = Some(e),
            Err(Ok(e)) => {
                r.err = Some(e.clone());
                bad = Some(e);
            }
        }
        let text = match &r.err {
            Some(e) => format!("error {e}"),
            None => format!("{:?}", r.rows),
        };
        if let Some(e) = bad {
            h.violate("row-integrity", format!("{what} by client {client} at #{inv}: {e}"));
        }
        drop(h);
        self.log(|| format!("[{client}] #{inv}..#{seq} {what} -> {text}"));
    }

    fn begin_write(&self, rows: Vec<(Key, Option<Wid>)>, txn: Option<usize>) -> usize {
        let mut h = self.h.lock();
        let inv = h.next();
        let epoch = h.epoch();
        h.writes.push(Write {
            epoch,
            client: self.client,
            inv,
            resp: NEVER,
            status: Status::Pending,
            rows,
            txn,
            err: None,
            resp_ns: 0,
        });
        h.writes.len() - 1
    }

    /// The process died inside a synchronous call: what its code still does before it next
    /// waits is seen by nobody.
    fn dead(&self) -> bool {
        self.core.lock().crashed
    }

    fn end_write(&self, id: usize, status: Status, err: Option<String>) {
        if self.dead() {
            return;
        }
        let mut h = self.h.lock();
        let seq = h.next();
        let w = &mut h.writes[id];
        w.resp = seq;
        w.resp_ns = self.core.now_ns();
        w.status = status;
        w.err = err.clone();
        let (rows, inv, txn) = (w.rows.clone(), w.inv, w.txn);
        drop(h);
        self.log(|| {
            format!(
                "[{}] #{inv}..#{seq} {} {rows:?} -> {status:?} {}",
                self.client,
                if txn.is_some() { "commit" } else { "put" },
                err.unwrap_or_default()
            )
        });
    }

    async fn put(&self, rows: &[(Key, Option<Wid>)]) {
        let mut counting: BTreeMap<_, _> = rows.iter().copied().collect();
        counting.extend(rows.iter().filter(|r| r.1.is_none()).copied());
        let id = self.begin_write(counting.into_iter().collect(), None);
        let batch = self.t.batch(rows);
        let res = if rows.iter().any(|(_, w)| w.is_none()) {
            let tomb = rows.iter().map(|(_, w)| w.is_none()).collect();
            self.db.ingest_with_tombstones(batch, tomb).await
        } else {
            self.db.ingest(batch).await
        };
        match res {
            Ok(()) => self.end_write(id, Status::Ok, None),
            Err(e) => self.end_write(id, Status::Unknown, Some(e.to_string())),
        }
    }

    async fn scan(&self, spec: &model::ScanSpec, what: &'static str) {
        let id = self.begin_read(View::Live, None, spec.clone(), what);
        let res = drain(
            &self.core,
            scan_builder(self.db.scan(), &self.t, spec),
            spec,
            &self.t,
            &self.owner,
        )
        .await;
        self.end_read(id, res);
    }

    async fn txn(&self, ops: &[TOp], commit: bool) {
        let begin_inv = self.h.lock().next();
        let mut tx = match self.db.begin_transaction().await {
            Ok(t) => t,
            Err(e) => {
                self.log(|| format!("[{}] begin -> error {e}", self.client));
                let mut h = self.h.lock();
                h.errors += 1;
                let ep = h.epoch();
                if !h.epochs[ep].faulty && !self.dead() && !lease_race(&e.to_string()) {
                    h.violate("unexpected-error", format!("begin_transaction failed: {e}"));
                }
                return;
            }
        };
        let tid = {
            let mut h = self.h.lock();
            let begin_resp = h.next();
            let epoch = h.epoch();
            h.txns.push(Txn {
                epoch,
                begin_inv,
                begin_resp,
                commit_inv: NEVER,
                write: None,
                conflict: false,
            });
            h.txns.len() - 1
        };
        let win = {
            let h = self.h.lock();
            (h.txns[tid].begin_inv, h.txns[tid].begin_resp)
        };
        self.log(|| format!("[{}] #{}..#{} begin txn {tid}", self.client, win.0, win.1));
        let mut staged: BTreeMap<Key, Option<Wid>> = BTreeMap::new();
        for op in ops {
            match op {
                TOp::Upsert(k, w) => {
                    if let Err(e) = tx.upsert(self.t.dyn_row(*k, *w)) {
                        self.h.lock().violate("unexpected-error", format!("txn upsert: {e}"));
                        return;
                    }
                    staged.insert(*k, Some(*w));
                }
                TOp::UpsertBatch(rows) => {
                    let rows: Vec<_> = rows.iter().map(|(k, w)| (*k, Some(*w))).collect();
                    if let Err(e) = tx.upsert_batch(&self.t.batch(&rows)) {
                        self.h.lock().violate("unexpected-error", format!("txn upsert_batch: {e}"));
                        return;
                    }
                    staged.extend(rows);
                }
                TOp::Delete(k) => {
                    let res = match self.t.key(*k) {
                        model::KeyVal::I(v) if self.t.kind == model::KeyKind::I32 => {
                            tx.delete(v as i32)
                        }
                        model::KeyVal::I(v) => tx.delete(v),
                        model::KeyVal::U(v) => tx.delete(v),
                        model::KeyVal::F(v) => tx.delete(v),
                        model::KeyVal::S(v) => tx.delete(v.as_str()),
                        model::KeyVal::B(v) => tx.delete(v.as_slice()),
                        model::KeyVal::P(..) => continue,
                    };
                    if let Err(e) = res {
                        self.h.lock().violate("unexpected-error", format!("txn delete: {e}"));
                        return;
                    }
                    staged.insert(*k, None);
                }
                TOp::Get(k) => {
                    let id = self.begin_read(
                        View::Txn(tid),
                        Some(win),
                        model::ScanSpec::full(),
                        "txn-get",
                    );
                    {
                        let mut h = self.h.lock();
                        h.reads[id].point = Some(*k);
                        h.reads[id].overlay = staged.iter().map(|(k, w)| (*k, *w)).collect();
                    }
                    let res = match self.t.key(*k) {
                        model::KeyVal::I(v) if self.t.kind == model::KeyKind::I32 => {
                            tx.get(&(v as i32).into()).await
                        }
                        model::KeyVal::I(v) => tx.get(&v.into()).await,
                        model::KeyVal::U(v) => tx.get(&v.into()).await,
                        model::KeyVal::F(v) => tx.get(&v.into()).await,
                        model::KeyVal::S(v) => tx.get(&v.as_str().into()).await,
                        model::KeyVal::B(v) => tx.get(&v.as_slice().into()).await,
                        model::KeyVal::P(..) => continue,
                    };
                    let res = match res {
                        Ok(None) => Ok((vec![], false)),
                        Ok(Some(row)) => match self.t.decode_dyn(*k, &row) {
                            Ok(w) => Ok((vec![(*k, w)], false)),
                            Err(e) => Err(Ok(e)),
                        },
                        Err(e) => Err(Err(e.to_string())),
                    };
                    self.end_read(id, res);
                }
                TOp::Scan(spec) => {
                    let id = self.begin_read(View::Txn(tid), Some(win), spec.clone(), "txn-scan");
                    self.h.lock().reads[id].overlay =
                        staged.iter().map(|(k, w)| (*k, *w)).collect();
                    let res = drain(
                        &self.core,
                        scan_builder(tx.scan(), &self.t, spec),
                        spec,
                        &self.t,
                        &self.owner,
                    )
                    .await;
                    self.end_read(id, res);
                }
                TOp::SleepUs(us) => self.core.sleep(Duration::from_micros(*us)).await,
            }
        }
        let rows: Vec<_> = staged.into_iter().collect();
        if !commit {
            let id = self.begin_write(rows, Some(tid));
            tx.abort();
            self.end_write(id, Status::Failed, Some("aborted".into()));
            return;
        }
        if rows.is_empty() {
            let _ = tx.commit().await;
            return;
        }
        let id = self.begin_write(rows, Some(tid));
        {
            let mut h = self.h.lock();
            let inv = h.writes[id].inv;
            h.txns[tid].commit_inv = inv;
            h.txns[tid].write = Some(id);
        }
        match tx.commit().await {
            Ok(()) => self.end_write(id, Status::Ok, None),
            Err(e) => {
                let text = e.to_string();
                if text.contains("conflict") && !self.dead() {
                    self.h.lock().txns[tid].conflict = true;
                    self.end_write(id, Status::Failed, Some(text));
                } else {
                    self.end_write(id, Status::Unknown, Some(text));
                }
            }
        }
    }

    /// Drop `call` where it stands when its time is up.
    async fn within(&self, limit: Option<u64>, call: impl Future<Output = ()>) {
        let Some(us) = limit else { return call.await };
        {
            let mut call = Box::pin(call);
            let time = self.core.sleep(Duration::from_micros(us));
            if let futures::future::Either::Left(_) = futures::future::select(&mut call, time).await {
                return;
            }
        }
        self.core.lock().stats.marks.insert("caller-gave-up");
        let pending = {
            let h = self.h.lock();
            let e = h.epoch();
            h.writes.iter().rposition(|w| w.client == self.client && w.epoch == e && w.status == Status::Pending)
        };
        if let Some(id) = pending {
            self.end_write(id, Status::Unknown, Some(GAVE_UP.into()));
        }
    }

    async fn run_script(self, ops: Vec<Op>) {
        let mut snaps: BTreeMap<u32, (_, (Seq, Seq), usize)> = BTreeMap::new();
        let mut versions: BTreeMap<u32, (_, Option<Vec<(Key, Wid)>>)> = BTreeMap::new();
        let mut snap_ids = self.h.lock().epoch() * 1_000_000 + self.client * 10_000;
        let mut hurry = None;
        for op in &ops {
            if self.dead() {
                return;
            }
            let limit = hurry.take();
            match op {
                Op::Hurry(us) => hurry = Some(*us),
                Op::Put(rows) => self.within(limit, self.put(rows)).await,
                Op::Scan(spec) => self.within(limit, self.scan(spec, "scan")).await,
                Op::Txn { ops, commit } => self.within(limit, self.txn(ops, *commit)).await,
                Op::SnapOpen(slot) => {
                    let inv = self.h.lock().next();
                    match self.db.begin_snapshot().await {
                        Ok(s) => {
                            let resp = self.h.lock().next();
                            snap_ids += 1;
                            self.log(|| {
                                format!("[{}] #{inv}..#{resp} snapshot {snap_ids}", self.client)
                            });
                            snaps.insert(*slot, (s, (inv, resp), snap_ids));
                        }
                        Err(e) => {
                            let mut h = self.h.lock();
                            h.errors += 1;
                            let ep = h.epoch();
                            if !h.epochs[ep].faulty && !self.dead() && !lease_race(&e.to_string()) {
                                h.violate("unexpected-error", format!("begin_snapshot: {e}"));
                            }
                        }
                    }
                }
                Op::SnapScan(slot, spec) => {
                    if let Some((s, win, id)) = snaps.get(slot) {
                        let rid =
                            self.begin_read(View::Snap(*id), Some(*win), spec.clone(), "snap-scan");
                        let res = drain(
                            &self.core,
                            scan_builder(s.scan(&self.db), &self.t, spec),
                            spec,
                            &self.t,
                            &self.owner,
                        )
                        .await;
                        self.end_read(rid, res);
                    }
                }
                Op::SnapDrop(slot) => {
                    snaps.remove(slot);
                }
                Op::Versions => self.versions().await,
                Op::VersionOpen(slot) => {
                    if let Ok(vs) = self.db.list_versions(1).await
                        && let Some(v) = vs.first()
                    {
                        versions.insert(*slot, (v.timestamp, None));
                    }
                }
                Op::VersionScan(slot) => {
                    if let Some((ts, seen)) = versions.get_mut(slot) {
                        self.travel(*ts, seen).await;
                    }
                }
                Op::SleepUs(us) => self.core.sleep(Duration::from_micros(*us)).await,
                Op::WallJumpMs(ms) => {
                    self.core.jump_wall(*ms * 1_000_000);
                    self.core.lock().stats.marks.insert("wall-clock-jump");
                }
            }
        }
    }

    async fn travel(&self, _ts: impl Sized, _seen: &mut Option<Vec<(Key, Wid)>>) {}

    async fn versions(&self) {
        match self.db.list_versions(0).await {
            Ok(vs) => {
                for w in vs.windows(2) {
                    if w[0].timestamp <= w[1].timestamp {
                        self.h.lock().violate(
                            "version-order",
                            format!(
                                "list_versions is not strictly newest-first: {:?} then {:?}",
                                w[0].timestamp, w[1].timestamp
                            ),
                        );
                    }
                }
            }
            Err(e) => {
                let mut h = self.h.lock();
                h.errors += 1;
                let ep = h.epoch();
                if !h.epochs[ep].faulty && !self.dead() && !lease_race(&e.to_string()) {
                    h.violate("unexpected-error", format!("list_versions: {e}"));
                }
            }
        }
    }
}

fn execute_here(sc: &Scenario, trace: bool) -> RunResult {
    PANICS.with(|p| p.borrow_mut().clear());
    let core = Core::new(sc.seed, sc.cfg.faults.clone(), Disk::new(sc.cfg.mode), trace);
    {
        let mut g = core.lock();
        g.fault_plan = sc.fault_plan.clone();
        if let Some(n) = sc.sched_cut {
            g.sched_left = n;
        }
    }
    interpose::attach(&core, sc.seed ^ 0x5151_7171);
    tonbo::sim::set_knobs(tonbo::sim::Knobs {
        seal_batches: sc.cfg.seal_batches,
        mem_batch_slots: sc.cfg.mem_slots,
        row_group_rows: sc.cfg.row_group_rows,
        scan_batch_rows: sc.cfg.scan_batch_rows,
        bloom_ndv: Some(32),
    });
    let mut owner: HashMap<Wid, Key> = HashMap::new();
    for p in &sc.phases {
        for op in p.clients.iter().flatten() {
            match op {
                Op::Put(rows) => owner.extend(rows.iter().filter_map(|(k, w)| w.map(|w| (w, *k)))),
                Op::Txn { ops, .. } => {
                    for t in ops {
                        match t {
                            TOp::Upsert(k, w) => {
                                owner.insert(*w, *k);
                            }
                            TOp::UpsertBatch(r) => owner.extend(r.iter().map(|(k, w)| (*w, *k))),
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let owner = Rc::new(owner);
    let h: Shared = Arc::new(Mutex::new(History::default()));
    let mut crashes = 0u64;
    let mut opens = 0u64;
    let mut crash_points = Vec::new();
    let mut stop = false;
    let total = sc.phases.len();
    // Two extra, quiet incarnations at the end verify the final state.
    for i in 0..total + 2 {
        if stop {
            break;
        }
        let phase = sc.phases.get(i);
        if let Some(p) = phase {
            for (kind, at) in &p.open_crashes {
                let exit = incarnation(sc, &core, &h, &owner, None, Some(*at), Some(*kind), &mut crash_points, i);
                opens += 1;
                if let Some(v) = bad_exit(&exit, "open") {
                    h.lock().violate("liveness", v);
                    stop = true;
                    break;
                }
                crashes += 1;
            }
            if stop {
                break;
            }
        }
        let kind = phase.and_then(|p| match &p.end {
            End::CrashIo(k, _) | End::CrashOn(k, _, _) | End::CrashAfter(k, _) => Some(*k),
            End::Drop(_) => None,
        });
        let exit = incarnation(sc, &core, &h, &owner, Some(i), None, kind, &mut crash_points, i);
        opens += 1;
        if let Some(v) = bad_exit(&exit, "run") {
            h.lock().violate("liveness", v);
            stop = true;
        }
        if kind.is_some() {
            crashes += 1;
        }
        if h.lock().refused || h.lock().violations.iter().any(|v| v.rule == "open") {
            stop = true;
        }
    }
    let panics = PANICS.with(|p| p.borrow().clone());
    interpose::detach();
    let mut hist = std::mem::take(&mut *h.lock());
    for p in panics {
        hist.violate("panic", p);
    }
    check::check(&sc.cfg.table, &mut hist);
    let mut g = core.lock();
    let features = check::features(&hist, &g.stats);
    RunResult {
        violations: hist.violations.clone(),
        hash: g.hash,
        stats: g.stats.clone(),
        injected: std::mem::take(&mut g.injected),
        virtual_ns: core.now_ns(),
        trace: g.trace.take().unwrap_or_default(),
        crashes,
        opens,
        writes_ok: hist.writes.iter().filter(|w| w.status == Status::Ok).count() as u64,
        writes_unknown: hist
            .writes
            .iter()
            .filter(|w| matches!(w.status, Status::Unknown | Status::Pending))
            .count() as u64,
        conflicts: hist.txns.iter().filter(|t| t.conflict).count() as u64,
        reads: hist.reads.iter().filter(|r| r.err.is_none() && r.resp != NEVER).count() as u64,
        read_errors: hist.reads.iter().filter(|r| r.err.is_some()).count() as u64,
        sched_used: g.stats.choices,
        disk_files: g.disk.listing(),
        crash_points,
        features,
    }
}

/// The outcome of a write whose caller stopped waiting.
pub const GAVE_UP: &str = "the caller gave up";

/// The manifest reports a publication a crashed process left half done.
pub fn lease_held(e: &str) -> bool {
    e.to_lowercase().contains("precondition failed")
}

/// fusio-manifest lists the lease files and then opens each one; a session that ends in between makes
/// the open fail. A transient error of that dependency, on which the outcome counts as unknown.
pub fn lease_race(e: &str) -> bool {
    e.contains("/leases/") && e.to_lowercase().contains("not found")
}

fn bad_exit(e: &Exit, what: &str) -> Option<String> {
    match e {
        Exit::Done | Exit::Crashed => None,
        Exit::Deadlock => Some(format!("{what}: every task is blocked and no timer is pending")),
        Exit::Budget(b) => Some(format!("{what}: no completion within {b}")),
    }
}

/// Run one process lifetime. `phase` None means an open that is meant to crash at `open_crash`.
#[allow(clippy::too_many_arguments)]
fn incarnation(
    sc: &Scenario,
    core: &Arc<Core>,
    h: &Shared,
    owner: &Rc<HashMap<Wid, Key>>,
    phase: Option<usize>,
    open_crash: Option<u64>,
    kind: Option<CrashKind>,
    crash_points: &mut Vec<(usize, u64)>,
    ordinal: usize,
) -> Exit {
    // With syncing disabled nothing is promised about a power loss.
    let kind = kind.map(|k| if sc.cfg.sync == Sync::Disabled { CrashKind::Process } else { k });
    core.begin_epoch();
    let p = phase.and_then(|i| sc.phases.get(i)).cloned();
    let p_corrupt = p.as_ref().and_then(|p| p.corrupt.clone());
    let quiet_final = phase.is_some() && p.is_none();
    {
        let mut g = core.lock();
        g.crash_at_io = open_crash;
        g.crashed_at_io = None;
        match p.as_ref().map(|p| &p.end) {
            Some(End::CrashIo(_, n)) => g.crash_at_io = Some(*n),
            Some(End::CrashOn(_, pat, n)) => g.crash_on = Some((pat.clone(), *n)),
            _ => {}
        }
        g.faults_on = p.as_ref().is_some_and(|p| p.faults && p.faults_at_open);
        let now = core.now_ns();
        let e = g.epoch;
        g.log(now, || format!("=== incarnation {e} (phase {ordinal}) ==="));
    }
    let cfg = sc.cfg.clone();
    let lossy_power = cfg.sync != Sync::Always && cfg.mode == Mode::Local;
    {
        let mut hh = h.lock();
        let open_inv = hh.next();
        // On a damaged log an error is a right answer, and nothing that follows it is unexpected.
        let faulty = hh.damaged || p.as_ref().is_some_and(|p| p.faults) && cfg.faults.any();
        hh.epochs.push(Epoch {
            open_inv,
            open_resp: NEVER,
            end: NEVER,
            crash: kind,
            lossy: cfg.ack_fast
                || p.as_ref().is_some_and(|p| p.corrupt.is_some()) || (kind == Some(CrashKind::Power) && lossy_power),
            prefix: cfg.sync != Sync::Disabled
                && p.as_ref().is_none_or(|p| p.corrupt.is_none()),
            faulty,
            careless: cfg.ack_fast || p.as_ref().is_some_and(|p| p.corrupt.is_some()),
            // A writer that is not slowed down syncs on time; otherwise give it time to get there.
            sync_ns: match (cfg.sync, cfg.faults.latency) {
                (Sync::TimeMs(ms), 0 | 1) => Some(ms * 1_000_000 + 1_000_000),
                (Sync::TimeMs(ms), 2) => Some(ms * 1_000_000 + 300_000_000),
                _ => None,
            }
            .filter(|_| !faulty),
            sync_bytes: match cfg.sync {
                Sync::Bytes(n) if !faulty => Some(n),
                _ => None,
            },
            open_syncs: cfg.sync != Sync::Disabled && !faulty,
            end_ns: 0,
        });
    }
    let cfg2 = cfg.faults.clone();
    let after_crash = h.lock().epochs.len() > 1;
    let main = {
        let (core, h, owner) = (Arc::clone(core), Arc::clone(h), Rc::clone(owner));
        async move {
            if after_crash && core.lock().io.pct(50) {
                // Restart late: leases of the dead process have run out.
                core.sleep(Duration::from_secs(65)).await;
            }
            let mut res = open(&cfg, &core).await;
            let mut after_crash = after_crash;
            if core.lock().faults_on && res.is_err() {
                // The failed attempt may have left a lease, as a crash would. Faults stop; the database must come back.
                core.lock().faults_on = false;
                res = open(&cfg, &core).await;
                after_crash = true;
            }
            // A crash inside a manifest publication leaves a lease of the dead process behind;
            // the manifest takes over at the latest when it expires after 60 s.
            for _ in 0..24 {
                if !after_crash || !matches!(&res, Err(e) if lease_held(e)) {
                    break;
                }
                core.sleep(Duration::from_secs(5)).await;
                res = open(&cfg, &core).await;
            }
            let db = match res {
                Ok(db) => db,
                Err(_) if core.lock().crashed_at_io.is_some() => {
                    // Synchronous calls answer an error when the process dies inside them.
                    return;
                }
                Err(_) if h.lock().damaged => {
                    h.lock().refused = true;
                    return;
                }
                Err(e) => {
                    h.lock().violate("open", format!("the database cannot be opened: {e}"));
                    return;
                }
            };
            {
                let mut hh = h.lock();
                let seq = hh.next();
                hh.epochs.last_mut().expect("epoch").open_resp = seq;
            }
            if phase.is_none() {
                return;
            }
            let ctx = |client: usize| Ctx {
                core: Arc::clone(&core),
                h: Arc::clone(&h),
                t: cfg.table.clone(),
                owner: Rc::clone(&owner),
                db: db.clone(),
                client,
            };
            core.lock().faults_on = false;
            ctx(0).scan(&model::ScanSpec::full(), "verify").await;
            let Some(p) = p else {
                ctx(0).versions().await;
                core.sleep(Duration::from_millis(1500)).await;
                ctx(0).scan(&model::ScanSpec::full(), "verify-late").await;
                return;
            };
            core.lock().faults_on = p.faults;
            let mut waits = Vec::new();
            for (c, script) in p.clients.iter().enumerate() {
                let (tx, rx) = oneshot::channel::<()>();
                let fut = ctx(c + 1).run_script(script.clone());
                core.spawn_local(async move {
                    fut.await;
                    let _ = tx.send(());
                });
                waits.push(rx);
            }
            for w in waits {
                let _ = w.await;
            }
            core.lock().faults_on = false;
            match p.end {
                End::Drop(us) => {
                    drop(db);
                    core.sleep(Duration::from_micros(us)).await;
                }
                End::CrashAfter(_, us) => core.sleep(Duration::from_micros(us)).await,
                // The crash point was never reached: let background work run into it.
                End::CrashIo(..) | End::CrashOn(..) => {
                    core.sleep(Duration::from_millis(300)).await;
                }
            }
        }
    };
    let limits = Limits {
        max_steps: 3_000_000,
        until_ns: core.now_ns() + 6_000_000_000_000,
    };
    let exit = rt::run(core, limits, main);
    let mut g = core.lock();
    if let Some(n) = g.crashed_at_io {
        crash_points.push((ordinal, n));
    }
    let now = core.now_ns();
    g.log(now, || format!("=== incarnation ends: {exit:?} ==="));
    if !quiet_final {
        if let Some(mut k) = kind {
            g.orphaned |= g.manifest_orphan();
            if k == CrashKind::Power && lossy_power && !cfg2.orphan_power && g.orphaned {
                k = CrashKind::Process;
            }
            g.settle_crash(k, now);
        } else {
            g.settle_crash(CrashKind::Process, now);
        }
    }
    if let Some(c) = p_corrupt {
        g.damage_wal(&c, now);
        h.lock().damaged = true;
    }
    let slow = g.slow_machine;
    drop(g);
    let mut hh = h.lock();
    let end = hh.next();
    let e = hh.epochs.last_mut().expect("epoch");
    e.end = end;
    e.end_ns = now;
    if slow {
        e.sync_ns = None;
    }
    exit
}
