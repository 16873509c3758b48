//! The simulated storage: a local file system or an object store kept in memory, with latency,
//! failures, crash points and a model of what survives a power loss.

use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    future::Future,
    io,
    pin::Pin,
    sync::Arc,
    time::Duration,
};

use fusio::{
    Error, IoBuf, IoBufMut, Read, Write,
    durability::FileCommit,
    fs::{CasCondition, FileMeta, FileSystemTag, Fs, FsCas, OpenOptions},
    path::Path,
};
use fusio_core::MaybeSendFuture;
use serde::{Deserialize, Serialize};

use crate::rt::{Core, Inner};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mode {
    /// POSIX-like: buffered writes, explicit sync, non-recursive listing.
    Local,
    /// Object-store-like: every acknowledged write is durable, prefix listing.
    Object,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum CrashKind {
    /// The process dies; the operating system keeps everything already handed to it.
    Process,
    /// The machine loses power; only synced bytes are certain to survive.
    Power,
}

/// What the fault injector did to one I/O operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Fault {
    /// The operation fails and has no effect.
    Fail,
    /// A prefix of a write lands, then the device reports no space.
    ShortWrite,
    /// The operation takes effect but reports failure.
    Ambiguous,
    /// A conditional put reports a conflict although nobody else wrote.
    Conflict,
}

/// Per-mille fault probabilities for one run, by operation class.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct FaultCfg {
    pub read: u32,
    pub write: u32,
    pub open: u32,
    pub close: u32,
    pub list: u32,
    pub remove: u32,
    pub cas: u32,
    pub conflict: u32,
    pub sync: u32,
    /// Only inject into paths containing this text ("" for all).
    pub only: String,
    /// 0: I/O completes at once; 1: yields; 2: short random delays; 3: long stalls too.
    pub latency: u8,
    /// Local writes may reach the operating system after `write_all` returned.
    pub lazy_writes: bool,
    /// Unlinked files may come back after a power loss.
    pub undelete: bool,
    /// Closing a local file makes it durable, unless it is a table or a log segment: those have to be synced.
    pub close_durable: bool,
    /// Power may also fail after a crash left a manifest segment that its head does not name,
    /// while the log is not synced: the recorded finding, which the search leaves out.
    #[serde(default)]
    pub orphan_power: bool,
}

impl FaultCfg {
    pub fn any(&self) -> bool {
        self.read
            + self.write
            + self.open
            + self.close
            + self.list
            + self.remove
            + self.cas
            + self.conflict
            + self.sync
            > 0
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub choices: u64,
    pub timer_fires: u64,
    pub io: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<String, u64>,
    /// Rare conditions the run reached.
    pub marks: BTreeSet<&'static str>,
}

#[derive(Clone, Default)]
struct Inode {
    data: Vec<u8>,
    /// Content certain to survive a power loss; None when the file itself is not durable yet.
    durable: Option<Vec<u8>>,
    /// The durable content is no longer a prefix of `data`.
    rewritten: bool,
    meta: Vec<(String, String)>,
    etag: u64,
}

pub struct Disk {
    pub mode: Mode,
    inodes: Vec<Inode>,
    paths: BTreeMap<String, usize>,
    dirs: BTreeSet<String>,
    unlinked: Vec<(String, usize)>,
    etag: u64,
}

impl Disk {
    pub fn new(mode: Mode) -> Self {
        Disk {
            mode,
            inodes: Vec::new(),
            paths: BTreeMap::new(),
            dirs: BTreeSet::new(),
            unlinked: Vec::new(),
            etag: 0,
        }
    }

    fn next_etag(&mut self) -> u64 {
        self.etag += 1;
        self.etag
    }

    fn create(&mut self, path: &str) -> usize {
        let etag = self.next_etag();
        let id = self.inodes.len();
        self.inodes.push(Inode {
            etag,
            ..Inode::default()
        });
        self.paths.insert(path.to_string(), id);
        self.make_dirs(path);
        id
    }

    fn make_dirs(&mut self, path: &str) {
        let mut p = path;
        while let Some((dir, _)) = p.rsplit_once('/') {
            if !self.dirs.insert(dir.to_string()) {
                break;
            }
            p = dir;
        }
    }

    fn append(&mut self, id: usize, at: Option<usize>, bytes: &[u8]) {
        let mode = self.mode;
        let etag = self.next_etag();
        let ino = &mut self.inodes[id];
        match at {
            None => ino.data.extend_from_slice(bytes),
            Some(off) => {
                if ino.data.len() < off {
                    ino.data.resize(off, 0);
                }
                let end = off + bytes.len();
                if ino.data.len() < end {
                    ino.data.resize(end, 0);
                }
                ino.data[off..end].copy_from_slice(bytes);
            }
        }
        ino.etag = etag;
        if mode == Mode::Object {
            ino.durable = Some(ino.data.clone());
        }
    }

    fn truncate(&mut self, id: usize) {
        let mode = self.mode;
        let ino = &mut self.inodes[id];
        ino.data.clear();
        ino.rewritten = true;
        if mode == Mode::Object {
            ino.durable = Some(Vec::new());
            ino.rewritten = false;
        }
    }

    fn sync(&mut self, id: usize) {
        let ino = &mut self.inodes[id];
        ino.durable = Some(ino.data.clone());
        ino.rewritten = false;
    }

    /// Names and sizes of everything on disk (for traces and invariants).
    pub fn listing(&self) -> Vec<(String, usize)> {
        self.paths
            .iter()
            .map(|(p, id)| (p.clone(), self.inodes[*id].data.len()))
            .collect()
    }

    pub fn content(&self, path: &str) -> Option<&[u8]> {
        self.paths.get(path).map(|id| self.inodes[*id].data.as_slice())
    }
}

impl Inner {
    /// Decide what a crash leaves on disk. Called between incarnations.
    /// Is there a manifest segment that its head does not name yet?
    pub fn manifest_orphan(&self) -> bool {
        let dir = "/manifest/version/";
        let Some((_, id)) = self.disk.paths.iter().find(|(p, _)| p.ends_with("/manifest/version/head.json")) else {
            return self.disk.paths.keys().any(|p| p.contains("/manifest/version/segments/"));
        };
        let head: serde_json::Value = serde_json::from_slice(&self.disk.inodes[*id].data).unwrap_or_default();
        let last = head["last_segment_seq"].as_u64().unwrap_or(0);
        self.disk
            .paths
            .keys()
            .filter(|p| p.contains(dir))
            .filter_map(|p| p.rsplit_once("/seg-")?.1.strip_suffix(".json")?.parse::<u64>().ok())
            .any(|n| n > last)
    }

    pub fn settle_crash(&mut self, kind: CrashKind, now: u64) {
        *self
            .stats
            .faults
            .entry(format!("crash-{kind:?}").to_lowercase())
            .or_default() += 1;
        if kind == CrashKind::Process || self.disk.mode == Mode::Object {
            self.disk.unlinked.clear();
            return;
        }
        let mut notes = Vec::new();
        let undelete = self.cfg.undelete;
        let unlinked = std::mem::take(&mut self.disk.unlinked);
        if undelete {
            for (path, id) in unlinked {
                if self.io.pct(30) && !self.disk.paths.contains_key(&path) {
                    notes.push(format!("unlink of {path} undone"));
                    self.disk.paths.insert(path, id);
                }
            }
        }
        let names: Vec<(String, usize)> = self
            .disk
            .paths
            .iter()
            .map(|(p, i)| (p.clone(), *i))
            .collect();
        for (path, id) in names {
            let pick = self.io.below(4);
            let ino = &mut self.disk.inodes[id];
            let before = ino.data.len();
            match &ino.durable {
                Some(d) if *d == ino.data => continue,
                Some(d) if !ino.rewritten && ino.data.starts_with(d) => {
                    let extra = ino.data.len() - d.len();
                    let keep = match pick {
                        0 => 0,
                        1 => extra,
                        _ => self.io.usize(extra + 1),
                    };
                    let n = d.len() + keep;
                    ino.data.truncate(n);
                }
                Some(d) => match pick {
                    0 | 1 => ino.data = d.clone(),
                    2 => {
                        let n = self.io.usize(ino.data.len() + 1);
                        ino.data.truncate(n);
                    }
                    _ => {}
                },
                None => match pick {
                    0 | 1 => {
                        notes.push(format!("{path} ({before} B, never synced) vanished"));
                        self.disk.paths.remove(&path);
                        continue;
                    }
                    2 => {
                        let n = self.io.usize(ino.data.len() + 1);
                        ino.data.truncate(n);
                    }
                    _ => {}
                },
            }
            ino.rewritten = false;
            ino.durable = Some(ino.data.clone());
            if ino.data.len() != before {
                notes.push(format!("{path} cut from {before} to {} B", ino.data.len()));
            }
        }
        for n in notes {
            self.log(now, || format!("power loss: {n}"));
        }
    }

    /// Damage a log segment while no process runs.
    pub fn damage_wal(&mut self, c: &crate::scenario::Corrupt, now: u64) {
        let files: Vec<(String, usize)> = self
            .disk
            .paths
            .iter()
            .filter(|(p, id)| p.ends_with(".tonwal") && !self.disk.inodes[**id].data.is_empty())
            .map(|(p, id)| (p.clone(), *id))
            .collect();
        if files.is_empty() {
            return;
        }
        let (path, id) = files[files.len() - 1 - (c.segment as usize) % files.len()].clone();
        let ino = &mut self.disk.inodes[id];
        let len = ino.data.len();
        let at = (len as u64 * c.at / 1000) as usize;
        let what = match c.kind {
            0 => {
                ino.data[at] ^= 1 << (c.arg % 8);
                "bit flipped"
            }
            1 => {
                ino.data.truncate(at);
                "cut"
            }
            2 => {
                let mut x = c.arg | 1;
                for _ in 0..1 + c.arg % 64 {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    ino.data.push((x >> 56) as u8);
                }
                "garbage appended"
            }
            3 => {
                ino.data[at..].fill(0);
                "zeroed to the end"
            }
            _ => {
                let end = (at + 1 + (c.arg % 24) as usize).min(len);
                for b in &mut ino.data[at..end] {
                    *b = (c.arg >> 8) as u8;
                }
                "overwritten"
            }
        };
        if ino.durable.is_some() {
            ino.durable = Some(ino.data.clone());
        }
        *self.stats.faults.entry(format!("wal-{}", what.replace(' ', "-"))).or_default() += 1;
        self.log(now, || format!("damage: {path} {what} at {at} of {len}"));
    }

    fn decide_fault(&mut self, op: &'static str, path: &str) -> Option<Fault> {
        let ord = self.io_count;
        let chosen = if !self.faults_on {
            None
        } else if let Some(plan) = &self.fault_plan {
            plan.get(&ord).copied()
        } else {
            if !self.faults_on {
                return None;
            }
            let c = &self.cfg;
            if !c.only.is_empty() && !path.contains(&c.only) {
                return None;
            }
            // Faults end at some point, even for a phase whose clients wait for work that needs
            // many I/Os to succeed in a row.
            if self.io_in_epoch > 6_000 {
                return None;
            }
            let p = match op {
                "read" | "size" | "load" | "head" => c.read,
                "write" => c.write,
                "open" => c.open,
                "close" | "flush" => c.close,
                "list" => c.list,
                "remove" => c.remove,
                "put" => c.cas + c.conflict,
                "sync" => c.sync,
                _ => 0,
            };
            if !self.fault.permille(p) {
                return None;
            }
            Some(match op {
                "write" => {
                    if self.fault.pct(50) {
                        Fault::ShortWrite
                    } else {
                        Fault::Fail
                    }
                }
                "put" => {
                    let (cas, conflict) = (self.cfg.cas, self.cfg.conflict);
                    if self.fault.below((cas + conflict) as u64) < conflict as u64 {
                        Fault::Conflict
                    } else if self.fault.pct(50) {
                        Fault::Ambiguous
                    } else {
                        Fault::Fail
                    }
                }
                "remove" | "close" | "flush" | "sync" => {
                    if self.fault.pct(40) {
                        Fault::Ambiguous
                    } else {
                        Fault::Fail
                    }
                }
                _ => Fault::Fail,
            })
        };
        if let Some(f) = chosen {
            self.injected.push((ord, f));
            *self
                .stats
                .faults
                .entry(format!("{op}-{f:?}").to_lowercase())
                .or_default() += 1;
        }
        chosen
    }

    /// Common bookkeeping at the start of an I/O operation. Returns (crash now, fault).
    fn enter_io(&mut self, now: u64, op: &'static str, path: &str) -> (bool, Option<Fault>) {
        self.io_count += 1;
        self.io_in_epoch += 1;
        *self.stats.io.entry(op).or_default() += 1;
        self.mix_str(op);
        self.mix_str(path);
        let mark = match op {
            "open" | "write" if path.contains("/sst/L0/") => "flush",
            "write" if path.contains("/sst/") => "compaction",
            "remove" if path.contains("/sst/") => "sst-removed",
            "remove" if path.contains("/wal/") => "wal-pruned",
            _ => "",
        };
        if !mark.is_empty() {
            self.stats.marks.insert(mark);
        }
        let mut crash = self.crash_at_io == Some(self.io_in_epoch);
        if let Some((pat, n)) = self.crash_on.as_mut() {
            let (o, p) = pat.split_once(':').unwrap_or(("", pat.as_str()));
            if (o.is_empty() || o == op) && path.contains(p) {
                if *n == 0 {
                    crash = true;
                } else {
                    *n -= 1;
                }
            }
        }
        if crash {
            self.crash_on = None;
            self.crashed_at_io = Some(self.io_in_epoch);
        }
        let fault = if crash { None } else { self.decide_fault(op, path) };
        let n = self.io_count;
        self.log(now, || {
            format!(
                "io#{n} {op} {path}{}{}",
                if crash { "  ** CRASH **" } else { "" },
                fault.map(|f| format!("  ** {f:?} **")).unwrap_or_default()
            )
        });
        (crash, fault)
    }
}

fn eio(what: &str) -> Error {
    Error::Io(io::Error::other(format!("simulated I/O error: {what}")))
}
fn enospc() -> Error {
    Error::Io(io::Error::from_raw_os_error(libc::ENOSPC))
}
fn not_found(path: &str) -> io::Error {
    io::Error::new(io::ErrorKind::NotFound, format!("{path} not found"))
}

impl Core {
    /// Blocking `open(2)` below the simulated root.
    pub fn os_open(&self, path: &str) -> Result<u32, i32> {
        let g = self.lock();
        match g.disk.paths.get(path.trim_start_matches('/')) {
            Some(id) => Ok(*id as u32),
            None => Err(libc::ENOENT),
        }
    }

    /// Blocking `fsync(2)`/`fdatasync(2)` on a simulated descriptor.
    pub fn os_sync(&self, id: u32) -> Result<(), i32> {
        let now = self.now_ns();
        let mut g = self.lock();
        if g.crashed {
            return Err(libc::EIO);
        }
        let id = id as usize;
        let path = g
            .disk
            .paths
            .iter()
            .find(|(_, i)| **i == id)
            .map(|(p, _)| p.clone())
            .unwrap_or_default();
        let (crash, fault) = g.enter_io(now, "sync", &path);
        if crash {
            if g.io.pct(50) {
                g.disk.sync(id);
            }
            g.crashed = true;
            return Err(libc::EIO);
        }
        match fault {
            Some(Fault::Ambiguous) => {
                g.disk.sync(id);
                Err(libc::EIO)
            }
            Some(_) => Err(libc::EIO),
            None => {
                g.disk.sync(id);
                Ok(())
            }
        }
    }
}

#[derive(Clone)]
pub struct SimFs {
    core: Arc<Core>,
    epoch: u32,
}

/// Files the code under test has to sync itself.
fn synced(path: &str) -> bool {
    path.ends_with(".parquet") || path.contains("/wal/")
}

/// Outcome of the gate in front of an operation.
enum Gate {
    Go,
    Fault(Fault),
    /// Apply this much of the effect, then the process dies.
    Die(u64),
}

impl SimFs {
    pub fn new(core: &Arc<Core>) -> Self {
        SimFs {
            core: Arc::clone(core),
            epoch: core.lock().epoch,
        }
    }

    fn dead(&self) -> bool {
        let g = self.core.lock();
        g.crashed || g.epoch != self.epoch
    }

    async fn latency(&self) {
        let (yields, sleep_ns) = {
            let mut g = self.core.lock();
            match g.cfg.latency {
                0 => (0, 0),
                1 => (g.io.below(3), 0),
                l => match g.io.below(100) {
                    0..40 => (0, 0),
                    40..65 => (1 + g.io.below(2), 0),
                    65..97 => (0, g.io.range(10_000, 3_000_000)),
                    _ if l >= 3 => (0, g.io.range(50_000_000, 3_000_000_000)),
                    _ => (0, g.io.range(3_000_000, 20_000_000)),
                },
            }
        };
        for _ in 0..yields {
            self.core.yield_now().await;
        }
        if sleep_ns > 0 {
            self.core.sleep(Duration::from_nanos(sleep_ns)).await;
        }
    }

    async fn gate(&self, op: &'static str, path: &str) -> Gate {
        self.latency().await;
        if self.dead() {
            std::future::pending::<()>().await;
        }
        let now = self.core.now_ns();
        let mut g = self.core.lock();
        let (crash, fault) = g.enter_io(now, op, path);
        if crash {
            let r = g.io.u64();
            return Gate::Die(r);
        }
        match fault {
            Some(f) => Gate::Fault(f),
            None => Gate::Go,
        }
    }

    async fn die(&self) -> ! {
        self.core.lock().crashed = true;
        std::future::pending::<()>().await;
        unreachable!()
    }

    /// Gate for an operation without side effects.
    async fn read_gate(&self, op: &'static str, path: &str) -> Result<(), Error> {
        match self.gate(op, path).await {
            Gate::Go => Ok(()),
            Gate::Fault(_) => Err(eio(op)),
            Gate::Die(_) => self.die().await,
        }
    }

    /// Gate for an atomic operation with side effects: run `effect` as the gate decides.
    async fn effect_gate<R>(
        &self,
        op: &'static str,
        path: &str,
        effect: impl FnOnce(&mut Inner) -> Result<R, Error>,
    ) -> Result<R, Error> {
        match self.gate(op, path).await {
            Gate::Go => {
                let r = effect(&mut self.core.lock());
                self.latency().await;
                if self.dead() {
                    std::future::pending::<()>().await;
                }
                r
            }
            Gate::Fault(Fault::Conflict) => Err(Error::PreconditionFailed),
            Gate::Fault(Fault::Ambiguous) => {
                effect(&mut self.core.lock())?;
                Err(eio(op))
            }
            Gate::Fault(_) => Err(eio(op)),
            Gate::Die(r) => {
                if r % 2 == 0 {
                    let _ = effect(&mut self.core.lock());
                }
                self.die().await
            }
        }
    }
}

pub struct SimFile {
    fs: SimFs,
    path: String,
    id: usize,
    opts_read: bool,
    opts_write: bool,
    /// Own offset for handles opened with truncate; append mode otherwise.
    offset: Option<usize>,
    /// Bytes accepted by `write_all` that have not reached the operating system yet.
    lazy: Arc<parking_lot::Mutex<Vec<u8>>>,
}

impl SimFile {
    fn drain(&mut self) {
        let bytes = std::mem::take(&mut *self.lazy.lock());
        if bytes.is_empty() {
            return;
        }
        let mut g = self.fs.core.lock();
        if g.crashed || g.epoch != self.fs.epoch {
            return;
        }
        let at = self.offset;
        g.disk.append(self.id, at, &bytes);
        if let Some(o) = self.offset.as_mut() {
            *o += bytes.len();
        }
    }
}

impl Drop for SimFile {
    fn drop(&mut self) {
        self.drain();
    }
}

impl Read for SimFile {
    async fn read_exact_at<B: IoBufMut>(&mut self, mut buf: B, pos: u64) -> (Result<(), Error>, B) {
        if let Err(e) = self.fs.read_gate("read", &self.path).await {
            return (Err(e), buf);
        }
        self.drain();
        if !self.opts_read {
            return (Err(Error::Io(io::Error::from_raw_os_error(libc::EBADF))), buf);
        }
        let g = self.fs.core.lock();
        let data = &g.disk.inodes[self.id].data;
        let len = buf.bytes_init();
        let pos = pos as usize;
        if pos + len > data.len() {
            return (
                Err(io::Error::new(io::ErrorKind::UnexpectedEof, "read past end").into()),
                buf,
            );
        }
        buf.as_slice_mut().copy_from_slice(&data[pos..pos + len]);
        drop(g);
        (Ok(()), buf)
    }

    async fn read_to_end_at(&mut self, mut buf: Vec<u8>, pos: u64) -> (Result<(), Error>, Vec<u8>) {
        if let Err(e) = self.fs.read_gate("read", &self.path).await {
            return (Err(e), buf);
        }
        self.drain();
        if !self.opts_read {
            return (Err(Error::Io(io::Error::from_raw_os_error(libc::EBADF))), buf);
        }
        let g = self.fs.core.lock();
        let data = &g.disk.inodes[self.id].data;
        let pos = (pos as usize).min(data.len());
        buf.extend_from_slice(&data[pos..]);
        (Ok(()), buf)
    }

    async fn size(&self) -> Result<u64, Error> {
        self.fs.read_gate("size", &self.path).await?;
        let g = self.fs.core.lock();
        Ok(g.disk.inodes[self.id].data.len() as u64)
    }
}

impl Write for SimFile {
    async fn write_all<B: IoBuf>(&mut self, buf: B) -> (Result<(), Error>, B) {
        let gate = self.fs.gate("write", &self.path).await;
        self.drain();
        if !self.opts_write {
            return (Err(Error::Io(io::Error::from_raw_os_error(libc::EBADF))), buf);
        }
        let bytes = buf.as_slice();
        match gate {
            Gate::Go => {
                let lazy = {
                    let mut g = self.fs.core.lock();
                    g.cfg.lazy_writes && g.disk.mode == Mode::Local && g.io.pct(50)
                };
                *self.lazy.lock() = bytes.to_vec();
                if !lazy {
                    self.drain();
                }
                self.fs.latency().await;
                if self.fs.dead() {
                    std::future::pending::<()>().await;
                }
                (Ok(()), buf)
            }
            Gate::Fault(Fault::ShortWrite) => {
                let n = self.fs.core.lock().io.usize(bytes.len() + 1);
                *self.lazy.lock() = bytes[..n].to_vec();
                self.drain();
                (Err(enospc()), buf)
            }
            Gate::Fault(_) => (Err(eio("write")), buf),
            Gate::Die(r) => {
                let n = match r % 3 {
                    0 => 0,
                    1 => bytes.len(),
                    _ => (r >> 8) as usize % (bytes.len() + 1),
                };
                *self.lazy.lock() = bytes[..n].to_vec();
                self.drain();
                self.fs.die().await
            }
        }
    }

    async fn flush(&mut self) -> Result<(), Error> {
        let gate = self.fs.gate("flush", &self.path).await;
        match gate {
            Gate::Go => {
                self.drain();
                Ok(())
            }
            Gate::Fault(Fault::Ambiguous) => {
                self.drain();
                Err(eio("flush"))
            }
            Gate::Fault(_) => {
                self.lazy.lock().clear();
                Err(eio("flush"))
            }
            Gate::Die(r) => {
                if r % 2 == 0 {
                    self.drain();
                } else {
                    self.lazy.lock().clear();
                }
                self.fs.die().await
            }
        }
    }

    async fn close(&mut self) -> Result<(), Error> {
        let gate = self.fs.gate("close", &self.path).await;
        match gate {
            Gate::Go => {
                self.drain();
                {
                    let mut g = self.fs.core.lock();
                    if g.cfg.close_durable && self.opts_write && !synced(&self.path) {
                        let id = self.id;
                        g.disk.sync(id);
                    }
                }
                self.fs.latency().await;
                if self.fs.dead() {
                    std::future::pending::<()>().await;
                }
                Ok(())
            }
            Gate::Fault(Fault::Ambiguous) => {
                self.drain();
                Err(eio("close"))
            }
            Gate::Fault(_) => {
                self.lazy.lock().clear();
                Err(eio("close"))
            }
            Gate::Die(r) => {
                if r % 2 == 0 {
                    self.drain();
                } else {
                    self.lazy.lock().clear();
                }
                self.fs.die().await
            }
        }
    }
}

impl FileCommit for SimFile {
    async fn commit(&mut self) -> Result<(), Error> {
        self.drain();
        Ok(())
    }
}

impl Fs for SimFs {
    type File = SimFile;

    fn file_system(&self) -> FileSystemTag {
        match self.core.lock().disk.mode {
            Mode::Local => FileSystemTag::Local,
            Mode::Object => FileSystemTag::Memory,
        }
    }

    async fn open_options(&self, path: &Path, options: OpenOptions) -> Result<SimFile, Error> {
        let key = path.as_ref().to_string();
        let (create, truncate) = (options.create, options.truncate);
        let (id, offset) = self
            .effect_gate("open", &key, |g| {
                let id = match g.disk.paths.get(&key) {
                    Some(id) => *id,
                    None if create => g.disk.create(&key),
                    None if g.disk.mode == Mode::Local => {
                        return Err(Error::Path(Box::new(not_found(&key))));
                    }
                    None => return Err(Error::Io(not_found(&key))),
                };
                if truncate {
                    g.disk.truncate(id);
                }
                Ok((id, truncate.then_some(0)))
            })
            .await?;
        Ok(SimFile {
            fs: self.clone(),
            path: key,
            id,
            opts_read: options.read || !options.write,
            opts_write: options.write || options.create || options.truncate,
            offset,
            lazy: Arc::default(),
        })
    }

    async fn create_dir_all(path: &Path) -> Result<(), Error> {
        if let Some(core) = crate::interpose::current() {
            core.lock().disk.make_dirs(&format!("{}/x", path.as_ref()));
        }
        Ok(())
    }

    async fn list(
        &self,
        path: &Path,
    ) -> Result<impl futures::Stream<Item = Result<FileMeta, Error>> + Send, Error> {
        let key = path.as_ref().to_string();
        self.read_gate("list", &key).await?;
        let mut out: Vec<(String, u64)> = Vec::new();
        {
            let mut g = self.core.lock();
            match g.disk.mode {
                Mode::Object => {
                    for (p, id) in &g.disk.paths {
                        if key.is_empty() || p.starts_with(&key) {
                            out.push((p.clone(), g.disk.inodes[*id].data.len() as u64));
                        }
                    }
                }
                Mode::Local => {
                    if !key.is_empty() && !g.disk.dirs.contains(&key) {
                        return Err(Error::Io(not_found(&key)));
                    }
                    let prefix = if key.is_empty() {
                        String::new()
                    } else {
                        format!("{key}/")
                    };
                    let mut seen = BTreeSet::new();
                    for (p, id) in &g.disk.paths {
                        let Some(rest) = p.strip_prefix(&prefix) else {
                            continue;
                        };
                        match rest.split_once('/') {
                            None => out.push((p.clone(), g.disk.inodes[*id].data.len() as u64)),
                            Some((d, _)) => {
                                if seen.insert(d.to_string()) {
                                    out.push((format!("{prefix}{d}"), 4096));
                                }
                            }
                        }
                    }
                }
            }
            g.io.shuffle(&mut out);
        }
        Ok(futures::stream::iter(out.into_iter().map(|(p, size)| {
            Ok(FileMeta {
                path: Path::from(p),
                size,
            })
        })))
    }

    async fn remove(&self, path: &Path) -> Result<(), Error> {
        let key = path.as_ref().to_string();
        self.effect_gate("remove", &key, |g| {
            match g.disk.paths.remove(&key) {
                Some(id) => {
                    if g.disk.inodes[id].durable.is_some() {
                        g.disk.unlinked.push((key.clone(), id));
                    }
                    Ok(())
                }
                None if g.disk.mode == Mode::Local => Err(Error::Io(not_found(&key))),
                None => Ok(()),
            }
        })
        .await
    }

    async fn copy(&self, from: &Path, to: &Path) -> Result<(), Error> {
        let (from, to) = (from.as_ref().to_string(), to.as_ref().to_string());
        self.effect_gate("copy", &to, |g| {
            let Some(src) = g.disk.paths.get(&from).copied() else {
                return Err(Error::Io(not_found(&from)));
            };
            let data = g.disk.inodes[src].data.clone();
            let id = match g.disk.paths.get(&to) {
                Some(id) => *id,
                None => g.disk.create(&to),
            };
            g.disk.truncate(id);
            g.disk.append(id, None, &data);
            Ok(())
        })
        .await
    }

    async fn link(&self, _from: &Path, _to: &Path) -> Result<(), Error> {
        Err(Error::Unsupported {
            message: "no hard links".into(),
        })
    }

    async fn exists(&self, path: &Path) -> Result<bool, Error> {
        let key = path.as_ref().to_string();
        self.read_gate("exists", &key).await?;
        Ok(self.core.lock().disk.paths.contains_key(&key))
    }
}

impl FsCas for SimFs {
    fn load_with_tag(
        &self,
        path: &Path,
    ) -> Pin<Box<dyn MaybeSendFuture<Output = Result<Option<(Vec<u8>, String)>, Error>> + '_>> {
        let key = path.as_ref().to_string();
        Box::pin(async move {
            self.read_gate("load", &key).await?;
            let g = self.core.lock();
            Ok(g.disk.paths.get(&key).map(|id| {
                let ino = &g.disk.inodes[*id];
                (ino.data.clone(), format!("{:016x}", ino.etag))
            }))
        })
    }

    fn put_conditional(
        &self,
        path: &Path,
        payload: &[u8],
        _content_type: Option<&str>,
        metadata: Option<Vec<(String, String)>>,
        condition: CasCondition,
    ) -> Pin<Box<dyn MaybeSendFuture<Output = Result<String, Error>> + '_>> {
        let key = path.as_ref().to_string();
        let payload = payload.to_vec();
        Box::pin(async move {
            self.effect_gate("put", &key, |g| {
                let existing = g.disk.paths.get(&key).copied();
                match (&condition, existing) {
                    (CasCondition::IfNotExists, Some(_)) => return Err(Error::PreconditionFailed),
                    (CasCondition::IfMatch(_), None) => return Err(Error::PreconditionFailed),
                    (CasCondition::IfMatch(tag), Some(id)) => {
                        if *tag != format!("{:016x}", g.disk.inodes[id].etag) {
                            return Err(Error::PreconditionFailed);
                        }
                    }
                    (CasCondition::IfNotExists, None) => {}
                }
                // A conditional put replaces the object: readers holding the old one keep it.
                let id = g.disk.create(&key);
                let ino = &mut g.disk.inodes[id];
                ino.data = payload.clone();
                ino.durable = Some(payload);
                ino.meta = metadata.unwrap_or_default();
                Ok(format!("{:016x}", ino.etag))
            })
            .await
        })
    }
}

impl fusio_manifest::ObjectHead for SimFs {
    fn head_metadata<'a>(
        &'a self,
        path: &'a Path,
    ) -> Pin<
        Box<dyn MaybeSendFuture<Output = Result<Option<HashMap<String, String>>, Error>> + 'a>,
    > {
        let key = path.as_ref().to_string();
        Box::pin(async move {
            self.read_gate("head", &key).await?;
            let g = self.core.lock();
            Ok(g.disk
                .paths
                .get(&key)
                .map(|id| g.disk.inodes[*id].meta.iter().cloned().collect()))
        })
    }
}

#[allow(dead_code)]
fn assert_future<F: Future + Send>(_: F) {}
