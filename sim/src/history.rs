//! What happened in a run, as the clients saw it.

use serde::Serialize;

use crate::{
    disk::CrashKind,
    model::{Key, ScanSpec, Wid},
};

pub type Seq = u64;
pub const NEVER: Seq = u64::MAX;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize)]
pub enum Status {
    /// No response (yet).
    Pending,
    Ok,
    /// Refused: must never become visible.
    Failed,
    /// Answered with an I/O error: may or may not have taken effect.
    Unknown,
}

#[derive(Clone, Debug, Serialize)]
pub struct Write {
    pub epoch: usize,
    pub client: usize,
    pub inv: Seq,
    pub resp: Seq,
    pub status: Status,
    /// Final effect per key (None: deleted).
    pub rows: Vec<(Key, Option<Wid>)>,
    pub txn: Option<usize>,
    pub err: Option<String>,
    /// Simulated time of the response.
    pub resp_ns: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize)]
pub enum View {
    Live,
    Snap(usize),
    Txn(usize),
}

#[derive(Clone, Debug, Serialize)]
pub struct Read {
    pub epoch: usize,
    pub client: usize,
    /// Interval in which the view was taken.
    pub lo: Seq,
    pub hi: Seq,
    /// Interval of the read itself.
    pub inv: Seq,
    pub resp: Seq,
    pub view: View,
    pub spec: ScanSpec,
    pub rows: Vec<(Key, Wid)>,
    /// Point read of this key only.
    pub point: Option<Key>,
    /// Staged, uncommitted effects the view must overlay.
    pub overlay: Vec<(Key, Option<Wid>)>,
    pub err: Option<String>,
    /// The stream was dropped before its end.
    pub partial: bool,
    pub what: &'static str,
}

#[derive(Clone, Debug, Serialize)]
pub struct Txn {
    pub epoch: usize,
    pub begin_inv: Seq,
    pub begin_resp: Seq,
    pub commit_inv: Seq,
    pub write: Option<usize>,
    pub conflict: bool,
}

#[derive(Clone, Debug, Serialize)]
pub struct Epoch {
    pub open_inv: Seq,
    pub open_resp: Seq,
    pub end: Seq,
    pub crash: Option<CrashKind>,
    /// Acknowledged writes of this incarnation need not survive its end.
    pub lossy: bool,
    /// A surviving write implies that every write acknowledged before it was invoked survived.
    pub prefix: bool,
    pub faulty: bool,
    /// Loses writes for another reason than a sync that was still due.
    pub careless: bool,
    /// How long a write may stay unsynced while the process runs.
    pub sync_ns: Option<u64>,
    /// How many log bytes may stay unsynced while the process runs.
    pub sync_bytes: Option<usize>,
    /// Recovered writes are synced before the database opens.
    pub open_syncs: bool,
    pub end_ns: u64,
}

#[derive(Clone, Debug, Serialize)]
pub struct Violation {
    pub rule: &'static str,
    pub text: String,
}

#[derive(Default)]
pub struct History {
    pub seq: Seq,
    pub writes: Vec<Write>,
    pub reads: Vec<Read>,
    pub txns: Vec<Txn>,
    pub epochs: Vec<Epoch>,
    /// Violations noticed while the run proceeds.
    pub violations: Vec<Violation>,
    pub errors: u64,
    /// The log was damaged, so refusing to open is a right answer.
    pub damaged: bool,
    /// The database refused to open for good.
    pub refused: bool,
}

impl History {
    pub fn next(&mut self) -> Seq {
        self.seq += 1;
        self.seq
    }
    pub fn epoch(&self) -> usize {
        self.epochs.len() - 1
    }
    pub fn violate(&mut self, rule: &'static str, text: impl Into<String>) {
        self.violations.push(Violation {
            rule,
            text: text.into(),
        });
    }
}
