//! Shrinks a failing scenario while it keeps failing the same rule.

use std::{
    collections::BTreeMap,
    time::{Duration, Instant},
};

use crate::{
    pool,
    scenario::{End, Op, Scenario, TOp},
};

pub struct Minimizer {
    rule: String,
    deadline: Instant,
    workers: usize,
    pub tried: u64,
}

impl Minimizer {
    pub fn new(rule: &str, budget: Duration, workers: usize) -> Self {
        Minimizer {
            rule: rule.to_string(),
            deadline: Instant::now() + budget,
            workers,
            tried: 0,
        }
    }

    fn fails(rule: &str, sc: &Scenario) -> bool {
        pool::run(sc, false).has(rule)
    }

    /// First candidate (in order) that still fails.
    fn first(&mut self, cands: Vec<Scenario>) -> Option<Scenario> {
        for chunk in cands.chunks(self.workers.max(1)) {
            if Instant::now() > self.deadline {
                return None;
            }
            self.tried += chunk.len() as u64;
            let rule = &self.rule;
            let hits: Vec<bool> = std::thread::scope(|s| {
                let hs: Vec<_> =
                    chunk.iter().map(|c| s.spawn(move || Self::fails(rule, c))).collect();
                hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
            });
            if let Some(i) = hits.iter().position(|x| *x) {
                return Some(chunk[i].clone());
            }
        }
        None
    }

    fn fixpoint(&mut self, sc: &mut Scenario, f: impl Fn(&Scenario) -> Vec<Scenario>) -> bool {
        let mut any = false;
        while Instant::now() < self.deadline {
            match self.first(f(sc)) {
                Some(n) => {
                    *sc = n;
                    any = true;
                }
                None => break,
            }
        }
        any
    }

    pub fn run(&mut self, sc: &Scenario) -> Scenario {
        let mut cur = sc.clone();
        // Pin the faults that actually happened.
        if cur.fault_plan.is_none() {
            let r = pool::run(&cur, false);
            let mut c = cur.clone();
            c.fault_plan = Some(r.injected.into_iter().collect());
            if let Some(n) = self.first(vec![c]) {
                cur = n;
            }
        }
        loop {
            let mut any = false;
            any |= self.fixpoint(&mut cur, phases);
            any |= self.fixpoint(&mut cur, clients);
            for size in [32, 8, 3, 1] {
                any |= self.fixpoint(&mut cur, |s| op_chunks(s, size));
            }
            any |= self.fixpoint(&mut cur, faults);
            any |= self.fixpoint(&mut cur, parts);
            any |= self.fixpoint(&mut cur, config);
            any |= self.fixpoint(&mut cur, ends);
            if !any || Instant::now() > self.deadline {
                break;
            }
        }
        // Fewest seeded scheduling decisions.
        let used = pool::run(&cur, false).choices;
        let (mut lo, mut hi) = (0u64, cur.sched_cut.unwrap_or(used));
        let mut best = None;
        while lo < hi && Instant::now() < self.deadline + Duration::from_secs(5) {
            let mid = lo + (hi - lo) / 2;
            let mut c = cur.clone();
            c.sched_cut = Some(mid);
            self.tried += 1;
            if Self::fails(&self.rule, &c) {
                hi = mid;
                best = Some(c);
            } else {
                lo = mid + 1;
            }
        }
        best.unwrap_or(cur)
    }
}

fn edit(s: &Scenario, f: impl FnOnce(&mut Scenario)) -> Scenario {
    let mut c = s.clone();
    f(&mut c);
    c
}

fn phases(s: &Scenario) -> Vec<Scenario> {
    if s.phases.len() < 2 {
        return Vec::new();
    }
    (0..s.phases.len()).map(|i| edit(s, |c| { c.phases.remove(i); })).collect()
}

fn clients(s: &Scenario) -> Vec<Scenario> {
    let mut v = Vec::new();
    for (p, ph) in s.phases.iter().enumerate() {
        if ph.clients.len() > 1 {
            for i in 0..ph.clients.len() {
                v.push(edit(s, |c| { c.phases[p].clients.remove(i); }));
            }
        }
        for i in 0..ph.open_crashes.len() {
            v.push(edit(s, |c| { c.phases[p].open_crashes.remove(i); }));
        }
    }
    v
}

fn op_chunks(s: &Scenario, size: usize) -> Vec<Scenario> {
    let mut v = Vec::new();
    for (p, ph) in s.phases.iter().enumerate() {
        for (k, cl) in ph.clients.iter().enumerate() {
            let mut at = 0;
            while at < cl.len() {
                let end = (at + size).min(cl.len());
                v.push(edit(s, |c| { c.phases[p].clients[k].drain(at..end); }));
                at = end;
            }
        }
    }
    v
}

fn faults(s: &Scenario) -> Vec<Scenario> {
    let Some(plan) = &s.fault_plan else { return Vec::new() };
    let keys: Vec<u64> = plan.keys().copied().collect();
    let mut v = Vec::new();
    if !keys.is_empty() {
        v.push(edit(s, |c| c.fault_plan = Some(BTreeMap::new())));
    }
    if keys.len() > 3 {
        for half in [&keys[..keys.len() / 2], &keys[keys.len() / 2..]] {
            v.push(edit(s, |c| {
                if let Some(p) = &mut c.fault_plan {
                    p.retain(|k, _| half.contains(k));
                }
            }));
        }
    }
    for k in keys {
        v.push(edit(s, |c| {
            if let Some(p) = &mut c.fault_plan {
                p.remove(&k);
            }
        }));
    }
    v
}

/// Smaller operations.
fn parts(s: &Scenario) -> Vec<Scenario> {
    let mut v = Vec::new();
    for (p, ph) in s.phases.iter().enumerate() {
        for (k, cl) in ph.clients.iter().enumerate() {
            for (o, op) in cl.iter().enumerate() {
                match op {
                    Op::Put(rows) if rows.len() > 1 => {
                        for i in 0..rows.len() {
                            v.push(edit(s, |c| {
                                if let Op::Put(r) = &mut c.phases[p].clients[k][o] {
                                    r.remove(i);
                                }
                            }));
                        }
                    }
                    Op::Txn { ops, .. } if ops.len() > 1 => {
                        for i in 0..ops.len() {
                            v.push(edit(s, |c| {
                                if let Op::Txn { ops, .. } = &mut c.phases[p].clients[k][o] {
                                    ops.remove(i);
                                }
                            }));
                        }
                    }
                    Op::Scan(sp) | Op::SnapScan(_, sp) => {
                        if sp.proj.is_some() || sp.pace > 0 || sp.drop_after.is_some() {
                            v.push(edit(s, |c| {
                                if let Op::Scan(x) | Op::SnapScan(_, x) =
                                    &mut c.phases[p].clients[k][o]
                                {
                                    x.proj = None;
                                    x.pace = 0;
                                    x.drop_after = None;
                                }
                            }));
                        }
                        if sp.limit.is_some() {
                            v.push(edit(s, |c| {
                                if let Op::Scan(x) | Op::SnapScan(_, x) =
                                    &mut c.phases[p].clients[k][o]
                                {
                                    x.limit = None;
                                }
                            }));
                        }
                    }
                    _ => {}
                }
                if let Op::Txn { ops, .. } = op {
                    for (i, t) in ops.iter().enumerate() {
                        if let TOp::UpsertBatch(rows) = t
                            && rows.len() > 1
                        {
                            v.push(edit(s, |c| {
                                if let Op::Txn { ops, .. } = &mut c.phases[p].clients[k][o]
                                    && let TOp::UpsertBatch(r) = &mut ops[i]
                                {
                                    r.pop();
                                }
                            }));
                        }
                    }
                }
            }
        }
    }
    v
}

fn config(s: &Scenario) -> Vec<Scenario> {
    let mut v = Vec::new();
    let c = &s.cfg;
    if c.compaction.is_some() {
        v.push(edit(s, |x| x.cfg.compaction = None));
    }
    if c.minor.is_some() {
        v.push(edit(s, |x| {
            x.cfg.minor = None;
            x.cfg.compaction = None;
        }));
    }
    if c.faults.latency != 0 {
        v.push(edit(s, |x| x.cfg.faults.latency = 0));
    }
    if c.faults.lazy_writes {
        v.push(edit(s, |x| x.cfg.faults.lazy_writes = false));
    }
    if c.faults.undelete {
        v.push(edit(s, |x| x.cfg.faults.undelete = false));
    }
    if c.row_group_rows.is_some() || c.scan_batch_rows.is_some() {
        v.push(edit(s, |x| {
            x.cfg.row_group_rows = None;
            x.cfg.scan_batch_rows = None;
        }));
    }
    if c.wal_segment_age_ms.is_some() {
        v.push(edit(s, |x| x.cfg.wal_segment_age_ms = None));
    }
    if c.wal_segment_bytes != 1 << 20 {
        v.push(edit(s, |x| x.cfg.wal_segment_bytes = 1 << 20));
    }
    if c.table.key_last {
        v.push(edit(s, |x| x.cfg.table.key_last = false));
    }
    if c.table.kind != crate::model::KeyKind::I64 {
        v.push(edit(s, |x| x.cfg.table.kind = crate::model::KeyKind::I64));
    }
    if c.seal_batches.is_some() {
        v.push(edit(s, |x| x.cfg.seal_batches = None));
    }
    if let Some(k) = &c.compaction {
        if k.max_rows.is_some() || k.max_bytes.is_some() {
            v.push(edit(s, |x| {
                let k = x.cfg.compaction.as_mut().expect("compaction");
                k.max_rows = None;
                k.max_bytes = None;
            }));
        }
        if k.backpressure.is_some() {
            v.push(edit(s, |x| x.cfg.compaction.as_mut().expect("compaction").backpressure = None));
        }
        if k.jobs > 1 {
            v.push(edit(s, |x| x.cfg.compaction.as_mut().expect("compaction").jobs = 1));
        }
    }
    v
}

fn ends(s: &Scenario) -> Vec<Scenario> {
    let mut v = Vec::new();
    for (p, ph) in s.phases.iter().enumerate() {
        match &ph.end {
            End::CrashIo(k, n) => {
                v.push(edit(s, |c| c.phases[p].end = End::CrashAfter(*k, 0)));
                for m in [n / 2, n.saturating_sub(8), n.saturating_sub(1)] {
                    if m < *n && m > 0 {
                        v.push(edit(s, |c| c.phases[p].end = End::CrashIo(*k, m)));
                    }
                }
            }
            End::CrashOn(k, pat, n) => {
                v.push(edit(s, |c| c.phases[p].end = End::CrashAfter(*k, 0)));
                if *n > 0 {
                    v.push(edit(s, |c| c.phases[p].end = End::CrashOn(*k, pat.clone(), n - 1)));
                }
            }
            End::CrashAfter(k, us) => {
                if *k == crate::disk::CrashKind::Power {
                    v.push(edit(s, |c| {
                        c.phases[p].end = End::CrashAfter(crate::disk::CrashKind::Process, *us)
                    }));
                }
                if *us > 0 {
                    v.push(edit(s, |c| c.phases[p].end = End::CrashAfter(*k, us / 2)));
                }
            }
            End::Drop(us) => {
                if *us > 0 {
                    v.push(edit(s, |c| c.phases[p].end = End::Drop(us / 2)));
                }
            }
        }
    }
    v
}
