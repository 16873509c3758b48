//! Decides a recorded history against the reference semantics: per-key linearizable registers,
//! atomic write groups, point-in-time views, first-committer-wins transactions and
//! crash durability, all stated over invocation/response order only.

use std::collections::{BTreeMap, HashMap, HashSet};

use crate::{
    disk::Stats,
    history::*,
    model::{Key, Table, Wid},
};

struct Bits {
    n: usize,
    w: usize,
    v: Vec<u64>,
}

impl Bits {
    fn new(n: usize) -> Self {
        let w = n.div_ceil(64);
        Bits { n, w, v: vec![0; w * n] }
    }
    fn set(&mut self, a: usize, b: usize) {
        self.v[a * self.w + b / 64] |= 1 << (b % 64);
    }
    fn get(&self, a: usize, b: usize) -> bool {
        self.v[a * self.w + b / 64] >> (b % 64) & 1 == 1
    }
    fn close(&mut self) {
        for m in 0..self.n {
            let row: Vec<u64> = self.v[m * self.w..(m + 1) * self.w].to_vec();
            for a in 0..self.n {
                if a != m && self.get(a, m) {
                    for (i, x) in row.iter().enumerate() {
                        self.v[a * self.w + i] |= x;
                    }
                }
            }
        }
    }
    fn cyclic(&self) -> Option<usize> {
        (0..self.n).find(|i| self.get(*i, *i))
    }
}

const INIT: usize = usize::MAX;

/// Writes that may be visible on one key. Position 0 is the initial absence.
struct Lane {
    /// (write index or INIT, effect)
    eff: Vec<(usize, Option<Wid>)>,
    pos: HashMap<usize, usize>,
    order: Bits,
}

/// Log bytes of the smallest write.
const WRITE_BYTES: usize = 400;

struct Checker<'a> {
    t: &'a Table,
    h: &'a History,
    lanes: BTreeMap<Key, Lane>,
    by_wid: HashMap<Wid, usize>,
    /// eff[write][epoch]: a reader of that epoch whose view starts later must see the write.
    eff: Vec<Vec<Seq>>,
    rank: HashMap<Key, usize>,
    out: Vec<Violation>,
}

/// What one read says about one key.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Obs {
    Val(Wid),
    /// Not returned: absent or not matching.
    Gone,
}

impl<'a> Checker<'a> {
    fn fate(&self, from: usize) -> Seq {
        self.h.epochs[from.min(self.h.epochs.len())..]
            .iter()
            .map(|e| e.open_resp)
            .find(|s| *s != NEVER)
            .unwrap_or(NEVER)
    }

    fn w_inv(&self, w: usize) -> Seq {
        if w == INIT { 0 } else { self.h.writes[w].inv }
    }
    fn w_eff(&self, w: usize, epoch: usize) -> Seq {
        if w == INIT { 0 } else { self.eff[w][epoch] }
    }
    fn name(&self, w: usize) -> String {
        if w == INIT {
            return "the initial state".into();
        }
        let x = &self.h.writes[w];
        format!(
            "write #{}..{} ({:?}, epoch {}, client {})",
            x.inv,
            if x.resp == NEVER { "-".into() } else { format!("#{}", x.resp) },
            x.status,
            x.epoch,
            x.client
        )
    }
    fn rname(&self, r: &Read) -> String {
        format!(
            "{} #{}..#{} (epoch {}, client {}, view #{}..#{})",
            r.what, r.inv, r.resp, r.epoch, r.client, r.lo, r.hi
        )
    }

    fn violate(&mut self, rule: &'static str, text: String) {
        if self.out.iter().filter(|v| v.rule == rule).count() < 4 {
            self.out.push(Violation { rule, text });
        }
    }

    /// Keys this read decides, with what it shows.
    fn covered(&self, r: &Read) -> Vec<(Key, Obs)> {
        let shown: HashMap<Key, Wid> = r.rows.iter().copied().collect();
        let cut = r.partial || r.spec.limit.is_some_and(|l| r.rows.len() >= l);
        let last = if r.spec.limit == Some(0) {
            None
        } else {
            r.rows.last().map(|(k, _)| self.rank[k])
        };
        let mut v = Vec::new();
        for k in self.lanes.keys() {
            if let Some(p) = r.point {
                if p != *k {
                    continue;
                }
            } else if cut {
                match last {
                    Some(l) if self.rank[k] <= l => {}
                    _ => continue,
                }
            }
            v.push((*k, shown.get(k).map(|w| Obs::Val(*w)).unwrap_or(Obs::Gone)));
        }
        v
    }

    fn overlaid(r: &Read, k: Key) -> bool {
        r.overlay.iter().any(|(o, _)| *o == k)
    }

    /// Positions on the lane that explain the observation, given the order relation.
    fn explains(&self, r: &Read, k: Key, o: Obs, lo: Seq, order: &Bits) -> Vec<usize> {
        let lane = &self.lanes[&k];
        (0..lane.eff.len())
            .filter(|p| {
                let (w, e) = lane.eff[*p];
                let fits = match (o, e) {
                    (Obs::Val(x), Some(y)) => x == y,
                    (Obs::Val(_), None) => false,
                    (Obs::Gone, None) => true,
                    (Obs::Gone, Some(y)) => !r.spec.pred.matches(self.t, k, y),
                };
                fits && self.w_inv(w) < r.hi
                    && (w == INIT || self.h.writes[w].epoch <= r.epoch)
                    && !(0..lane.eff.len()).any(|q| {
                        q != *p && order.get(*p, q) && self.w_eff(lane.eff[q].0, r.epoch) < lo
                    })
            })
            .collect()
    }
}

fn usable(r: &Read) -> bool {
    r.err.is_none() && r.resp != NEVER
}

/// Check the history, appending violations to it.
pub fn check(t: &Table, h: &mut History) {
    let out = {
        let sorted = t.sorted();
        let rank: HashMap<Key, usize> = sorted.iter().enumerate().map(|(i, k)| (*k, i)).collect();
        let mut c = Checker {
            t,
            h,
            lanes: BTreeMap::new(),
            by_wid: HashMap::new(),
            eff: Vec::new(),
            rank,
            out: Vec::new(),
        };
        c.run();
        c.out
    };
    h.violations.extend(out);
}

impl Checker<'_> {
    fn run(&mut self) {
        let h = self.h;
        // Shape of every result, and which writes were seen.
        for (i, w) in h.writes.iter().enumerate() {
            for (_, e) in &w.rows {
                if let Some(x) = e {
                    self.by_wid.insert(*x, i);
                }
            }
        }
        let mut seen: Vec<Vec<(usize, Seq)>> = vec![Vec::new(); h.writes.len()];
        for r in h.reads.iter().filter(|r| usable(r)) {
            self.shape(r);
            for (k, w) in &r.rows {
                if Self::overlaid(r, *k) {
                    continue;
                }
                match self.by_wid.get(w).copied() {
                    None => self.violate(
                        "phantom",
                        format!("{} returned value {w} of key {k}, which no committed write stored", self.rname(r)),
                    ),
                    Some(i) => {
                        let x = &h.writes[i];
                        if x.status == Status::Failed {
                            let t = format!(
                                "{} returned value {w} of key {k} from a refused write: {} ({})",
                                self.rname(r),
                                self.name(i),
                                x.err.clone().unwrap_or_default()
                            );
                            self.violate("refused-visible", t);
                        }
                        seen[i].push((r.epoch, r.hi));
                    }
                }
            }
        }
        for (i, w) in h.writes.iter().enumerate() {
            if w.status == Status::Failed {
                continue;
            }
            for (k, e) in &w.rows {
                let lane = self.lanes.entry(*k).or_insert_with(|| Lane {
                    eff: vec![(INIT, None)],
                    pos: HashMap::from([(INIT, 0)]),
                    order: Bits::new(0),
                });
                lane.pos.insert(i, lane.eff.len());
                lane.eff.push((i, *e));
            }
        }
        self.effects(&seen);
        self.base_order();
        // Absences with a single possible cause count as having seen that delete.
        for r in h.reads.iter().filter(|r| usable(r)) {
            if !matches!(r.view, View::Live) {
                continue;
            }
            for (k, o) in self.covered(r) {
                if o != Obs::Gone || Self::overlaid(r, k) {
                    continue;
                }
                let lane = &self.lanes[&k];
                let c = self.explains(r, k, o, r.lo, &lane.order);
                if let [p] = c[..]
                    && let (w, None) = lane.eff[p]
                    && w != INIT
                {
                    seen[w].push((r.epoch, r.hi));
                }
            }
        }
        self.effects(&seen);
        self.base_order();
        self.views();
        self.transactions();
    }

    fn shape(&mut self, r: &Read) {
        if r.point.is_some() {
            return;
        }
        for p in r.rows.windows(2) {
            if self.rank[&p[0].0] >= self.rank[&p[1].0] {
                let t = format!(
                    "{}: key {} then key {}: not in strictly ascending key order",
                    self.rname(r),
                    p[0].0,
                    p[1].0
                );
                self.violate("key-order", t);
            }
        }
        for (k, w) in &r.rows {
            if !r.spec.pred.matches(self.t, *k, *w) {
                let t = format!(
                    "{}: returned key {k} value {w}, which does not satisfy {:?}",
                    self.rname(r),
                    r.spec.pred
                );
                self.violate("filter", t);
            }
        }
        if let Some(l) = r.spec.limit
            && r.rows.len() > l
        {
            let t = format!("{}: {} rows for limit {l}", self.rname(r), r.rows.len());
            self.violate("filter", t);
        }
        let shown: HashMap<Key, Wid> = r.rows.iter().copied().collect();
        if !r.overlay.is_empty() {
            let cut = r.partial || r.spec.limit.is_some_and(|l| r.rows.len() >= l);
            let last = if r.spec.limit == Some(0) {
                None
            } else {
                r.rows.last().map(|(k, _)| self.rank[k])
            };
            for (k, e) in &r.overlay {
                if cut && !last.is_some_and(|l| self.rank[k] <= l) {
                    continue;
                }
                let want = e.filter(|w| r.spec.pred.matches(self.t, *k, *w));
                if shown.get(k).copied() != want {
                    let t = format!(
                        "{}: key {k} staged as {e:?}, the transaction's own scan shows {:?}",
                        self.rname(r),
                        shown.get(k)
                    );
                    self.violate("read-your-writes", t);
                }
            }
        }
    }

    /// The ends of incarnations before `r` that the write may have been lost in.
    fn losses(&self, w: &Write, r: usize) -> Vec<usize> {
        let h = self.h;
        let mut out = Vec::new();
        let mut synced = false;
        for x in w.epoch..r {
            let e = &h.epochs[x];
            if x == w.epoch {
                synced = w.status == Status::Ok && self.synced_in_time(w, e);
            } else if e.open_resp != NEVER && e.open_syncs && out.is_empty() {
                synced = true;
            }
            if e.lossy && (e.careless || !synced) {
                out.push(x);
            }
        }
        out
    }

    /// The sync policy had to make the write durable before its process died.
    fn synced_in_time(&self, w: &Write, e: &Epoch) -> bool {
        if e.sync_ns.is_some_and(|ns| w.resp_ns + ns < e.end_ns) {
            return true;
        }
        e.sync_bytes.is_some_and(|n| {
            let later = self
                .h
                .writes
                .iter()
                .filter(|o| o.epoch == w.epoch && o.status == Status::Ok && o.inv > w.resp);
            later.count() * WRITE_BYTES >= n
        })
    }

    fn effects(&mut self, seen: &[Vec<(usize, Seq)>]) {
        let h = self.h;
        let ne = h.epochs.len();
        let mut eff = vec![vec![NEVER; ne]; h.writes.len()];
        for (i, w) in h.writes.iter().enumerate() {
            if w.status == Status::Failed {
                continue;
            }
            for r in w.epoch..ne {
                let lossy = self.losses(w, r);
                let mut e = NEVER;
                match (lossy.first(), lossy.last()) {
                    (Some(first), Some(last)) => {
                        let fate = self.fate(last + 1);
                        if seen[i].iter().any(|(s, _)| s > last) {
                            e = fate;
                        }
                        // Survivors imply everything acknowledged before they were invoked.
                        if e == NEVER
                            && w.status == Status::Ok
                            && (w.epoch..=*last).all(|x| h.epochs[x].prefix)
                            && h.writes.iter().enumerate().any(|(j, b)| {
                                b.status != Status::Failed
                                    && b.epoch <= *first
                                    && b.inv > w.resp
                                    && seen[j].iter().any(|(s, _)| s > last)
                            })
                        {
                            e = fate;
                        }
                    }
                    _ => {
                        if w.status == Status::Ok {
                            e = w.resp;
                        }
                        for (s, hi) in &seen[i] {
                            if *s <= r {
                                e = e.min(*hi);
                            }
                            if *s > w.epoch {
                                e = e.min(self.fate(w.epoch + 1));
                            }
                        }
                    }
                }
                eff[i][r] = e;
            }
        }
        self.eff = eff;
    }

    fn base_order(&mut self) {
        let mut lanes = std::mem::take(&mut self.lanes);
        for lane in lanes.values_mut() {
            let n = lane.eff.len();
            let mut o = Bits::new(n);
            for a in 0..n {
                for b in 1..n {
                    if a == b {
                        continue;
                    }
                    let wb = &self.h.writes[lane.eff[b].0];
                    let wa = lane.eff[a].0;
                    if wa == INIT
                        || (self.h.writes[wa].epoch <= wb.epoch
                            && self.w_eff(wa, wb.epoch) < wb.inv)
                    {
                        o.set(a, b);
                    }
                }
            }
            o.close();
            lane.order = o;
        }
        self.lanes = lanes;
    }

    fn views(&mut self) {
        let h = self.h;
        // Lower bound of each view: its own window, raised by the newest write it shows. Reads
        // of one snapshot or transaction share it.
        let mut floor: HashMap<(u8, usize), Seq> = HashMap::new();
        let id = |i: usize, r: &Read| match r.view {
            View::Live => (0, i),
            View::Snap(s) => (1, s),
            View::Txn(t) => (2, t),
        };
        for (i, r) in h.reads.iter().enumerate().filter(|(_, r)| usable(r)) {
            let mut lo = r.lo;
            for (k, w) in &r.rows {
                if !Self::overlaid(r, *k)
                    && let Some(x) = self.by_wid.get(w)
                {
                    lo = lo.max(h.writes[*x].inv);
                }
            }
            let f = floor.entry(id(i, r)).or_insert(0);
            *f = (*f).max(lo);
        }
        // Each key against real-time order.
        let mut bad: HashSet<(usize, Key)> = HashSet::new();
        for (i, r) in h.reads.iter().enumerate().filter(|(_, r)| usable(r)) {
            let lo = floor[&id(i, r)];
            for (k, o) in self.covered(r) {
                if Self::overlaid(r, k) {
                    continue;
                }
                let lane = &self.lanes[&k];
                if let Obs::Val(w) = o {
                    let Some(x) = self.by_wid.get(&w) else { continue };
                    if h.writes[*x].status == Status::Failed {
                        continue;
                    }
                }
                if !self.explains(r, k, o, lo, &lane.order).is_empty() {
                    continue;
                }
                bad.insert((i, k));
                self.report_stale(r, k, o, lo, "");
            }
        }
        // Observation order.
        let mut lanes = std::mem::take(&mut self.lanes);
        for (k, lane) in lanes.iter_mut() {
            let mut o = Bits::new(lane.eff.len());
            o.v.copy_from_slice(&lane.order.v);
            let mut why: Vec<String> = Vec::new();
            for (i, r) in h.reads.iter().enumerate().filter(|(_, r)| usable(r)) {
                if bad.contains(&(i, *k)) || Self::overlaid(r, *k) {
                    continue;
                }
                let Some((_, w)) = r.rows.iter().find(|(x, _)| x == k) else { continue };
                let Some(a) = self.by_wid.get(w).and_then(|x| lane.pos.get(x)).copied() else {
                    continue;
                };
                let lo = floor[&id(i, r)];
                for b in 1..lane.eff.len() {
                    if b == a {
                        continue;
                    }
                    let wb = lane.eff[b].0;
                    if h.writes[wb].epoch <= r.epoch && self.w_eff(wb, r.epoch) < lo {
                        o.set(b, a);
                    } else if self.w_inv(wb) > r.hi {
                        o.set(a, b);
                    }
                }
                why.push(format!("{} shows {w}", self.rname(r)));
            }
            o.close();
            if let Some(p) = o.cyclic() {
                let ring: Vec<String> = (0..o.n)
                    .filter(|q| o.get(p, *q) && o.get(*q, p))
                    .map(|q| format!("{:?} by {}", lane.eff[q].1, self.name(lane.eff[q].0)))
                    .collect();
                let t = format!(
                    "key {k}: no order of the writes explains all reads; entangled: {}; reads: {}",
                    ring.join(" | "),
                    why.join("; ")
                );
                self.violate("unstable-order", t);
            } else {
                lane.order = o;
            }
        }
        self.lanes = lanes;
        // Absences and groups under the full order.
        for (i, r) in h.reads.iter().enumerate().filter(|(_, r)| usable(r)) {
            let lo = floor[&id(i, r)];
            let cov = self.covered(r);
            for (k, o) in &cov {
                if *o == Obs::Gone && !Self::overlaid(r, *k) && !bad.contains(&(i, *k)) {
                    let lane = &self.lanes[k];
                    if self.explains(r, *k, *o, lo, &lane.order).is_empty() {
                        bad.insert((i, *k));
                        self.report_stale(r, *k, *o, lo, " (given the order other reads fixed)");
                    }
                }
            }
            let groups: HashSet<usize> = r
                .rows
                .iter()
                .filter(|(k, _)| !Self::overlaid(r, *k))
                .filter_map(|(_, w)| self.by_wid.get(w).copied())
                .filter(|x| h.writes[*x].rows.len() > 1 && h.writes[*x].status != Status::Failed)
                .collect();
            for g in groups {
                for (k, o) in &cov {
                    if Self::overlaid(r, *k) || bad.contains(&(i, *k)) {
                        continue;
                    }
                    let lane = &self.lanes[k];
                    let Some(gp) = lane.pos.get(&g).copied() else { continue };
                    let c = self.explains(r, *k, *o, lo, &lane.order);
                    if c.iter().all(|p| *p != gp && lane.order.get(*p, gp)) {
                        let t = format!(
                            "{} shows part of {}: key {k} shows {o:?} instead of {:?} or newer",
                            self.rname(r),
                            self.name(g),
                            lane.eff[gp].1
                        );
                        self.violate("torn-batch", t);
                    }
                }
            }
        }
        // Repeatability.
        let mut shared: BTreeMap<(u8, usize), Vec<&Read>> = BTreeMap::new();
        for (i, r) in h.reads.iter().enumerate().filter(|(_, r)| usable(r)) {
            if !matches!(r.view, View::Live) {
                shared.entry(id(i, r)).or_default().push(r);
            }
        }
        for reads in shared.values() {
            let cov: Vec<HashMap<Key, Obs>> =
                reads.iter().map(|r| self.covered(r).into_iter().collect()).collect();
            for a in 0..reads.len() {
                for b in 0..reads.len() {
                    if a == b {
                        continue;
                    }
                    for (k, o) in &cov[a] {
                        let Obs::Val(w) = *o else { continue };
                        if Self::overlaid(reads[a], *k) || Self::overlaid(reads[b], *k) {
                            continue;
                        }
                        let Some(o2) = cov[b].get(k) else { continue };
                        let ok = match o2 {
                            Obs::Val(x) => *x == w,
                            Obs::Gone => !reads[b].spec.pred.matches(self.t, *k, w),
                        };
                        if !ok {
                            let t = format!(
                                "one view, two answers for key {k}: {} shows {w}, {} shows {o2:?}",
                                self.rname(reads[a]),
                                self.rname(reads[b])
                            );
                            self.violate("unrepeatable-read", t);
                        }
                    }
                }
            }
        }
    }

    fn report_stale(&mut self, r: &Read, k: Key, o: Obs, lo: Seq, extra: &str) {
        let lane = &self.lanes[&k];
        let mut newest: Option<usize> = None;
        for (w, _) in &lane.eff {
            if *w != INIT
                && self.h.writes[*w].epoch <= r.epoch
                && self.w_eff(*w, r.epoch) < lo
                && newest.is_none_or(|n| self.w_inv(n) < self.w_inv(*w))
            {
                newest = Some(*w);
            }
        }
        let rule = match newest {
            Some(w) if self.h.writes[w].epoch < r.epoch => "lost-write",
            _ => "stale-read",
        };
        let effect = newest
            .and_then(|w| lane.eff.iter().find(|(x, _)| *x == w))
            .map(|(_, e)| *e);
        let t = format!(
            "{}: key {k} shows {o:?}, but {} stored {:?} and was in effect before{extra}",
            self.rname(r),
            newest.map(|w| self.name(w)).unwrap_or("nothing".into()),
            effect.flatten().map(|x| x.to_string()).unwrap_or("a delete".into()),
        );
        self.violate(rule, t);
    }

    fn transactions(&mut self) {
        let h = self.h;
        let committed: Vec<(usize, &Txn, &Write)> = h
            .txns
            .iter()
            .enumerate()
            .filter_map(|(i, t)| t.write.map(|w| (i, t, &h.writes[w])))
            .filter(|(_, _, w)| w.status == Status::Ok)
            .collect();
        for (i, t, w) in &committed {
            // Another write that began after the snapshot and was in effect before commit.
            for (j, o) in h.writes.iter().enumerate() {
                if Some(j) == t.write || o.status == Status::Failed || o.epoch != t.epoch {
                    continue;
                }
                let Some((k, _)) = o.rows.iter().find(|(k, _)| w.rows.iter().any(|(x, _)| x == k))
                else {
                    continue;
                };
                let clash = o.inv > t.begin_resp && self.w_eff(j, t.epoch) < t.commit_inv;
                if clash {
                    let x = format!(
                        "transaction {i} (begin #{}..#{}, commit #{}..#{}) committed key {k} over {}, which \
                         happened entirely between its begin and its commit",
                        t.begin_inv, t.begin_resp, w.inv, w.resp, self.name(j)
                    );
                    self.violate("missed-conflict", x);
                }
                // Both transactions: neither can have seen the other.
                if let Some(u) = o.txn.map(|u| &h.txns[u])
                    && o.status == Status::Ok
                    && !clash
                    && j > t.write.expect("write")
                    && t.begin_resp < o.inv
                    && u.begin_resp < w.inv
                {
                    let x = format!(
                        "transactions with begin #{}/#{} and commits #{}/#{} both committed key {k} from views \
                         that cannot contain the other: lost update",
                        t.begin_resp, u.begin_resp, w.inv, o.inv
                    );
                    self.violate("lost-update", x);
                }
            }
        }
        for t in h.txns.iter().filter(|t| t.conflict) {
            let Some(wi) = t.write else { continue };
            let w = &h.writes[wi];
            let excused = h.writes.iter().enumerate().any(|(j, o)| {
                j != wi
                    && o.epoch == w.epoch
                    && o.rows.iter().any(|(k, _)| w.rows.iter().any(|(x, _)| x == k))
                    && o.inv < w.resp
                    && (o.resp > t.begin_inv || matches!(o.status, Status::Unknown | Status::Pending))
            });
            if !excused {
                let x = format!(
                    "transaction (begin #{}, commit #{}..#{}) was refused as conflicting, but nobody else wrote \
                     any of its keys {:?}",
                    t.begin_inv,
                    w.inv,
                    w.resp,
                    w.rows.iter().map(|(k, _)| *k).collect::<Vec<_>>()
                );
                self.violate("spurious-conflict", x);
            }
        }
        // Without faults nothing may fail. A caller that gave up inside a manifest publication leaves
        // a lease behind as a crash does.
        let gave_up = |e: usize| {
            h.writes.iter().any(|w| w.epoch == e && w.err.as_deref() == Some(crate::driver::GAVE_UP))
        };
        for w in &h.writes {
            if w.status == Status::Unknown
                && !h.epochs[w.epoch].faulty
                && w.err.as_deref() != Some(crate::driver::GAVE_UP)
                && !w.err.as_deref().is_some_and(crate::driver::lease_race)
                && !((w.epoch > 0 || gave_up(w.epoch)) && w.err.as_deref().is_some_and(crate::driver::lease_held))
            {
                let x = format!(
                    "write #{}..#{} failed without any injected fault: {}",
                    w.inv,
                    w.resp,
                    w.err.clone().unwrap_or_default()
                );
                self.violate("unexpected-error", x);
            }
        }
        for r in &h.reads {
            if let Some(e) = &r.err
                && !h.epochs[r.epoch].faulty
                && !crate::driver::lease_race(e)
            {
                let x = format!("{} failed without any injected fault: {e}", self.rname(r));
                self.violate("unexpected-error", x);
            }
        }
    }
}

/// Coverage tags of a run.
pub fn features(h: &History, s: &Stats) -> Vec<&'static str> {
    let mut f = Vec::new();
    let mut tag = |c: bool, n: &'static str| {
        if c {
            f.push(n)
        }
    };
    let ok = |w: &&Write| w.status == Status::Ok;
    tag(h.epochs.iter().any(|e| e.crash.is_some()), "crash");
    tag(
        h.epochs.iter().any(|e| e.crash == Some(crate::disk::CrashKind::Power)),
        "power-loss",
    );
    tag(h.writes.iter().any(|w| w.status == Status::Pending), "write-cut-by-crash");
    tag(
        h.epochs.iter().filter(|e| e.open_resp == NEVER).count() > 0,
        "crash-in-recovery",
    );
    tag(h.writes.iter().any(|w| w.status == Status::Unknown), "ambiguous-write");
    tag(h.writes.iter().filter(ok).any(|w| w.rows.iter().any(|(_, e)| e.is_none())), "delete");
    tag(h.txns.iter().any(|t| t.conflict), "conflict");
    tag(
        h.txns.iter().any(|t| t.write.is_some_and(|w| h.writes[w].status == Status::Ok)),
        "txn-commit",
    );
    tag(h.reads.iter().any(|r| matches!(r.view, View::Snap(_))), "snapshot-read");
    tag(h.reads.iter().any(|r| r.err.is_some()), "read-error");
    tag(
        h.writes.iter().filter(ok).any(|a| {
            h.writes.iter().any(|b| {
                b.client != a.client && b.epoch == a.epoch && a.inv < b.resp && b.inv < a.resp
                    && a.rows.iter().any(|(k, _)| b.rows.iter().any(|(j, _)| j == k))
            })
        }),
        "overlapping-writers",
    );
    tag(s.faults.values().sum::<u64>() > 0, "io-fault");
    tag(h.reads.iter().any(|r| r.spec.pred != crate::model::Pred::True && r.err.is_none()), "filtered-scan");
    tag(h.epochs.len() > 2, "several-restarts");
    f.extend(s.marks.iter());
    f
}
