//! Rows, keys, predicates and scan specifications, with their meaning in the reference model.

use std::{cmp::Ordering, sync::Arc};

use arrow_array::{
    Array, ArrayRef, BinaryArray, BooleanArray, Float64Array, Int32Array, Int64Array, RecordBatch,
    StringArray, UInt64Array,
};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use serde::{Deserialize, Serialize};
use tonbo::db::{Expr, ScalarValue};
use typed_arrow_dyn::{DynCell, DynRow};

pub type Wid = u64;
pub type Key = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum KeyKind {
    I64,
    I32,
    U64,
    F64,
    Str,
    Bin,
    /// (Utf8, Int64)
    Pair,
}

#[derive(Clone, Debug, PartialEq)]
pub enum KeyVal {
    I(i64),
    U(u64),
    F(f64),
    S(String),
    B(Vec<u8>),
    P(String, i64),
}

impl KeyVal {
    pub fn cmp(&self, o: &KeyVal) -> Ordering {
        match (self, o) {
            (KeyVal::I(a), KeyVal::I(b)) => a.cmp(b),
            (KeyVal::U(a), KeyVal::U(b)) => a.cmp(b),
            (KeyVal::F(a), KeyVal::F(b)) => a.total_cmp(b),
            (KeyVal::S(a), KeyVal::S(b)) => a.as_bytes().cmp(b.as_bytes()),
            (KeyVal::B(a), KeyVal::B(b)) => a.cmp(b),
            (KeyVal::P(a, i), KeyVal::P(b, j)) => a.as_bytes().cmp(b.as_bytes()).then(i.cmp(j)),
            _ => unreachable!("mixed key kinds"),
        }
    }
    fn scalar(&self, kind: KeyKind) -> ScalarValue {
        match self {
            KeyVal::I(v) if kind == KeyKind::I32 => ScalarValue::Int32(Some(*v as i32)),
            KeyVal::I(v) => ScalarValue::Int64(Some(*v)),
            KeyVal::U(v) => ScalarValue::UInt64(Some(*v)),
            KeyVal::F(v) => ScalarValue::Float64(Some(*v)),
            KeyVal::S(v) => ScalarValue::Utf8(Some(v.clone())),
            KeyVal::B(v) => ScalarValue::Binary(Some(v.clone())),
            KeyVal::P(..) => unreachable!(),
        }
    }
}

/// The table shape and the key domain of one run.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Table {
    pub kind: KeyKind,
    pub nkeys: u32,
    /// Put the key column(s) after the value columns.
    pub key_last: bool,
}

const WORDS: [&str; 12] = [
    "", "a", "aa", "ab", "b", "ba", "key", "key-1", "key-10", "key-2", "\u{e9}t\u{e9}", "zz",
];

impl Table {
    pub fn key(&self, k: Key) -> KeyVal {
        let i = k as i64;
        match self.kind {
            KeyKind::I64 => KeyVal::I(match k {
                1 => i64::MIN,
                2 => i64::MAX,
                3 => -1,
                _ => (i - 6) * 3,
            }),
            KeyKind::I32 => KeyVal::I(match k {
                1 => i32::MIN as i64,
                2 => i32::MAX as i64,
                _ => (i - 6) * 5 + 1,
            }),
            KeyKind::U64 => KeyVal::U(match k {
                1 => u64::MAX,
                2 => 1 << 63,
                3 => 0,
                _ => (k as u64) * 1001 + 7,
            }),
            KeyKind::F64 => KeyVal::F(match k {
                1 => -1.5e300,
                2 => 1.5e300,
                3 => -0.25,
                _ => (i as f64 - 6.0) * 0.75 + 0.125,
            }),
            KeyKind::Str => {
                let w = WORDS[k as usize % WORDS.len()];
                if (k as usize) < WORDS.len() {
                    KeyVal::S(w.to_string())
                } else {
                    KeyVal::S(format!("{w}{}", "x".repeat(k as usize / WORDS.len())))
                }
            }
            KeyKind::Bin => {
                let mut v = vec![(k.wrapping_mul(37) % 251) as u8; (k % 4) as usize];
                v.push(k as u8);
                if k == 1 {
                    v = vec![];
                }
                if k == 2 {
                    v = vec![0xff, 0xff, 0xff];
                }
                KeyVal::B(v)
            }
            KeyKind::Pair => KeyVal::P(
                WORDS[(k / 4) as usize % WORDS.len()].to_string(),
                match k % 4 {
                    0 => i64::MIN,
                    1 => -(i + 1),
                    2 => i,
                    _ => i64::MAX - i,
                },
            ),
        }
    }

    /// Keys of the domain in key order.
    pub fn sorted(&self) -> Vec<Key> {
        let mut v: Vec<Key> = (0..self.nkeys).collect();
        v.sort_by(|a, b| self.key(*a).cmp(&self.key(*b)));
        assert!(
            v.windows(2).all(|w| self.key(w[0]).cmp(&self.key(w[1])) == Ordering::Less),
            "the key domain has duplicates"
        );
        v
    }

    fn key_fields(&self) -> Vec<Field> {
        match self.kind {
            KeyKind::I64 => vec![Field::new("id", DataType::Int64, false)],
            KeyKind::I32 => vec![Field::new("id", DataType::Int32, false)],
            KeyKind::U64 => vec![Field::new("id", DataType::UInt64, false)],
            KeyKind::F64 => vec![Field::new("id", DataType::Float64, false)],
            KeyKind::Str => vec![Field::new("id", DataType::Utf8, false)],
            KeyKind::Bin => vec![Field::new("id", DataType::Binary, false)],
            KeyKind::Pair => vec![
                Field::new("tenant", DataType::Utf8, false),
                Field::new("seq", DataType::Int64, false),
            ],
        }
    }

    pub fn schema(&self) -> SchemaRef {
        let mut vals = vec![
            Field::new("v", DataType::Int64, false),
            Field::new("grp", DataType::Int32, true),
            Field::new("s", DataType::Utf8, true),
            Field::new("b", DataType::Boolean, true),
        ];
        let mut f = self.key_fields();
        if self.key_last {
            vals.extend(f);
            f = vals;
        } else {
            f.extend(vals);
        }
        Arc::new(Schema::new(f))
    }

    pub fn key_indices(&self) -> Vec<usize> {
        let n = self.key_fields().len();
        if self.key_last {
            (4..4 + n).collect()
        } else {
            (0..n).collect()
        }
    }

    /// Record batch for (key, wid) rows; a tombstone row carries filler values.
    pub fn batch(&self, rows: &[(Key, Option<Wid>)]) -> RecordBatch {
        let vals: Vec<Vals> = rows.iter().map(|(k, w)| Vals::of(*k, w.unwrap_or(0))).collect();
        let mut value_cols: Vec<ArrayRef> = vec![
            Arc::new(Int64Array::from_iter_values(vals.iter().map(|v| v.v))),
            Arc::new(Int32Array::from_iter(vals.iter().map(|v| v.grp))),
            Arc::new(StringArray::from_iter(vals.iter().map(|v| v.s.clone()))),
            Arc::new(BooleanArray::from_iter(vals.iter().map(|v| v.b))),
        ];
        let keys: Vec<KeyVal> = rows.iter().map(|(k, _)| self.key(*k)).collect();
        let mut key_cols: Vec<ArrayRef> = match self.kind {
            KeyKind::I64 => vec![Arc::new(Int64Array::from_iter_values(keys.iter().map(
                |k| match k {
                    KeyVal::I(v) => *v,
                    _ => unreachable!(),
                },
            )))],
            KeyKind::I32 => vec![Arc::new(Int32Array::from_iter_values(keys.iter().map(
                |k| match k {
                    KeyVal::I(v) => *v as i32,
                    _ => unreachable!(),
                },
            )))],
            KeyKind::U64 => vec![Arc::new(UInt64Array::from_iter_values(keys.iter().map(
                |k| match k {
                    KeyVal::U(v) => *v,
                    _ => unreachable!(),
                },
            )))],
            KeyKind::F64 => vec![Arc::new(Float64Array::from_iter_values(keys.iter().map(
                |k| match k {
                    KeyVal::F(v) => *v,
                    _ => unreachable!(),
                },
            )))],
            KeyKind::Str => vec![Arc::new(StringArray::from_iter_values(keys.iter().map(
                |k| match k {
                    KeyVal::S(v) => v.clone(),
                    _ => unreachable!(),
                },
            )))],
            KeyKind::Bin => vec![Arc::new(BinaryArray::from_iter_values(keys.iter().map(
                |k| match k {
                    KeyVal::B(v) => v.clone(),
                    _ => unreachable!(),
                },
            )))],
            KeyKind::Pair => vec![
                Arc::new(StringArray::from_iter_values(keys.iter().map(|k| match k {
                    KeyVal::P(v, _) => v.clone(),
                    _ => unreachable!(),
                }))),
                Arc::new(Int64Array::from_iter_values(keys.iter().map(|k| match k {
                    KeyVal::P(_, v) => *v,
                    _ => unreachable!(),
                }))),
            ],
        };
        let cols = if self.key_last {
            value_cols.append(&mut key_cols);
            value_cols
        } else {
            key_cols.append(&mut value_cols);
            key_cols
        };
        RecordBatch::try_new(self.schema(), cols).expect("model batch")
    }

    pub fn dyn_row(&self, k: Key, wid: Wid) -> DynRow {
        let v = Vals::of(k, wid);
        let mut vals = vec![
            Some(DynCell::I64(v.v)),
            v.grp.map(DynCell::I32),
            v.s.map(DynCell::Str),
            v.b.map(DynCell::Bool),
        ];
        let mut keys: Vec<Option<DynCell>> = match self.key(k) {
            KeyVal::I(v) if self.kind == KeyKind::I32 => vec![Some(DynCell::I32(v as i32))],
            KeyVal::I(v) => vec![Some(DynCell::I64(v))],
            KeyVal::U(v) => vec![Some(DynCell::U64(v))],
            KeyVal::F(v) => vec![Some(DynCell::F64(v))],
            KeyVal::S(v) => vec![Some(DynCell::Str(v))],
            KeyVal::B(v) => vec![Some(DynCell::Bin(v))],
            KeyVal::P(a, b) => vec![Some(DynCell::Str(a)), Some(DynCell::I64(b))],
        };
        DynRow(if self.key_last {
            vals.append(&mut keys);
            vals
        } else {
            keys.append(&mut vals);
            keys
        })
    }

    /// Decode a row returned by a point read; Err describes a row no write could have produced.
    pub fn decode_dyn(&self, k: Key, row: &DynRow) -> Result<Wid, String> {
        let vcol = if self.key_last { 0 } else { self.key_fields().len() };
        let Some(Some(DynCell::I64(v))) = row.0.get(vcol) else {
            return Err("point read without a value column".to_string());
        };
        let wid = *v as u64;
        let want = self.dyn_row(k, wid);
        let (want, got) = (show_row(&want), show_row(row));
        if want != got {
            return Err(format!("torn row for key {k}: {got}, expected {want}"));
        }
        Ok(wid)
    }

    pub fn has_point_keys(&self) -> bool {
        self.kind != KeyKind::Pair
    }
}

fn show_row(r: &DynRow) -> String {
    r.0.iter()
        .map(|c| match c {
            None => "null".to_string(),
            Some(DynCell::I64(v)) => format!("i64:{v}"),
            Some(DynCell::I32(v)) => format!("i32:{v}"),
            Some(DynCell::U64(v)) => format!("u64:{v}"),
            Some(DynCell::F64(v)) => format!("f64:{v:?}"),
            Some(DynCell::Str(v)) => format!("str:{v:?}"),
            Some(DynCell::Bin(v)) => format!("bin:{v:?}"),
            Some(DynCell::Bool(v)) => format!("bool:{v}"),
            Some(_) => "other".to_string(),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// The value columns a write id stands for.
#[derive(Clone, Debug, PartialEq)]
pub struct Vals {
    pub v: i64,
    pub grp: Option<i32>,
    pub s: Option<String>,
    pub b: Option<bool>,
}

impl Vals {
    pub fn of(k: Key, wid: Wid) -> Vals {
        let h = wid.wrapping_mul(31).wrapping_add(k as u64);
        Vals {
            v: wid as i64,
            grp: (wid % 6 != 0).then_some((wid % 7) as i32 - 2),
            s: (wid % 5 != 0).then(|| {
                format!(
                    "s{}-{wid}-{}",
                    wid % 4,
                    "p".repeat((h % if wid % 17 == 0 { 90 } else { 12 }) as usize)
                )
            }),
            b: (wid % 4 != 1).then_some(h % 3 == 0),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cmp {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

impl Cmp {
    pub const ALL: [Cmp; 6] = [Cmp::Eq, Cmp::Ne, Cmp::Lt, Cmp::Le, Cmp::Gt, Cmp::Ge];
    fn test(self, o: Ordering) -> bool {
        match self {
            Cmp::Eq => o == Ordering::Equal,
            Cmp::Ne => o != Ordering::Equal,
            Cmp::Lt => o == Ordering::Less,
            Cmp::Le => o != Ordering::Greater,
            Cmp::Gt => o == Ordering::Greater,
            Cmp::Ge => o != Ordering::Less,
        }
    }
    fn expr(self, col: &str, v: ScalarValue) -> Expr {
        match self {
            Cmp::Eq => Expr::eq(col, v),
            Cmp::Ne => Expr::not_eq(col, v),
            Cmp::Lt => Expr::lt(col, v),
            Cmp::Le => Expr::lt_eq(col, v),
            Cmp::Gt => Expr::gt(col, v),
            Cmp::Ge => Expr::gt_eq(col, v),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pred {
    True,
    Key(Cmp, Key),
    KeyIn(Vec<Key>),
    KeyBetween(Key, Key),
    KeyPrefix(String),
    V(Cmp, Wid),
    Grp(Cmp, i32),
    SNull(bool),
    SPrefix(String),
    B(bool),
    And(Vec<Pred>),
    Or(Vec<Pred>),
    Not(Box<Pred>),
}

impl Pred {
    /// SQL three-valued truth of the predicate on the row `wid` wrote for `k`.
    pub fn eval(&self, t: &Table, k: Key, wid: Wid) -> Option<bool> {
        let vals = || Vals::of(k, wid);
        match self {
            Pred::True => Some(true),
            Pred::Key(c, o) => {
                let (a, b) = (t.key(k), t.key(*o));
                match (&a, &b) {
                    (KeyVal::P(_, x), KeyVal::P(_, y)) => Some(c.test(x.cmp(y))),
                    _ => Some(c.test(a.cmp(&b))),
                }
            }
            Pred::KeyIn(v) => Some(v.iter().any(|o| match (t.key(k), t.key(*o)) {
                (KeyVal::P(a, _), KeyVal::P(b, _)) => a == b,
                (a, b) => a.cmp(&b) == Ordering::Equal,
            })),
            Pred::KeyBetween(lo, hi) => match (t.key(k), t.key(*lo), t.key(*hi)) {
                (KeyVal::P(a, _), KeyVal::P(l, _), KeyVal::P(h, _)) => {
                    Some(l.as_bytes() <= a.as_bytes() && a.as_bytes() <= h.as_bytes())
                }
                (a, l, h) => {
                    Some(l.cmp(&a) != Ordering::Greater && a.cmp(&h) != Ordering::Greater)
                }
            },
            Pred::KeyPrefix(p) => match t.key(k) {
                KeyVal::S(s) | KeyVal::P(s, _) => Some(s.starts_with(p.as_str())),
                _ => Some(true),
            },
            Pred::V(c, w) => Some(c.test((wid as i64).cmp(&(*w as i64)))),
            Pred::Grp(c, g) => vals().grp.map(|v| c.test(v.cmp(g))),
            Pred::SNull(n) => Some(vals().s.is_none() == *n),
            Pred::SPrefix(p) => vals().s.map(|s| s.starts_with(p.as_str())),
            Pred::B(x) => vals().b.map(|b| b == *x),
            Pred::And(v) => {
                let mut out = Some(true);
                for p in v {
                    match p.eval(t, k, wid) {
                        Some(false) => return Some(false),
                        None => out = None,
                        _ => {}
                    }
                }
                out
            }
            Pred::Or(v) => {
                let mut out = Some(false);
                for p in v {
                    match p.eval(t, k, wid) {
                        Some(true) => return Some(true),
                        None => out = None,
                        _ => {}
                    }
                }
                out
            }
            Pred::Not(p) => p.eval(t, k, wid).map(|b| !b),
        }
    }

    pub fn matches(&self, t: &Table, k: Key, wid: Wid) -> bool {
        self.eval(t, k, wid) == Some(true)
    }

    pub fn expr(&self, t: &Table) -> Expr {
        let pair = t.kind == KeyKind::Pair;
        let (a, b) = if pair { ("tenant", "seq") } else { ("id", "id") };
        let first = |k: Key| match t.key(k) {
            KeyVal::P(s, _) => ScalarValue::Utf8(Some(s)),
            o => o.scalar(t.kind),
        };
        match self {
            Pred::True => Expr::True,
            Pred::Key(c, k) => match t.key(*k) {
                KeyVal::P(_, n) => c.expr(b, ScalarValue::Int64(Some(n))),
                o => c.expr(a, o.scalar(t.kind)),
            },
            Pred::KeyIn(v) => Expr::in_list(a, v.iter().map(|k| first(*k)).collect()),
            Pred::KeyBetween(lo, hi) => Expr::between(a, first(*lo), first(*hi), true),
            Pred::KeyPrefix(p) => match t.kind {
                KeyKind::Str | KeyKind::Pair => Expr::starts_with(a, p.clone()),
                _ => Expr::True,
            },
            Pred::V(c, w) => c.expr("v", ScalarValue::Int64(Some(*w as i64))),
            Pred::Grp(c, g) => c.expr("grp", ScalarValue::Int32(Some(*g))),
            Pred::SNull(true) => Expr::is_null("s"),
            Pred::SNull(false) => Expr::is_not_null("s"),
            Pred::SPrefix(p) => Expr::starts_with("s", p.clone()),
            Pred::B(x) => Expr::eq("b", ScalarValue::Boolean(Some(*x))),
            Pred::And(v) => Expr::and(v.iter().map(|p| p.expr(t)).collect()),
            Pred::Or(v) => Expr::or(v.iter().map(|p| p.expr(t)).collect()),
            Pred::Not(p) => Expr::not(p.expr(t)),
        }
    }

    /// Whether the predicate mentions a value column.
    pub fn on_values(&self) -> bool {
        match self {
            Pred::True
            | Pred::Key(..)
            | Pred::KeyIn(..)
            | Pred::KeyBetween(..)
            | Pred::KeyPrefix(..) => false,
            Pred::V(..) | Pred::Grp(..) | Pred::SNull(..) | Pred::SPrefix(..) | Pred::B(..) => true,
            Pred::And(v) | Pred::Or(v) => v.iter().any(Pred::on_values),
            Pred::Not(p) => p.on_values(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ScanSpec {
    pub pred: Pred,
    /// None: all columns; otherwise column names, always including `v`.
    pub proj: Option<Vec<String>>,
    pub limit: Option<usize>,
    /// Pause between streamed batches: 0 none, 1 yield, 2+ sleep that many tens of microseconds.
    pub pace: u32,
    /// Stop consuming and drop the stream after this many batches.
    pub drop_after: Option<u32>,
}

impl ScanSpec {
    pub fn full() -> Self {
        ScanSpec {
            pred: Pred::True,
            proj: None,
            limit: None,
            pace: 0,
            drop_after: None,
        }
    }
    pub fn is_full(&self) -> bool {
        self.pred == Pred::True && self.limit.is_none() && self.drop_after.is_none()
    }
}

/// Decode a result batch into wids, verifying every column against what the wid stands for.
pub fn decode(t: &Table, batch: &RecordBatch, owner: &dyn Fn(Wid) -> Option<Key>) -> Result<Vec<(Key, Wid)>, String> {
    let schema = batch.schema();
    let vi = schema.index_of("v").map_err(|e| format!("result lacks column v: {e}"))?;
    let v = batch
        .column(vi)
        .as_any()
        .downcast_ref::<Int64Array>()
        .ok_or("column v has the wrong type")?;
    let mut out = Vec::with_capacity(batch.num_rows());
    let mut want_rows = Vec::with_capacity(batch.num_rows());
    for i in 0..batch.num_rows() {
        if v.is_null(i) {
            return Err("null in non-null column v".into());
        }
        let wid = v.value(i) as u64;
        let Some(k) = owner(wid) else {
            return Err(format!("row with value {wid} that no write produced"));
        };
        out.push((k, wid));
        want_rows.push((k, Some(wid)));
    }
    let want = t.batch(&want_rows);
    for (i, f) in schema.fields().iter().enumerate() {
        let wi = want
            .schema()
            .index_of(f.name())
            .map_err(|_| format!("unexpected result column {}", f.name()))?;
        let (got, exp) = (batch.column(i), want.column(wi));
        if got.data_type() != exp.data_type() {
            return Err(format!("column {} has type {:?}", f.name(), got.data_type()));
        }
        if got.to_data() != exp.to_data() {
            for r in 0..batch.num_rows() {
                if got.slice(r, 1).to_data() != exp.slice(r, 1).to_data() {
                    return Err(format!(
                        "torn row: key {} write {} column {} is {:?}, the write stored {:?}",
                        out[r].0,
                        out[r].1,
                        f.name(),
                        got.slice(r, 1),
                        exp.slice(r, 1)
                    ));
                }
            }
        }
    }
    Ok(out)
}
