use std::{cmp::Ordering, collections::HashMap, fmt, future::Future};

use arrow_array::{Array, ArrayRef, UInt64Array};
use arrow_schema::{DataType, Schema, SchemaRef};
use datafusion_common::ScalarValue;
use parquet::{
    arrow::arrow_reader::{statistics::StatisticsConverter, RowSelection, RowSelector},
    bloom_filter::Sbbf,
    file::metadata::ParquetMetaData,
};

use crate::{CmpOp, Expr};

/// Source of bloom filters for row-group pruning.
pub trait AsyncBloomFilterProvider {
    /// Load the filter of one column chunk, if there is one.
    fn bloom_filter(
        &mut self,
        row_group_idx: usize,
        column_idx: usize,
    ) -> impl Future<Output = Option<Sbbf>>;

    /// Load several filters at once.
    fn bloom_filters_batch<'a>(
        &'a mut self,
        requests: &'a [(usize, usize)],
    ) -> impl Future<Output = HashMap<(usize, usize), Sbbf>> + 'a
    where
        Self: Sized,
    {
        async move {
            let mut out = HashMap::new();
            for &(rg, col) in requests {
                if let Some(f) = self.bloom_filter(rg, col).await {
                    out.insert((rg, col), f);
                }
            }
            out
        }
    }
}

/// Error constructing a pruner.
#[derive(Debug)]
pub struct PruneError(String);
impl fmt::Display for PruneError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for PruneError {}

/// Row groups (and optionally rows within them) that may match.
#[derive(Debug, Clone)]
pub struct PruneResult {
    row_groups: Vec<usize>,
    selection: Option<RowSelection>,
}
impl PruneResult {
    /// Kept row groups, in file order.
    pub fn row_groups(&self) -> &[usize] {
        &self.row_groups
    }
    /// Selection over the concatenation of the kept row groups.
    pub fn row_selection(&self) -> Option<&RowSelection> {
        self.selection.as_ref()
    }
}

/// Reusable pruner bound to one schema.
#[derive(Debug, Clone)]
pub struct Pruner {
    schema: SchemaRef,
}
impl Pruner {
    /// Build a pruner for `schema`.
    pub fn try_new(schema: SchemaRef) -> Result<Self, PruneError> {
        if schema.fields().is_empty() {
            return Err(PruneError("empty schema".into()));
        }
        Ok(Self { schema })
    }
    /// Prune with row-group statistics, page indexes and bloom filters.
    pub async fn prune_ir_with_bloom_provider<P: AsyncBloomFilterProvider>(
        &self,
        metadata: &ParquetMetaData,
        predicates: &[Expr],
        provider: &mut P,
    ) -> PruneResult {
        prune(metadata, self.schema.as_ref(), predicates, true, Some(provider)).await
    }
}

/// One-shot pruning request.
pub struct PruneRequest<'a> {
    metadata: &'a ParquetMetaData,
    schema: &'a Schema,
    predicates: Vec<Expr>,
    page_index: bool,
    bloom: bool,
}
impl<'a> PruneRequest<'a> {
    pub fn new(metadata: &'a ParquetMetaData, schema: &'a Schema) -> Self {
        Self { metadata, schema, predicates: Vec::new(), page_index: false, bloom: false }
    }
    pub fn with_predicate(mut self, p: &Expr) -> Self {
        self.predicates.push(p.clone());
        self
    }
    pub fn enable_page_index(mut self, on: bool) -> Self {
        self.page_index = on;
        self
    }
    pub fn enable_bloom_filter(mut self, on: bool) -> Self {
        self.bloom = on;
        self
    }
    pub async fn prune_async<P: AsyncBloomFilterProvider>(self, provider: &mut P) -> PruneResult {
        let provider = if self.bloom { Some(provider) } else { None };
        prune(self.metadata, self.schema, &self.predicates, self.page_index, provider).await
    }
}

/// Statistics of one container (row group or page) for one column.
struct Stat {
    min: Option<ScalarValue>,
    max: Option<ScalarValue>,
    nulls: Option<u64>,
    rows: u64,
}

fn scalar(a: &ArrayRef, i: usize) -> Option<ScalarValue> {
    if i >= a.len() || a.is_null(i) {
        return None;
    }
    ScalarValue::try_from_array(a, i).ok()
}

fn comparable(v: &ScalarValue, s: &ScalarValue) -> Option<Ordering> {
    if v.is_null() || v.data_type() != s.data_type() {
        return None;
    }
    if matches!(
        v.data_type(),
        DataType::Float16 | DataType::Float32 | DataType::Float64
    ) {
        return None; // NaN is not covered by parquet statistics
    }
    s.partial_cmp(v)
}

/// Can the container hold a row with `col op value`?
fn may_cmp(st: &Stat, op: CmpOp, v: &ScalarValue) -> bool {
    if v.is_null() {
        return true;
    }
    if st.nulls == Some(st.rows) && st.rows > 0 {
        return false; // only NULLs: a comparison is never TRUE
    }
    let lo = st.min.as_ref().and_then(|m| comparable(v, m)); // min vs v
    let hi = st.max.as_ref().and_then(|m| comparable(v, m)); // max vs v
    match op {
        CmpOp::Eq => lo != Some(Ordering::Greater) && hi != Some(Ordering::Less),
        CmpOp::NotEq => true,
        CmpOp::Lt => !matches!(lo, Some(Ordering::Greater | Ordering::Equal)),
        CmpOp::LtEq => lo != Some(Ordering::Greater),
        CmpOp::Gt => !matches!(hi, Some(Ordering::Less | Ordering::Equal)),
        CmpOp::GtEq => hi != Some(Ordering::Less),
    }
}

fn may_leaf(expr: &Expr, st: &Stat) -> bool {
    match expr {
        Expr::Cmp { op, value, .. } => may_cmp(st, *op, value),
        Expr::Between { low, high, inclusive, .. } => {
            let (lo, hi) = if *inclusive {
                (CmpOp::GtEq, CmpOp::LtEq)
            } else {
                (CmpOp::Gt, CmpOp::Lt)
            };
            may_cmp(st, lo, low) && may_cmp(st, hi, high)
        }
        Expr::InList { values, .. } => values.iter().any(|v| may_cmp(st, CmpOp::Eq, v)),
        Expr::IsNull { negated, .. } => match st.nulls {
            Some(n) if *negated => n < st.rows || st.rows == 0,
            Some(n) => n > 0,
            None => true,
        },
        _ => true,
    }
}

fn leaf_column(expr: &Expr) -> Option<&str> {
    match expr {
        Expr::Cmp { column, .. }
        | Expr::Between { column, .. }
        | Expr::InList { column, .. }
        | Expr::IsNull { column, .. } => Some(column),
        _ => None,
    }
}

fn rg_stat(md: &ParquetMetaData, schema: &Schema, column: &str, rg: usize) -> Option<Stat> {
    let conv =
        StatisticsConverter::try_new(column, schema, md.file_metadata().schema_descr()).ok()?;
    conv.parquet_column_index()?;
    let g = md.row_group(rg);
    let mins = conv.row_group_mins(std::iter::once(g)).ok()?;
    let maxs = conv.row_group_maxes(std::iter::once(g)).ok()?;
    let nulls = conv.row_group_null_counts(std::iter::once(g)).ok()?;
    Some(Stat {
        min: scalar(&mins, 0),
        max: scalar(&maxs, 0),
        nulls: nulls.is_valid(0).then(|| nulls.value(0)),
        rows: g.num_rows().max(0) as u64,
    })
}

fn may_rg(expr: &Expr, md: &ParquetMetaData, schema: &Schema, rg: usize) -> bool {
    match expr {
        Expr::False => false,
        Expr::And(c) => c.iter().all(|e| may_rg(e, md, schema, rg)),
        Expr::Or(c) => c.iter().any(|e| may_rg(e, md, schema, rg)),
        leaf => match leaf_column(leaf) {
            Some(col) => rg_stat(md, schema, col, rg).map_or(true, |s| may_leaf(leaf, &s)),
            None => true,
        },
    }
}

fn pages(md: &ParquetMetaData, schema: &Schema, column: &str, rg: usize) -> Option<Vec<Stat>> {
    let conv =
        StatisticsConverter::try_new(column, schema, md.file_metadata().schema_descr()).ok()?;
    conv.parquet_column_index()?;
    let (ci, oi) = (md.column_index()?, md.offset_index()?);
    if ci.len() != md.num_row_groups() || oi.len() != md.num_row_groups() {
        return None;
    }
    let idx = [rg];
    let rows: UInt64Array =
        conv.data_page_row_counts(oi, md.row_groups(), idx.iter()).ok()??;
    let mins = conv.data_page_mins(ci, oi, idx.iter()).ok()?;
    let maxs = conv.data_page_maxes(ci, oi, idx.iter()).ok()?;
    let nulls = conv.data_page_null_counts(ci, oi, idx.iter()).ok()?;
    if mins.len() != rows.len() || maxs.len() != rows.len() {
        return None;
    }
    Some(
        (0..rows.len())
            .map(|i| Stat {
                min: scalar(&mins, i),
                max: scalar(&maxs, i),
                nulls: (i < nulls.len() && nulls.is_valid(i)).then(|| nulls.value(i)),
                rows: rows.value(i),
            })
            .collect(),
    )
}

/// Rows of `rg` that may match, as keep flags.
fn page_rows(expr: &Expr, md: &ParquetMetaData, schema: &Schema, rg: usize) -> Vec<bool> {
    let n = md.row_group(rg).num_rows().max(0) as usize;
    match expr {
        Expr::False => vec![false; n],
        Expr::And(c) => c.iter().fold(vec![true; n], |mut acc, e| {
            for (a, b) in acc.iter_mut().zip(page_rows(e, md, schema, rg)) {
                *a &= b;
            }
            acc
        }),
        Expr::Or(c) => c.iter().fold(vec![false; n], |mut acc, e| {
            for (a, b) in acc.iter_mut().zip(page_rows(e, md, schema, rg)) {
                *a |= b;
            }
            acc
        }),
        leaf => {
            let Some(stats) = leaf_column(leaf).and_then(|c| pages(md, schema, c, rg)) else {
                return vec![true; n];
            };
            let mut out = Vec::with_capacity(n);
            for st in &stats {
                out.extend(std::iter::repeat(may_leaf(leaf, st)).take(st.rows as usize));
            }
            if out.len() != n {
                return vec![true; n];
            }
            out
        }
    }
}

/// Equality candidates that a bloom filter could rule out: conjunctions of Eq leaves only.
fn bloom_candidates<'e>(expr: &'e Expr, out: &mut Vec<(&'e str, &'e ScalarValue)>) {
    match expr {
        Expr::Cmp { column, op: CmpOp::Eq, value } => out.push((column, value)),
        Expr::And(c) => c.iter().for_each(|e| bloom_candidates(e, out)),
        _ => {}
    }
}

fn bloom_absent(f: &Sbbf, v: &ScalarValue, dt: &DataType) -> bool {
    if v.is_null() || v.data_type() != *dt {
        return false;
    }
    match v {
        ScalarValue::Utf8(Some(s)) | ScalarValue::LargeUtf8(Some(s)) => !f.check(&s.as_str()),
        ScalarValue::Binary(Some(b)) => !f.check(b),
        ScalarValue::Int32(Some(i)) => !f.check(i),
        ScalarValue::Int64(Some(i)) => !f.check(i),
        ScalarValue::UInt64(Some(i)) => !f.check(&(*i as i64)),
        ScalarValue::UInt32(Some(i)) => !f.check(&(*i as i32)),
        _ => false,
    }
}

async fn prune<P: AsyncBloomFilterProvider>(
    md: &ParquetMetaData,
    schema: &Schema,
    predicates: &[Expr],
    page_index: bool,
    mut provider: Option<&mut P>,
) -> PruneResult {
    let mut row_groups: Vec<usize> = (0..md.num_row_groups())
        .filter(|&rg| predicates.iter().all(|p| may_rg(p, md, schema, rg)))
        .collect();
    if let Some(provider) = provider.as_mut() {
        let mut cands = Vec::new();
        predicates.iter().for_each(|p| bloom_candidates(p, &mut cands));
        let descr = md.file_metadata().schema_descr();
        let mut kept = Vec::new();
        for &rg in &row_groups {
            let mut absent = false;
            for (col, value) in &cands {
                let Ok(field) = schema.field_with_name(col) else { continue };
                let Ok(conv) = StatisticsConverter::try_new(col, schema, descr) else { continue };
                let Some(ci) = conv.parquet_column_index() else { continue };
                if md.row_group(rg).column(ci).bloom_filter_offset().is_none() {
                    continue;
                }
                if let Some(f) = provider.bloom_filter(rg, ci).await {
                    if bloom_absent(&f, value, field.data_type()) {
                        absent = true;
                        break;
                    }
                }
            }
            if !absent {
                kept.push(rg);
            }
        }
        row_groups = kept;
    }
    let mut selection = None;
    if page_index && !row_groups.is_empty() {
        let mut selectors: Vec<RowSelector> = Vec::new();
        for &rg in &row_groups {
            let n = md.row_group(rg).num_rows().max(0) as usize;
            let mut keep = vec![true; n];
            for p in predicates {
                for (a, b) in keep.iter_mut().zip(page_rows(p, md, schema, rg)) {
                    *a &= b;
                }
            }
            let mut i = 0;
            while i < n {
                let mut j = i;
                while j < n && keep[j] == keep[i] {
                    j += 1;
                }
                selectors.push(if keep[i] {
                    RowSelector::select(j - i)
                } else {
                    RowSelector::skip(j - i)
                });
                i = j;
            }
        }
        if selectors.iter().any(|s| s.skip) {
            selection = Some(RowSelection::from(selectors));
        }
    }
    PruneResult { row_groups, selection }
}
