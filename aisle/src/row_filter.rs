use arrow_array::{Array, ArrayRef, BooleanArray, RecordBatch};
use arrow_schema::ArrowError;
use datafusion_common::ScalarValue;
use parquet::{
    arrow::{arrow_reader::ArrowPredicate, ProjectionMask},
    schema::types::SchemaDescriptor,
};

use crate::{CmpOp, Expr};

/// Exact row-level filter for a parquet stream.
#[derive(Debug, Clone)]
pub struct RowFilter {
    expr: Expr,
    mask: ProjectionMask,
}

impl RowFilter {
    /// Build a filter that evaluates `expr`, reading only the columns it names.
    pub fn new(expr: Expr, schema: &SchemaDescriptor) -> Self {
        let mut columns = Vec::new();
        expr.columns(&mut columns);
        let root = schema.root_schema();
        let roots = root
            .get_fields()
            .iter()
            .enumerate()
            .filter(|(_, f)| columns.iter().any(|c| c == f.name()))
            .map(|(i, _)| i)
            .collect::<Vec<_>>();
        Self { expr, mask: ProjectionMask::roots(schema, roots) }
    }
}

impl ArrowPredicate for RowFilter {
    fn projection(&self) -> &ProjectionMask {
        &self.mask
    }
    fn evaluate(&mut self, batch: RecordBatch) -> Result<BooleanArray, ArrowError> {
        let out = eval(&self.expr, &batch)?;
        // NULL (unknown) rows are dropped.
        Ok((0..out.len()).map(|i| Some(out.is_valid(i) && out.value(i))).collect())
    }
}

fn column<'a>(batch: &'a RecordBatch, name: &str) -> Result<&'a ArrayRef, ArrowError> {
    batch
        .column_by_name(name)
        .ok_or_else(|| ArrowError::SchemaError(format!("no column {name}")))
}

fn lit(v: &ScalarValue) -> Result<arrow_array::Scalar<ArrayRef>, ArrowError> {
    v.to_scalar().map_err(|e| ArrowError::ComputeError(e.to_string()))
}

fn nulls(n: usize) -> BooleanArray {
    BooleanArray::new_null(n)
}

fn cmp(col: &ArrayRef, op: CmpOp, v: &ScalarValue) -> Result<BooleanArray, ArrowError> {
    if v.is_null() {
        return Ok(nulls(col.len()));
    }
    let l = lit(v)?;
    match op {
        CmpOp::Eq => arrow_ord::cmp::eq(col, &l),
        CmpOp::NotEq => arrow_ord::cmp::neq(col, &l),
        CmpOp::Lt => arrow_ord::cmp::lt(col, &l),
        CmpOp::LtEq => arrow_ord::cmp::lt_eq(col, &l),
        CmpOp::Gt => arrow_ord::cmp::gt(col, &l),
        CmpOp::GtEq => arrow_ord::cmp::gt_eq(col, &l),
    }
}

fn eval(expr: &Expr, batch: &RecordBatch) -> Result<BooleanArray, ArrowError> {
    use arrow_arith::boolean::{and_kleene, not, or_kleene};
    let n = batch.num_rows();
    Ok(match expr {
        Expr::True => BooleanArray::from(vec![true; n]),
        Expr::False => BooleanArray::from(vec![false; n]),
        Expr::Cmp { column: c, op, value } => cmp(column(batch, c)?, *op, value)?,
        Expr::Between { column: c, low, high, inclusive } => {
            let col = column(batch, c)?;
            let (lo, hi) = if *inclusive {
                (CmpOp::GtEq, CmpOp::LtEq)
            } else {
                (CmpOp::Gt, CmpOp::Lt)
            };
            and_kleene(&cmp(col, lo, low)?, &cmp(col, hi, high)?)?
        }
        Expr::InList { column: c, values } => {
            let col = column(batch, c)?;
            let mut acc = BooleanArray::from(vec![false; n]);
            for v in values {
                acc = or_kleene(&acc, &cmp(col, CmpOp::Eq, v)?)?;
            }
            acc
        }
        Expr::BloomFilterEq { .. } | Expr::BloomFilterInList { .. } => {
            BooleanArray::from(vec![true; n])
        }
        Expr::StartsWith { column: c, prefix } => {
            let col = column(batch, c)?;
            let l = ScalarValue::Utf8(Some(prefix.clone()))
                .cast_to(col.data_type())
                .map_err(|e| ArrowError::ComputeError(e.to_string()))?;
            arrow_string::like::starts_with(col, &lit(&l)?)?
        }
        Expr::IsNull { column: c, negated } => {
            let col = column(batch, c)?;
            if *negated {
                arrow_arith::boolean::is_not_null(col)?
            } else {
                arrow_arith::boolean::is_null(col)?
            }
        }
        Expr::And(parts) => {
            let mut acc = BooleanArray::from(vec![true; n]);
            for p in parts {
                acc = and_kleene(&acc, &eval(p, batch)?)?;
            }
            acc
        }
        Expr::Or(parts) => {
            let mut acc = BooleanArray::from(vec![false; n]);
            for p in parts {
                acc = or_kleene(&acc, &eval(p, batch)?)?;
            }
            acc
        }
        Expr::Not(c) => not(&eval(c, batch)?)?,
    })
}
