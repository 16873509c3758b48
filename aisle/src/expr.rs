use datafusion_common::ScalarValue;

/// Comparison operators.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum CmpOp {
    Eq,
    NotEq,
    Lt,
    LtEq,
    Gt,
    GtEq,
}

/// Predicate IR (non-exhaustive, as upstream: callers carry a `_` arm).
#[non_exhaustive]
#[derive(Debug, Clone, PartialEq)]
pub enum Expr {
    True,
    False,
    Cmp { column: String, op: CmpOp, value: ScalarValue },
    Between { column: String, low: ScalarValue, high: ScalarValue, inclusive: bool },
    InList { column: String, values: Vec<ScalarValue> },
    BloomFilterEq { column: String, value: ScalarValue },
    BloomFilterInList { column: String, values: Vec<ScalarValue> },
    StartsWith { column: String, prefix: String },
    IsNull { column: String, negated: bool },
    And(Vec<Expr>),
    Or(Vec<Expr>),
    Not(Box<Expr>),
}

impl Expr {
    fn cmp(column: impl Into<String>, op: CmpOp, value: ScalarValue) -> Self {
        Expr::Cmp { column: column.into(), op, value }
    }
    pub fn eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Eq, value)
    }
    pub fn not_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::NotEq, value)
    }
    pub fn lt(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Lt, value)
    }
    pub fn lt_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::LtEq, value)
    }
    pub fn gt(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Gt, value)
    }
    pub fn gt_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::GtEq, value)
    }
    pub fn between(
        column: impl Into<String>,
        low: ScalarValue,
        high: ScalarValue,
        inclusive: bool,
    ) -> Self {
        Expr::Between { column: column.into(), low, high, inclusive }
    }
    pub fn in_list(column: impl Into<String>, values: Vec<ScalarValue>) -> Self {
        Expr::InList { column: column.into(), values }
    }
    pub fn starts_with(column: impl Into<String>, prefix: impl Into<String>) -> Self {
        Expr::StartsWith { column: column.into(), prefix: prefix.into() }
    }
    pub fn is_null(column: impl Into<String>) -> Self {
        Expr::IsNull { column: column.into(), negated: false }
    }
    pub fn is_not_null(column: impl Into<String>) -> Self {
        Expr::IsNull { column: column.into(), negated: true }
    }
    pub fn and(parts: Vec<Expr>) -> Self {
        Expr::And(parts)
    }
    pub fn or(parts: Vec<Expr>) -> Self {
        Expr::Or(parts)
    }
    #[allow(clippy::should_implement_trait)]
    pub fn not(child: Expr) -> Self {
        Expr::Not(Box::new(child))
    }

    pub(crate) fn columns(&self, out: &mut Vec<String>) {
        match self {
            Expr::True | Expr::False => {}
            Expr::Cmp { column, .. }
            | Expr::Between { column, .. }
            | Expr::InList { column, .. }
            | Expr::BloomFilterEq { column, .. }
            | Expr::BloomFilterInList { column, .. }
            | Expr::StartsWith { column, .. }
            | Expr::IsNull { column, .. } => {
                if !out.contains(column) {
                    out.push(column.clone());
                }
            }
            Expr::And(c) | Expr::Or(c) => c.iter().for_each(|e| e.columns(out)),
            Expr::Not(c) => c.columns(out),
        }
    }
}
