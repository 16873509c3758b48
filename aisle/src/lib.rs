//! Offline stand-in for the `aisle` crate (github.com/tonbo-io/aisle), which cannot be
//! fetched in this sandbox.  It implements the part of the API tonbo uses, with the
//! contract a pruning library has to honour: pruning never drops a row group or page
//! that may contain a matching row, and `RowFilter` keeps exactly the rows for which the
//! predicate is TRUE under SQL three-valued logic.

mod expr;
mod prune;
mod row_filter;

pub use expr::{CmpOp, Expr};
pub use prune::{AsyncBloomFilterProvider, PruneError, PruneRequest, PruneResult, Pruner};
pub use row_filter::RowFilter;
