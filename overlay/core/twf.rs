//! What well-formed table data is.
use vstd::prelude::*;
use crate::spec::*;

verus! {

pub open spec fn some_cov(t: Seq<&'static [(u32, u32)]>, c: int) -> bool {
    exists|i: int| 0 <= i < 30 && #[trigger] cov(t[i]@, c)
}

/// 30 canonical lists that split the code space among them
pub open spec fn table_wf(t: Seq<&'static [(u32, u32)]>) -> bool {
    &&& t.len() == 30
    &&& forall|i: int| 0 <= i < 30 ==> canonical((#[trigger] t[i])@) && below(t[i]@, maxc()) && t[i]@.len() > 0
    &&& forall|c: int| 0 <= c <= maxc() ==> #[trigger] some_cov(t, c)
    &&& forall|i: int, j: int, c: int| 0 <= i < j < 30 && #[trigger] cov(t[i]@, c) ==> !#[trigger] cov(t[j]@, c)
}

}
