//! The table data as the contracts see it.
use vstd::prelude::*;
use crate::spec::*;
use crate::twf::*;
use crate::{Interval, UnicodeVersion, tables};

verus! {

#[verifier::opaque]
/// the data of a version: one list of intervals per category
pub open spec fn tab(v: UnicodeVersion) -> Seq<&'static [Interval]> {
    match v {
        UnicodeVersion::V9_0_0 => tables::v9_0_0::BY_NAME@,
        UnicodeVersion::V10_0_0 => tables::v10_0_0::BY_NAME@,
        UnicodeVersion::V11_0_0 => tables::v11_0_0::BY_NAME@,
        UnicodeVersion::V12_0_0 => tables::v12_0_0::BY_NAME@,
        UnicodeVersion::V12_1_0 => tables::v12_1_0::BY_NAME@,
        UnicodeVersion::V13_0_0 => tables::v13_0_0::BY_NAME@,
        UnicodeVersion::V14_0_0 => tables::v14_0_0::BY_NAME@,
        UnicodeVersion::V15_0_0 => tables::v15_0_0::BY_NAME@,
        UnicodeVersion::V15_1_0 => tables::v15_1_0::BY_NAME@,
        UnicodeVersion::V16_0_0 => tables::v16_0_0::BY_NAME@,
        UnicodeVersion::V17_0_0 => tables::v17_0_0::BY_NAME@,
    }
}

/// discharged on every run by the verified checker of table data, executed on the tables of the tree
#[verifier::external_body]
pub proof fn axiom_tables(v: UnicodeVersion)
    ensures table_wf(tab(v)),
{
}

pub proof fn lemma_tables(v: UnicodeVersion)
    ensures table_wf(tab(v)),
{
    axiom_tables(v);
}

pub proof fn lemma_tables_each()
    ensures
        forall|v: UnicodeVersion| table_wf(#[trigger] tab(v)),
        tab(UnicodeVersion::V9_0_0) == tables::v9_0_0::BY_NAME@,
        tab(UnicodeVersion::V10_0_0) == tables::v10_0_0::BY_NAME@,
        tab(UnicodeVersion::V11_0_0) == tables::v11_0_0::BY_NAME@,
        tab(UnicodeVersion::V12_0_0) == tables::v12_0_0::BY_NAME@,
        tab(UnicodeVersion::V12_1_0) == tables::v12_1_0::BY_NAME@,
        tab(UnicodeVersion::V13_0_0) == tables::v13_0_0::BY_NAME@,
        tab(UnicodeVersion::V14_0_0) == tables::v14_0_0::BY_NAME@,
        tab(UnicodeVersion::V15_0_0) == tables::v15_0_0::BY_NAME@,
        tab(UnicodeVersion::V15_1_0) == tables::v15_1_0::BY_NAME@,
        tab(UnicodeVersion::V16_0_0) == tables::v16_0_0::BY_NAME@,
        tab(UnicodeVersion::V17_0_0) == tables::v17_0_0::BY_NAME@,
{
    reveal(tab);
    lemma_tables_all();
}

pub proof fn lemma_tables_all()
    ensures forall|v: UnicodeVersion| table_wf(#[trigger] tab(v)),
{
    assert forall|v: UnicodeVersion| table_wf(#[trigger] tab(v)) by { axiom_tables(v); }
}

}
