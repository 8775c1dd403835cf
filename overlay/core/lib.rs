use crate::constants::MAX_CODEPOINT;
use core::fmt;
use std::str::FromStr;

mod categories;
mod constants;
mod error;
mod intervals;
mod intervalset;
mod query;
mod tables;
pub use crate::{
    categories::{as_general_categories, UnicodeCategory, UnicodeCategorySet},
    error::Error,
    intervalset::{Codepoints, IntervalSet},
};

#[cfg(feature = "__benchmark_internals")]
pub mod internals {
    pub mod categories {
        pub use crate::categories::merge;
    }
    pub mod intervals {
        pub use crate::intervals::{from_str, merge, subtract};
    }
    pub mod query {
        pub use crate::query::{intervals_for_set, query};
    }
}
pub type Interval = (u32, u32);
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub enum UnicodeVersion {
    V9_0_0,
    V10_0_0,
    V11_0_0,
    V12_0_0,
    V12_1_0,
    V13_0_0,
    V14_0_0,
    V15_0_0,
    V15_1_0,
    V16_0_0,
    V17_0_0,
}

impl fmt::Display for UnicodeVersion {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result
    /*@ ensures crate::shim::wrote(old(f), final(f), ret, version_name(*self)), @*/
    {
        f.write_str(self.as_str())
    }
}

impl FromStr for UnicodeVersion {
    type Err = Error;

    fn from_str(s: &str) -> Result<Self, Self::Err>
    /*@
        ensures
            (match ret {
                Ok(v) => s@ == version_name(v),
                Err(e) => e is InvalidVersion && e->InvalidVersion_0@ == s@ && (forall|v: UnicodeVersion| s@ != #[trigger] version_name(v)),
            }),
    @*/
    {
        /*@ proof { crate::shim::lemma_str_eq(); } @*/
        match s {
            "9.0.0" => Ok(UnicodeVersion::V9_0_0),
            "10.0.0" => Ok(UnicodeVersion::V10_0_0),
            "11.0.0" => Ok(UnicodeVersion::V11_0_0),
            "12.0.0" => Ok(UnicodeVersion::V12_0_0),
            "12.1.0" => Ok(UnicodeVersion::V12_1_0),
            "13.0.0" => Ok(UnicodeVersion::V13_0_0),
            "14.0.0" => Ok(UnicodeVersion::V14_0_0),
            "15.0.0" => Ok(UnicodeVersion::V15_0_0),
            "15.1.0" => Ok(UnicodeVersion::V15_1_0),
            "16.0.0" => Ok(UnicodeVersion::V16_0_0),
            "17.0.0" => Ok(UnicodeVersion::V17_0_0),
            _ => Err(Error::InvalidVersion(s.to_string().into_boxed_str())),
        }
    }
}

impl UnicodeVersion {
    pub const ALL: [UnicodeVersion; 11]
    /*@ ensures Self::ALL@ == all_versions(), @*/
    = [
        UnicodeVersion::V9_0_0,
        UnicodeVersion::V10_0_0,
        UnicodeVersion::V11_0_0,
        UnicodeVersion::V12_0_0,
        UnicodeVersion::V12_1_0,
        UnicodeVersion::V13_0_0,
        UnicodeVersion::V14_0_0,
        UnicodeVersion::V15_0_0,
        UnicodeVersion::V15_1_0,
        UnicodeVersion::V16_0_0,
        UnicodeVersion::V17_0_0,
    ];
    pub const fn as_str(self) -> &'static str
    /*@ ensures ret@ == version_name(self), @*/
    {
        match self {
            UnicodeVersion::V9_0_0 => "9.0.0",
            UnicodeVersion::V10_0_0 => "10.0.0",
            UnicodeVersion::V11_0_0 => "11.0.0",
            UnicodeVersion::V12_0_0 => "12.0.0",
            UnicodeVersion::V12_1_0 => "12.1.0",
            UnicodeVersion::V13_0_0 => "13.0.0",
            UnicodeVersion::V14_0_0 => "14.0.0",
            UnicodeVersion::V15_0_0 => "15.0.0",
            UnicodeVersion::V15_1_0 => "15.1.0",
            UnicodeVersion::V16_0_0 => "16.0.0",
            UnicodeVersion::V17_0_0 => "17.0.0",
        }
    }
    pub const fn latest() -> UnicodeVersion
    /*@ ensures ret == all_versions().last(), @*/
    {
        UnicodeVersion::V17_0_0
    }
    pub const fn table(self) -> &'static [&'static [Interval]]
    /*@ ensures ret@ == tab(self), @*/
    {
        /*@ proof { reveal(tab); } @*/
        match self {
            UnicodeVersion::V9_0_0 => tables::v9_0_0::BY_NAME,
            UnicodeVersion::V10_0_0 => tables::v10_0_0::BY_NAME,
            UnicodeVersion::V11_0_0 => tables::v11_0_0::BY_NAME,
            UnicodeVersion::V12_0_0 => tables::v12_0_0::BY_NAME,
            UnicodeVersion::V12_1_0 => tables::v12_1_0::BY_NAME,
            UnicodeVersion::V13_0_0 => tables::v13_0_0::BY_NAME,
            UnicodeVersion::V14_0_0 => tables::v14_0_0::BY_NAME,
            UnicodeVersion::V15_0_0 => tables::v15_0_0::BY_NAME,
            UnicodeVersion::V15_1_0 => tables::v15_1_0::BY_NAME,
            UnicodeVersion::V16_0_0 => tables::v16_0_0::BY_NAME,
            UnicodeVersion::V17_0_0 => tables::v17_0_0::BY_NAME,
        }
    }
    pub const fn intervals_for(self, category: UnicodeCategory) -> &'static [Interval]
    /*@ ensures ret@ == tab(self)[cid(category)]@, canonical(ret@), below(ret@, maxc()), @*/
    {
        /*@ proof { lemma_tables(self); lemma_cat_at(); } @*/
        self.table()[category as usize]
    }
    /*@ #[verifier::loop_isolation(true)] @*/
    pub const fn normalized_categories(self) -> [UnicodeCategory; 30]
    /*@ ensures normalized(self, ret@), @*/
    {
        /*@ proof { lemma_tables(self); lemma_cat_at(); } @*/
        let mut keyed: [(UnicodeCategory, usize); 30] = [(UnicodeCategory::Cc, 0); 30];
        let table = self.table();
        let mut idx = 0;
        while idx < table.len()
        /*@
            invariant
                table_wf(table@), table@ == tab(self), idx <= 30,
                forall|k: int| 0 <= k < idx ==> #[trigger] keyed@[k] == (cat_at(k), key_of(self, cat_at(k)) as usize),
            decreases 30 - idx,
        @*/
        {
            /*@ proof { lemma_cat_at(); lemma_key(self, cat_at(idx as int)); } @*/
            if let Some(category) = UnicodeCategory::from_index(idx as u8) {
                keyed[idx] = (
                    category,
                    table[idx].len() * 30 + category.abbrev_rank() as usize,
                );
            }
            idx += 1;
        }
        /*@ proof { lemma_keyed_init(self, keyed@); } @*/
        loop
        /*@
            invariant keyed_ok(self, keyed@),
            
            ensures forall|k: int| 1 <= k < 30 ==> (#[trigger] keyed@[k - 1]).1 <= keyed@[k].1,
            decreases key_bound() - wsum(keyed@, 30),
        @*/
        {
            let mut swapped = false;
            let mut idx = 1;
            /*@ let ghost keyed0 = keyed@; @*/
            while idx < keyed.len()
            /*@
                invariant
                    keyed_ok(self, keyed@), 1 <= idx <= 30, wsum(keyed0, 30) <= wsum(keyed@, 30),
                    swapped ==> wsum(keyed0, 30) < wsum(keyed@, 30),
                    !swapped ==> forall|k: int| 1 <= k < idx ==> (#[trigger] keyed@[k - 1]).1 <= keyed@[k].1,
                decreases 30 - idx,
            @*/
            {
                /*@ let ghost k0 = keyed@; @*/
                let (lcat, lkey) = keyed[idx - 1];
                let (rcat, rkey) = keyed[idx];
                if lkey > rkey {
                    keyed[idx - 1] = (rcat, rkey);
                    keyed[idx] = (lcat, lkey);
                    swapped = true;
                    /*@< proof { lemma_swap(self, k0, keyed@, idx as int); } @*/
                }
                idx += 1;
            }
            /*@ proof { lemma_wsum_bound(self, keyed@); } @*/
            if !swapped {
                break;
            }
        }
        let mut output = [UnicodeCategory::Cc; 30];
        output[29] = UnicodeCategory::Cs;
        let mut idx = 0;
        let mut ptr = 0;
        /*@ let ghost (pc, ps) = (pos_of(keyed@, UnicodeCategory::Cc), pos_of(keyed@, UnicodeCategory::Cs));
            proof {
                assert(has_cat(keyed@, UnicodeCategory::Cc) && has_cat(keyed@, UnicodeCategory::Cs));
                lemma_sorted(keyed@);
                lemma_cat_at();
            } @*/
        while idx < keyed.len()
        /*@
            invariant
                keyed_ok(self, keyed@), idx <= 30,
                0 <= pc < 30, 0 <= ps < 30, pc != ps, keyed@[pc].0 is Cc, keyed@[ps].0 is Cs,
                ptr == idx - (if pc < idx { 1int } else { 0int }) - (if ps < idx { 1int } else { 0int }),
                output@.len() == 30, output@[28] is Cc, output@[29] is Cs,
                forall|a: int| 0 <= a < ptr ==> out_from(keyed@, idx as int, #[trigger] output@[a]),
                forall|a: int, b: int| 0 <= a < b < ptr ==> out_order(keyed@, #[trigger] output@[a], #[trigger] output@[b]),
                forall|k: int| 0 <= k < idx && !(keyed@[k].0 is Cc) && !(keyed@[k].0 is Cs) ==> in_out(output@, ptr as int, (#[trigger] keyed@[k]).0),
            decreases 30 - idx,
        @*/
        {
            /*@ let ghost (out0, ptr0) = (output@, ptr as int);
                proof { lemma_cat_at(); assert(forall|k: int| 0 <= k < 30 && k != idx ==> (#[trigger] keyed@[k]).0 != keyed@[idx as int].0); } @*/
            let (category, _) = keyed[idx];
            if category as u8 != UnicodeCategory::Cc as u8
                && category as u8 != UnicodeCategory::Cs as u8
            {
                output[ptr] = category;
                ptr += 1;
                /*@< proof { lemma_out_step(keyed@, idx as int, out0, output@, ptr0); } @*/
            }
            idx += 1;
        }
        /*@ proof { lemma_out_done(self, keyed@, output@, pc, ps); } @*/
        output
    }
    pub fn query<'a>(self) -> IntervalQuery<'a>
    /*@ ensures ret.settings() == default_settings(self), @*/
    {
        IntervalQuery::new(self)
    }

    fn intervals_impl(
        self,
        include_categories: Option<UnicodeCategorySet>,
        exclude_categories: UnicodeCategorySet,
        include_characters: Option<&str>,
        exclude_characters: Option<&str>,
        min_codepoint: u32,
        max_codepoint: u32,
    ) -> Result<Vec<Interval>, Error>
    /*@
        ensures answer(Settings { version: self, include_categories, exclude_categories: Some(exclude_categories), include_characters: opt_text(include_characters),
            exclude_characters: opt_text(exclude_characters), min: min_codepoint, max: max_codepoint }, ret),
    @*/
    {
        /*@ proof { reveal_strlit(""); lemma_opt_text(); } @*/
        if min_codepoint > MAX_CODEPOINT || max_codepoint > MAX_CODEPOINT {
            return Err(Error::CodepointNotInRange(min_codepoint, max_codepoint));
        }
        if min_codepoint > max_codepoint {
            return Err(Error::InvalidCodepoints(min_codepoint, max_codepoint));
        }
        Ok(query::query(
            self,
            include_categories,
            exclude_categories,
            include_characters.unwrap_or(""),
            exclude_characters.unwrap_or(""),
            min_codepoint,
            max_codepoint,
        ))
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct IntervalQuery<'a> {
    version: UnicodeVersion,
    include_categories: Option<UnicodeCategorySet>,
    exclude_categories: Option<UnicodeCategorySet>,
    include_characters: Option<&'a str>,
    exclude_characters: Option<&'a str>,
    min_codepoint: u32,
    max_codepoint: u32,
}

/*@
impl vstd::std_specs::cmp::PartialEqSpecImpl for UnicodeVersion {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &UnicodeVersion) -> bool { *self == *o }
}

/// the settings of a query
pub ghost struct Settings {
    pub version: UnicodeVersion,
    pub include_categories: Option<UnicodeCategorySet>,
    pub exclude_categories: Option<UnicodeCategorySet>,
    pub include_characters: Option<Seq<char>>,
    pub exclude_characters: Option<Seq<char>>,
    pub min: u32,
    pub max: u32,
}

pub open spec fn opt_text(s: Option<&str>) -> Option<Seq<char>> {
    match s { Some(t) => Some(t@), None => None }
}

pub proof fn lemma_opt_text()
    ensures ""@ == Seq::<char>::empty(), forall|c: int| !str_has(Seq::<char>::empty(), c),
{
    reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
}

pub open spec fn text_or_empty(s: Option<Seq<char>>) -> Seq<char> {
    match s { Some(t) => t, None => Seq::empty() }
}

/// membership in the answer to the query
pub open spec fn wanted(q: Settings, c: int) -> bool {
    let cat = exists|k: UnicodeCategory| (q.include_categories is None || q.include_categories->0.has(k))
        && (q.exclude_categories is None || !q.exclude_categories->0.has(k)) && #[trigger] cat_has(q.version, k, c);
    ((cat && q.min <= c <= q.max) || str_has(text_or_empty(q.include_characters), c)) && !str_has(text_or_empty(q.exclude_characters), c)
}

/// the outcome of a query: exact validation, then the canonical intervals of exactly the wanted code points
pub open spec fn answer(q: Settings, r: Result<Vec<Interval>, Error>) -> bool {
    if q.min > maxc() || q.max > maxc() { r == Err::<Vec<Interval>, Error>(Error::CodepointNotInRange(q.min, q.max)) }
    else if q.min > q.max { r == Err::<Vec<Interval>, Error>(Error::InvalidCodepoints(q.min, q.max)) }
    else {
        r is Ok && canonical(r->Ok_0@) && below(r->Ok_0@, maxc()) && forall|c: int| #![trigger cov(r->Ok_0@, c)] cov(r->Ok_0@, c) <==> wanted(q, c)
    }
}

pub open spec fn default_settings(v: UnicodeVersion) -> Settings {
    Settings { version: v, include_categories: None, exclude_categories: None, include_characters: None, exclude_characters: None, min: 0, max: 0x10ffff }
}

impl<'a> IntervalQuery<'a> {
    pub closed spec fn settings(&self) -> Settings {
        Settings { version: self.version, include_categories: self.include_categories, exclude_categories: self.exclude_categories,
            include_characters: opt_text(self.include_characters), exclude_characters: opt_text(self.exclude_characters),
            min: self.min_codepoint, max: self.max_codepoint }
    }
}
@*/

impl<'a> IntervalQuery<'a> {
    fn new(version: UnicodeVersion) -> IntervalQuery<'a>
    /*@ ensures ret.settings() == default_settings(version), @*/
    {
        IntervalQuery {
            version,
            include_categories: None,
            exclude_categories: None,
            include_characters: None,
            exclude_characters: None,
            min_codepoint: 0,
            max_codepoint: MAX_CODEPOINT,
        }
    }
    pub fn include_categories(
        mut self,
        include_categories: impl Into<Option<UnicodeCategorySet>>,
    ) -> IntervalQuery<'a>
    /*@
        requires call_requires(<__T0 as Into<Option<UnicodeCategorySet>>>::into, (include_categories,)),
        ensures exists|v: Option<UnicodeCategorySet>| #[trigger] call_ensures(<__T0 as Into<Option<UnicodeCategorySet>>>::into, (include_categories,), v)
            && ret.settings() == (Settings { include_categories: v, ..self.settings() }),
    @*/
    {
        self.include_categories = include_categories.into();
        self
    }
    pub fn exclude_categories(
        mut self,
        exclude_categories: impl Into<Option<UnicodeCategorySet>>,
    ) -> IntervalQuery<'a>
    /*@
        requires call_requires(<__T0 as Into<Option<UnicodeCategorySet>>>::into, (exclude_categories,)),
        ensures exists|v: Option<UnicodeCategorySet>| #[trigger] call_ensures(<__T0 as Into<Option<UnicodeCategorySet>>>::into, (exclude_categories,), v)
            && ret.settings() == (Settings { exclude_categories: v, ..self.settings() }),
    @*/
    {
        self.exclude_categories = exclude_categories.into();
        self
    }
    pub fn include_characters(mut self, include_characters: &'a str) -> IntervalQuery<'a>
    /*@ ensures ret.settings() == (Settings { include_characters: Some(include_characters@), ..self.settings() }), @*/
    {
        self.include_characters = Some(include_characters);
        self
    }
    pub fn exclude_characters(mut self, exclude_characters: &'a str) -> IntervalQuery<'a>
    /*@ ensures ret.settings() == (Settings { exclude_characters: Some(exclude_characters@), ..self.settings() }), @*/
    {
        self.exclude_characters = Some(exclude_characters);
        self
    }
    pub fn min_codepoint(mut self, min_codepoint: u32) -> IntervalQuery<'a>
    /*@ ensures ret.settings() == (Settings { min: min_codepoint, ..self.settings() }), @*/
    {
        self.min_codepoint = min_codepoint;
        self
    }
    pub fn max_codepoint(mut self, max_codepoint: u32) -> IntervalQuery<'a>
    /*@ ensures ret.settings() == (Settings { max: max_codepoint, ..self.settings() }), @*/
    {
        self.max_codepoint = max_codepoint;
        self
    }
    pub fn intervals(&self) -> Result<Vec<Interval>, Error>
    /*@ ensures answer(self.settings(), ret), @*/
    {
        let exclude_categories = self.exclude_categories.unwrap_or_default();
        self.version.intervals_impl(
            self.include_categories,
            exclude_categories,
            self.include_characters,
            self.exclude_characters,
            self.min_codepoint,
            self.max_codepoint,
        )
    }
    pub fn interval_set(&self) -> Result<IntervalSet, Error>
    /*@ ensures exists|r: Result<Vec<Interval>, Error>| #[trigger] answer(self.settings(), r) && (match ret {
            Ok(s) => r is Ok && s.ivs() == r->Ok_0@,
            Err(e) => r == Err::<Vec<Interval>, Error>(e),
        }),
    @*/
    {
        Ok(IntervalSet::new(self.intervals()?))
    }
}
pub fn query<'a>() -> IntervalQuery<'a>
/*@ ensures ret.settings() == default_settings(all_versions().last()), @*/
{
    UnicodeVersion::latest().query()
}

/*@
pub open spec fn version_name(v: UnicodeVersion) -> Seq<char> {
    match v {
        UnicodeVersion::V9_0_0 => "9.0.0"@,
        UnicodeVersion::V10_0_0 => "10.0.0"@,
        UnicodeVersion::V11_0_0 => "11.0.0"@,
        UnicodeVersion::V12_0_0 => "12.0.0"@,
        UnicodeVersion::V12_1_0 => "12.1.0"@,
        UnicodeVersion::V13_0_0 => "13.0.0"@,
        UnicodeVersion::V14_0_0 => "14.0.0"@,
        UnicodeVersion::V15_0_0 => "15.0.0"@,
        UnicodeVersion::V15_1_0 => "15.1.0"@,
        UnicodeVersion::V16_0_0 => "16.0.0"@,
        UnicodeVersion::V17_0_0 => "17.0.0"@,
    }
}

/// oldest to newest
pub open spec fn all_versions() -> Seq<UnicodeVersion> {
    seq![UnicodeVersion::V9_0_0, UnicodeVersion::V10_0_0, UnicodeVersion::V11_0_0, UnicodeVersion::V12_0_0, UnicodeVersion::V12_1_0, UnicodeVersion::V13_0_0, UnicodeVersion::V14_0_0, UnicodeVersion::V15_0_0, UnicodeVersion::V15_1_0, UnicodeVersion::V16_0_0, UnicodeVersion::V17_0_0]
}

pub proof fn lemma_all_versions()
    ensures forall|v: UnicodeVersion| #![trigger version_name(v)] 0 <= (v as int) < 11 && all_versions()[v as int] == v, all_versions().len() == 11,
{
}

// ---- the normalized order

/// more intervals, or as many and a later abbreviation: later in the order
pub open spec fn key_of(v: UnicodeVersion, c: UnicodeCategory) -> int { tab(v)[cid(c)]@.len() * 30 + cat_rank(c) }

pub open spec fn before(v: UnicodeVersion, a: UnicodeCategory, b: UnicodeCategory) -> bool {
    let (m, n) = (tab(v)[cid(a)]@.len(), tab(v)[cid(b)]@.len());
    m < n || (m == n && cat_rank(a) < cat_rank(b))
}

pub open spec fn listed(s: Seq<UnicodeCategory>, c: UnicodeCategory) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c
}

/// the documented total order of the 30 categories
pub open spec fn normalized(v: UnicodeVersion, s: Seq<UnicodeCategory>) -> bool {
    &&& s.len() == 30
    &&& s[28] is Cc && s[29] is Cs
    &&& forall|c: UnicodeCategory| #[trigger] listed(s, c)
    &&& forall|i: int, j: int| 0 <= i < j < 30 ==> #[trigger] s[i] != #[trigger] s[j]
    &&& forall|i: int, j: int| 0 <= i < j < 28 ==> before(v, #[trigger] s[i], #[trigger] s[j])
}

pub open spec fn key_max() -> int { (0x110000 * 30 + 29) as int }
pub open spec fn key_bound() -> int { 900 * key_max() }

pub proof fn lemma_rank()
    ensures
        forall|a: UnicodeCategory| 0 <= #[trigger] cat_rank(a) < 30,
        forall|a: UnicodeCategory, b: UnicodeCategory| #[trigger] cat_rank(a) == #[trigger] cat_rank(b) ==> a == b,
{
}

pub proof fn lemma_key(v: UnicodeVersion, c: UnicodeCategory)
    ensures 0 <= key_of(v, c) <= key_max(), tab(v)[cid(c)]@.len() <= 0x110000,
{
    lemma_tables(v);
    lemma_cat_at();
    lemma_rank();
    let t = tab(v)[cid(c)]@;
    assert(cat_at(cid(c)) == c);
    lemma_psum_bound(t, t.len() as int);
    assert(0 <= cat_rank(c) < 30);
}

pub open spec fn has_cat(s: Seq<(UnicodeCategory, usize)>, c: UnicodeCategory) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == c
}

pub open spec fn pos_of(s: Seq<(UnicodeCategory, usize)>, c: UnicodeCategory) -> int {
    choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == c
}

/// each category once, with its key
pub open spec fn keyed_ok(v: UnicodeVersion, s: Seq<(UnicodeCategory, usize)>) -> bool {
    &&& s.len() == 30
    &&& forall|i: int| 0 <= i < 30 ==> (#[trigger] s[i]).1 == key_of(v, s[i].0)
    &&& forall|i: int, j: int| 0 <= i < j < 30 ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|c: UnicodeCategory| #[trigger] has_cat(s, c)
}

pub proof fn lemma_keyed_init(v: UnicodeVersion, s: Seq<(UnicodeCategory, usize)>)
    requires s.len() == 30, forall|k: int| 0 <= k < 30 ==> #[trigger] s[k] == (cat_at(k), key_of(v, cat_at(k)) as usize),
    ensures keyed_ok(v, s),
{
    lemma_cat_at();
    assert forall|i: int| 0 <= i < 30 implies (#[trigger] s[i]).1 == key_of(v, s[i].0) by { lemma_key(v, cat_at(i)); }
    assert forall|i: int, j: int| 0 <= i < j < 30 implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by {
        assert(cat_at(i) as int == i && cat_at(j) as int == j);
    }
    assert forall|c: UnicodeCategory| #[trigger] has_cat(s, c) by {
        assert(cat_at(cid(c)) == c);
        assert(s[c as int].0 == c);
    }
}

/// a weight that every swap of the sort increases
pub open spec fn wsum(s: Seq<(UnicodeCategory, usize)>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { wsum(s, n - 1) + (n - 1) * (s[n - 1].1 as int) }
}

pub proof fn lemma_wsum_frame(a: Seq<(UnicodeCategory, usize)>, b: Seq<(UnicodeCategory, usize)>, n: int)
    requires 0 <= n <= a.len(), a.len() == b.len(), forall|k: int| 0 <= k < n ==> #[trigger] a[k] == b[k],
    ensures wsum(a, n) == wsum(b, n),
    decreases n,
{
    if n > 0 { lemma_wsum_frame(a, b, n - 1); assert(a[n - 1] == b[n - 1]); }
}

pub proof fn lemma_wsum_swap(a: Seq<(UnicodeCategory, usize)>, b: Seq<(UnicodeCategory, usize)>, idx: int, n: int)
    requires 1 <= idx < n <= a.len(), a.len() == b.len(), b == a.update(idx - 1, a[idx]).update(idx, a[idx - 1]), a[idx - 1].1 > a[idx].1,
    ensures wsum(b, n) > wsum(a, n),
    decreases n,
{
    if idx < n - 1 {
        lemma_wsum_swap(a, b, idx, n - 1);
    } else {
        lemma_wsum_frame(a, b, idx - 1);
        let (l, r) = (a[idx - 1].1 as int, a[idx].1 as int);
        assert(wsum(a, n) == wsum(a, idx - 1) + (idx - 1) * l + idx * r) by { assert(wsum(a, idx) == wsum(a, idx - 1) + (idx - 1) * l); }
        assert(wsum(b, n) == wsum(b, idx - 1) + (idx - 1) * r + idx * l) by { assert(wsum(b, idx) == wsum(b, idx - 1) + (idx - 1) * r); }
        assert((idx - 1) * r + idx * l == (idx - 1) * l + idx * r + (l - r)) by (nonlinear_arith);
    }
}

pub proof fn lemma_swap(v: UnicodeVersion, a: Seq<(UnicodeCategory, usize)>, b: Seq<(UnicodeCategory, usize)>, idx: int)
    requires keyed_ok(v, a), 1 <= idx < 30, b =~= a.update(idx - 1, a[idx]).update(idx, a[idx - 1]), a[idx - 1].1 > a[idx].1,
    ensures keyed_ok(v, b), wsum(b, 30) > wsum(a, 30),
{
    lemma_wsum_swap(a, b, idx, 30);
    assert forall|c: UnicodeCategory| #[trigger] has_cat(b, c) by {
        assert(has_cat(a, c));
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == c;
        let j = if i == idx { idx - 1 } else if i == idx - 1 { idx } else { i };
        assert(b[j].0 == c);
    }
}

/// exchanging two elements keeps the contents
pub proof fn lemma_swap_any(v: UnicodeVersion, a: Seq<(UnicodeCategory, usize)>, b: Seq<(UnicodeCategory, usize)>, x: int, y: int)
    requires keyed_ok(v, a), 0 <= x < 30, 0 <= y < 30, b =~= a.update(x, a[y]).update(y, a[x]),
    ensures keyed_ok(v, b),
{
    assert forall|c: UnicodeCategory| #[trigger] has_cat(b, c) by {
        assert(has_cat(a, c));
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == c;
        let j = if i == x { y } else if i == y { x } else { i };
        assert(b[j].0 == c);
    }
}

pub proof fn lemma_wsum_bound_to(v: UnicodeVersion, s: Seq<(UnicodeCategory, usize)>, n: int)
    requires keyed_ok(v, s), 0 <= n <= 30,
    ensures 0 <= wsum(s, n) <= n * (30 * key_max()),
    decreases n,
{
    if n > 0 {
        lemma_wsum_bound_to(v, s, n - 1);
        lemma_key(v, s[n - 1].0);
        let k = s[n - 1].1 as int;
        let m = key_max();
        assert(0 <= (n - 1) * k <= 30 * m) by (nonlinear_arith) requires 1 <= n <= 30, 0 <= k <= m;
        assert((n - 1) * (30 * m) + 30 * m == n * (30 * m)) by (nonlinear_arith);
    }
}

pub proof fn lemma_wsum_bound(v: UnicodeVersion, s: Seq<(UnicodeCategory, usize)>)
    requires keyed_ok(v, s),
    ensures wsum(s, 30) <= key_bound(),
{
    lemma_wsum_bound_to(v, s, 30);
}

pub proof fn lemma_sorted(s: Seq<(UnicodeCategory, usize)>)
    requires s.len() == 30, forall|k: int| 1 <= k < 30 ==> (#[trigger] s[k - 1]).1 <= s[k].1,
    ensures forall|i: int, j: int| 0 <= i < j < 30 ==> (#[trigger] s[i]).1 <= (#[trigger] s[j]).1,
{
    assert forall|i: int, j: int| 0 <= i < j < 30 implies (#[trigger] s[i]).1 <= (#[trigger] s[j]).1 by { lemma_sorted_to(s, i, j); }
}

pub proof fn lemma_sorted_to(s: Seq<(UnicodeCategory, usize)>, i: int, j: int)
    requires s.len() == 30, forall|k: int| 1 <= k < 30 ==> (#[trigger] s[k - 1]).1 <= s[k].1, 0 <= i < j < 30,
    ensures s[i].1 <= s[j].1,
    decreases j,
{
    assert(s[j - 1].1 <= s[j].1);
    if i < j - 1 { lemma_sorted_to(s, i, j - 1); }
}

/// `c` stands before position `n` of the sorted list and is not one of the two last categories
pub open spec fn out_from(s: Seq<(UnicodeCategory, usize)>, n: int, c: UnicodeCategory) -> bool {
    !(c is Cc) && !(c is Cs) && exists|k: int| 0 <= k < n && k < s.len() && (#[trigger] s[k]).0 == c
}

pub open spec fn out_order(s: Seq<(UnicodeCategory, usize)>, a: UnicodeCategory, b: UnicodeCategory) -> bool {
    exists|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).0 == a && (#[trigger] s[j]).0 == b
}

pub open spec fn in_out(o: Seq<UnicodeCategory>, n: int, c: UnicodeCategory) -> bool {
    exists|a: int| 0 <= a < n && a < o.len() && #[trigger] o[a] == c
}

pub proof fn lemma_out_step(s: Seq<(UnicodeCategory, usize)>, idx: int, o0: Seq<UnicodeCategory>, o: Seq<UnicodeCategory>, p: int)
    requires
        s.len() == 30, 0 <= idx < 30, o0.len() == 30, 0 <= p < 28, o =~= o0.update(p, s[idx].0), !(s[idx].0 is Cc), !(s[idx].0 is Cs),
        forall|a: int| 0 <= a < p ==> out_from(s, idx, #[trigger] o0[a]),
        forall|a: int, b: int| 0 <= a < b < p ==> out_order(s, #[trigger] o0[a], #[trigger] o0[b]),
        forall|k: int| 0 <= k < idx && !(s[k].0 is Cc) && !(s[k].0 is Cs) ==> in_out(o0, p, (#[trigger] s[k]).0),
    ensures
        forall|a: int| 0 <= a < p + 1 ==> out_from(s, idx + 1, #[trigger] o[a]),
        forall|a: int, b: int| 0 <= a < b < p + 1 ==> out_order(s, #[trigger] o[a], #[trigger] o[b]),
        forall|k: int| 0 <= k < idx + 1 && !(s[k].0 is Cc) && !(s[k].0 is Cs) ==> in_out(o, p + 1, (#[trigger] s[k]).0),
{
    assert forall|a: int| 0 <= a < p + 1 implies out_from(s, idx + 1, #[trigger] o[a]) by {
        if a < p { assert(out_from(s, idx, o0[a])); } else { assert(s[idx].0 == o[a]); }
    }
    assert forall|a: int, b: int| 0 <= a < b < p + 1 implies out_order(s, #[trigger] o[a], #[trigger] o[b]) by {
        if b < p { assert(out_order(s, o0[a], o0[b])); } else {
            assert(out_from(s, idx, o0[a]));
            let k = choose|k: int| 0 <= k < idx && k < s.len() && (#[trigger] s[k]).0 == o0[a];
            assert(s[k].0 == o[a] && s[idx].0 == o[b]);
        }
    }
    assert forall|k: int| 0 <= k < idx + 1 && !(s[k].0 is Cc) && !(s[k].0 is Cs) implies in_out(o, p + 1, (#[trigger] s[k]).0) by {
        if k < idx {
            assert(in_out(o0, p, s[k].0));
            let a = choose|a: int| 0 <= a < p && a < o0.len() && #[trigger] o0[a] == s[k].0;
            assert(o[a] == s[k].0);
        } else { assert(o[p] == s[k].0); }
    }
}

pub proof fn lemma_out_done(v: UnicodeVersion, s: Seq<(UnicodeCategory, usize)>, o: Seq<UnicodeCategory>, pc: int, ps: int)
    requires
        keyed_ok(v, s), o.len() == 30, o[28] is Cc, o[29] is Cs,
        forall|i: int, j: int| 0 <= i < j < 30 ==> (#[trigger] s[i]).1 <= (#[trigger] s[j]).1,
        forall|a: int| 0 <= a < 28 ==> out_from(s, 30, #[trigger] o[a]),
        forall|a: int, b: int| 0 <= a < b < 28 ==> out_order(s, #[trigger] o[a], #[trigger] o[b]),
        forall|k: int| 0 <= k < 30 && !(s[k].0 is Cc) && !(s[k].0 is Cs) ==> in_out(o, 28, (#[trigger] s[k]).0),
    ensures normalized(v, o),
{
    lemma_rank();
    assert forall|c: UnicodeCategory| #[trigger] listed(o, c) by {
        if c is Cc { assert(o[28] == c); } else if c is Cs { assert(o[29] == c); } else {
            assert(has_cat(s, c));
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == c;
            assert(in_out(o, 28, s[i].0));
        }
    }
    assert forall|a: int, b: int| 0 <= a < b < 28 implies before(v, #[trigger] o[a], #[trigger] o[b]) && o[a] != o[b] by {
        assert(out_order(s, o[a], o[b]));
        let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).0 == o[a] && (#[trigger] s[j]).0 == o[b];
        assert(s[i].0 != s[j].0);
        assert(s[i].1 <= s[j].1);
        assert(key_of(v, o[a]) <= key_of(v, o[b]));
    }
    assert forall|i: int, j: int| 0 <= i < j < 30 implies #[trigger] o[i] != #[trigger] o[j] by {
        if j < 28 { assert(before(v, o[i], o[j])); assert(out_order(s, o[i], o[j])); }
        else if i < 28 { assert(out_from(s, 30, o[i])); }
    }
}
@*/

/*@
/// printing has no precondition
impl vstd::std_specs::fmt::DisplaySpecImpl for UnicodeVersion { open spec fn fmt_req(&self, f: &core::fmt::Formatter<'_>) -> bool { true } }
@*/
