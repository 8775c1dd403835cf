use crate::{constants::ALL_CATEGORIES, error};
use core::{
    fmt,
    ops::{BitOr, BitOrAssign},
    str::FromStr,
};
use UnicodeCategory::*;
#[derive(Debug, Eq, PartialEq, Copy, Clone, Hash)]
pub enum UnicodeCategory {
    Pe,
    Pc,
    Cc,
    Sc,
    Pd,
    Nd,
    Me,
    Pf,
    Cf,
    Pi,
    Nl,
    Zl,
    Ll,
    Sm,
    Lm,
    Sk,
    Mn,
    Ps,
    Lo,
    No,
    Po,
    So,
    Zp,
    Co,
    Zs,
    Mc,
    Cs,
    Lt,
    Cn,
    Lu,
}

impl FromStr for UnicodeCategory {
    type Err = error::Error;

    fn from_str(s: &str) -> Result<Self, Self::Err>
    /*@
        ensures
            (match ret {
                Ok(c) => s@ == cat_name(c),
                Err(e) => e is InvalidCategory && e->InvalidCategory_0@ == s@ && (forall|c: UnicodeCategory| s@ != #[trigger] cat_name(c)),
            }),
    @*/
    {
        /*@ proof { crate::shim::lemma_str_eq(); lemma_names_of(s@); } @*/
        Ok(match s {
            "Pe" => Pe,
            "Pc" => Pc,
            "Cc" => Cc,
            "Sc" => Sc,
            "Pd" => Pd,
            "Nd" => Nd,
            "Me" => Me,
            "Pf" => Pf,
            "Cf" => Cf,
            "Pi" => Pi,
            "Nl" => Nl,
            "Zl" => Zl,
            "Ll" => Ll,
            "Sm" => Sm,
            "Lm" => Lm,
            "Sk" => Sk,
            "Mn" => Mn,
            "Ps" => Ps,
            "Lo" => Lo,
            "No" => No,
            "Po" => Po,
            "So" => So,
            "Zp" => Zp,
            "Co" => Co,
            "Zs" => Zs,
            "Mc" => Mc,
            "Cs" => Cs,
            "Lt" => Lt,
            "Cn" => Cn,
            "Lu" => Lu,
            _ => return Err(Self::Err::InvalidCategory(s.to_owned().into_boxed_str())),
        })
    }
}

impl UnicodeCategory {
    pub const L: UnicodeCategorySet
    /*@ ensures forall|c: UnicodeCategory| #[trigger] Self::L.has(c) <==> in_group_L(c), @*/
     =  /*@ broadcast use crate::bits::group_bits; @*/ UnicodeCategorySet(
        1 << Ll as u32 | 1 << Lm as u32 | 1 << Lo as u32 | 1 << Lt as u32 | 1 << Lu as u32,
    );
    pub const M: UnicodeCategorySet
    /*@ ensures forall|c: UnicodeCategory| #[trigger] Self::M.has(c) <==> in_group_M(c), @*/
     =
         /*@ broadcast use crate::bits::group_bits; @*/ UnicodeCategorySet(1 << Mc as u32 | 1 << Me as u32 | 1 << Mn as u32);
    pub const N: UnicodeCategorySet
    /*@ ensures forall|c: UnicodeCategory| #[trigger] Self::N.has(c) <==> in_group_N(c), @*/
     =
         /*@ broadcast use crate::bits::group_bits; @*/ UnicodeCategorySet(1 << Nd as u32 | 1 << Nl as u32 | 1 << No as u32);
    pub const P: UnicodeCategorySet
    /*@ ensures forall|c: UnicodeCategory| #[trigger] Self::P.has(c) <==> in_group_P(c), @*/
     =  /*@ broadcast use crate::bits::group_bits; @*/ UnicodeCategorySet(
        1 << Pc as u32
            | 1 << Pd as u32
            | 1 << Pe as u32
            | 1 << Pf as u32
            | 1 << Pi as u32
            | 1 << Po as u32
            | 1 << Ps as u32,
    );
    pub const S: UnicodeCategorySet
    /*@ ensures forall|c: UnicodeCategory| #[trigger] Self::S.has(c) <==> in_group_S(c), @*/
     =
         /*@ broadcast use crate::bits::group_bits; @*/ UnicodeCategorySet(1 << Sc as u32 | 1 << Sk as u32 | 1 << Sm as u32 | 1 << So as u32);
    pub const Z: UnicodeCategorySet
    /*@ ensures forall|c: UnicodeCategory| #[trigger] Self::Z.has(c) <==> in_group_Z(c), @*/
     =
         /*@ broadcast use crate::bits::group_bits; @*/ UnicodeCategorySet(1 << Zp as u32 | 1 << Zs as u32 | 1 << Zl as u32);
    pub const C: UnicodeCategorySet
    /*@ ensures forall|c: UnicodeCategory| #[trigger] Self::C.has(c) <==> in_group_C(c), @*/
     =  /*@ broadcast use crate::bits::group_bits; @*/ UnicodeCategorySet(
        1 << Cc as u32 | 1 << Cf as u32 | 1 << Cn as u32 | 1 << Co as u32 | 1 << Cs as u32,
    );
    pub const CLOSE_PUNCTUATION: UnicodeCategory = Pe;
    pub const CONNECTOR_PUNCTUATION: UnicodeCategory = Pc;
    pub const CONTROL: UnicodeCategory = Cc;
    pub const CURRENCY_SYMBOL: UnicodeCategory = Sc;
    pub const DASH_PUNCTUATION: UnicodeCategory = Pd;
    pub const DECIMAL_NUMBER: UnicodeCategory = Nd;
    pub const ENCLOSING_MARK: UnicodeCategory = Me;
    pub const FINAL_PUNCTUATION: UnicodeCategory = Pf;
    pub const FORMAT: UnicodeCategory = Cf;
    pub const INITIAL_PUNCTUATION: UnicodeCategory = Pi;
    pub const LETTER_NUMBER: UnicodeCategory = Nl;
    pub const LINE_SEPARATOR: UnicodeCategory = Zl;
    pub const LOWERCASE_LETTER: UnicodeCategory = Ll;
    pub const MATH_SYMBOL: UnicodeCategory = Sm;
    pub const MODIFIER_LETTER: UnicodeCategory = Lm;
    pub const MODIFIER_SYMBOL: UnicodeCategory = Sk;
    pub const NONSPACING_MARK: UnicodeCategory = Mn;
    pub const OPEN_PUNCTUATION: UnicodeCategory = Ps;
    pub const OTHER_LETTER: UnicodeCategory = Lo;
    pub const OTHER_NUMBER: UnicodeCategory = No;
    pub const OTHER_PUNCTUATION: UnicodeCategory = Po;
    pub const OTHER_SYMBOL: UnicodeCategory = So;
    pub const PARAGRAPH_SEPARATOR: UnicodeCategory = Zp;
    pub const PRIVATE_USE: UnicodeCategory = Co;
    pub const SPACE_SEPARATOR: UnicodeCategory = Zs;
    pub const SPACING_MARK: UnicodeCategory = Mc;
    pub const SURROGATE: UnicodeCategory = Cs;
    pub const TITLECASE_LETTER: UnicodeCategory = Lt;
    pub const UNASSIGNED: UnicodeCategory = Cn;
    pub const UPPERCASE_LETTER: UnicodeCategory = Lu;
    pub(crate) const fn from_index(index: u8) -> Option<UnicodeCategory>
    /*@ ensures ret == if index < 30 { Some(cat_at(index as int)) } else { None }, @*/
    {
        Some(match index {
            0 => Pe,
            1 => Pc,
            2 => Cc,
            3 => Sc,
            4 => Pd,
            5 => Nd,
            6 => Me,
            7 => Pf,
            8 => Cf,
            9 => Pi,
            10 => Nl,
            11 => Zl,
            12 => Ll,
            13 => Sm,
            14 => Lm,
            15 => Sk,
            16 => Mn,
            17 => Ps,
            18 => Lo,
            19 => No,
            20 => Po,
            21 => So,
            22 => Zp,
            23 => Co,
            24 => Zs,
            25 => Mc,
            26 => Cs,
            27 => Lt,
            28 => Cn,
            29 => Lu,
            _ => return None,
        })
    }
    pub(crate) const fn abbrev_rank(self) -> u8
    /*@ ensures ret == cat_rank(self), ret < 30, @*/
    {
        match self {
            Cc => 0,
            Cf => 1,
            Cn => 2,
            Co => 3,
            Cs => 4,
            Ll => 5,
            Lm => 6,
            Lo => 7,
            Lt => 8,
            Lu => 9,
            Mc => 10,
            Me => 11,
            Mn => 12,
            Nd => 13,
            Nl => 14,
            No => 15,
            Pc => 16,
            Pd => 17,
            Pe => 18,
            Pf => 19,
            Pi => 20,
            Po => 21,
            Ps => 22,
            Sc => 23,
            Sk => 24,
            Sm => 25,
            So => 26,
            Zl => 27,
            Zp => 28,
            Zs => 29,
        }
    }
    pub const fn as_str(self) -> &'static str
    /*@ ensures ret@ == cat_name(self), @*/
    {
        match self {
            Pe => "Pe",
            Pc => "Pc",
            Cc => "Cc",
            Sc => "Sc",
            Pd => "Pd",
            Nd => "Nd",
            Me => "Me",
            Pf => "Pf",
            Cf => "Cf",
            Pi => "Pi",
            Nl => "Nl",
            Zl => "Zl",
            Ll => "Ll",
            Sm => "Sm",
            Lm => "Lm",
            Sk => "Sk",
            Mn => "Mn",
            Ps => "Ps",
            Lo => "Lo",
            No => "No",
            Po => "Po",
            So => "So",
            Zp => "Zp",
            Co => "Co",
            Zs => "Zs",
            Mc => "Mc",
            Cs => "Cs",
            Lt => "Lt",
            Cn => "Cn",
            Lu => "Lu",
        }
    }
}

/*@
/// the category at a table position
pub open spec fn cat_at(i: int) -> UnicodeCategory {
    if i == 0 { UnicodeCategory::Pe }
    else if i == 1 { UnicodeCategory::Pc }
    else if i == 2 { UnicodeCategory::Cc }
    else if i == 3 { UnicodeCategory::Sc }
    else if i == 4 { UnicodeCategory::Pd }
    else if i == 5 { UnicodeCategory::Nd }
    else if i == 6 { UnicodeCategory::Me }
    else if i == 7 { UnicodeCategory::Pf }
    else if i == 8 { UnicodeCategory::Cf }
    else if i == 9 { UnicodeCategory::Pi }
    else if i == 10 { UnicodeCategory::Nl }
    else if i == 11 { UnicodeCategory::Zl }
    else if i == 12 { UnicodeCategory::Ll }
    else if i == 13 { UnicodeCategory::Sm }
    else if i == 14 { UnicodeCategory::Lm }
    else if i == 15 { UnicodeCategory::Sk }
    else if i == 16 { UnicodeCategory::Mn }
    else if i == 17 { UnicodeCategory::Ps }
    else if i == 18 { UnicodeCategory::Lo }
    else if i == 19 { UnicodeCategory::No }
    else if i == 20 { UnicodeCategory::Po }
    else if i == 21 { UnicodeCategory::So }
    else if i == 22 { UnicodeCategory::Zp }
    else if i == 23 { UnicodeCategory::Co }
    else if i == 24 { UnicodeCategory::Zs }
    else if i == 25 { UnicodeCategory::Mc }
    else if i == 26 { UnicodeCategory::Cs }
    else if i == 27 { UnicodeCategory::Lt }
    else if i == 28 { UnicodeCategory::Cn }
    else { UnicodeCategory::Lu }
}

/// the number of a category
pub open spec fn cid(c: UnicodeCategory) -> int { c as int }

/// the bit of a category
pub open spec fn cbit(b: u32, c: UnicodeCategory) -> bool { bit(b, cid(c) as u32) }

pub proof fn lemma_cat_at()
    ensures
        forall|i: int| 0 <= i < 30 ==> #[trigger] cat_at(i) as int == i,
        forall|c: UnicodeCategory| cat_at(#[trigger] cid(c)) == c && cid(c) == c as int && 0 <= cid(c) < 30,
{
}

/// the two-letter name Unicode gives the category
pub open spec fn cat_name(c: UnicodeCategory) -> Seq<char> {
    match c {
        UnicodeCategory::Pe => "Pe"@,
        UnicodeCategory::Pc => "Pc"@,
        UnicodeCategory::Cc => "Cc"@,
        UnicodeCategory::Sc => "Sc"@,
        UnicodeCategory::Pd => "Pd"@,
        UnicodeCategory::Nd => "Nd"@,
        UnicodeCategory::Me => "Me"@,
        UnicodeCategory::Pf => "Pf"@,
        UnicodeCategory::Cf => "Cf"@,
        UnicodeCategory::Pi => "Pi"@,
        UnicodeCategory::Nl => "Nl"@,
        UnicodeCategory::Zl => "Zl"@,
        UnicodeCategory::Ll => "Ll"@,
        UnicodeCategory::Sm => "Sm"@,
        UnicodeCategory::Lm => "Lm"@,
        UnicodeCategory::Sk => "Sk"@,
        UnicodeCategory::Mn => "Mn"@,
        UnicodeCategory::Ps => "Ps"@,
        UnicodeCategory::Lo => "Lo"@,
        UnicodeCategory::No => "No"@,
        UnicodeCategory::Po => "Po"@,
        UnicodeCategory::So => "So"@,
        UnicodeCategory::Zp => "Zp"@,
        UnicodeCategory::Co => "Co"@,
        UnicodeCategory::Zs => "Zs"@,
        UnicodeCategory::Mc => "Mc"@,
        UnicodeCategory::Cs => "Cs"@,
        UnicodeCategory::Lt => "Lt"@,
        UnicodeCategory::Cn => "Cn"@,
        UnicodeCategory::Lu => "Lu"@,
    }
}

/// position of the category's name in alphabetical order
pub open spec fn cat_rank(c: UnicodeCategory) -> int {
    match c {
        UnicodeCategory::Pe => 18,
        UnicodeCategory::Pc => 16,
        UnicodeCategory::Cc => 0,
        UnicodeCategory::Sc => 23,
        UnicodeCategory::Pd => 17,
        UnicodeCategory::Nd => 13,
        UnicodeCategory::Me => 11,
        UnicodeCategory::Pf => 19,
        UnicodeCategory::Cf => 1,
        UnicodeCategory::Pi => 20,
        UnicodeCategory::Nl => 14,
        UnicodeCategory::Zl => 27,
        UnicodeCategory::Ll => 5,
        UnicodeCategory::Sm => 25,
        UnicodeCategory::Lm => 6,
        UnicodeCategory::Sk => 24,
        UnicodeCategory::Mn => 12,
        UnicodeCategory::Ps => 22,
        UnicodeCategory::Lo => 7,
        UnicodeCategory::No => 15,
        UnicodeCategory::Po => 21,
        UnicodeCategory::So => 26,
        UnicodeCategory::Zp => 28,
        UnicodeCategory::Co => 3,
        UnicodeCategory::Zs => 29,
        UnicodeCategory::Mc => 10,
        UnicodeCategory::Cs => 4,
        UnicodeCategory::Lt => 8,
        UnicodeCategory::Cn => 2,
        UnicodeCategory::Lu => 9,
    }
}

/// all names are listed by `cat_name`
pub proof fn lemma_names_of(s: Seq<char>)
    ensures (exists|c: UnicodeCategory| s == #[trigger] cat_name(c)) <==> (s == "Pe"@ || s == "Pc"@ || s == "Cc"@ || s == "Sc"@ || s == "Pd"@ || s == "Nd"@ || s == "Me"@ || s == "Pf"@ || s == "Cf"@ || s == "Pi"@ || s == "Nl"@ || s == "Zl"@ || s == "Ll"@ || s == "Sm"@ || s == "Lm"@ || s == "Sk"@ || s == "Mn"@ || s == "Ps"@ || s == "Lo"@ || s == "No"@ || s == "Po"@ || s == "So"@ || s == "Zp"@ || s == "Co"@ || s == "Zs"@ || s == "Mc"@ || s == "Cs"@ || s == "Lt"@ || s == "Cn"@ || s == "Lu"@),
{
    if s == "Pe"@ { assert(s == cat_name(UnicodeCategory::Pe)); }
    if s == "Pc"@ { assert(s == cat_name(UnicodeCategory::Pc)); }
    if s == "Cc"@ { assert(s == cat_name(UnicodeCategory::Cc)); }
    if s == "Sc"@ { assert(s == cat_name(UnicodeCategory::Sc)); }
    if s == "Pd"@ { assert(s == cat_name(UnicodeCategory::Pd)); }
    if s == "Nd"@ { assert(s == cat_name(UnicodeCategory::Nd)); }
    if s == "Me"@ { assert(s == cat_name(UnicodeCategory::Me)); }
    if s == "Pf"@ { assert(s == cat_name(UnicodeCategory::Pf)); }
    if s == "Cf"@ { assert(s == cat_name(UnicodeCategory::Cf)); }
    if s == "Pi"@ { assert(s == cat_name(UnicodeCategory::Pi)); }
    if s == "Nl"@ { assert(s == cat_name(UnicodeCategory::Nl)); }
    if s == "Zl"@ { assert(s == cat_name(UnicodeCategory::Zl)); }
    if s == "Ll"@ { assert(s == cat_name(UnicodeCategory::Ll)); }
    if s == "Sm"@ { assert(s == cat_name(UnicodeCategory::Sm)); }
    if s == "Lm"@ { assert(s == cat_name(UnicodeCategory::Lm)); }
    if s == "Sk"@ { assert(s == cat_name(UnicodeCategory::Sk)); }
    if s == "Mn"@ { assert(s == cat_name(UnicodeCategory::Mn)); }
    if s == "Ps"@ { assert(s == cat_name(UnicodeCategory::Ps)); }
    if s == "Lo"@ { assert(s == cat_name(UnicodeCategory::Lo)); }
    if s == "No"@ { assert(s == cat_name(UnicodeCategory::No)); }
    if s == "Po"@ { assert(s == cat_name(UnicodeCategory::Po)); }
    if s == "So"@ { assert(s == cat_name(UnicodeCategory::So)); }
    if s == "Zp"@ { assert(s == cat_name(UnicodeCategory::Zp)); }
    if s == "Co"@ { assert(s == cat_name(UnicodeCategory::Co)); }
    if s == "Zs"@ { assert(s == cat_name(UnicodeCategory::Zs)); }
    if s == "Mc"@ { assert(s == cat_name(UnicodeCategory::Mc)); }
    if s == "Cs"@ { assert(s == cat_name(UnicodeCategory::Cs)); }
    if s == "Lt"@ { assert(s == cat_name(UnicodeCategory::Lt)); }
    if s == "Cn"@ { assert(s == cat_name(UnicodeCategory::Cn)); }
    if s == "Lu"@ { assert(s == cat_name(UnicodeCategory::Lu)); }
}

pub open spec fn in_group_L(c: UnicodeCategory) -> bool { c is Ll || c is Lm || c is Lo || c is Lt || c is Lu }
pub open spec fn in_group_M(c: UnicodeCategory) -> bool { c is Me || c is Mn || c is Mc }
pub open spec fn in_group_N(c: UnicodeCategory) -> bool { c is Nd || c is Nl || c is No }
pub open spec fn in_group_P(c: UnicodeCategory) -> bool { c is Pe || c is Pc || c is Pd || c is Pf || c is Pi || c is Ps || c is Po }
pub open spec fn in_group_S(c: UnicodeCategory) -> bool { c is Sc || c is Sm || c is Sk || c is So }
pub open spec fn in_group_Z(c: UnicodeCategory) -> bool { c is Zl || c is Zp || c is Zs }
pub open spec fn in_group_C(c: UnicodeCategory) -> bool { c is Cc || c is Cf || c is Co || c is Cs || c is Cn }

/// the categories a query draws from
pub open spec fn effective(include: Option<UnicodeCategorySet>, exclude: UnicodeCategorySet, c: UnicodeCategory) -> bool {
    (include is None || include->0.has(c)) && !exclude.has(c)
}

/// members with index below `n`, by increasing index
pub open spec fn items_of(b: u32, n: int) -> Seq<UnicodeCategory>
    decreases n,
{
    if n <= 0 { Seq::empty() }
    else if bit(b, (n - 1) as u32) { items_of(b, n - 1).push(cat_at(n - 1)) }
    else { items_of(b, n - 1) }
}

pub proof fn lemma_len_to(b: u32, n: int)
    requires 0 <= n <= 32,
    ensures card(b, n) == items_of(b, n).len() <= n,
    decreases n,
{
    if n > 0 { lemma_len_to(b, n - 1); }
}

pub proof fn lemma_len(b: u32)
    requires b < 0x4000_0000,
    ensures card(b, 32) == items_of(b, 30).len() <= 30,
{
    lemma_len_to(b, 32);
    lemma_len_to(b, 30);
    lemma_small(b, 30);
    lemma_small(b, 31);
    assert(items_of(b, 32) == items_of(b, 31));
}

pub proof fn lemma_no_items(b: u32)
    requires b < 0x4000_0000,
    ensures items_of(b, 30).len() == 0 <==> b == 0,
{
    lemma_items(b, 30);
    lemma_none(b);
    lemma_cat_at();
    if b != 0 {
        let c = choose|c: UnicodeCategory| cbit(b, c);
        assert(items_of(b, 30).contains(c));
    } else if items_of(b, 30).len() != 0 {
        assert(items_of(b, 30).contains(items_of(b, 30)[0]));
    }
}

pub proof fn lemma_none(b: u32)
    requires b < 0x4000_0000,
    ensures b == 0 <==> (forall|c: UnicodeCategory| !cbit(b, c)),
{
    broadcast use crate::bits::group_bits;
    lemma_cat_at();
    if forall|c: UnicodeCategory| !cbit(b, c) {
        assert forall|j: u32| j < 32 implies bit(b, j) == bit(0u32, j) by {
            if j < 30 { assert(cat_at(j as int) as int == j); assert(!cbit(b, cat_at(j as int))); }
        }
        lemma_ext(b, 0u32);
    }
}

pub proof fn lemma_is_set(b: u32, i: u8)
    requires i < 32,
    ensures (b & (1u32 << i) != 0) == bit(b, i as u32), ((b >> i) & 1 == 1) == bit(b, i as u32), ((b >> i) & 1 != 0) == bit(b, i as u32),
{
    assert(i < 32 ==> (b & (1u32 << i) != 0) == ((b >> (i as u32)) & 1 == 1)) by (bit_vector);
    assert(i < 32 ==> ((b >> i) & 1 != 0) == ((b >> (i as u32)) & 1 == 1)) by (bit_vector);
    assert(i < 32 ==> ((b >> i) & 1 == 1) == ((b >> (i as u32)) & 1 == 1)) by (bit_vector);
}

/// the members are listed once each, by increasing index
pub proof fn lemma_items(b: u32, n: int)
    requires 0 <= n <= 30,
    ensures
        forall|c: UnicodeCategory| #![trigger items_of(b, n).contains(c)] #![trigger cbit(b, c)]
            items_of(b, n).contains(c) <==> (c as int) < n && cbit(b, c),
        forall|i: int| 0 <= i < items_of(b, n).len() ==> ((#[trigger] items_of(b, n)[i]) as int) < n && cbit(b, items_of(b, n)[i]),
        forall|i: int, j: int| 0 <= i < j < items_of(b, n).len() ==> ((#[trigger] items_of(b, n)[i]) as int) < ((#[trigger] items_of(b, n)[j]) as int),
    decreases n,
{
    lemma_cat_at();
    if n > 0 {
        lemma_items(b, n - 1);
        assert(cat_at(n - 1) as int == n - 1);
        let s = items_of(b, n);
        let t = items_of(b, n - 1);
        assert forall|c: UnicodeCategory| #![trigger s.contains(c)] s.contains(c) <==> (c as int) < n && cbit(b, c) by {
            if bit(b, (n - 1) as u32) {
                assert(s == t.push(cat_at(n - 1)));
                if s.contains(c) {
                    let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
                    if i < t.len() { assert(t[i] == c); assert(t.contains(c)); }
                }
                if (c as int) < n && cbit(b, c) {
                    if c as int == n - 1 { assert(c == cat_at(n - 1)); assert(s[t.len() as int] == c); }
                    else { assert(t.contains(c)); let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(s[i] == c); }
                }
            } else {
                assert(s == t);
                if (c as int) < n && cbit(b, c) { assert(c as int != n - 1); }
            }
        }
    }
}

/// removing the lowest member removes the first item
pub proof fn lemma_next_to(b: u32, k: u32, n: int)
    requires
        0 <= n <= 32, k < 32, bit(b, k), forall|j: u32| j < k ==> !bit(b, j),
    ensures
        n <= k ==> items_of(b, n) == Seq::<UnicodeCategory>::empty() && items_of(b & !(1u32 << k), n) == Seq::<UnicodeCategory>::empty(),
        n > k ==> items_of(b, n).len() > 0 && items_of(b, n)[0] == cat_at(k as int) && items_of(b & !(1u32 << k), n) =~= items_of(b, n).drop_first(),
    decreases n,
{
    broadcast use crate::bits::group_bits;
    if n > 0 {
        lemma_next_to(b, k, n - 1);
        let j = (n - 1) as u32;
        assert(bit(b & !(1u32 << k), j) == (bit(b, j) && j != k));
    }
}

pub proof fn lemma_next(b: u32)
    requires b < 0x4000_0000,
    ensures ({
        let k = vstd::std_specs::bits::u32_trailing_zeros(b);
        let k8 = k as u8;
        let b2 = b & !(1u32 << k8);
        &&& b == 0 ==> k == 32 && items_of(b, 30) == Seq::<UnicodeCategory>::empty() && forall|c: UnicodeCategory| !cbit(b, c)
        &&& b != 0 ==> k < 30 && k8 == k && items_of(b, 30).len() > 0 && items_of(b, 30)[0] == cat_at(k as int)
            && items_of(b2, 30) == items_of(b, 30).drop_first()
            && bit(b, k) && (cat_at(k as int) as u32) == k
            && forall|c: UnicodeCategory| #![trigger cbit(b2, c)] cbit(b2, c) <==> cbit(b, c) && c != cat_at(k as int)
    }),
{
    broadcast use crate::bits::group_bits;
    broadcast use vstd::std_specs::bits::axiom_u32_trailing_zeros;
    let k = vstd::std_specs::bits::u32_trailing_zeros(b);
    let k8 = k as u8;
    lemma_cat_at();
    lemma_none(b);
    if b == 0 {
        lemma_items(b, 30);
        let s = items_of(b, 30);
        if s.len() > 0 { assert(s.contains(s[0])); }
        assert(s =~= Seq::<UnicodeCategory>::empty());
    } else {
        assert(bit(b, k));
        assert(forall|j: u32| j < k ==> !bit(b, j));
        if k >= 30 { lemma_small(b, k); }
        assert(k < 30 ==> (1u32 << (k as u8)) == (1u32 << k)) by (bit_vector);
        assert(1u32 << k8 == 1u32 << k);
        lemma_next_to(b, k, 30);
        assert(cat_at(k as int) as int == k);
    }
}

/// `sep`-joined names of the first `n` items, with a separator after each but the last of all
pub open spec fn joined_upto(s: Seq<UnicodeCategory>, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { Seq::empty() }
    else { joined_upto(s, n - 1) + cat_name(s[n - 1]) + (if n < s.len() { ", "@ } else { Seq::empty() }) }
}

/// names of the first `n` items, with a separator before each but the first
pub open spec fn joined_before(s: Seq<UnicodeCategory>, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { Seq::empty() }
    else { joined_before(s, n - 1) + (if n > 1 { ", "@ } else { Seq::empty() }) + cat_name(s[n - 1]) }
}

pub proof fn lemma_joined_before(s: Seq<UnicodeCategory>, n: int)
    requires 0 <= n <= s.len(),
    ensures joined_upto(s, n) =~= joined_before(s, n) + (if 0 < n < s.len() { ", "@ } else { Seq::empty() }),
    decreases n,
{
    if n > 0 { lemma_joined_before(s, n - 1); }
}

pub open spec fn joined(s: Seq<UnicodeCategory>) -> Seq<char> { joined_upto(s, s.len() as int) }
@*/

impl fmt::Display for UnicodeCategory {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result
    /*@ ensures crate::shim::wrote(old(f), final(f), ret, cat_name(*self)), @*/
    {
        f.write_str(self.as_str())
    }
}
#[derive(Debug, Copy, Clone, Hash, PartialEq, Eq)]
pub struct UnicodeCategorySet(u32);

/*@
impl vstd::std_specs::cmp::PartialEqSpecImpl for UnicodeCategory {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &UnicodeCategory) -> bool { *self == *o }
}

impl vstd::std_specs::cmp::PartialEqSpecImpl for UnicodeCategorySet {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &UnicodeCategorySet) -> bool { *self == *o }
}

impl UnicodeCategorySet {
    /// only the 30 category bits are ever set
    #[verifier::type_invariant]
    spec fn wf(self) -> bool { self.0 < 0x4000_0000 }

    /// the raw bits
    pub closed spec fn bits(self) -> u32 { self.0 }

    /// membership
    pub open spec fn has(self, c: UnicodeCategory) -> bool { cbit(self.bits(), c) }

    pub proof fn lemma_wf(tracked self)
        ensures self.bits() < 0x4000_0000,
    {
        use_type_invariant(self);
    }

    /// equal values are exactly the sets with the same members
    pub proof fn lemma_ext(a: Self, b: Self)
        requires a.bits() < 0x4000_0000, b.bits() < 0x4000_0000, forall|c: UnicodeCategory| a.has(c) <==> b.has(c),
        ensures a == b,
    {
        broadcast use crate::bits::group_bits;
        assert forall|j: u32| j < 32 implies bit(a.bits(), j) == bit(b.bits(), j) by {
            if j < 30 {
                lemma_cat_at();
                assert(cat_at(j as int) as u32 == j);
                assert(a.has(cat_at(j as int)) == b.has(cat_at(j as int)));
            }
        }
        lemma_ext(a.bits(), b.bits());
    }
}
@*/

impl UnicodeCategorySet {
    pub const fn new() -> Self
    /*@ ensures ret.bits() == 0, forall|c: UnicodeCategory| !#[trigger] ret.has(c), @*/
    {
        /*@ broadcast use crate::bits::group_bits; @*/
        Self(0)
    }
    pub const fn all() -> Self
    /*@ ensures ret.bits() == 0x3fff_ffff, forall|c: UnicodeCategory| #[trigger] ret.has(c), @*/
    {
        /*@ proof { lemma_cat_at(); } broadcast use crate::bits::group_bits; @*/
        Self(ALL_CATEGORIES)
    }
    pub(crate) const fn from_value_unchecked(value: u32) -> Self
    /*@ requires value < 0x4000_0000, ensures ret.bits() == value, @*/
    {
        Self(value)
    }
    pub fn add(&mut self, category: UnicodeCategory)
    /*@ ensures forall|c: UnicodeCategory| #[trigger] final(self).has(c) <==> old(self).has(c) || c == category, @*/
    {
        /*@ proof { lemma_cat_at(); } broadcast use crate::bits::group_bits; @*/
        self.set(category as u8);
    }
    pub fn remove(&mut self, category: UnicodeCategory)
    /*@ ensures forall|c: UnicodeCategory| #[trigger] final(self).has(c) <==> old(self).has(c) && c != category, @*/
    {
        /*@ proof { lemma_cat_at(); } broadcast use crate::bits::group_bits; @*/
        self.unset(category as u8);
    }
    pub const fn contains(self, category: UnicodeCategory) -> bool
    /*@ ensures ret == self.has(category), @*/
    {
        /*@ proof { lemma_cat_at(); } @*/
        self.is_set(category as u8)
    }
    pub const fn len(self) -> usize
    /*@ ensures ret == items_of(self.bits(), 30).len(), ret <= 30, ret == 0 <==> (forall|c: UnicodeCategory| !#[trigger] self.has(c)), @*/
    {
        /*@ proof {
            use_type_invariant(self); lemma_len(self.0); lemma_items(self.0, 30); lemma_none(self.0);
            assert(forall|c: UnicodeCategory| #[trigger] cbit(self.0, c) == self.has(c));
            lemma_no_items(self.0);
        } @*/
        self.0.count_ones() as usize
    }
    pub const fn is_empty(self) -> bool
    /*@ ensures ret <==> forall|c: UnicodeCategory| !#[trigger] self.has(c), @*/
    {
        /*@ proof {
            use_type_invariant(self);
            lemma_none(self.0);
            assert(forall|c: UnicodeCategory| #[trigger] cbit(self.0, c) == self.has(c));
        } @*/
        self.0 == 0
    }
    pub const fn into_value(self) -> u32
    /*@ ensures ret == self.bits(), ret < 0x4000_0000, @*/
    {
        /*@ proof { use_type_invariant(self); } @*/
        self.0
    }
    pub const fn iter(self) -> Iter
    /*@ ensures ret.items() == items_of(self.bits(), 30), ret.set() == self, @*/
    {
        Iter { data: self }
    }
    pub(crate) fn set(&mut self, index: u8)
    /*@ requires index < 30, ensures forall|j: u32| j < 32 ==> #[trigger] bit(final(self).bits(), j) == (bit(old(self).bits(), j) || j == index as u32), @*/
    {
        /*@ proof { use_type_invariant(&*self); } broadcast use crate::bits::group_bits; @*/
        self.0 |= 1 << index;
    }
    pub(crate) fn unset(&mut self, index: u8)
    /*@ requires index < 30, ensures final(self).bits() == old(self).bits() & !(1u32 << index), forall|j: u32| j < 32 ==> #[trigger] bit(final(self).bits(), j) == (bit(old(self).bits(), j) && j != index as u32), @*/
    {
        /*@ proof { use_type_invariant(&*self); } broadcast use crate::bits::group_bits; @*/
        self.0 &= !(1 << index);
        /*@ proof { lemma_ext(self.0, old(self).0 & !(1u32 << index)); } @*/
    }
    const fn is_set(self, index: u8) -> bool
    /*@ requires index < 30, ensures ret == bit(self.bits(), index as u32), @*/
    {
        /*@ proof { lemma_is_set(self.0, index); } broadcast use crate::bits::group_bits; @*/
        self.0 & (1 << index) != 0
    }
}

impl Default for UnicodeCategorySet {
    fn default() -> Self
    /*@ ensures ret.bits() == 0, forall|c: UnicodeCategory| !#[trigger] ret.has(c), @*/
    {
        UnicodeCategorySet::new()
    }
}

impl fmt::Display for UnicodeCategorySet {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result
    /*@ ensures crate::shim::wrote(old(f), final(f), ret, joined(items_of(self.bits(), 30))), @*/
    {
        let len = self.len();
        for (idx, category) in /*@ it: @*/ self.iter().enumerate()
        /*@
            invariant
                it.seq() == items_of(self.bits(), 30), it.index() <= it.seq().len(), it.seq().len() == len, len <= 30,
                __n == it.index(),
                fmt_out(f) == fmt_out(old(f)) + joined_upto(it.seq(), it.index() as int),
                crate::shim::fmt_good(old(f)) ==> crate::shim::fmt_good(f),
        @*/
        {
            f.write_str(category.as_str())?;
            if idx + 1 != len {
                f.write_str(", ")?;
            }
        }
        Ok(())
    }
}

/*@
impl vstd::std_specs::ops::BitOrSpecImpl<UnicodeCategory> for UnicodeCategory {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, rhs: UnicodeCategory) -> bool { true }
    open spec fn bitor_spec(self, rhs: UnicodeCategory) -> UnicodeCategorySet { arbitrary() }
}
impl vstd::std_specs::ops::BitOrSpecImpl<UnicodeCategorySet> for UnicodeCategory {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, rhs: UnicodeCategorySet) -> bool { true }
    open spec fn bitor_spec(self, rhs: UnicodeCategorySet) -> UnicodeCategorySet { arbitrary() }
}
impl vstd::std_specs::ops::BitOrSpecImpl<UnicodeCategory> for UnicodeCategorySet {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, rhs: UnicodeCategory) -> bool { true }
    open spec fn bitor_spec(self, rhs: UnicodeCategory) -> UnicodeCategorySet { arbitrary() }
}
impl vstd::std_specs::ops::BitOrSpecImpl<UnicodeCategorySet> for UnicodeCategorySet {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, rhs: UnicodeCategorySet) -> bool { true }
    open spec fn bitor_spec(self, rhs: UnicodeCategorySet) -> UnicodeCategorySet { arbitrary() }
}
impl vstd::std_specs::ops::BitOrAssignSpecImpl<UnicodeCategorySet> for UnicodeCategorySet {
    open spec fn obeys_bitor_assign_spec() -> bool { false }
    open spec fn bitor_assign_req(&self, rhs: UnicodeCategorySet) -> bool { true }
    open spec fn bitor_assign_spec(&self, rhs: UnicodeCategorySet) -> &Self { arbitrary() }
}
impl vstd::std_specs::ops::BitOrAssignSpecImpl<UnicodeCategory> for UnicodeCategorySet {
    open spec fn obeys_bitor_assign_spec() -> bool { false }
    open spec fn bitor_assign_req(&self, rhs: UnicodeCategory) -> bool { true }
    open spec fn bitor_assign_spec(&self, rhs: UnicodeCategory) -> &Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<UnicodeCategory> for UnicodeCategorySet {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: UnicodeCategory) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<UnicodeCategory> for Option<UnicodeCategorySet> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: UnicodeCategory) -> Self { arbitrary() }
}
@*/

impl BitOr for UnicodeCategory {
    type Output = UnicodeCategorySet;
    fn bitor(self, rhs: Self) -> Self::Output
    /*@ ensures forall|c: UnicodeCategory| #[trigger] ret.has(c) <==> c == self || c == rhs, @*/
    {
        /*@ proof { lemma_cat_at(); } broadcast use crate::bits::group_bits; @*/
        UnicodeCategorySet(1 << self as u8 | 1 << rhs as u8)
    }
}
impl BitOr<UnicodeCategorySet> for UnicodeCategory {
    type Output = UnicodeCategorySet;
    fn bitor(self, rhs: UnicodeCategorySet) -> Self::Output
    /*@ ensures forall|c: UnicodeCategory| #[trigger] ret.has(c) <==> c == self || rhs.has(c), @*/
    {
        rhs | self
    }
}

impl BitOr<UnicodeCategory> for UnicodeCategorySet {
    type Output = Self;
    fn bitor(self, rhs: UnicodeCategory) -> Self::Output
    /*@ ensures forall|c: UnicodeCategory| #[trigger] ret.has(c) <==> self.has(c) || c == rhs, @*/
    {
        /*@ proof { lemma_cat_at(); use_type_invariant(self); } broadcast use crate::bits::group_bits; @*/
        Self(self.into_value() | 1 << rhs as u8)
    }
}

impl BitOr<UnicodeCategorySet> for UnicodeCategorySet {
    type Output = Self;
    fn bitor(self, rhs: UnicodeCategorySet) -> Self::Output
    /*@ ensures forall|c: UnicodeCategory| #[trigger] ret.has(c) <==> self.has(c) || rhs.has(c), @*/
    {
        /*@ proof { lemma_cat_at(); use_type_invariant(self); use_type_invariant(rhs); } broadcast use crate::bits::group_bits; @*/
        Self(self.into_value() | rhs.into_value())
    }
}

impl BitOrAssign<UnicodeCategorySet> for UnicodeCategorySet {
    fn bitor_assign(&mut self, rhs: UnicodeCategorySet)
    /*@ ensures forall|c: UnicodeCategory| #[trigger] final(self).has(c) <==> old(self).has(c) || rhs.has(c), @*/
    {
        /*@ proof { lemma_cat_at(); use_type_invariant(&*self); use_type_invariant(rhs); } broadcast use crate::bits::group_bits; @*/
        self.0 |= rhs.into_value();
    }
}

impl BitOrAssign<UnicodeCategory> for UnicodeCategorySet {
    fn bitor_assign(&mut self, rhs: UnicodeCategory)
    /*@ ensures forall|c: UnicodeCategory| #[trigger] final(self).has(c) <==> old(self).has(c) || c == rhs, @*/
    {
        self.add(rhs);
    }
}

#[derive(Debug)]
pub struct Iter {
    data: UnicodeCategorySet,
}

/*@
impl Iter {
    /// the members not yet yielded
    pub closed spec fn set(&self) -> UnicodeCategorySet { self.data }

    pub open spec fn items(&self) -> Seq<UnicodeCategory> { items_of(self.set().bits(), 30) }
}

impl vstd::std_specs::iter::IteratorSpecImpl for Iter {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<UnicodeCategory> { self.items() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.items().len() as nat) }
    open spec fn peek(&self, index: int) -> Option<UnicodeCategory> {
        if 0 <= index < self.items().len() { Some(self.items()[index]) } else { None }
    }
}
@*/

/*@
impl vstd::std_specs::iter::ExactSizeIteratorSpecImpl for Iter {
    open spec fn exact_len(&self) -> usize { self.items().len() as usize }
}
@*/

impl Iterator for Iter {
    type Item = UnicodeCategory;

    fn next(&mut self) -> Option<Self::Item>
    /*@
        ensures
            ret is None ==> forall|c: UnicodeCategory| !#[trigger] old(self).set().has(c),
            ret is Some ==> old(self).set().has(ret->0) && (forall|c: UnicodeCategory| #[trigger] final(self).set().has(c) <==> old(self).set().has(c) && c != ret->0),
    @*/
    {
        /*@ broadcast use vstd::std_specs::bits::group_bits_axioms;
            proof { use_type_invariant(self.data); lemma_next(self.data.0); } @*/
        let index = self.data.0.trailing_zeros() as u8;
        let category = UnicodeCategory::from_index(index)?;
        self.data.unset(index);
        Some(category)
    }
    fn size_hint(&self) -> (usize, Option<usize>)
    /*@ ensures ret.0 == self.items().len(), ret.1 == Some(ret.0), @*/
    {
        /*@ proof { lemma_len_to(self.data.bits(), 30); } @*/
        let len = self.data.len();
        (len, Some(len))
    }
}

impl ExactSizeIterator for Iter {
    fn len(&self) -> usize
    /*@ ensures ret == self.items().len(), @*/
    {
        /*@ proof { lemma_len_to(self.data.bits(), 30); } @*/
        self.data.len()
    }
}

impl From<UnicodeCategory> for UnicodeCategorySet {
    fn from(category: UnicodeCategory) -> Self
    /*@ ensures forall|c: UnicodeCategory| #[trigger] ret.has(c) <==> c == category, @*/
    {
        /*@ proof { lemma_cat_at(); } broadcast use crate::bits::group_bits; @*/
        Self::from_value_unchecked(1 << category as u8)
    }
}

impl From<UnicodeCategory> for Option<UnicodeCategorySet> {
    fn from(category: UnicodeCategory) -> Self
    /*@ ensures ret is Some, forall|c: UnicodeCategory| #[trigger] ret->0.has(c) <==> c == category, @*/
    {
        Some(category.into())
    }
}
pub const fn merge(
    include: Option<UnicodeCategorySet>,
    exclude: UnicodeCategorySet,
) -> UnicodeCategorySet
/*@ ensures forall|c: UnicodeCategory| #[trigger] ret.has(c) <==> effective(include, exclude, c), @*/
{
    /*@ proof { lemma_cat_at(); use_type_invariant(exclude); if let Some(inc) = include { use_type_invariant(inc); } } broadcast use crate::bits::group_bits; @*/
    if let Some(include) = include {
        if include.is_empty() {
            include
        } else {
            UnicodeCategorySet::from_value_unchecked(
                (ALL_CATEGORIES ^ exclude.into_value()) & include.into_value(),
            )
        }
    } else {
        UnicodeCategorySet::from_value_unchecked(ALL_CATEGORIES ^ exclude.into_value())
    }
}
/*@
/// the text of an entry
pub open spec fn entry_text<S: AsRef<str>>(s: S) -> Seq<char> { crate::shim::as_ref_spec::<S, str>(&s)@ }

/// the entry stands for the category: its own name, or one of the seven groups
pub open spec fn entry_names(t: Seq<char>, c: UnicodeCategory) -> bool {
    ||| t == cat_name(c)
    ||| t == "L"@ && in_group_L(c)
    ||| t == "M"@ && in_group_M(c)
    ||| t == "N"@ && in_group_N(c)
    ||| t == "P"@ && in_group_P(c)
    ||| t == "S"@ && in_group_S(c)
    ||| t == "Z"@ && in_group_Z(c)
    ||| t == "C"@ && in_group_C(c)
}

pub open spec fn entry_valid(t: Seq<char>) -> bool { exists|c: UnicodeCategory| #[trigger] entry_names(t, c) }

/// one of the first `n` entries stands for the category
pub open spec fn named_upto<S: AsRef<str>>(s: Seq<S>, n: int, c: UnicodeCategory) -> bool {
    exists|i: int| 0 <= i < n && i < s.len() && entry_names(entry_text(#[trigger] s[i]), c)
}

/// the answer for a list of entries: the wanted categories in normalized order, or the first entry that means nothing
pub open spec fn general<S: AsRef<str>>(s: Seq<S>, version: crate::UnicodeVersion, r: Result<Vec<UnicodeCategory>, error::Error>) -> bool {
    match r {
        Ok(v) => (forall|i: int| 0 <= i < s.len() ==> entry_valid(entry_text(#[trigger] s[i])))
            && exists|order: Seq<UnicodeCategory>| #[trigger] crate::normalized(version, order)
                && v@ == order.filter(|c: UnicodeCategory| named_upto(s, s.len() as int, c)),
        Err(e) => exists|k: int| 0 <= k < s.len() && !entry_valid(entry_text(#[trigger] s[k]))
            && (forall|i: int| 0 <= i < k ==> entry_valid(entry_text(#[trigger] s[i])))
            && e is InvalidCategory && e->InvalidCategory_0@ == entry_text(s[k]),
    }
}

/// the names have two letters and are all different
pub proof fn lemma_cat_names()
    ensures
        forall|c: UnicodeCategory| (#[trigger] cat_name(c)).len() == 2,
        forall|a: UnicodeCategory, b: UnicodeCategory| #[trigger] cat_name(a) == #[trigger] cat_name(b) ==> a == b,
{
    reveal_strlit("Pe");
    reveal_strlit("Pc");
    reveal_strlit("Cc");
    reveal_strlit("Sc");
    reveal_strlit("Pd");
    reveal_strlit("Nd");
    reveal_strlit("Me");
    reveal_strlit("Pf");
    reveal_strlit("Cf");
    reveal_strlit("Pi");
    reveal_strlit("Nl");
    reveal_strlit("Zl");
    reveal_strlit("Ll");
    reveal_strlit("Sm");
    reveal_strlit("Lm");
    reveal_strlit("Sk");
    reveal_strlit("Mn");
    reveal_strlit("Ps");
    reveal_strlit("Lo");
    reveal_strlit("No");
    reveal_strlit("Po");
    reveal_strlit("So");
    reveal_strlit("Zp");
    reveal_strlit("Co");
    reveal_strlit("Zs");
    reveal_strlit("Mc");
    reveal_strlit("Cs");
    reveal_strlit("Lt");
    reveal_strlit("Cn");
    reveal_strlit("Lu");
    assert forall|a: UnicodeCategory, b: UnicodeCategory| #[trigger] cat_name(a) == #[trigger] cat_name(b) implies a == b by {
        assert(cat_name(a)[0] == cat_name(b)[0] && cat_name(a)[1] == cat_name(b)[1]);
    }
}

/// what an entry stands for
pub proof fn lemma_entry(t: Seq<char>)
    ensures
        t == "L"@ ==> entry_valid(t) && forall|c: UnicodeCategory| #[trigger] entry_names(t, c) <==> in_group_L(c),
        t == "M"@ ==> entry_valid(t) && forall|c: UnicodeCategory| #[trigger] entry_names(t, c) <==> in_group_M(c),
        t == "N"@ ==> entry_valid(t) && forall|c: UnicodeCategory| #[trigger] entry_names(t, c) <==> in_group_N(c),
        t == "P"@ ==> entry_valid(t) && forall|c: UnicodeCategory| #[trigger] entry_names(t, c) <==> in_group_P(c),
        t == "S"@ ==> entry_valid(t) && forall|c: UnicodeCategory| #[trigger] entry_names(t, c) <==> in_group_S(c),
        t == "Z"@ ==> entry_valid(t) && forall|c: UnicodeCategory| #[trigger] entry_names(t, c) <==> in_group_Z(c),
        t == "C"@ ==> entry_valid(t) && forall|c: UnicodeCategory| #[trigger] entry_names(t, c) <==> in_group_C(c),
        forall|k: UnicodeCategory| t == #[trigger] cat_name(k) ==> entry_valid(t) && forall|c: UnicodeCategory| #[trigger] entry_names(t, c) <==> c == k,
        entry_valid(t) ==> t == "L"@ || t == "M"@ || t == "N"@ || t == "P"@ || t == "S"@ || t == "Z"@ || t == "C"@ || exists|k: UnicodeCategory| t == #[trigger] cat_name(k),
{
    lemma_cat_names();
    reveal_strlit("L");
    reveal_strlit("M");
    reveal_strlit("N");
    reveal_strlit("P");
    reveal_strlit("S");
    reveal_strlit("Z");
    reveal_strlit("C");
    assert forall|k: UnicodeCategory| t == #[trigger] cat_name(k) implies entry_valid(t) by { assert(entry_names(t, k)); }
    if t == "L"@ { assert(t.len() == 1 && t[0] == 'L'); assert(entry_names(t, UnicodeCategory::Ll)); }
    if t == "M"@ { assert(t.len() == 1 && t[0] == 'M'); assert(entry_names(t, UnicodeCategory::Me)); }
    if t == "N"@ { assert(t.len() == 1 && t[0] == 'N'); assert(entry_names(t, UnicodeCategory::Nd)); }
    if t == "P"@ { assert(t.len() == 1 && t[0] == 'P'); assert(entry_names(t, UnicodeCategory::Pe)); }
    if t == "S"@ { assert(t.len() == 1 && t[0] == 'S'); assert(entry_names(t, UnicodeCategory::Sc)); }
    if t == "Z"@ { assert(t.len() == 1 && t[0] == 'Z'); assert(entry_names(t, UnicodeCategory::Zl)); }
    if t == "C"@ { assert(t.len() == 1 && t[0] == 'C'); assert(entry_names(t, UnicodeCategory::Cc)); }
}

pub proof fn lemma_named_step<S: AsRef<str>>(s: Seq<S>, n: int)
    requires 0 <= n < s.len(),
    ensures forall|c: UnicodeCategory| #![trigger named_upto(s, n + 1, c)] named_upto(s, n + 1, c) <==> named_upto(s, n, c) || entry_names(entry_text(s[n]), c),
{
    assert forall|c: UnicodeCategory| #![trigger named_upto(s, n + 1, c)] named_upto(s, n + 1, c) <==> named_upto(s, n, c) || entry_names(entry_text(s[n]), c) by {
        if named_upto(s, n + 1, c) { let i = choose|i: int| 0 <= i < n + 1 && i < s.len() && entry_names(entry_text(#[trigger] s[i]), c); assert(i < n || i == n); }
        if entry_names(entry_text(s[n]), c) { let x = s[n]; assert(entry_names(entry_text(s[n]), c)); }
    }
}
@*/
pub fn as_general_categories<I, S>(
    categories: I,
    version: crate::UnicodeVersion,
) -> Result<Vec<UnicodeCategory>, error::Error>
where
    I: IntoIterator<Item = S>,
    S: AsRef<str>,
/*@
    requires
        forall|it: I::IntoIter| #[trigger] call_ensures(<I as IntoIterator>::into_iter, (categories,), it) ==> it.obeys_prophetic_iter_laws() && it.decrease() is Some,
    ensures
        exists|it: I::IntoIter| #[trigger] call_ensures(<I as IntoIterator>::into_iter, (categories,), it) && general(it.remaining(), version, ret),
@*/
{
    let mut wanted = UnicodeCategorySet::new();
    for category in /*@ it: @*/ categories
    /*@
        invariant
            it.iter.obeys_prophetic_iter_laws(),
            it.index() <= it.seq().len(),
            call_ensures(<I as IntoIterator>::into_iter, (categories,), __iter0), it.seq() == __iter0.remaining(),
            forall|i: int| 0 <= i < it.index() ==> entry_valid(entry_text(#[trigger] it.seq()[i])),
            forall|c: UnicodeCategory| #[trigger] wanted.has(c) <==> named_upto(it.seq(), it.index() as int, c),
    @*/
    {
        /*@ proof { crate::shim::lemma_str_eq(); lemma_named_step(it.seq(), it.index() as int); lemma_entry(entry_text(category)); } @*/
        let set = match category.as_ref() {
            "L" => UnicodeCategory::L,
            "M" => UnicodeCategory::M,
            "N" => UnicodeCategory::N,
            "P" => UnicodeCategory::P,
            "S" => UnicodeCategory::S,
            "Z" => UnicodeCategory::Z,
            "C" => UnicodeCategory::C,
            other => other.parse::<UnicodeCategory>()?.into(),
        };
        wanted |= set;
    }
    Ok(version
        .normalized_categories()
        .into_iter()
        .filter(|c| /*@ -> (r: bool) ensures r == wanted.has(*c) @*/ wanted.contains(*c))
        .collect())
    /*@< proof {
        let ghost n = __iter0.remaining().len() as int;
        let ghost w = |c: UnicodeCategory| named_upto(__iter0.remaining(), n, c);
        assert(exists|order: Seq<UnicodeCategory>| #[trigger] crate::normalized(version, order) && __tail->Ok_0@ == order.filter(w));
    } @*/
}


/*@
/// printing has no precondition
impl vstd::std_specs::fmt::DisplaySpecImpl for UnicodeCategory { open spec fn fmt_req(&self, f: &core::fmt::Formatter<'_>) -> bool { true } }
@*/

/*@
/// printing has no precondition
impl vstd::std_specs::fmt::DisplaySpecImpl for UnicodeCategorySet { open spec fn fmt_req(&self, f: &core::fmt::Formatter<'_>) -> bool { true } }
@*/
