//! The properties of /verif/properties.jsonl, each as a theorem over the contracts of the public functions.
//! An executable client states what a caller observes; a proof function states what follows from contracts alone.
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::spec::*;
use crate::bits::*;
use crate::twf::*;
use crate::tspec::*;
use crate::categories::*;
use crate::query::*;
use crate::error::*;
use crate::*;

verus! {
broadcast use crate::shim::group_shim;

/// the builder with every setting given
pub fn full_query<'a>(version: UnicodeVersion, include: Option<UnicodeCategorySet>, exclude: UnicodeCategorySet, inc: &'a str, exc: &'a str, min: u32, max: u32) -> (q: IntervalQuery<'a>)
    ensures q.settings() == (Settings { version, include_categories: include, exclude_categories: Some(exclude), include_characters: Some(inc@), exclude_characters: Some(exc@), min, max }),
{
    version.query().include_categories(include).exclude_categories(exclude).include_characters(inc).exclude_characters(exc).min_codepoint(min).max_codepoint(max)
}

// ---- C01

/// a code point is in the answer iff it is not excluded and is included or lies in range with a wanted category
pub fn c01_exact(version: UnicodeVersion, include: Option<UnicodeCategorySet>, exclude: UnicodeCategorySet, inc: &str, exc: &str, min: u32, max: u32) -> (r: Vec<Interval>)
    requires min <= max <= 0x10ffff,
    ensures
        forall|c: int| #[trigger] cov(r@, c) <==> !str_has(exc@, c) && (str_has(inc@, c)
            || (min <= c <= max && exists|k: UnicodeCategory| (include is None || include->0.has(k)) && !exclude.has(k) && #[trigger] cat_has(version, k, c))),
{
    match full_query(version, include, exclude, inc, exc, min, max).intervals() {
        Ok(v) => v,
        Err(_) => { assert(false); Vec::new() }
    }
}

/// asking for no category at all gives only the included characters
pub fn c01_empty_request(version: UnicodeVersion, inc: &str) -> (r: Vec<Interval>)
    ensures forall|c: int| #[trigger] cov(r@, c) <==> str_has(inc@, c),
{
    let e = UnicodeCategorySet::new();
    match version.query().include_categories(Some(e)).include_characters(inc).intervals() {
        Ok(v) => {
            proof { lemma_opt_text(); }
            v
        }
        Err(_) => { assert(false); Vec::new() }
    }
}

/// the set of intervals of an answer describes the same code points
pub fn c01_interval_set(q: &IntervalQuery<'_>) -> (r: Result<IntervalSet, Error>)
    ensures r is Ok ==> forall|c: int| #[trigger] cov(r->Ok_0.ivs(), c) <==> wanted(q.settings(), c),
{
    q.interval_set()
}

// ---- C02

/// answers are canonical and inside the code space
pub fn c02_canonical(q: &IntervalQuery<'_>) -> (r: Result<Vec<Interval>, Error>)
    ensures r is Ok ==> {
        let s = r->Ok_0@;
        &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 <= s[i].1 <= 0x10ffff
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 + 1 < (#[trigger] s[j]).0
    },
{
    q.intervals()
}

/// there is one canonical representation only
pub proof fn c02_unique(a: Seq<Interval>, b: Seq<Interval>)
    requires canonical(a), canonical(b), forall|c: int| cov(a, c) <==> cov(b, c),
    ensures a == b,
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() > 0 { assert(iv_has(b[0], b[0].0 as int)); assert(cov(b, b[0].0 as int)); }
        assert(a =~= b);
    } else {
        let n = a.len() - 1;
        assert(iv_has(a[n], a[n].1 as int)); assert(cov(a, a[n].1 as int));
        assert(b.len() > 0);
        let m = b.len() - 1;
        c02_last(a, b);
        let a1 = a.drop_last();
        let b1 = b.drop_last();
        assert forall|c: int| cov(a1, c) <==> cov(b1, c) by {
            c02_drop(a, c);
            c02_drop(b, c);
        }
        c02_unique(a1, b1);
        assert(a =~= a1.push(a[n]));
        assert(b =~= b1.push(b[m]));
    }
}

proof fn c02_drop(a: Seq<Interval>, c: int)
    requires canonical(a), a.len() > 0,
    ensures cov(a.drop_last(), c) <==> cov(a, c) && c < a.last().0,
{
    let a1 = a.drop_last();
    if cov(a1, c) { let i = choose|i: int| 0 <= i < a1.len() && #[trigger] iv_has(a1[i], c); assert(iv_has(a[i], c)); assert(a[i].1 + 1 < a[a.len() - 1].0); }
    if cov(a, c) && c < a.last().0 { let i = choose|i: int| 0 <= i < a.len() && #[trigger] iv_has(a[i], c); assert(iv_has(a1[i], c)); }
}

proof fn c02_last(a: Seq<Interval>, b: Seq<Interval>)
    requires canonical(a), canonical(b), a.len() > 0, b.len() > 0, forall|c: int| cov(a, c) <==> cov(b, c),
    ensures a.last() == b.last(),
{
    c02_last_le(a, b);
    c02_last_le(b, a);
    c02_last_left(a, b);
    c02_last_left(b, a);
}

proof fn c02_last_le(a: Seq<Interval>, b: Seq<Interval>)
    requires canonical(a), canonical(b), a.len() > 0, b.len() > 0, forall|c: int| cov(a, c) <==> cov(b, c),
    ensures a.last().1 <= b.last().1,
{
    let (n, m) = (a.len() - 1, b.len() - 1);
    assert(iv_has(a[n], a[n].1 as int)); assert(cov(a, a[n].1 as int));
    let i = choose|i: int| 0 <= i < b.len() && #[trigger] iv_has(b[i], a[n].1 as int);
    if i < m { assert(b[i].1 + 1 < b[m].0); assert(b[m].0 <= b[m].1); }
}

proof fn c02_last_left(a: Seq<Interval>, b: Seq<Interval>)
    requires canonical(a), canonical(b), a.len() > 0, b.len() > 0, forall|c: int| cov(a, c) <==> cov(b, c), a.last().1 == b.last().1,
    ensures a.last().0 <= b.last().0,
{
    let (n, m) = (a.len() - 1, b.len() - 1);
    assert(a[n].0 <= a[n].1 && b[m].0 <= b[m].1);
    if a[n].0 > b[m].0 {
        let c = a[n].0 - 1;
        assert(iv_has(b[m], c)); assert(cov(b, c)); assert(cov(a, c));
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] iv_has(a[i], c);
        assert(i < n);
        assert(a[i].1 + 1 < a[n].0);
    }
}

// ---- C03

pub fn c03_validation(version: UnicodeVersion, include: Option<UnicodeCategorySet>, exclude: UnicodeCategorySet, inc: &str, exc: &str, min: u32, max: u32) -> (r: Result<Vec<Interval>, Error>)
    ensures
        min > 0x10ffff || max > 0x10ffff ==> r == Err::<Vec<Interval>, Error>(Error::CodepointNotInRange(min, max)),
        min <= 0x10ffff && max <= 0x10ffff && min > max ==> r == Err::<Vec<Interval>, Error>(Error::InvalidCodepoints(min, max)),
        min <= max <= 0x10ffff ==> r is Ok,
{
    full_query(version, include, exclude, inc, exc, min, max).intervals()
}

/// the interval set fails alike and holds the very intervals of the same query
pub fn c03_interval_set(q: &IntervalQuery<'_>) -> (r: (Result<Vec<Interval>, Error>, Result<IntervalSet, Error>))
    ensures
        (match (r.0, r.1) {
            (Ok(v), Ok(s)) => s.ivs() == v@,
            (Err(a), Err(b)) => a == b,
            _ => false,
        }),
{
    let a = q.intervals();
    let b = q.interval_set();
    proof {
        let x = choose|x: Result<Vec<Interval>, Error>| #[trigger] answer(q.settings(), x) && (match b { Ok(s) => x is Ok && s.ivs() == x->Ok_0@, Err(e) => x == Err::<Vec<Interval>, Error>(e) });
        if a is Ok && b is Ok {
            let (v, s) = (a->Ok_0@, b->Ok_0.ivs());
            assert forall|c: int| cov(v, c) <==> cov(s, c) by { assert(cov(v, c) <==> wanted(q.settings(), c)); assert(cov(x->Ok_0@, c) <==> wanted(q.settings(), c)); }
            c02_unique(v, s);
        }
    }
    (a, b)
}

// ---- C04

/// every code point has exactly one category; each list is canonical and in the code space
pub proof fn c04_partition(v: UnicodeVersion, c: int)
    requires 0 <= c <= 0x10ffff,
    ensures
        exists|k: UnicodeCategory| #[trigger] cat_has(v, k, c),
        forall|a: UnicodeCategory, b: UnicodeCategory| #[trigger] cat_has(v, a, c) && #[trigger] cat_has(v, b, c) ==> a == b,
{
    lemma_tables(v);
    lemma_cat_at();
    assert(some_cov(tab(v), c));
    let i = choose|i: int| 0 <= i < 30 && #[trigger] cov(tab(v)[i]@, c);
    assert(cat_at(i) as int == i);
    assert(cat_has(v, cat_at(i), c));
    assert forall|a: UnicodeCategory, b: UnicodeCategory| #[trigger] cat_has(v, a, c) && #[trigger] cat_has(v, b, c) implies a == b by {
        let (i, j) = (cid(a), cid(b));
        assert(cat_at(i) == a && cat_at(j) == b);
        if i < j { assert(cov(tab(v)[i]@, c) && cov(tab(v)[j]@, c)); }
        if j < i { assert(cov(tab(v)[j]@, c) && cov(tab(v)[i]@, c)); }
    }
}

pub fn c04_intervals_for(v: UnicodeVersion, k: UnicodeCategory) -> (r: &'static [Interval])
    ensures canonical(r@), below(r@, 0x10ffff), r@.len() > 0, forall|c: int| cov(r@, c) <==> cat_has(v, k, c),
{
    proof { lemma_tables(v); lemma_cat_at(); assert(cat_at(cid(k)) == k); }
    v.intervals_for(k)
}

// ---- C05

/// what is handed out for a category is the row of that version's table at the category's place in the declaration order;
/// the table itself is compared with the database by the verified table checker
pub fn c05_row(v: UnicodeVersion, k: UnicodeCategory) -> (r: (&'static [Interval], &'static [&'static [Interval]]))
    ensures r.0@ == tab(v)[cid(k)]@, r.1@ == tab(v),
{
    (v.intervals_for(k), v.table())
}

// ---- C06

/// positions and members correspond, in increasing order
pub fn c06_bijection(s: &IntervalSet, i: u32, c: u32) -> (r: (Option<u32>, Option<u32>, bool, usize, bool))
    ensures
        r.0 is Some <==> i < r.3,
        r.0 is Some ==> cov(s.ivs(), r.0->0 as int),
        r.1 is Some <==> cov(s.ivs(), c as int),
        r.2 == cov(s.ivs(), c as int),
        r.1 is Some ==> r.1->0 < r.3 && s.points()[r.1->0 as int] == c,
        r.4 == (r.3 == 0),
        r.3 == s.points().len(),
        increasing(s.points()),
        forall|x: u32| s.points().contains(x) <==> cov(s.ivs(), x as int),
{
    proof { s.lemma_points(); }
    let a = s.codepoint_at(i);
    let b = s.index_of(c);
    proof { if a is Some { assert(s.points().contains(a->0)); } if b is Some { assert(s.points().contains(c)); } }
    (a, b, s.contains(c), s.len(), s.is_empty())
}

/// looking up the position of the code point at a position gives that position
pub fn c06_inverse(s: &IntervalSet, i: u32) -> (r: Option<u32>)
    ensures i < s.points().len() ==> r == Some(i),
{
    match s.codepoint_at(i) {
        Some(c) => {
            let j = s.index_of(c);
            proof {
                s.lemma_points();
                assert(s.points()[i as int] == c);
                assert(s.points().contains(c));
                let (a, b) = (i as int, j->0 as int);
                if a < b { assert(s.points()[a] < s.points()[b]); }
                if b < a { assert(s.points()[b] < s.points()[a]); }
            }
            j
        }
        None => None,
    }
}

/// every type of argument that converts to a number behaves like that number
pub fn c06_arguments(s: &IntervalSet, x: char, y: u8) -> (r: (bool, Option<u32>, bool))
    ensures r.0 == cov(s.ivs(), x as int), r.1 is Some <==> cov(s.ivs(), x as int), r.2 == cov(s.ivs(), y as int),
{
    proof { s.lemma_points(); }
    let i = s.index_of(x);
    proof { if i is Some { assert(s.points().contains(x as u32)); } }
    (s.contains(x), i, s.contains(y))
}

// ---- C07

/// the answer counts the members below the value
pub fn c07_lower_bound(s: &IntervalSet, c: u32) -> (r: u32)
    ensures
        r <= s.points().len(),
        forall|k: int| 0 <= k < s.points().len() ==> (#[trigger] s.points()[k] < c <==> k < r),
        (forall|x: u32| cov(s.ivs(), x as int) ==> x < c) ==> r == s.points().len(),
        r < s.points().len() ==> s.points()[r as int] >= c && cov(s.ivs(), s.points()[r as int] as int),
{
    proof { s.lemma_points(); }
    let r = s.index_above(c);
    proof {
        if r < s.points().len() { assert(s.points().contains(s.points()[r as int])); }
        if (forall|x: u32| cov(s.ivs(), x as int) ==> x < c) && r < s.points().len() { assert(s.points()[r as int] < c); }
    }
    r
}

// ---- C08

/// what one step from either end yields
pub fn c08_steps(it: &mut Codepoints<'_>, back: bool) -> (r: Option<u32>)
    ensures
        old(it).items().len() == 0 ==> r is None && final(it).items().len() == 0,
        old(it).items().len() > 0 && !back ==> r == Some(old(it).items().first()) && final(it).items() == old(it).items().drop_first(),
        old(it).items().len() > 0 && back ==> r == Some(old(it).items().last()) && final(it).items() == old(it).items().drop_last(),
{
    if back { it.next_back() } else { it.next() }
}

/// stepping in any pattern yields a prefix forwards and a suffix backwards, and all of it in the end
pub fn c08_interleave(s: &IntervalSet, pattern: &Vec<bool>) -> (r: (Vec<u32>, Vec<u32>, bool))
    ensures
        r.0@.len() + r.1@.len() <= s.points().len(),
        r.0@ == s.points().take(r.0@.len() as int),
        forall|k: int| 0 <= k < r.1@.len() ==> #[trigger] r.1@[k] == s.points()[s.points().len() - 1 - k],
        r.2 ==> r.0@.len() + r.1@.len() == s.points().len(),
        pattern@.len() > s.points().len() ==> r.2,
{
    let mut it = s.iter();
    let mut front: Vec<u32> = Vec::new();
    let mut back: Vec<u32> = Vec::new();
    let mut done = false;
    let mut i = 0;
    proof {
        assert(s.points().take(0) =~= Seq::<u32>::empty());
        assert(s.points().subrange(0, s.points().len() as int) =~= s.points());
    }
    while i < pattern.len()
        invariant
            0 <= i <= pattern@.len(),
            front@.len() + back@.len() <= s.points().len(),
            it.items() == s.points().subrange(front@.len() as int, s.points().len() - back@.len()),
            front@ == s.points().take(front@.len() as int),
            forall|k: int| 0 <= k < back@.len() ==> #[trigger] back@[k] == s.points()[s.points().len() - 1 - k],
            done ==> front@.len() + back@.len() == s.points().len(),
            i <= front@.len() + back@.len() || done,
        decreases pattern@.len() - i,
    {
        let ghost (f0, b0, items0) = (front@, back@, it.items());
        match c08_steps(&mut it, pattern[i]) {
            Some(c) => {
                if pattern[i] {
                    back.push(c);
                    proof { assert(it.items() =~= s.points().subrange(front@.len() as int, s.points().len() - back@.len())); }
                } else {
                    front.push(c);
                    proof {
                        assert(it.items() =~= s.points().subrange(front@.len() as int, s.points().len() - back@.len()));
                        assert(front@ =~= s.points().take(front@.len() as int));
                    }
                }
            }
            None => { done = true; proof { assert(items0.len() == 0); } }
        }
        i += 1;
    }
    (front, back, done)
}

/// iterating by reference is the same iteration, and every member appears once
pub fn c08_by_reference(s: &IntervalSet) -> (r: Vec<u32>)
    ensures r@ == s.points(), increasing(r@), forall|c: u32| r@.contains(c) <==> cov(s.ivs(), c as int),
{
    let mut out: Vec<u32> = Vec::new();
    proof { s.lemma_points(); }
    for c in it: s
        invariant
            it.seq() == s.points(), it.index() <= it.seq().len(), out@ == s.points().take(it.index() as int),
    {
        out.push(c);
        proof { assert(out@ =~= s.points().take(it.index() + 1)); }
    }
    proof { assert(s.points().take(s.points().len() as int) =~= s.points()); }
    out
}

// ---- C09

/// add, remove, union and the constructors are the set operations; nothing else is touched
pub fn c09_operations(a: UnicodeCategorySet, b: UnicodeCategorySet, k: UnicodeCategory) -> (r: (UnicodeCategorySet, UnicodeCategorySet, UnicodeCategorySet, UnicodeCategorySet, UnicodeCategorySet))
    ensures
        forall|c: UnicodeCategory| #[trigger] r.0.has(c) <==> a.has(c) || c == k,
        forall|c: UnicodeCategory| #[trigger] r.1.has(c) <==> a.has(c) && c != k,
        forall|c: UnicodeCategory| #[trigger] r.2.has(c) <==> a.has(c) || b.has(c),
        forall|c: UnicodeCategory| #[trigger] r.3.has(c) <==> c == k,
        forall|c: UnicodeCategory| #[trigger] r.4.has(c) <==> a.has(c) || b.has(c) || c == k,
{
    let mut x = a;
    x.add(k);
    let mut y = a;
    y.remove(k);
    let mut z = a;
    z |= b;
    z |= k;
    (x, y, a | b, UnicodeCategorySet::from(k), z)
}

pub fn c09_pairs(a: UnicodeCategory, b: UnicodeCategory, s: UnicodeCategorySet) -> (r: (UnicodeCategorySet, UnicodeCategorySet, UnicodeCategorySet, Option<UnicodeCategorySet>))
    ensures
        forall|c: UnicodeCategory| #[trigger] r.0.has(c) <==> c == a || c == b,
        forall|c: UnicodeCategory| #[trigger] r.1.has(c) <==> c == a || s.has(c),
        forall|c: UnicodeCategory| #[trigger] r.2.has(c) <==> c == a || s.has(c),
        r.3 is Some && forall|c: UnicodeCategory| #[trigger] r.3->0.has(c) <==> c == a,
{
    (a | b, a | s, s | a, Option::<UnicodeCategorySet>::from(a))
}

pub fn c09_extremes() -> (r: (UnicodeCategorySet, UnicodeCategorySet, UnicodeCategorySet))
    ensures
        forall|c: UnicodeCategory| !#[trigger] r.0.has(c),
        forall|c: UnicodeCategory| #[trigger] r.1.has(c),
        forall|c: UnicodeCategory| !#[trigger] r.2.has(c),
{
    (UnicodeCategorySet::new(), UnicodeCategorySet::all(), UnicodeCategorySet::default())
}

/// length, emptiness and membership agree with the members; equality is equality of members
pub fn c09_observers(a: UnicodeCategorySet, b: UnicodeCategorySet, k: UnicodeCategory) -> (r: (usize, bool, bool))
    ensures
        r.0 == items_of(a.bits(), 30).len(),
        r.1 <==> (forall|c: UnicodeCategory| !#[trigger] a.has(c)),
        r.1 <==> r.0 == 0,
        r.2 == a.has(k),
        (forall|c: UnicodeCategory| a.has(c) <==> b.has(c)) ==> a == b,
{
    proof {
        a.lemma_wf();
        b.lemma_wf();
        if forall|c: UnicodeCategory| a.has(c) <==> b.has(c) { UnicodeCategorySet::lemma_ext(a, b); }
        lemma_items(a.bits(), 30);
        let s = items_of(a.bits(), 30);
        if s.len() > 0 { assert(s.contains(s[0])); assert(a.has(s[0])); }
        if exists|c: UnicodeCategory| a.has(c) { let c = choose|c: UnicodeCategory| a.has(c); assert(s.contains(c)); }
    }
    (a.len(), a.is_empty(), a.contains(k))
}

/// two sets compare equal exactly when they have the same members
pub fn c09_equality(a: UnicodeCategorySet, b: UnicodeCategorySet) -> (r: bool)
    ensures r <==> (forall|c: UnicodeCategory| a.has(c) <==> b.has(c)),
{
    proof {
        a.lemma_wf();
        b.lemma_wf();
        if forall|c: UnicodeCategory| a.has(c) <==> b.has(c) { UnicodeCategorySet::lemma_ext(a, b); }
    }
    a == b
}

/// iteration yields the members in declaration order, with an exact announced length at every step
pub fn c09_exact_length(a: UnicodeCategorySet) -> (r: Vec<UnicodeCategory>)
    ensures r@ == items_of(a.bits(), 30),
{
    hide(items_of);
    hide(cat_at);
    let mut out: Vec<UnicodeCategory> = Vec::new();
    let mut it = a.iter();
    let ghost s = items_of(a.bits(), 30);
    proof {
        assert(s.take(0) =~= Seq::<UnicodeCategory>::empty());
        assert(s.skip(0) =~= s);
    }
    loop
        invariant
            out@.len() <= s.len(), out@ == s.take(out@.len() as int), it.items() == s.skip(out@.len() as int),
        ensures out@ == s,
        decreases s.len() - out@.len(),
    {
        let n = it.len();
        assert(n == s.len() - out@.len());
        let hint = it.size_hint();
        assert(hint.0 == n && hint.1 == Some(n));
        match it.next() {
            Some(c) => {
                out.push(c);
                proof {
                    assert(out@ =~= s.take(out@.len() as int));
                    assert(it.items() =~= s.skip(out@.len() as int));
                }
            }
            None => { proof { assert(out@ =~= s); } break; }
        }
    }
    out
}

/// iteration: the members once each in declaration order
pub fn c09_iteration(a: UnicodeCategorySet) -> (r: Vec<UnicodeCategory>)
    ensures
        forall|c: UnicodeCategory| r@.contains(c) <==> a.has(c),
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> cid(#[trigger] r@[i]) < cid(#[trigger] r@[j]),
{
    hide(items_of);
    hide(cat_at);
    let r = c09_exact_length(a);
    proof {
        a.lemma_wf();
        lemma_items(a.bits(), 30);
    }
    r
}

// ---- C10

/// names have two letters and differ
pub fn c10_names(c: UnicodeCategory) -> (r: &'static str)
    ensures r@ == cat_name(c), r@.len() == 2, forall|d: UnicodeCategory| r@ == #[trigger] cat_name(d) ==> d == c,
{
    proof { lemma_cat_names(); }
    c.as_str()
}

/// parsing accepts exactly the names, gives the category back, and reports anything else unchanged
pub fn c10_parse(s: &str) -> (r: Result<UnicodeCategory, Error>)
    ensures
        (exists|c: UnicodeCategory| s@ == #[trigger] cat_name(c)) <==> r is Ok,
        r is Ok ==> s@ == cat_name(r->Ok_0),
        r is Err ==> r->Err_0 is InvalidCategory && r->Err_0->InvalidCategory_0@ == s@,
{
    let r = UnicodeCategory::from_str(s);
    r
}

pub fn c10_round_trip(c: UnicodeCategory) -> (r: Result<UnicodeCategory, Error>)
    ensures r == Ok::<UnicodeCategory, Error>(c),
{
    proof { lemma_cat_names(); }
    UnicodeCategory::from_str(c.as_str())
}

/// two categories compare equal exactly when they have the same abbreviation
pub fn c10_equality(a: UnicodeCategory, b: UnicodeCategory) -> (r: bool)
    ensures r <==> cat_name(a) == cat_name(b),
{
    proof { lemma_cat_names(); }
    a == b
}

/// a major class holds exactly the categories whose name starts with its letter
pub proof fn c10_classes()
    ensures
        forall|c: UnicodeCategory| in_group_L(c) <==> (#[trigger] cat_name(c))[0] == 'L',
        forall|c: UnicodeCategory| in_group_M(c) <==> (#[trigger] cat_name(c))[0] == 'M',
        forall|c: UnicodeCategory| in_group_N(c) <==> (#[trigger] cat_name(c))[0] == 'N',
        forall|c: UnicodeCategory| in_group_P(c) <==> (#[trigger] cat_name(c))[0] == 'P',
        forall|c: UnicodeCategory| in_group_S(c) <==> (#[trigger] cat_name(c))[0] == 'S',
        forall|c: UnicodeCategory| in_group_Z(c) <==> (#[trigger] cat_name(c))[0] == 'Z',
        forall|c: UnicodeCategory| in_group_C(c) <==> (#[trigger] cat_name(c))[0] == 'C',
{
    reveal_names();
}

/// the class constants hold what the class holds
pub fn c10_class_constants() -> (r: [UnicodeCategorySet; 7])
    ensures
        forall|c: UnicodeCategory| #[trigger] r[0].has(c) <==> cat_name(c)[0] == 'L',
        forall|c: UnicodeCategory| #[trigger] r[1].has(c) <==> cat_name(c)[0] == 'M',
        forall|c: UnicodeCategory| #[trigger] r[2].has(c) <==> cat_name(c)[0] == 'N',
        forall|c: UnicodeCategory| #[trigger] r[3].has(c) <==> cat_name(c)[0] == 'P',
        forall|c: UnicodeCategory| #[trigger] r[4].has(c) <==> cat_name(c)[0] == 'S',
        forall|c: UnicodeCategory| #[trigger] r[5].has(c) <==> cat_name(c)[0] == 'Z',
        forall|c: UnicodeCategory| #[trigger] r[6].has(c) <==> cat_name(c)[0] == 'C',
{
    proof { c10_classes(); }
    [UnicodeCategory::L, UnicodeCategory::M, UnicodeCategory::N, UnicodeCategory::P, UnicodeCategory::S, UnicodeCategory::Z, UnicodeCategory::C]
}

/// every long name denotes the category Unicode calls by that name
pub proof fn c10_aliases()
    ensures
        UnicodeCategory::CLOSE_PUNCTUATION == UnicodeCategory::Pe,
        UnicodeCategory::CONNECTOR_PUNCTUATION == UnicodeCategory::Pc,
        UnicodeCategory::CONTROL == UnicodeCategory::Cc,
        UnicodeCategory::CURRENCY_SYMBOL == UnicodeCategory::Sc,
        UnicodeCategory::DASH_PUNCTUATION == UnicodeCategory::Pd,
        UnicodeCategory::DECIMAL_NUMBER == UnicodeCategory::Nd,
        UnicodeCategory::ENCLOSING_MARK == UnicodeCategory::Me,
        UnicodeCategory::FINAL_PUNCTUATION == UnicodeCategory::Pf,
        UnicodeCategory::FORMAT == UnicodeCategory::Cf,
        UnicodeCategory::INITIAL_PUNCTUATION == UnicodeCategory::Pi,
        UnicodeCategory::LETTER_NUMBER == UnicodeCategory::Nl,
        UnicodeCategory::LINE_SEPARATOR == UnicodeCategory::Zl,
        UnicodeCategory::LOWERCASE_LETTER == UnicodeCategory::Ll,
        UnicodeCategory::MATH_SYMBOL == UnicodeCategory::Sm,
        UnicodeCategory::MODIFIER_LETTER == UnicodeCategory::Lm,
        UnicodeCategory::MODIFIER_SYMBOL == UnicodeCategory::Sk,
        UnicodeCategory::NONSPACING_MARK == UnicodeCategory::Mn,
        UnicodeCategory::OPEN_PUNCTUATION == UnicodeCategory::Ps,
        UnicodeCategory::OTHER_LETTER == UnicodeCategory::Lo,
        UnicodeCategory::OTHER_NUMBER == UnicodeCategory::No,
        UnicodeCategory::OTHER_PUNCTUATION == UnicodeCategory::Po,
        UnicodeCategory::OTHER_SYMBOL == UnicodeCategory::So,
        UnicodeCategory::PARAGRAPH_SEPARATOR == UnicodeCategory::Zp,
        UnicodeCategory::PRIVATE_USE == UnicodeCategory::Co,
        UnicodeCategory::SPACE_SEPARATOR == UnicodeCategory::Zs,
        UnicodeCategory::SPACING_MARK == UnicodeCategory::Mc,
        UnicodeCategory::SURROGATE == UnicodeCategory::Cs,
        UnicodeCategory::TITLECASE_LETTER == UnicodeCategory::Lt,
        UnicodeCategory::UNASSIGNED == UnicodeCategory::Cn,
        UnicodeCategory::UPPERCASE_LETTER == UnicodeCategory::Lu,
{
}

/// printing a category writes its name; printing a set writes the names of its members in order, separated by a comma and a space
pub fn c10_display(c: &UnicodeCategory, s: &UnicodeCategorySet, f: &mut core::fmt::Formatter<'_>, g: &mut core::fmt::Formatter<'_>) -> (r: (core::fmt::Result, core::fmt::Result))
    ensures
        crate::shim::wrote(old(f), final(f), r.0, cat_name(*c)),
        crate::shim::wrote(old(g), final(g), r.1, joined(items_of(s.bits(), 30))),
{
    (<UnicodeCategory as core::fmt::Display>::fmt(c, f), <UnicodeCategorySet as core::fmt::Display>::fmt(s, g))
}

// ---- C11

pub fn c11_display(v: &UnicodeVersion, f: &mut core::fmt::Formatter<'_>) -> (r: core::fmt::Result)
    ensures crate::shim::wrote(old(f), final(f), r, version_name(*v)),
{
    <UnicodeVersion as core::fmt::Display>::fmt(v, f)
}

pub fn c11_parse(s: &str) -> (r: Result<UnicodeVersion, Error>)
    ensures
        (exists|v: UnicodeVersion| s@ == #[trigger] version_name(v)) <==> r is Ok,
        r is Ok ==> s@ == version_name(r->Ok_0),
        r is Err ==> r->Err_0 is InvalidVersion && r->Err_0->InvalidVersion_0@ == s@,
{
    UnicodeVersion::from_str(s)
}

pub fn c11_round_trip(v: UnicodeVersion) -> (r: Result<UnicodeVersion, Error>)
    ensures r == Ok::<UnicodeVersion, Error>(v),
{
    proof { c11_names(); }
    UnicodeVersion::from_str(v.as_str())
}

pub proof fn c11_names()
    ensures forall|a: UnicodeVersion, b: UnicodeVersion| #[trigger] version_name(a) == #[trigger] version_name(b) ==> a == b,
{
    reveal_strlit("9.0.0");
    reveal_strlit("10.0.0");
    reveal_strlit("11.0.0");
    reveal_strlit("12.0.0");
    reveal_strlit("12.1.0");
    reveal_strlit("13.0.0");
    reveal_strlit("14.0.0");
    reveal_strlit("15.0.0");
    reveal_strlit("15.1.0");
    reveal_strlit("16.0.0");
    reveal_strlit("17.0.0");
    assert forall|a: UnicodeVersion, b: UnicodeVersion| #[trigger] version_name(a) == #[trigger] version_name(b) implies a == b by {
        assert(version_name(a).len() == version_name(b).len());
        assert(version_name(a)[0] == version_name(b)[0] && version_name(a)[1] == version_name(b)[1] && version_name(a)[3] == version_name(b)[3]);
    }
}

/// two versions compare equal exactly when they have the same name
pub fn c11_equality(a: UnicodeVersion, b: UnicodeVersion) -> (r: bool)
    ensures r <==> version_name(a) == version_name(b),
{
    proof { c11_names(); }
    a == b
}

/// the list holds every version once, oldest first; the latest is its last element and the default of `query()`
pub fn c11_list() -> (r: (UnicodeVersion, [UnicodeVersion; 11]))
    ensures
        forall|v: UnicodeVersion| r.1@.contains(v),
        forall|i: int, j: int| 0 <= i < j < r.1@.len() ==> (#[trigger] r.1@[i] as int) < (#[trigger] r.1@[j] as int),
        r.1@.len() == 11,
        r.0 == r.1@[10],
{
    let all = UnicodeVersion::ALL;
    proof {
        assert(all@ == all_versions());
        assert forall|v: UnicodeVersion| all_versions().contains(v) by { assert(all_versions()[v as int] == v); }
    }
    (UnicodeVersion::latest(), all)
}

/// unversioned queries use the latest version
pub fn c11_default_query() -> (r: IntervalQuery<'static>)
    ensures r.settings().version == all_versions().last(),
{
    crate::query()
}

// ---- C12

/// the normalized order: all thirty once, Cc and Cs last, the rest by number of intervals then name
pub fn c12_order(v: UnicodeVersion) -> (r: [UnicodeCategory; 30])
    ensures
        forall|c: UnicodeCategory| #[trigger] listed(r@, c),
        forall|i: int, j: int| 0 <= i < j < 30 ==> #[trigger] r@[i] != #[trigger] r@[j],
        r@[28] is Cc, r@[29] is Cs,
        forall|i: int, j: int| 0 <= i < j < 28 ==> ({
            let (m, n) = (tab(v)[cid(#[trigger] r@[i])]@.len(), tab(v)[cid(#[trigger] r@[j])]@.len());
            m < n || (m == n && name_less(cat_name(r@[i]), cat_name(r@[j])))
        }),
{
    let r = v.normalized_categories();
    proof {
        c12_ranks();
        assert forall|i: int, j: int| 0 <= i < j < 28 implies ({
            let (m, n) = (tab(v)[cid(#[trigger] r@[i])]@.len(), tab(v)[cid(#[trigger] r@[j])]@.len());
            m < n || (m == n && name_less(cat_name(r@[i]), cat_name(r@[j])))
        }) by { assert(before(v, r@[i], r@[j])); }
    }
    r
}

/// alphabetical order of two-letter names
pub open spec fn name_less(a: Seq<char>, b: Seq<char>) -> bool {
    (a[0] as int) < b[0] as int || (a[0] == b[0] && (a[1] as int) < b[1] as int)
}

/// the rank of a category is its place in the alphabetical order
pub proof fn c12_ranks()
    ensures forall|a: UnicodeCategory, b: UnicodeCategory| #[trigger] cat_rank(a) < #[trigger] cat_rank(b) ==> name_less(cat_name(a), cat_name(b)),
{
    reveal_names();
}

proof fn reveal_names()
    ensures
        forall|c: UnicodeCategory| (#[trigger] cat_name(c)).len() == 2 && cat_name(c)[0] == letter1(c) && cat_name(c)[1] == letter2(c),
{
    reveal_strlit("Pe");
    reveal_strlit("Pc");
    reveal_strlit("Cc");
    reveal_strlit("Sc");
    reveal_strlit("Pd");
    reveal_strlit("Nd");
    reveal_strlit("Me");
    reveal_strlit("Pf");
    reveal_strlit("Cf");
    reveal_strlit("Pi");
    reveal_strlit("Nl");
    reveal_strlit("Zl");
    reveal_strlit("Ll");
    reveal_strlit("Sm");
    reveal_strlit("Lm");
    reveal_strlit("Sk");
    reveal_strlit("Mn");
    reveal_strlit("Ps");
    reveal_strlit("Lo");
    reveal_strlit("No");
    reveal_strlit("Po");
    reveal_strlit("So");
    reveal_strlit("Zp");
    reveal_strlit("Co");
    reveal_strlit("Zs");
    reveal_strlit("Mc");
    reveal_strlit("Cs");
    reveal_strlit("Lt");
    reveal_strlit("Cn");
    reveal_strlit("Lu");
}

pub open spec fn letter1(c: UnicodeCategory) -> char {
    match c {
        UnicodeCategory::Pe => 'P',
        UnicodeCategory::Pc => 'P',
        UnicodeCategory::Cc => 'C',
        UnicodeCategory::Sc => 'S',
        UnicodeCategory::Pd => 'P',
        UnicodeCategory::Nd => 'N',
        UnicodeCategory::Me => 'M',
        UnicodeCategory::Pf => 'P',
        UnicodeCategory::Cf => 'C',
        UnicodeCategory::Pi => 'P',
        UnicodeCategory::Nl => 'N',
        UnicodeCategory::Zl => 'Z',
        UnicodeCategory::Ll => 'L',
        UnicodeCategory::Sm => 'S',
        UnicodeCategory::Lm => 'L',
        UnicodeCategory::Sk => 'S',
        UnicodeCategory::Mn => 'M',
        UnicodeCategory::Ps => 'P',
        UnicodeCategory::Lo => 'L',
        UnicodeCategory::No => 'N',
        UnicodeCategory::Po => 'P',
        UnicodeCategory::So => 'S',
        UnicodeCategory::Zp => 'Z',
        UnicodeCategory::Co => 'C',
        UnicodeCategory::Zs => 'Z',
        UnicodeCategory::Mc => 'M',
        UnicodeCategory::Cs => 'C',
        UnicodeCategory::Lt => 'L',
        UnicodeCategory::Cn => 'C',
        UnicodeCategory::Lu => 'L',
    }
}

pub open spec fn letter2(c: UnicodeCategory) -> char {
    match c {
        UnicodeCategory::Pe => 'e',
        UnicodeCategory::Pc => 'c',
        UnicodeCategory::Cc => 'c',
        UnicodeCategory::Sc => 'c',
        UnicodeCategory::Pd => 'd',
        UnicodeCategory::Nd => 'd',
        UnicodeCategory::Me => 'e',
        UnicodeCategory::Pf => 'f',
        UnicodeCategory::Cf => 'f',
        UnicodeCategory::Pi => 'i',
        UnicodeCategory::Nl => 'l',
        UnicodeCategory::Zl => 'l',
        UnicodeCategory::Ll => 'l',
        UnicodeCategory::Sm => 'm',
        UnicodeCategory::Lm => 'm',
        UnicodeCategory::Sk => 'k',
        UnicodeCategory::Mn => 'n',
        UnicodeCategory::Ps => 's',
        UnicodeCategory::Lo => 'o',
        UnicodeCategory::No => 'o',
        UnicodeCategory::Po => 'o',
        UnicodeCategory::So => 'o',
        UnicodeCategory::Zp => 'p',
        UnicodeCategory::Co => 'o',
        UnicodeCategory::Zs => 's',
        UnicodeCategory::Mc => 'c',
        UnicodeCategory::Cs => 's',
        UnicodeCategory::Lt => 't',
        UnicodeCategory::Cn => 'n',
        UnicodeCategory::Lu => 'u',
    }
}

// ---- C13

/// expansion: exactly the categories some entry names, once each, in normalized order; or the first bad entry
pub fn c13_expand(entries: &[&str], version: UnicodeVersion) -> (r: Result<Vec<UnicodeCategory>, Error>)
    ensures
        (match r {
            Ok(v) => {
                &&& forall|c: UnicodeCategory| v@.contains(c) <==> exists|i: int| 0 <= i < entries@.len() && entry_names(#[trigger] entries@[i]@, c)
                &&& forall|i: int, j: int| 0 <= i < j < v@.len() ==> v@[i] != v@[j]
                &&& exists|order: Seq<UnicodeCategory>, pick: spec_fn(UnicodeCategory) -> bool| #[trigger] normalized(version, order) && v@ == #[trigger] order.filter(pick)
                &&& forall|i: int| 0 <= i < entries@.len() ==> entry_valid(#[trigger] entries@[i]@)
            }
            Err(e) => exists|k: int| 0 <= k < entries@.len() && !entry_valid((#[trigger] entries@[k])@) && (forall|i: int| 0 <= i < k ==> entry_valid((#[trigger] entries@[i])@))
                && e is InvalidCategory && e->InvalidCategory_0@ == entries@[k]@,
        }),
{
    broadcast use crate::shim::group_as_ref;
    let it = entries.iter();
    let ghost s = it.remaining();
    let r = crate::as_general_categories(it, version);
    proof {
        assert(general(s, version, r));
        assert(s.len() == entries@.len());
        assert forall|i: int| 0 <= i < s.len() implies entry_text(#[trigger] s[i]) == entries@[i]@ by {}
        if r is Ok {
            {
                let v = r->Ok_0;
                let w = |c: UnicodeCategory| named_upto(s, s.len() as int, c);
                let order = choose|order: Seq<UnicodeCategory>| #[trigger] normalized(version, order) && v@ == order.filter(w);
                lemma_filter_distinct(order, w);
                assert forall|c: UnicodeCategory| v@.contains(c) <==> exists|i: int| 0 <= i < entries@.len() && entry_names(#[trigger] entries@[i]@, c) by {
                    assert(listed(order, c));
                    let k = choose|k: int| 0 <= k < order.len() && #[trigger] order[k] == c;
                    assert(order.contains(c));
                    if w(c) { let i = choose|i: int| 0 <= i < s.len() && entry_names(entry_text(#[trigger] s[i]), c); assert(entry_names(entries@[i]@, c)); }
                    if exists|i: int| 0 <= i < entries@.len() && entry_names(#[trigger] entries@[i]@, c) {
                        let i = choose|i: int| 0 <= i < entries@.len() && entry_names(#[trigger] entries@[i]@, c);
                        assert(entry_names(entry_text(s[i]), c));
                    }
                }
                assert forall|i: int| 0 <= i < entries@.len() implies entry_valid(#[trigger] entries@[i]@) by { assert(entry_valid(entry_text(s[i]))); }
            }
        } else {
            {
                let e = r->Err_0;
                let k = choose|k: int| 0 <= k < s.len() && !entry_valid(entry_text(#[trigger] s[k]))
                    && (forall|i: int| 0 <= i < k ==> entry_valid(entry_text(#[trigger] s[i]))) && e is InvalidCategory && e->InvalidCategory_0@ == entry_text(s[k]);
                assert(!entry_valid(entries@[k]@));
                assert forall|i: int| 0 <= i < k implies entry_valid(#[trigger] entries@[i]@) by { assert(entry_valid(entry_text(s[i]))); }
            }
        }
    }
    r
}

/// picking from a list without repetitions
proof fn lemma_filter_distinct<A>(s: Seq<A>, w: spec_fn(A) -> bool)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j],
    ensures
        forall|x: A| #[trigger] s.filter(w).contains(x) <==> s.contains(x) && w(x),
        forall|i: int, j: int| 0 <= i < j < s.filter(w).len() ==> #[trigger] s.filter(w)[i] != #[trigger] s.filter(w)[j],
    decreases s.len(),
{
    reveal(Seq::filter);
    let f = s.filter(w);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_filter_distinct(t, w);
        let g = t.filter(w);
        assert forall|x: A| #[trigger] f.contains(x) <==> s.contains(x) && w(x) by {
            assert(g.contains(x) <==> t.contains(x) && w(x));
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < t.len() { assert(t[i] == x); } }
            if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i] == x); }
            if w(s.last()) {
                assert(f == g.push(s.last()));
                if f.contains(x) { let i = choose|i: int| 0 <= i < f.len() && f[i] == x; if i < g.len() { assert(g[i] == x); } else { assert(s[s.len() - 1] == x); } }
                if g.contains(x) { let i = choose|i: int| 0 <= i < g.len() && g[i] == x; assert(f[i] == x); }
                if x == s.last() { assert(f[g.len() as int] == x); }
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies #[trigger] f[i] != #[trigger] f[j] by {
            if j < g.len() { assert(g[i] != g[j]); } else {
                assert(g.contains(g[i]));
                let k = choose|k: int| 0 <= k < t.len() && t[k] == g[i];
                assert(s[k] != s[s.len() - 1]);
            }
        }
    }
}

// ---- C14

/// every setting keeps the last value given and touches nothing else
pub fn c14_last_write_wins<'a>(q: IntervalQuery<'a>, a: u32, b: u32, s: &'a str, t: &'a str, x: Option<UnicodeCategorySet>, y: Option<UnicodeCategorySet>) -> (r: IntervalQuery<'a>)
    ensures r.settings() == (Settings { include_categories: y, exclude_categories: x, include_characters: Some(t@), exclude_characters: Some(s@), min: b, max: a, ..q.settings() }),
{
    q.min_codepoint(a).max_codepoint(b).include_characters(s).exclude_characters(t).include_categories(x).exclude_categories(y)
        .exclude_categories(x).include_categories(y).exclude_characters(s).include_characters(t).max_codepoint(a).min_codepoint(b)
}

/// unset settings
pub fn c14_defaults<'a>(v: UnicodeVersion) -> (r: (IntervalQuery<'a>, IntervalQuery<'a>))
    ensures
        r.0.settings() == (Settings { version: v, include_categories: None, exclude_categories: None, include_characters: None, exclude_characters: None, min: 0, max: 0x10ffff }),
        r.1.settings() == (Settings { version: UnicodeVersion::V17_0_0, ..r.0.settings() }),
{
    (v.query(), crate::query())
}

/// the answer depends on the settings only
pub fn c14_same_settings<'a, 'b>(p: &IntervalQuery<'a>, q: &IntervalQuery<'b>) -> (r: (Result<Vec<Interval>, Error>, Result<Vec<Interval>, Error>))
    requires p.settings() == q.settings(),
    ensures
        (match r { (Ok(a), Ok(b)) => a@ == b@, (Err(a), Err(b)) => a == b, _ => false }),
{
    let (a, b) = (p.intervals(), q.intervals());
    proof {
        if a is Ok && b is Ok {
            let (x, y) = (a->Ok_0@, b->Ok_0@);
            assert forall|c: int| cov(x, c) <==> cov(y, c) by { assert(cov(x, c) <==> wanted(p.settings(), c)); assert(cov(y, c) <==> wanted(p.settings(), c)); }
            c02_unique(x, y);
        }
    }
    (a, b)
}

/// an unset restriction means the same as its neutral value
pub proof fn c14_neutral(q: Settings, none: UnicodeCategorySet, all: UnicodeCategorySet, c: int)
    requires forall|k: UnicodeCategory| !#[trigger] none.has(k), forall|k: UnicodeCategory| #[trigger] all.has(k),
    ensures
        q.include_categories is None ==> wanted(q, c) == wanted(Settings { include_categories: Some(all), ..q }, c),
        q.exclude_categories is None ==> wanted(q, c) == wanted(Settings { exclude_categories: Some(none), ..q }, c),
        q.include_characters is None ==> wanted(q, c) == wanted(Settings { include_characters: Some(Seq::empty()), ..q }, c),
        q.exclude_characters is None ==> wanted(q, c) == wanted(Settings { exclude_characters: Some(Seq::empty()), ..q }, c),
{
    let a = q;
    let b = Settings { include_categories: Some(all), ..q };
    let d = Settings { exclude_categories: Some(none), ..q };
    if q.include_categories is None {
        assert forall|k: UnicodeCategory| #[trigger] cat_has(q.version, k, c) implies (a.include_categories is None || a.include_categories->0.has(k)) && b.include_categories->0.has(k) by {}
    }
    if q.exclude_categories is None {
        assert forall|k: UnicodeCategory| #[trigger] cat_has(q.version, k, c) implies (a.exclude_categories is None || !a.exclude_categories->0.has(k)) && !d.exclude_categories->0.has(k) by {}
    }
}

// ---- C17

/// nothing here has a precondition: every argument of the type is accepted, and the verifier shows each call returns
pub fn c17_total(v: UnicodeVersion, include: Option<UnicodeCategorySet>, exclude: UnicodeCategorySet, inc: &str, exc: &str, a: u32, b: u32, k: UnicodeCategory, name: &str) {
    let r = full_query(v, include, exclude, inc, exc, a, b).interval_set();
    if let Ok(s) = r {
        let _ = s.len();
        let _ = s.is_empty();
        let _ = s.codepoint_at(a);
        let _ = s.index_of(b);
        let _ = s.index_above(b);
        let _ = s.contains(a);
        let mut it = s.iter();
        let _ = it.next();
        let _ = it.next_back();
    }
    let _ = v.normalized_categories();
    let _ = v.intervals_for(k);
    let _ = UnicodeVersion::from_str(name);
    let _ = UnicodeCategory::from_str(name);
    let mut x = exclude;
    x.add(k);
    x.remove(k);
    x |= k;
    let _ = x.len();
    let mut i = x.iter();
    let _ = i.len();
    let _ = i.next();
}

// ---- C18

/// printing an error writes the message of its kind with the offending values, and nothing else
pub fn c18_display(e: &Error, f: &mut core::fmt::Formatter<'_>) -> (r: core::fmt::Result)
    ensures crate::shim::wrote(old(f), final(f), r, error_text(*e)),
{
    <Error as core::fmt::Display>::fmt(e, f)
}

/// both values are printed in decimal
pub proof fn c18_values(a: u32, b: u32)
    ensures
        error_text(Error::InvalidCodepoints(a, b)) == "Minimum codepoint should be less or equal than maximum codepoint. Got "@ + crate::shim::dec(a as nat) + " < "@ + crate::shim::dec(b as nat),
        error_text(Error::CodepointNotInRange(a, b)) == "Codepoints should be in [0; "@ + crate::shim::dec(1114111) + "] range. Got: ["@ + crate::shim::dec(a as nat) + "; "@ + crate::shim::dec(b as nat) + "]"@,
{
}

/// what a refused name prints is the name that was passed, as it was passed
pub fn c18_category(s: &str) -> (r: Result<UnicodeCategory, Error>)
    ensures r is Err ==> error_text(r->Err_0) == "'"@ + s@ + "' is not a valid Unicode category"@,
{
    UnicodeCategory::from_str(s)
}

pub fn c18_version(s: &str) -> (r: Result<UnicodeVersion, Error>)
    ensures r is Err ==> error_text(r->Err_0) == "'"@ + s@ + "' is not a valid Unicode version"@,
{
    UnicodeVersion::from_str(s)
}

/// an expansion that fails names the first entry that is neither a class nor a category
pub fn c18_expand(entries: &[&str], version: UnicodeVersion) -> (r: Result<Vec<UnicodeCategory>, Error>)
    ensures
        r is Err ==> exists|k: int| 0 <= k < entries@.len() && !entry_valid((#[trigger] entries@[k])@) && (forall|i: int| 0 <= i < k ==> entry_valid((#[trigger] entries@[i])@))
            && error_text(r->Err_0) == "'"@ + entries@[k]@ + "' is not a valid Unicode category"@,
{
    c13_expand(entries, version)
}

/// a query that fails prints the two bounds it was given, in their order
pub fn c18_query(q: &IntervalQuery<'_>) -> (r: Result<Vec<Interval>, Error>)
    ensures
        r is Err ==> error_text(r->Err_0) == if q.settings().min > 0x10ffff || q.settings().max > 0x10ffff {
            "Codepoints should be in [0; "@ + crate::shim::dec(1114111) + "] range. Got: ["@ + crate::shim::dec(q.settings().min as nat) + "; "@ + crate::shim::dec(q.settings().max as nat) + "]"@
        } else {
            "Minimum codepoint should be less or equal than maximum codepoint. Got "@ + crate::shim::dec(q.settings().min as nat) + " < "@ + crate::shim::dec(q.settings().max as nat)
        },
{
    q.intervals()
}

}
