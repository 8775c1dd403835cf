//! Trusted contracts of standard-library functions the crate calls (listed in every evidence file).
//! Bodies here are never executed; the crate's own code calls the standard library.
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::OrdSpec;
use core::ops::RangeInclusive;

verus! {

/// a condition of the build profile: either way
#[verifier::external_body]
pub fn any_bool() -> bool { cfg!(debug_assertions) }


/// the key function can return a key for `x` that is not greater than one for `y`
pub open spec fn key_le<T, K: Ord, F: FnMut(&T) -> K>(f: F, x: T, y: T) -> bool {
    exists|a: K, b: K| call_ensures(f, (&x,), a) && call_ensures(f, (&y,), b) && #[trigger] a.cmp_spec(&b) != core::cmp::Ordering::Greater
}

/// `slice::sort_by_key`: stable sort, result is a permutation ordered by the key
pub assume_specification<T, K: Ord, F: FnMut(&T) -> K>[ <[T]>::sort_by_key::<K, F> ](s: &mut [T], f: F)
    requires
        forall|i: int| 0 <= i < old(s)@.len() ==> call_requires(f, (&#[trigger] old(s)@[i],)),
    ensures
        final(s)@.to_multiset() =~= old(s)@.to_multiset(),
        final(s)@.len() == old(s)@.len(),
        forall|i: int, j: int| 0 <= i < j < final(s)@.len() ==> key_le::<T, K, F>(f, #[trigger] final(s)@[i], #[trigger] final(s)@[j]),
;


/// cloning a pair of integers copies it (`Vec::extend_from_slice` clones elements)
#[verifier::external_body]
pub broadcast proof fn axiom_pair_cloned(a: (u32, u32), b: (u32, u32))
    ensures #[trigger] cloned::<(u32, u32)>(a, b) ==> a == b,
{
}

pub broadcast group group_shim {
    axiom_pair_cloned,
}


/// `<[T]>::partition_point`: the first index where the predicate is false, for partitioned slices
pub assume_specification<T, P: FnMut(&T) -> bool>[ <[T]>::partition_point::<P> ](s: &[T], pred: P) -> (r: usize)
    requires
        forall|i: int| 0 <= i < s@.len() ==> call_requires(pred, (&#[trigger] s@[i],)),
    ensures
        r <= s@.len(),
        (forall|i: int, j: int| 0 <= i < j < s@.len() && call_ensures(pred, (&#[trigger] s@[j],), true)
            ==> !call_ensures(pred, (&#[trigger] s@[i],), false)) ==> {
            &&& forall|i: int| 0 <= i < r ==> call_ensures(pred, (&#[trigger] s@[i],), true)
            &&& forall|i: int| r <= i < s@.len() ==> call_ensures(pred, (&#[trigger] s@[i],), false)
        },
;

/// `Option::map_or_else`
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
    requires o is None ==> call_requires(d, ()), o is Some ==> call_requires(f, (o->0,)),
    ensures o is None ==> call_ensures(d, (), r), o is Some ==> call_ensures(f, (o->0,), r),
;

/// `Option::map_or`
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> call_requires(f, (o->0,)),
    ensures o is None ==> r == d, o is Some ==> call_ensures(f, (o->0,), r),
;

/// `Option::is_some_and`
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,)),
    ensures o is None ==> !r, o is Some ==> call_ensures(f, (o->0,), r),
;

/// `Option::is_none_or`
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,)),
    ensures o is None ==> r, o is Some ==> call_ensures(f, (o->0,), r),
;

/// `drop` and `identity`
pub assume_specification<T>[ core::mem::drop::<T> ](x: T);
pub assume_specification<T>[ core::convert::identity::<T> ](x: T) -> (r: T)
    ensures r == x,
;
pub assume_specification<T>[ core::hint::black_box::<T> ](x: T) -> (r: T)
    ensures r == x,
;

/// `u32::from(char)` is the scalar value
pub assume_specification[ <u32 as From<char>>::from ](c: char) -> (r: u32)
    ensures r == c as u32,
;

/// the reflexive conversion is the identity
/// std: `impl<T> From<T> for Option<T>`
pub assume_specification<T>[ <Option<T> as From<T>>::from ](c: T) -> (r: Option<T>)
    ensures r == Some(c),
;

pub assume_specification<T>[ <T as From<T>>::from ](c: T) -> (r: T)
    ensures r == c,
;

/// `Vec::reserve_exact` does not change the contents
pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::reserve_exact ](v: &mut Vec<T, A>, additional: usize)
    ensures final(v)@ == old(v)@,
;

/// concatenation of a sequence of sequences
pub open spec fn concat(s: Seq<Seq<u32>>) -> Seq<u32>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last() }
}

#[verifier::prophetic]
pub open spec fn items_of(rs: Seq<RangeInclusive<u32>>) -> Seq<Seq<u32>> {
    Seq::new(rs.len(), |i: int| rs[i].remaining())
}

/// `core::iter::FlatMap<Copied<slice::Iter<(u32, u32)>>, RangeInclusive<u32>, fn((u32, u32)) -> RangeInclusive<u32>>`
#[verifier::external_body]
pub struct FlatMapPairs<'a> {
    p: core::marker::PhantomData<&'a u32>,
}

impl<'a> Clone for FlatMapPairs<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    {
        unimplemented!()
    }
}

#[verifier::external]
impl<'a> core::fmt::Debug for FlatMapPairs<'a> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}

impl<'a> View for FlatMapPairs<'a> {
    type V = Seq<u32>;
    /// the items not yet yielded
    uninterp spec fn view(&self) -> Seq<u32>;
}

/// `it.copied().flat_map(f)`
#[verifier::external_body]
pub fn flat_map_copied<'a, F: Fn((u32, u32)) -> RangeInclusive<u32>>(it: core::slice::Iter<'a, (u32, u32)>, f: F) -> (r: FlatMapPairs<'a>)
    requires
        forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (*#[trigger] it.remaining()[i],)),
    ensures
        exists|rs: Seq<RangeInclusive<u32>>| rs.len() == it.remaining().len()
            && (forall|i: int| 0 <= i < rs.len() ==> call_ensures(f, (*it.remaining()[i],), #[trigger] rs[i]))
            && r@ == concat(#[trigger] items_of(rs)),
{
    unimplemented!()
}

impl<'a> FlatMapPairs<'a> {
    /// `FlatMap::next`
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u32>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    {
        unimplemented!()
    }

    /// `FlatMap::next_back`
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<u32>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    {
        unimplemented!()
    }
}


/// `u32::count_ones` counts the set bits
pub assume_specification[ u32::count_ones ](x: u32) -> (r: u32)
    ensures r == crate::bits::card(x, 32),
;

/// `core::cmp::max` / `min`
pub assume_specification<T: Ord>[ core::cmp::max::<T> ](a: T, b: T) -> (r: T)
    ensures r == if a.cmp_spec(&b) == core::cmp::Ordering::Greater { a } else { b },
;

pub assume_specification<T: Ord>[ core::cmp::min::<T> ](a: T, b: T) -> (r: T)
    ensures r == if a.cmp_spec(&b) == core::cmp::Ordering::Greater { b } else { a },
;

/// `Cow::into_owned`: the owned value, or a copy of the borrowed one
#[verifier::external_body]
pub fn cow_into_owned(c: std::borrow::Cow<'_, [(u32, u32)]>) -> (r: Vec<(u32, u32)>)
    ensures r@ == c@,
{
    c.into_owned()
}

pub open spec fn sum_seq(s: Seq<usize>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { sum_seq(s.drop_last()) + s.last() }
}

/// `it.map(f).sum::<usize>()`: overflow panics
#[verifier::external_body]
pub fn sum_map<I: Iterator, F: Fn(I::Item) -> usize>(it: I, f: F) -> (r: usize)
    requires
        it.obeys_prophetic_iter_laws(), it.will_return_none(),
        forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (#[trigger] it.remaining()[i],)),
        forall|s: Seq<usize>| s.len() == it.remaining().len()
            && (forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (it.remaining()[i],), #[trigger] s[i]))
            ==> #[trigger] sum_seq(s) <= usize::MAX,
    ensures
        exists|s: Seq<usize>| s.len() == it.remaining().len()
            && (forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (it.remaining()[i],), #[trigger] s[i]))
            && #[trigger] sum_seq(s) == r,
{
    it.map(f).sum()
}

/// `array.into_iter()`
#[verifier::external_body]
pub fn array_items<T, const N: usize>(a: [T; N]) -> (r: std::vec::IntoIter<T>)
    ensures r.remaining() == a@, r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
{
    unimplemented!()
}

/// `E.filter(f).collect()` (verified)
pub fn filter_collect<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> (r: Vec<I::Item>)
    requires
        it.obeys_prophetic_iter_laws(), it.decrease() is Some,
        forall|x: I::Item| call_requires(f, (&x,)),
    ensures
        forall|w: spec_fn(I::Item) -> bool| (forall|x: I::Item, b: bool| call_ensures(f, (&x,), b) ==> b == w(x))
            ==> r@ == #[trigger] it.remaining().filter(w),
{
    let m = it.filter(f);
    proof {
        lemma_filter_laws(it, f, m);
    }
    let r: Vec<I::Item> = m.collect();
    proof {
        assert forall|w: spec_fn(I::Item) -> bool| (forall|x: I::Item, b: bool| call_ensures(f, (&x,), b) ==> b == w(x)) implies r@ == #[trigger] it.remaining().filter(w) by {
            lemma_filtered(it, f, m, w);
        }
    }
    r
}

pub proof fn lemma_filter_laws<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F, r: core::iter::Filter<I, F>)
    requires
        #[trigger] vstd::std_specs::iter::filter_post(i, f, r),
        i.obeys_prophetic_iter_laws(), i.decrease() is Some,
        forall|x: I::Item| call_requires(f, (&x,)),
    ensures r.obeys_prophetic_iter_laws(),
{
    vstd::std_specs::iter::filter_postcondition(i, f, r);
}

pub proof fn lemma_filtered<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F, r: core::iter::Filter<I, F>, w: spec_fn(I::Item) -> bool)
    requires
        #[trigger] vstd::std_specs::iter::filter_post(i, f, r),
        i.obeys_prophetic_iter_laws(), i.decrease() is Some, r.will_return_none(),
        forall|x: I::Item| call_requires(f, (&x,)),
        forall|x: I::Item, b: bool| call_ensures(f, (&x,), b) ==> b == w(x),
    ensures r.remaining() == #[trigger] i.remaining().filter(w),
{
    vstd::std_specs::iter::filter_postcondition(i, f, r);
    let s = i.remaining();
    let keep = vstd::std_specs::iter::filter_keep(r);
    assert(s.take(s.len() as int) =~= s);
    lemma_filter_index(s, |j: int| keep[j], w);
}

/// filtering by position and filtering by value agree
pub proof fn lemma_filter_index<A>(s: Seq<A>, p: spec_fn(int) -> bool, w: spec_fn(A) -> bool)
    requires forall|j: int| 0 <= j < s.len() ==> #[trigger] p(j) == w(s[j]),
    ensures s.filter_index(p) == s.filter(w),
    decreases s.len(),
{
    reveal(Seq::filter);
    reveal(Seq::filter_index);
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] p(j) == w(t[j]) by { assert(t[j] == s[j]); }
        lemma_filter_index(t, p, w);
        assert(p(s.len() - 1) == w(s.last()));
    }
}

/// `IntoIterator::into_iter` gives what its contract allows
#[verifier::external_body]
pub fn into_iter<I: IntoIterator>(i: I) -> (r: I::IntoIter)
    ensures call_ensures(<I as IntoIterator>::into_iter, (i,), r),
{
    i.into_iter()
}

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: core::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}

#[verifier::external_trait_specification]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T> + core::marker::PointeeSized;
    fn as_ref(&self) -> (r: &T)
        ensures r == as_ref_spec::<Self, T>(self);
}

/// what `AsRef::as_ref` gives: a function of the value
pub uninterp spec fn as_ref_spec<S: core::marker::PointeeSized, T: core::marker::PointeeSized>(s: &S) -> &T;

#[verifier::external_body]
pub broadcast proof fn axiom_as_ref_str(x: &str)
    ensures #[trigger] as_ref_spec::<str, str>(x) == x,
{
}

/// `impl AsRef<U> for &T`
#[verifier::external_body]
pub broadcast proof fn axiom_as_ref_ref<'a, T: AsRef<U> + ?Sized, U: ?Sized>(x: &&'a T)
    ensures #[trigger] as_ref_spec::<&'a T, U>(x) == as_ref_spec::<T, U>(*x),
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_as_ref_string(x: &String)
    ensures #[trigger] as_ref_spec::<String, str>(x)@ == x@,
{
}

pub broadcast group group_as_ref {
    axiom_as_ref_str, axiom_as_ref_ref, axiom_as_ref_string,
}

// ---- strings

/// two string slices with the same characters are the same value
#[verifier::external_body]
pub proof fn lemma_str_eq()
    ensures forall|a: &str, b: &str| #[trigger] a@ == #[trigger] b@ ==> a == b,
{
}

pub assume_specification[ String::into_boxed_str ](s: String) -> (r: Box<str>)
    ensures r@ == s@,
;

pub assume_specification<F: core::str::FromStr>[ str::parse::<F> ](s: &str) -> (r: Result<F, F::Err>)
    requires call_requires(<F as core::str::FromStr>::from_str, (s,)),
    ensures call_ensures(<F as core::str::FromStr>::from_str, (s,), r),
;

// ---- formatting

/// what has been written to a formatter
pub uninterp spec fn fmt_out(f: &core::fmt::Formatter<'_>) -> Seq<char>;

/// the formatter's sink never reports an error
pub uninterp spec fn fmt_good(f: &core::fmt::Formatter<'_>) -> bool;

/// `text` was written, unless the sink failed
pub open spec fn wrote(a: &core::fmt::Formatter<'_>, b: &core::fmt::Formatter<'_>, r: core::fmt::Result, text: Seq<char>) -> bool {
    &&& r is Ok ==> fmt_out(b) == fmt_out(a) + text
    &&& fmt_good(a) ==> r is Ok && fmt_good(b)
}

/// the text of a `Display` argument written with `{}`
pub uninterp spec fn display_text<T: core::fmt::Display + ?Sized>(x: &T) -> Seq<char>;

pub assume_specification<'a>[ core::fmt::Formatter::<'a>::write_str ](f: &mut core::fmt::Formatter<'a>, s: &str) -> (r: core::fmt::Result)
    ensures wrote(old(f), final(f), r, s@),
;

/// `Display::fmt(x, f)` as `format_args!("{x}")` calls it
#[verifier::external_body]
pub fn fmt_arg<T: core::fmt::Display + ?Sized>(x: &T, f: &mut core::fmt::Formatter<'_>) -> (r: core::fmt::Result)
    ensures wrote(old(f), final(f), r, display_text(x)),
{
    core::fmt::Display::fmt(x, f)
}

/// decimal digits
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![digit(n as int)] } else { dec(n / 10).push(digit((n % 10) as int)) }
}

pub open spec fn digit(d: int) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}

#[verifier::external_body]
pub broadcast proof fn axiom_display_u32(x: &u32)
    ensures #[trigger] display_text::<u32>(x) == dec(*x as nat),
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_display_box(x: &Box<str>)
    ensures #[trigger] display_text::<Box<str>>(x) == x@,
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_display_ref<T: core::fmt::Display + ?Sized>(x: &&T)
    ensures #[trigger] display_text::<&T>(x) == display_text::<T>(*x),
{
}

/// `Display for UnicodeCategory` writes what its contract says
#[verifier::external_body]
pub broadcast proof fn axiom_display_category(x: &crate::UnicodeCategory)
    ensures #[trigger] display_text::<crate::UnicodeCategory>(x) == crate::categories::cat_name(*x),
{
}

pub broadcast proof fn lemma_add_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{
    assert(((a + b) + c) =~= a + (b + c));
}

pub broadcast group group_display {
    lemma_add_assoc, axiom_display_category, axiom_display_u32, axiom_display_box, axiom_display_ref,
}

pub proof fn lemma_concat_flat(s: Seq<(u32, u32)>, rs: Seq<Seq<u32>>)
    requires rs.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] rs[i] =~= crate::spec::range_seq(s[i].0, s[i].1),
    ensures concat(rs) == crate::spec::flat(s),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_concat_flat(s.drop_last(), rs.drop_last());
        assert(rs.last() =~= crate::spec::range_seq(s.last().0, s.last().1));
    }
}

pub proof fn lemma_concat_all(s: Seq<(u32, u32)>)
    ensures forall|rs: Seq<Seq<u32>>| rs.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] rs[i] =~= crate::spec::range_seq(s[i].0, s[i].1))
        ==> #[trigger] concat(rs) == crate::spec::flat(s),
{
    assert forall|rs: Seq<Seq<u32>>| rs.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] rs[i] =~= crate::spec::range_seq(s[i].0, s[i].1))
        implies #[trigger] concat(rs) == crate::spec::flat(s) by {
        lemma_concat_flat(s, rs);
    }
}


// ---- not called by the verified tree; contracts for edits of it

pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is Some ==> call_requires(f, (&o->0,)),
    ensures r is Some ==> o is Some && r == o && call_ensures(f, (&o->0,), true), o is Some && r is None ==> call_ensures(f, (&o->0,), false),
;
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if o is Some && p is Some { Some((o->0, p->0)) } else { None }),
;
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p }),
;
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> call_requires(f, ()),
    ensures o is Some ==> r == o, o is None ==> call_ensures(f, (), r),
;
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None }),
;
pub assume_specification<T>[ bool::then_some ](b: bool, t: T) -> (r: Option<T>)
    ensures r == (if b { Some(t) } else { None }),
;
pub assume_specification[ core::cmp::Ordering::is_lt ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Less);
pub assume_specification[ core::cmp::Ordering::is_gt ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Greater);
pub assume_specification[ core::cmp::Ordering::is_le ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Greater);
pub assume_specification[ core::cmp::Ordering::is_ge ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Less);
pub assume_specification[ core::cmp::Ordering::is_eq ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Equal);
pub assume_specification[ core::cmp::Ordering::is_ne ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Equal);
pub assume_specification[ char::from_u32 ](i: u32) -> (r: Option<char>)
    ensures r is Some <==> i < 0xd800 || 0xe000 <= i <= 0x10ffff, r is Some ==> r->0 as u32 == i,
;
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(s@[i], #[trigger] r@[i]),
;
pub assume_specification<'a, T: Clone>[ <Vec<T> as From<&'a [T]>>::from ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(s@[i], #[trigger] r@[i]),
;
pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize) ensures r >= v@.len();
pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::into_boxed_slice ](v: Vec<T, A>) -> (r: Box<[T], A>) ensures r@ == v@;
pub assume_specification<T>[ <[T]>::split_last ](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> (match r { Some((l, h)) => *l == s@.last() && h@ == s@.drop_last(), None => false }),
;
pub assume_specification<T, K: Ord, F: FnMut(&T) -> K>[ <[T]>::sort_unstable_by_key::<K, F> ](s: &mut [T], f: F)
    requires
        forall|i: int| 0 <= i < old(s)@.len() ==> call_requires(f, (&#[trigger] old(s)@[i],)),
    ensures
        final(s)@.to_multiset() =~= old(s)@.to_multiset(),
        final(s)@.len() == old(s)@.len(),
        forall|i: int, j: int| 0 <= i < j < final(s)@.len() ==> key_le::<T, K, F>(f, #[trigger] final(s)@[i], #[trigger] final(s)@[j]),
;
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o is Ok ==> call_requires(f, (o->Ok_0,)),
    ensures o is Err ==> r == Err::<U, E>(o->Err_0), o is Ok ==> call_ensures(f, (o->Ok_0,), r),
;
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T)
    ensures r == (if o is Ok { o->Ok_0 } else { d }),
;
pub assume_specification<T, E, F: FnOnce(T) -> bool>[ Result::<T, E>::is_ok_and ](o: Result<T, E>, f: F) -> (r: bool)
    requires o is Ok ==> call_requires(f, (o->Ok_0,)),
    ensures o is Err ==> !r, o is Ok ==> call_ensures(f, (o->Ok_0,), r),
;
pub assume_specification<T: Default>[ core::mem::take::<T> ](x: &mut T) -> (r: T)
    ensures r == *old(x), call_ensures(T::default, (), *final(x)),
;
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification[ u32::overflowing_add ](a: u32, b: u32) -> (r: (u32, bool))
    ensures r.1 == (a + b > u32::MAX), r.0 == (a + b) % 0x1_0000_0000;
pub assume_specification<'a, 'b>[ <Box<str> as From<&'a str>>::from ](s: &'b str) -> (r: Box<str>) ensures r@ == s@;
pub assume_specification[ <Box<str> as From<String>>::from ](s: String) -> (r: Box<str>) ensures r@ == s@;
pub assume_specification[ <String as From<Box<str>>>::from ](s: Box<str>) -> (r: String) ensures r@ == s@;
pub assume_specification[ str::trim ](s: &str) -> (r: &str) ensures r@.len() <= s@.len();
pub assume_specification[ str::trim_start ](s: &str) -> (r: &str) ensures r@.len() <= s@.len();
pub assume_specification[ str::trim_end ](s: &str) -> (r: &str) ensures r@.len() <= s@.len();
pub assume_specification[ str::eq_ignore_ascii_case ](s: &str, t: &str) -> (r: bool) ensures s@ == t@ ==> r;
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String);
pub assume_specification[ str::to_uppercase ](s: &str) -> (r: String);
pub assume_specification[ str::to_ascii_lowercase ](s: &str) -> (r: String) ensures r@.len() == s@.len();
pub assume_specification[ str::to_ascii_uppercase ](s: &str) -> (r: String) ensures r@.len() == s@.len();
pub assume_specification[ <u32 as From<bool>>::from ](b: bool) -> (r: u32) ensures r == (if b { 1u32 } else { 0u32 });
pub assume_specification<'a, 'b>[ <String as From<&'a str>>::from ](s: &'b str) -> (r: String) ensures r@ == s@;
pub assume_specification<T, K: Ord, F: FnMut(&T) -> K>[ <[T]>::sort_by_cached_key::<K, F> ](s: &mut [T], f: F)
    requires
        forall|i: int| 0 <= i < old(s)@.len() ==> call_requires(f, (&#[trigger] old(s)@[i],)),
    ensures
        final(s)@.to_multiset() =~= old(s)@.to_multiset(),
        final(s)@.len() == old(s)@.len(),
        forall|i: int, j: int| 0 <= i < j < final(s)@.len() ==> key_le::<T, K, F>(f, #[trigger] final(s)@[i], #[trigger] final(s)@[j]),
;
pub assume_specification<'a, T, P: FnMut(<core::slice::Iter<'a, T> as Iterator>::Item) -> bool>[ <core::slice::Iter<'a, T> as Iterator>::position::<P> ](it: &mut core::slice::Iter<'a, T>, p: P) -> (r: Option<usize>) where core::slice::Iter<'a, T>: Sized
    requires forall|i: int| 0 <= i < old(it).remaining().len() ==> call_requires(p, (#[trigger] old(it).remaining()[i],)),
    ensures
        r is None ==> forall|i: int| 0 <= i < old(it).remaining().len() ==> call_ensures(p, (#[trigger] old(it).remaining()[i],), false),
        r is Some ==> r->0 < old(it).remaining().len() && call_ensures(p, (old(it).remaining()[r->0 as int],), true)
            && forall|i: int| 0 <= i < r->0 ==> call_ensures(p, (#[trigger] old(it).remaining()[i],), false),
;
pub assume_specification<'a, T>[ <core::slice::Iter<'a, T> as Iterator>::count ](it: core::slice::Iter<'a, T>) -> (r: usize)
    ensures r == it.remaining().len(),
;
pub assume_specification<'a, T>[ <core::slice::Iter<'a, T> as Iterator>::last ](it: core::slice::Iter<'a, T>) -> (r: Option<&'a T>)
    ensures r == (if it.remaining().len() == 0 { None } else { Some(it.remaining().last()) }),
;
pub assume_specification<T, A: core::alloc::Allocator, I: IntoIterator<Item = T>>[ <Vec<T, A> as Extend<T>>::extend::<I> ](v: &mut Vec<T, A>, i: I)
    requires call_requires(<I as IntoIterator>::into_iter, (i,)),
    ensures exists|it: I::IntoIter| #[trigger] call_ensures(<I as IntoIterator>::into_iter, (i,), it)
        && (it.obeys_prophetic_iter_laws() && it.will_return_none() ==> final(v)@ == old(v)@ + it.remaining()),
;

}
