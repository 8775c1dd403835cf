//! Verified checker of table data: if it answers `true`, the data has the property.
//! Compiled by the verifier and run on the tables of the tree in every check.
use vstd::prelude::*;
use crate::spec::*;
use crate::twf::*;

verus! {

pub fn check_list(s: &[(u32, u32)]) -> (ok: bool)
    ensures ok <==> canonical(s@) && below(s@, maxc()) && s@.len() > 0,
{
    if s.len() == 0 { return false; }
    let mut k: usize = 0;
    while k < s.len()
        invariant
            k <= s@.len(),
            s@.len() > 0,
            canonical(s@.take(k as int)),
            below(s@.take(k as int), maxc()),
        decreases s@.len() - k,
    {
        let (a, b) = s[k];
        if a > b || b > 0x10ffff {
            assert(!(s@[k as int].0 <= s@[k as int].1 && s@[k as int].1 <= maxc()));
            return false;
        }
        if k > 0 && (s[k - 1].1 >= a || s[k - 1].1 + 1 >= a) {
            assert(!(s@[k - 1].1 + 1 < s@[k as int].0));
            return false;
        }
        proof {
            let (o, n) = (s@.take(k as int), s@.take(k + 1));
            assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).0 <= n[i].1 && n[i].1 <= maxc() by {
                if i < k { assert(n[i] == o[i]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).1 + 1 < (#[trigger] n[j]).0 by {
                if j < k { assert(o[i].1 + 1 < o[j].0); }
                else if i < k - 1 { assert(o[i].1 + 1 < o[k - 1].0); assert(o[k - 1].0 <= o[k - 1].1); }
            }
        }
        k += 1;
    }
    proof { assert(s@.take(s@.len() as int) =~= s@); }
    true
}

/// everything before position `p` of list `s` ends below `c`, the rest starts at or above
pub open spec fn split_at(s: Seq<(u32, u32)>, p: int, c: int) -> bool {
    &&& 0 <= p <= s.len()
    &&& forall|q: int| 0 <= q < p ==> (#[trigger] s[q]).1 < c
    &&& forall|q: int| p <= q < s.len() ==> (#[trigger] s[q]).0 >= c
}

pub fn check_table(t: &'static [&'static [(u32, u32)]]) -> (ok: bool)
    ensures ok ==> table_wf(t@),
{
    if t.len() != 30 { return false; }
    let mut i: usize = 0;
    while i < 30
        invariant
            t@.len() == 30, i <= 30,
            forall|k: int| 0 <= k < i ==> canonical((#[trigger] t@[k])@) && below(t@[k]@, maxc()) && t@[k]@.len() > 0,
        decreases 30 - i,
    {
        if !check_list(t[i]) { return false; }
        i += 1;
    }
    let mut ptr: Vec<usize> = Vec::new();
    let mut i: usize = 0;
    while i < 30
        invariant
            t@.len() == 30, i <= 30, ptr@.len() == i,
            forall|k: int| 0 <= k < i ==> split_at((#[trigger] t@[k])@, ptr@[k] as int, 0),
        decreases 30 - i,
    {
        ptr.push(0);
        i += 1;
    }
    let mut c: u32 = 0;
    while c <= 0x10ffff
        invariant
            t@.len() == 30, ptr@.len() == 30, c <= 0x110000,
            forall|k: int| 0 <= k < 30 ==> canonical((#[trigger] t@[k])@) && below(t@[k]@, maxc()) && t@[k]@.len() > 0,
            forall|k: int| 0 <= k < 30 ==> split_at((#[trigger] t@[k])@, ptr@[k] as int, c as int),
            forall|x: int| 0 <= x < c ==> #[trigger] some_cov(t@, x),
            forall|i: int, j: int, x: int| 0 <= i < j < 30 && 0 <= x < c && #[trigger] cov(t@[i]@, x) ==> !#[trigger] cov(t@[j]@, x),
        decreases 0x110000 - c,
    {
        // the list whose next interval starts at `c`
        let mut k: usize = 0;
        while k < 30 && !(ptr[k] < t[k].len() && t[k][ptr[k]].0 == c)
            invariant
                t@.len() == 30, ptr@.len() == 30, k <= 30,
                forall|k: int| 0 <= k < 30 ==> (#[trigger] ptr@[k]) <= t@[k]@.len(),
            decreases 30 - k,
        {
            k += 1;
        }
        if k == 30 { return false; }
        let end = t[k][ptr[k]].1;
        assert(canonical(t@[k as int]@) && below(t@[k as int]@, maxc()));
        assert(c <= end <= maxc());
        // every other list continues above `end`
        let mut j: usize = 0;
        while j < 30
            invariant
                t@.len() == 30, ptr@.len() == 30, j <= 30, k < 30, c <= end,
                forall|k: int| 0 <= k < 30 ==> canonical((#[trigger] t@[k])@),
                forall|k: int| 0 <= k < 30 ==> split_at((#[trigger] t@[k])@, ptr@[k] as int, c as int),
                forall|m: int| 0 <= m < j && m != k ==> split_at((#[trigger] t@[m])@, ptr@[m] as int, end + 1),
            decreases 30 - j,
        {
            if j != k {
                assert(split_at(t@[j as int]@, ptr@[j as int] as int, c as int));
                if ptr[j] < t[j].len() {
                    if t[j][ptr[j]].0 <= end { return false; }
                }
                proof {
                    let s = t@[j as int]@;
                    let p = ptr@[j as int] as int;
                    assert(canonical(s));
                    assert forall|q: int| p <= q < s.len() implies (#[trigger] s[q]).0 >= end + 1 by {
                        if q > p { assert(s[p].1 + 1 < s[q].0); assert(s[p].0 <= s[p].1); }
                    }
                }
            }
            j += 1;
        }
        let p = ptr[k];
        let ghost ptr0 = ptr@;
        proof {
            let s = t@[k as int]@;
            assert(split_at(s, p as int, c as int));
            assert forall|q: int| p + 1 <= q < s.len() implies (#[trigger] s[q]).0 >= end + 1 by { assert(s[p as int].1 + 1 < s[q].0); }
            assert(split_at(s, p + 1, end + 1));
            assert forall|x: int| 0 <= x < end + 1 implies #[trigger] some_cov(t@, x) by {
                if x >= c { assert(iv_has(s[p as int], x)); assert(cov(t@[k as int]@, x)); }
            }
            assert forall|i: int, j: int, x: int| 0 <= i < j < 30 && 0 <= x < end + 1 && #[trigger] cov(t@[i]@, x) implies !#[trigger] cov(t@[j]@, x) by {
                if x >= c {
                    if i != k { lemma_gap(t@[i]@, ptr0[i] as int, c as int, end as int, x); }
                    if j != k { lemma_gap(t@[j]@, ptr0[j] as int, c as int, end as int, x); }
                }
            }
        }
        ptr.set(k, p + 1);
        c = end + 1;
    }
    proof {
        assert(c == 0x110000);
        assert forall|i: int, j: int, x: int| 0 <= i < j < 30 && #[trigger] cov(t@[i]@, x) implies !#[trigger] cov(t@[j]@, x) by {
            let q = choose|q: int| 0 <= q < t@[i]@.len() && #[trigger] iv_has(t@[i]@[q], x);
            assert(below(t@[i]@, maxc()));
            assert(t@[i]@[q].1 <= maxc());
        }
    }
    true
}

/// nothing of a list lies in `[c, e]`
proof fn lemma_gap(s: Seq<(u32, u32)>, p: int, c: int, e: int, x: int)
    requires split_at(s, p, c), split_at(s, p, e + 1), c <= x <= e,
    ensures !cov(s, x),
{
    if cov(s, x) {
        let q = choose|q: int| 0 <= q < s.len() && #[trigger] iv_has(s[q], x);
        if q < p { assert(s[q].1 < c); } else { assert(s[q].0 >= e + 1); }
    }
}

/// the lists of `t` are the lists of `u`
pub fn check_same(t: &'static [&'static [(u32, u32)]], u: &'static [&'static [(u32, u32)]]) -> (ok: bool)
    ensures ok ==> t@.len() == u@.len() && forall|i: int| 0 <= i < t@.len() ==> (#[trigger] t@[i])@ =~= u@[i]@,
{
    if t.len() != u.len() { return false; }
    let mut i: usize = 0;
    while i < t.len()
        invariant
            t@.len() == u@.len(), i <= t@.len(),
            forall|k: int| 0 <= k < i ==> (#[trigger] t@[k])@ =~= u@[k]@,
        decreases t@.len() - i,
    {
        let (a, b) = (t[i], u[i]);
        if a.len() != b.len() { return false; }
        let mut k: usize = 0;
        while k < a.len()
            invariant
                a@.len() == b@.len(), k <= a@.len(),
                forall|q: int| 0 <= q < k ==> #[trigger] a@[q] == b@[q],
            decreases a@.len() - k,
        {
            if a[k].0 != b[k].0 || a[k].1 != b[k].1 { return false; }
            k += 1;
        }
        i += 1;
    }
    true
}

/// every code point of `a` is one of `b`
pub fn check_within(a: &'static [(u32, u32)], b: &'static [(u32, u32)]) -> (ok: bool)
    requires canonical(a@), canonical(b@),
    ensures ok ==> forall|c: int| cov(a@, c) ==> cov(b@, c),
{
    let mut i: usize = 0;
    let mut j: usize = 0;
    while i < a.len()
        invariant
            canonical(a@), canonical(b@), i <= a@.len(), j <= b@.len(),
            forall|q: int, c: int| 0 <= q < i && #[trigger] iv_has(a@[q], c) ==> cov(b@, c),
        decreases a@.len() - i,
    {
        while j < b.len() && b[j].1 < a[i].0
            invariant i < a@.len(), j <= b@.len(),
            decreases b@.len() - j,
        {
            j += 1;
        }
        if j == b.len() || b[j].0 > a[i].0 || b[j].1 < a[i].1 { return false; }
        proof { assert forall|c: int| #[trigger] iv_has(a@[i as int], c) implies cov(b@, c) by { assert(iv_has(b@[j as int], c)); } }
        i += 1;
    }
    true
}

}
