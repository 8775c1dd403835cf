//! Specification vocabulary and lemmas shared by all contracts.
use vstd::prelude::*;

verus! {

pub open spec fn maxc() -> int { 0x10ffff }

pub open spec fn iv_has(iv: (u32, u32), c: int) -> bool { iv.0 <= c && c <= iv.1 }

/// `c` is covered by one of the intervals of `s`
pub open spec fn cov(s: Seq<(u32, u32)>, c: int) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] iv_has(s[i], c)
}

/// `c` is covered by one of the intervals `s[lo..hi]`
pub open spec fn cov_in(s: Seq<(u32, u32)>, lo: int, hi: int, c: int) -> bool {
    exists|i: int| lo <= i < hi && 0 <= i < s.len() && #[trigger] iv_has(s[i], c)
}

/// every interval has left <= right
pub open spec fn well(s: Seq<(u32, u32)>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 <= s[i].1
}

/// sorted, no two intervals share a code point
pub open spec fn disjoint(s: Seq<(u32, u32)>) -> bool {
    well(s) && forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 < (#[trigger] s[j]).0
}

/// sorted, disjoint and coalesced: the only representation of its set of code points
pub open spec fn canonical(s: Seq<(u32, u32)>) -> bool {
    well(s) && forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 + 1 < (#[trigger] s[j]).0
}

pub open spec fn below(s: Seq<(u32, u32)>, m: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 <= m
}

/// `c` is one of the characters of the string
pub open spec fn str_has(s: Seq<char>, c: int) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i] as int == c
}

pub proof fn lemma_multiset_contains<A>(a: Seq<A>, b: Seq<A>)
    requires a.to_multiset() =~= b.to_multiset(),
    ensures a.len() == b.len(), forall|x: A| a.contains(x) <==> b.contains(x),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|x: A| a.contains(x) <==> b.contains(x) by {
        assert(a.contains(x) <==> a.to_multiset().count(x) > 0);
        assert(b.contains(x) <==> b.to_multiset().count(x) > 0);
    }
}

/// membership survives reordering
pub proof fn lemma_cov_perm(a: Seq<(u32, u32)>, b: Seq<(u32, u32)>)
    requires a.to_multiset() =~= b.to_multiset(),
    ensures forall|c: int| cov(a, c) <==> cov(b, c), well(a) <==> well(b), a.len() == b.len(),
        forall|m: int| below(a, m) <==> below(b, m),
{
    lemma_multiset_contains(a, b);
    assert forall|c: int| cov(a, c) implies cov(b, c) by {
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] iv_has(a[i], c);
        assert(a.contains(a[i]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
        assert(iv_has(b[j], c));
    }
    assert forall|c: int| cov(b, c) implies cov(a, c) by {
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] iv_has(b[i], c);
        assert(b.contains(b[i]));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i];
        assert(iv_has(a[j], c));
    }
    assert(forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])) by {
        assert(forall|i: int| 0 <= i < a.len() ==> a.contains(#[trigger] a[i]));
    }
    assert(forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])) by {
        assert(forall|i: int| 0 <= i < b.len() ==> b.contains(#[trigger] b[i]));
    }
}


/// the intervals `(c, c)` of a string's characters cover exactly its characters
pub proof fn lemma_points(s: Seq<char>, iv: Seq<(u32, u32)>)
    requires iv.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] iv[i] == (s[i] as u32, s[i] as u32),
    ensures well(iv), below(iv, maxc()), forall|c: int| cov(iv, c) <==> str_has(s, c),
{
    assert forall|c: int| str_has(s, c) implies cov(iv, c) by {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] as int == c;
        assert(iv_has(iv[i], c));
    }
    assert forall|c: int| cov(iv, c) implies str_has(s, c) by {
        let i = choose|i: int| 0 <= i < iv.len() && #[trigger] iv_has(iv[i], c);
        assert(s[i] as int == c);
    }
}


pub proof fn lemma_cov_in_snoc(s: Seq<(u32, u32)>, lo: int, hi: int)
    requires 0 <= lo <= hi < s.len(),
    ensures forall|c: int| #![trigger cov_in(s, lo, hi + 1, c)] cov_in(s, lo, hi + 1, c) <==> cov_in(s, lo, hi, c) || iv_has(s[hi], c),
{
}

pub proof fn lemma_cov_in_cons(s: Seq<(u32, u32)>, lo: int, hi: int)
    requires 0 <= lo < hi <= s.len(),
    ensures forall|c: int| #![trigger cov_in(s, lo, hi, c)] cov_in(s, lo, hi, c) <==> iv_has(s[lo], c) || cov_in(s, lo + 1, hi, c),
{
}

pub proof fn lemma_cov_in_frame(a: Seq<(u32, u32)>, b: Seq<(u32, u32)>, lo: int, hi: int)
    requires 0 <= lo, hi <= a.len(), hi <= b.len(), forall|k: int| lo <= k < hi ==> #[trigger] a[k] == b[k],
    ensures forall|c: int| #![trigger cov_in(a, lo, hi, c)] #![trigger cov_in(b, lo, hi, c)] cov_in(a, lo, hi, c) <==> cov_in(b, lo, hi, c),
{
    assert forall|c: int| cov_in(a, lo, hi, c) implies cov_in(b, lo, hi, c) by {
        let i = choose|i: int| lo <= i < hi && 0 <= i < a.len() && #[trigger] iv_has(a[i], c);
        assert(iv_has(b[i], c));
    }
    assert forall|c: int| cov_in(b, lo, hi, c) implies cov_in(a, lo, hi, c) by {
        let i = choose|i: int| lo <= i < hi && 0 <= i < b.len() && #[trigger] iv_has(b[i], c);
        assert(a[i] == b[i]);
        assert(iv_has(a[i], c));
    }
}

/// `cov` is `cov_in` over the whole sequence
pub proof fn lemma_cov_all(s: Seq<(u32, u32)>)
    ensures forall|c: int| #![trigger cov(s, c)] cov(s, c) <==> cov_in(s, 0, s.len() as int, c),
{
}

/// a bound on all intervals is a bound on all covered code points, and conversely for well-formed intervals
pub proof fn lemma_below_cov(s: Seq<(u32, u32)>, m: int)
    requires well(s),
    ensures below(s, m) <==> (forall|c: int| cov(s, c) ==> c <= m),
{
    if below(s, m) {
    } else {
        let i = choose|i: int| 0 <= i < s.len() && !((#[trigger] s[i]).1 <= m);
        assert(iv_has(s[i], s[i].1 as int));
        assert(cov(s, s[i].1 as int));
    }
}

pub proof fn lemma_below_from_cov(a: Seq<(u32, u32)>, b: Seq<(u32, u32)>)
    requires well(a), well(b), forall|c: int| cov(b, c) ==> cov(a, c),
    ensures forall|m: int| below(a, m) ==> below(b, m),
{
    assert forall|m: int| below(a, m) implies below(b, m) by {
        lemma_below_cov(a, m);
        lemma_below_cov(b, m);
    }
}


// ---- positions within a list of intervals

pub open spec fn range_seq(l: u32, r: u32) -> Seq<u32> {
    Seq::new((if l <= r { r - l + 1 } else { 0int }) as nat, |k: int| (l + k) as u32)
}

/// all code points of the intervals, in order
pub open spec fn flat(s: Seq<(u32, u32)>) -> Seq<u32>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + range_seq(s.last().0, s.last().1) }
}

/// number of code points in the first `i` intervals
pub open spec fn psum(s: Seq<(u32, u32)>, i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { psum(s, i - 1) + (s[i - 1].1 - s[i - 1].0 + 1) }
}

pub open spec fn increasing(s: Seq<u32>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j]
}

pub proof fn lemma_psum_prefix(s: Seq<(u32, u32)>, n: int, i: int)
    requires 0 <= i <= n <= s.len(),
    ensures psum(s.take(n), i) == psum(s, i),
    decreases i,
{
    if i > 0 { lemma_psum_prefix(s, n, i - 1); }
}

/// the first `i` intervals hold at most `s[i-1].1 + 1` code points
pub proof fn lemma_psum_bound(s: Seq<(u32, u32)>, i: int)
    requires canonical(s), below(s, maxc()),
    ensures
        0 <= i <= s.len() ==> i <= psum(s, i) <= maxc() + 1,
        0 < i <= s.len() ==> psum(s, i) <= s[i - 1].1 + 1,
    decreases i,
{
    if 0 < i <= s.len() {
        lemma_psum_bound(s, i - 1);
        if i > 1 { assert(s[i - 2].1 + 1 < s[i - 1].0); }
    }
}

pub proof fn lemma_psum_mono(s: Seq<(u32, u32)>)
    requires canonical(s),
    ensures forall|i: int, j: int| 0 <= i < j <= s.len() ==> #[trigger] psum(s, i) < #[trigger] psum(s, j),
{
    assert forall|i: int, j: int| 0 <= i < j <= s.len() implies #[trigger] psum(s, i) < #[trigger] psum(s, j) by {
        lemma_psum_mono_to(s, i, j);
    }
}

pub proof fn lemma_psum_mono_to(s: Seq<(u32, u32)>, i: int, j: int)
    requires canonical(s), 0 <= i < j <= s.len(),
    ensures psum(s, i) < psum(s, j),
    decreases j,
{
    assert(s[j - 1].0 <= s[j - 1].1);
    if i < j - 1 { lemma_psum_mono_to(s, i, j - 1); }
}

/// element `psum(s, i) + k` of `flat(s)` is `s[i].0 + k`
pub proof fn lemma_flat_at(s: Seq<(u32, u32)>, i: int, k: int)
    requires canonical(s), 0 <= i < s.len(), 0 <= k <= s[i].1 - s[i].0,
    ensures
        flat(s).len() == psum(s, s.len() as int),
        0 <= psum(s, i) + k < flat(s).len(),
        flat(s)[psum(s, i) + k] == s[i].0 + k,
    decreases s.len(),
{
    let t = s.drop_last();
    let n = s.len() as int;
    lemma_flat_len(s);
    lemma_flat_len(t);
    assert(t =~= s.take(n - 1));
    lemma_psum_prefix(s, n - 1, n - 1);
    lemma_psum_prefix(s, n - 1, i);
    if i < n - 1 {
        lemma_flat_at(t, i, k);
    }
}

pub proof fn lemma_flat_len(s: Seq<(u32, u32)>)
    requires well(s),
    ensures flat(s).len() == psum(s, s.len() as int), psum(s, s.len() as int) >= 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_flat_len(t);
        assert(t =~= s.take(s.len() - 1));
        lemma_psum_prefix(s, s.len() - 1, s.len() - 1);
    }
}

/// every position of `flat(s)` lies in one of the intervals
pub proof fn lemma_locate(s: Seq<(u32, u32)>, p: int) -> (r: (int, int))
    requires canonical(s), 0 <= p < flat(s).len(),
    ensures 0 <= r.0 < s.len(), 0 <= r.1 <= s[r.0].1 - s[r.0].0, p == psum(s, r.0) + r.1, flat(s)[p] == s[r.0].0 + r.1,
    decreases s.len(),
{
    let t = s.drop_last();
    let n = s.len() as int;
    lemma_flat_len(s);
    lemma_flat_len(t);
    assert(t =~= s.take(n - 1));
    lemma_psum_prefix(s, n - 1, n - 1);
    if p < flat(t).len() {
        let r = lemma_locate(t, p);
        lemma_psum_prefix(s, n - 1, r.0);
        r
    } else {
        (n - 1, p - psum(s, n - 1))
    }
}

pub proof fn lemma_flat(s: Seq<(u32, u32)>)
    requires canonical(s),
    ensures
        flat(s).len() == psum(s, s.len() as int),
        increasing(flat(s)),
        forall|c: u32| #![trigger flat(s).contains(c)] #![trigger cov(s, c as int)] flat(s).contains(c) <==> cov(s, c as int),
{
    let f = flat(s);
    lemma_flat_len(s);
    assert forall|p: int, q: int| 0 <= p < q < f.len() implies #[trigger] f[p] < #[trigger] f[q] by {
        let a = lemma_locate(s, p);
        let b = lemma_locate(s, q);
        lemma_psum_mono(s);
        if a.0 < b.0 {
            assert(s[a.0].1 + 1 < s[b.0].0);
        } else if a.0 > b.0 {
            assert(psum(s, b.0 + 1) == psum(s, b.0) + (s[b.0].1 - s[b.0].0 + 1));
            assert(psum(s, b.0 + 1) <= psum(s, a.0)) by {
                if b.0 + 1 < a.0 { assert(psum(s, b.0 + 1) < psum(s, a.0)); }
            }
        }
    }
    assert forall|c: u32| f.contains(c) implies cov(s, c as int) by {
        let p = choose|p: int| 0 <= p < f.len() && f[p] == c;
        let a = lemma_locate(s, p);
        assert(iv_has(s[a.0], c as int));
    }
    assert forall|c: u32| cov(s, c as int) implies f.contains(c) by {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] iv_has(s[i], c as int);
        lemma_flat_at(s, i, c - s[i].0);
    }
}

/// the interval holding position `p` is the last one starting at or before it
pub proof fn lemma_at(s: Seq<(u32, u32)>, i: int, p: int)
    requires
        canonical(s), below(s, maxc()), 0 <= p < flat(s).len(), 0 <= i < s.len(),
        psum(s, i) <= p, p < psum(s, i + 1),
    ensures flat(s)[p] == s[i].0 + (p - psum(s, i)), 0 <= p - psum(s, i) <= s[i].1 - s[i].0,
{
    assert(psum(s, i + 1) == psum(s, i) + (s[i].1 - s[i].0 + 1));
    lemma_flat_at(s, i, p - psum(s, i));
}

/// where `c` is, relative to the intervals starting at or before it
pub proof fn lemma_find(s: Seq<(u32, u32)>, idx: int, c: u32)
    requires
        canonical(s), below(s, maxc()), 0 <= idx <= s.len(),
        forall|k: int| 0 <= k < idx ==> (#[trigger] s[k]).0 <= c,
        forall|k: int| idx <= k < s.len() ==> (#[trigger] s[k]).0 > c,
    ensures
        idx > 0 && c <= s[idx - 1].1 ==> {
            let p = psum(s, idx - 1) + (c - s[idx - 1].0);
            &&& 0 <= p < flat(s).len()
            &&& flat(s)[p] == c
            &&& forall|k: int| 0 <= k < p ==> #[trigger] flat(s)[k] < c
            &&& forall|k: int| p <= k < flat(s).len() ==> #[trigger] flat(s)[k] >= c
        },
        idx == 0 || c > s[idx - 1].1 ==> {
            &&& !flat(s).contains(c)
            &&& psum(s, idx) <= flat(s).len()
            &&& forall|k: int| 0 <= k < psum(s, idx) ==> #[trigger] flat(s)[k] < c
            &&& forall|k: int| psum(s, idx) <= k < flat(s).len() ==> #[trigger] flat(s)[k] >= c
        },
{
    let f = flat(s);
    lemma_flat(s);
    lemma_psum_mono(s);
    if idx > 0 && c <= s[idx - 1].1 {
        lemma_flat_at(s, idx - 1, c - s[idx - 1].0);
    } else {
        assert(!cov(s, c as int)) by {
            if cov(s, c as int) {
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] iv_has(s[i], c as int);
                assert(i < idx);
                if i < idx - 1 { assert(s[i].1 + 1 < s[idx - 1].0); }
            }
        }
        assert(psum(s, idx) <= f.len()) by {
            if idx < s.len() { assert(psum(s, idx) < psum(s, s.len() as int)); }
        }
        assert(psum(s, idx) >= 0) by { lemma_psum_bound(s, idx); }
        assert forall|k: int| 0 <= k < f.len() implies (k < psum(s, idx) <==> #[trigger] f[k] < c) by {
            let a = lemma_locate(s, k);
            if a.0 < idx {
                if a.0 + 1 < idx { assert(psum(s, a.0 + 1) < psum(s, idx)); }
                assert(psum(s, a.0 + 1) == psum(s, a.0) + (s[a.0].1 - s[a.0].0 + 1));
                if a.0 < idx - 1 { assert(s[a.0].1 + 1 < s[idx - 1].0); }
            } else {
                if idx < a.0 { assert(psum(s, idx) < psum(s, a.0)); assert(s[idx].1 + 1 < s[a.0].0); }
            }
        }
    }
}

}
