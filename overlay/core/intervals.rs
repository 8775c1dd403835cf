use crate::Interval;

pub fn from_str(string: &str) -> Vec<Interval>
/*@
    ensures
        canonical(ret@), below(ret@, maxc()),
        forall|c: int| cov(ret@, c) <==> str_has(string@, c),
@*/
{
    if string.is_empty() {
        return vec![];
    }
    let mut intervals: Vec<_> = string.chars().map(|c| /*@ -> (r: (u32, u32)) ensures r == (c as u32, c as u32) @*/ (c as u32, c as u32)).collect();
    /*@ proof { lemma_points(string@, intervals@); } @*/
    merge(&mut intervals);
    intervals
}

pub fn subtract(mut left: Vec<Interval>, right: &[Interval]) -> Vec<Interval>
/*@
    requires disjoint(left@), disjoint(right@),
    ensures
        disjoint(ret@),
        canonical(left@) ==> canonical(ret@),
        forall|c: int| cov(ret@, c) <==> cov(left@, c) && !cov(right@, c),
        forall|m: int| below(left@, m) ==> below(ret@, m),
@*/
{
    if right.is_empty() || left.is_empty() {
        left
    } else {
        /*@ let ghost left0 = left@; @*/
        let (mut i, mut j) = (0, 0);
        let mut result = Vec::with_capacity(left.len());
        /*@ proof { lemma_cov_all(left@); lemma_cov_all(right@); } @*/
        while i < left.len() && j < right.len()
        /*@
            invariant
                disjoint(left0), disjoint(right@), disjoint(left@),
                left@.len() == left0.len(), i <= left@.len(), j <= right@.len(),
                canonical(left0) ==> canonical(left@),
                sub_inv(left0, right@, left@, result@, i as int, j as int),
            decreases left@.len() - i + right@.len() - j,
        @*/
        {
            /*@ let ghost (l_, res_, i_, j_) = (left@, result@, i as int, j as int); @*/
            let (ll, lr) = left[i];
            let (rl, rr) = right[j];
            if rr < ll {
                j += 1;
            } else if rl > lr {
                result.push((ll, lr));
                i += 1;
            } else if rl <= ll {
                if rr >= lr {
                    i += 1;
                } else {
                    left[i].0 = rr + 1;
                    j += 1;
                }
            } else {
                result.push((ll, rl - 1));
                if rr < lr {
                    left[i].0 = rr + 1;
                    j += 1;
                } else {
                    i += 1;
                }
            }
            /*@ proof { lemma_sub_step(left0, right@, l_, left@, res_, result@, i_, i as int, j_, j as int); } @*/
        }
        /*@ let ghost tail_ = left@.subrange(i as int, left@.len() as int); let ghost res_ = result@; @*/
        result.extend_from_slice(&left[i..]);
        /*@ proof {
            assert(result@ =~= res_ + tail_);
            lemma_sub_end(left0, right@, left@, res_, i as int, j as int);
        } @*/
        result
    }
}

/*@
/// state of the subtraction: `res` is final, `left[i..]` and `right[j..]` are still to be processed
pub open spec fn sub_inv(left0: Seq<Interval>, right: Seq<Interval>, left: Seq<Interval>, res: Seq<Interval>, i: int, j: int) -> bool {
    &&& disjoint(res)
    &&& canonical(left0) ==> canonical(res)
    &&& forall|k: int| 0 <= k < res.len() && 0 <= i < left.len() ==> (#[trigger] res[k]).1 < left[i].0
    &&& canonical(left0) ==> forall|k: int| 0 <= k < res.len() && 0 <= i < left.len() ==> (#[trigger] res[k]).1 + 1 < left[i].0
    &&& forall|c: int| #![trigger cov(left0, c)] cov(left0, c) && !cov(right, c) <==>
            cov(res, c) || (cov_in(left, i, left.len() as int, c) && !cov_in(right, j, right.len() as int, c))
}

/// one round of the subtraction: the head of `left` loses, keeps or hands over the part below `cut`
pub open spec fn sub_round(right: Seq<Interval>, l1: Seq<Interval>, l2: Seq<Interval>,
    r1: Seq<Interval>, r2: Seq<Interval>, i1: int, i2: int, j1: int, j2: int) -> bool {
    let (ll, lr) = l1[i1];
    let (rl, rr) = right[j1];
    let cut = (((rr + 1) as u32), lr);
    ||| rr < ll && i2 == i1 && j2 == j1 + 1 && l2 == l1 && r2 == r1
    ||| rr >= ll && rl > lr && i2 == i1 + 1 && j2 == j1 && l2 == l1 && r2 == r1.push((ll, lr))
    ||| rr >= ll && rl <= ll && rr >= lr && i2 == i1 + 1 && j2 == j1 && l2 == l1 && r2 == r1
    ||| rr >= ll && rl <= ll && rr < lr && i2 == i1 && j2 == j1 + 1 && l2 =~= l1.update(i1, cut) && r2 == r1
    ||| rl > ll && rl <= lr && rr < lr && i2 == i1 && j2 == j1 + 1 && l2 =~= l1.update(i1, cut) && r2 == r1.push((ll, (rl - 1) as u32))
    ||| rl > ll && rl <= lr && rr >= lr && i2 == i1 + 1 && j2 == j1 && l2 == l1 && r2 == r1.push((ll, (rl - 1) as u32))
}

/// what is still to come in a sorted list lies right of its head
pub proof fn lemma_cov_head(s: Seq<Interval>, i: int, c: int)
    requires disjoint(s), 0 <= i < s.len(),
    ensures
        cov_in(s, i, s.len() as int, c) <==> (s[i].0 <= c <= s[i].1 || cov_in(s, i + 1, s.len() as int, c)),
        cov_in(s, i + 1, s.len() as int, c) ==> c > s[i].1,
{
    lemma_cov_in_cons(s, i, s.len() as int);
    if cov_in(s, i + 1, s.len() as int, c) {
        let k = choose|k: int| i + 1 <= k < s.len() && 0 <= k < s.len() && #[trigger] iv_has(s[k], c);
        assert(s[i].1 < s[k].0);
    }
}

pub proof fn lemma_cov_push(a: Seq<Interval>, x: Interval, c: int)
    ensures cov(a.push(x), c) <==> cov(a, c) || x.0 <= c <= x.1,
{
    let b = a.push(x);
    if cov(a, c) {
        let k = choose|k: int| 0 <= k < a.len() && #[trigger] iv_has(a[k], c);
        assert(iv_has(b[k], c));
    }
    if x.0 <= c <= x.1 { assert(iv_has(b[a.len() as int], c)); }
    if cov(b, c) {
        let k = choose|k: int| 0 <= k < b.len() && #[trigger] iv_has(b[k], c);
        if k < a.len() { assert(iv_has(a[k], c)); }
    }
}

/// a round keeps what the result will cover, code point by code point
pub proof fn lemma_sub_point(right: Seq<Interval>, l1: Seq<Interval>, l2: Seq<Interval>,
    r1: Seq<Interval>, r2: Seq<Interval>, i1: int, i2: int, j1: int, j2: int, c: int)
    requires
        disjoint(right), disjoint(l1), disjoint(l2), 0 <= i1 < l1.len(), 0 <= j1 < right.len(), l1.len() == l2.len(),
        sub_round(right, l1, l2, r1, r2, i1, i2, j1, j2),
    ensures
        cov(r1, c) || (cov_in(l1, i1, l1.len() as int, c) && !cov_in(right, j1, right.len() as int, c))
            <==> cov(r2, c) || (cov_in(l2, i2, l1.len() as int, c) && !cov_in(right, j2, right.len() as int, c)),
{
    hide(cov_in);
    hide(cov);
    hide(disjoint);
    let n = l1.len() as int;
    lemma_cov_head(l1, i1, c);
    lemma_cov_head(l2, i1, c);
    lemma_cov_head(right, j1, c);
    assert(l1[i1].0 <= l1[i1].1 && right[j1].0 <= right[j1].1) by { reveal(disjoint); }
    lemma_cov_in_frame(l1, l2, i1 + 1, n);
    assert(cov_in(l1, i1 + 1, n, c) <==> cov_in(l2, i1 + 1, n, c));
    if r2.len() == r1.len() + 1 {
        lemma_cov_push(r1, r2[r1.len() as int], c);
    }
}

pub proof fn lemma_sub_left(right: Seq<Interval>, l1: Seq<Interval>, l2: Seq<Interval>,
    r1: Seq<Interval>, r2: Seq<Interval>, i1: int, i2: int, j1: int, j2: int)
    requires
        disjoint(right), disjoint(l1), 0 <= i1 < l1.len(), 0 <= j1 < right.len(), l1.len() == l2.len(),
        sub_round(right, l1, l2, r1, r2, i1, i2, j1, j2),
    ensures
        disjoint(l2), canonical(l1) ==> canonical(l2),
        forall|k: int| 0 <= k < l2.len() && k != i1 ==> #[trigger] l2[k] == l1[k],
        l2[i1].0 >= l1[i1].0, l2[i1].1 == l1[i1].1,
{
    assert(l1[i1].0 <= l1[i1].1 && right[j1].0 <= right[j1].1);
    assert(forall|k: int| 0 <= k < l2.len() && k != i1 ==> #[trigger] l2[k] == l1[k]);
    assert(l1[i1].0 <= l2[i1].0 && l2[i1].0 <= l2[i1].1 && l2[i1].1 == l1[i1].1);
    assert(forall|k: int| 0 <= k < l2.len() ==> (#[trigger] l2[k]).1 == l1[k].1 && l2[k].0 >= l1[k].0);
    assert forall|k: int| 0 <= k < l2.len() implies (#[trigger] l2[k]).0 <= l2[k].1 by { assert(l1[k].0 <= l1[k].1); }
    assert forall|a: int, b: int| 0 <= a < b < l2.len() implies (#[trigger] l2[a]).1 < (#[trigger] l2[b]).0 by {
        assert(l1[a].1 < l1[b].0);
    }
    if canonical(l1) {
        assert forall|a: int, b: int| 0 <= a < b < l2.len() implies (#[trigger] l2[a]).1 + 1 < (#[trigger] l2[b]).0 by {
            assert(l1[a].1 + 1 < l1[b].0);
        }
    }
}

/// the result stays sorted, and left of what is still to come (`gap` is 1 when the input was coalesced)
pub proof fn lemma_sub_res(right: Seq<Interval>, l1: Seq<Interval>, l2: Seq<Interval>,
    r1: Seq<Interval>, r2: Seq<Interval>, i1: int, i2: int, j1: int, j2: int, gap: int)
    requires
        disjoint(right), disjoint(l1), 0 <= i1 < l1.len(), 0 <= j1 < right.len(), l1.len() == l2.len(),
        sub_round(right, l1, l2, r1, r2, i1, i2, j1, j2),
        0 <= gap <= 1, well(r1),
        forall|a: int, b: int| 0 <= a < b < l1.len() ==> (#[trigger] l1[a]).1 + gap < (#[trigger] l1[b]).0,
        forall|a: int, b: int| 0 <= a < b < r1.len() ==> (#[trigger] r1[a]).1 + gap < (#[trigger] r1[b]).0,
        forall|k: int| 0 <= k < r1.len() ==> (#[trigger] r1[k]).1 + gap < l1[i1].0,
    ensures
        well(r2),
        forall|a: int, b: int| 0 <= a < b < r2.len() ==> (#[trigger] r2[a]).1 + gap < (#[trigger] r2[b]).0,
        forall|k: int| 0 <= k < r2.len() && 0 <= i2 < l2.len() ==> (#[trigger] r2[k]).1 + gap < l2[i2].0,
{
    lemma_sub_left(right, l1, l2, r1, r2, i1, i2, j1, j2);
    assert(l1[i1].0 <= l1[i1].1 && right[j1].0 <= right[j1].1);
    let p = r1.len() as int;
    assert(forall|k: int| 0 <= k < p ==> #[trigger] r2[k] == r1[k]);
    if r2.len() == p + 1 {
        assert(l1[i1].0 == r2[p].0 && r2[p].0 <= r2[p].1 && r2[p].1 <= l1[i1].1);
        assert(i2 == i1 ==> r2[p].1 < right[j1].0 && right[j1].1 < l2[i1].0);
    } else {
        assert(r2 == r1);
    }
    assert forall|k: int| 0 <= k < r2.len() implies (#[trigger] r2[k]).0 <= r2[k].1 by {
        if k < p { assert(r1[k].0 <= r1[k].1); }
    }
    assert forall|a: int, b: int| 0 <= a < b < r2.len() implies (#[trigger] r2[a]).1 + gap < (#[trigger] r2[b]).0 by {
        assert(r2[a] == r1[a]);
        if b < p { assert(r1[a].1 + gap < r1[b].0); } else { assert(r1[a].1 + gap < l1[i1].0); }
    }
    if i2 < l2.len() {
        assert forall|k: int| 0 <= k < r2.len() implies (#[trigger] r2[k]).1 + gap < l2[i2].0 by {
            if i2 == i1 + 1 { assert(l2[i2] == l1[i2]); assert(l1[i1].1 + gap < l1[i2].0); }
            if k < p { assert(r1[k].1 + gap < l1[i1].0); }
        }
    }
}

pub proof fn lemma_sub_step(left0: Seq<Interval>, right: Seq<Interval>, l1: Seq<Interval>, l2: Seq<Interval>,
    r1: Seq<Interval>, r2: Seq<Interval>, i1: int, i2: int, j1: int, j2: int)
    requires
        disjoint(left0), disjoint(right), disjoint(l1), 0 <= i1 < l1.len(), 0 <= j1 < right.len(),
        canonical(left0) ==> canonical(l1),
        l1.len() == l2.len(),
        sub_inv(left0, right, l1, r1, i1, j1),
        sub_round(right, l1, l2, r1, r2, i1, i2, j1, j2),
    ensures
        disjoint(l2), canonical(left0) ==> canonical(l2),
        sub_inv(left0, right, l2, r2, i2, j2),
{
    let n = l1.len() as int;
    let m = right.len() as int;
    lemma_sub_left(right, l1, l2, r1, r2, i1, i2, j1, j2);
    lemma_sub_res(right, l1, l2, r1, r2, i1, i2, j1, j2, 0);
    if canonical(left0) { lemma_sub_res(right, l1, l2, r1, r2, i1, i2, j1, j2, 1); }
    assert forall|c: int| #![trigger cov(left0, c)] cov(left0, c) && !cov(right, c) <==>
            cov(r2, c) || (cov_in(l2, i2, n, c) && !cov_in(right, j2, m, c)) by {
        assert(cov(left0, c) && !cov(right, c) <==> cov(r1, c) || (cov_in(l1, i1, n, c) && !cov_in(right, j1, m, c)));
        lemma_sub_point(right, l1, l2, r1, r2, i1, i2, j1, j2, c);
    }
}

pub proof fn lemma_sub_end(left0: Seq<Interval>, right: Seq<Interval>, left: Seq<Interval>, res: Seq<Interval>, i: int, j: int)
    requires
        disjoint(left0), disjoint(right), disjoint(left), canonical(left0) ==> canonical(left),
        0 <= i <= left.len(), 0 <= j <= right.len(), i == left.len() || j == right.len(),
        sub_inv(left0, right, left, res, i, j),
    ensures ({
        let out = res + left.subrange(i, left.len() as int);
        &&& disjoint(out)
        &&& canonical(left0) ==> canonical(out)
        &&& forall|c: int| cov(out, c) <==> cov(left0, c) && !cov(right, c)
        &&& forall|m: int| below(left0, m) ==> below(out, m)
    }),
{
    let n = left.len() as int;
    let tail = left.subrange(i, n);
    let out = res + tail;
    let p = res.len() as int;
    assert(forall|k: int| 0 <= k < p ==> #[trigger] out[k] == res[k]);
    assert(forall|k: int| p <= k < out.len() ==> #[trigger] out[k] == left[k - p + i]);
    assert forall|a: int, b: int| 0 <= a < b < out.len() implies (#[trigger] out[a]).1 < (#[trigger] out[b]).0
        && (canonical(left0) ==> out[a].1 + 1 < out[b].0) by {
        if b < p { assert(res[a].1 < res[b].0); }
        else if a < p {
            assert(res[a].1 < left[i].0);
            if b - p + i > i { assert(left[i].1 < left[b - p + i].0); assert(left[i].0 <= left[i].1); }
        } else { assert(left[a - p + i].1 < left[b - p + i].0); }
    }
    assert forall|c: int| cov(out, c) <==> cov(left0, c) && !cov(right, c) by {
        assert(cov(left0, c) || !cov(left0, c));
        assert(cov(left0, c) && !cov(right, c) <==> cov(res, c) || (cov_in(left, i, n, c) && !cov_in(right, j, right.len() as int, c)));
        assert(cov_in(left, i, n, c) ==> !cov_in(right, j, right.len() as int, c));
        if cov(res, c) {
            let k = choose|k: int| 0 <= k < p && #[trigger] iv_has(res[k], c);
            assert(iv_has(out[k], c));
        }
        if cov_in(left, i, n, c) {
            let k = choose|k: int| i <= k < n && 0 <= k < n && #[trigger] iv_has(left[k], c);
            assert(iv_has(out[k - i + p], c));
        }
        if cov(out, c) {
            let k = choose|k: int| 0 <= k < out.len() && #[trigger] iv_has(out[k], c);
            if k < p { assert(iv_has(res[k], c)); } else { assert(iv_has(left[k - p + i], c)); }
        }
    }
    lemma_below_from_cov(left0, out);
}
@*/

pub fn merge(intervals: &mut Vec<Interval>)
/*@
    requires well(old(intervals)@), below(old(intervals)@, u32::MAX - 1),
    ensures
        canonical(final(intervals)@),
        forall|c: int| cov(final(intervals)@, c) <==> cov(old(intervals)@, c),
        forall|m: int| below(old(intervals)@, m) ==> below(final(intervals)@, m),
@*/
{
    intervals.sort_by_key(|a| /*@ -> (r: u32) ensures r == a.0 @*/ a.0);
    /*@ let ghost sorted = intervals@;
        proof { lemma_cov_perm(old(intervals)@, sorted); } @*/
    let mut border = 0_usize;
    /*@ proof {
        if sorted.len() > 0 { lemma_cov_in_frame(sorted, intervals@, 0, 1); }
    } @*/
    for index in /*@ it: @*/ 1..intervals.len()
    /*@
        invariant
            well(sorted), below(sorted, u32::MAX - 1), intervals@.len() == sorted.len(),
            forall|a: int, b: int| 0 <= a < b < sorted.len() ==> (#[trigger] sorted[a]).0 <= (#[trigger] sorted[b]).0,
            it.seq().len() == if sorted.len() > 0 { sorted.len() - 1 } else { 0 }, it.index() <= it.seq().len(),
            border < it.index() + 1,
            forall|k: int| it.index() + 1 <= k < sorted.len() ==> #[trigger] intervals@[k] == sorted[k],
            sorted.len() > 0 ==> canonical(intervals@.take(border + 1)),
            sorted.len() > 0 ==> intervals@[border as int].0 <= sorted[it.index() as int].0,
            sorted.len() > 0 ==> below(intervals@.take(border + 1), u32::MAX - 1),
            forall|c: int| #![trigger cov_in(sorted, 0, it.index() + 1, c)]
                cov_in(sorted, 0, it.index() + 1, c) <==> cov_in(intervals@, 0, border + 1, c),
    @*/
    {
        /*@ let ghost (pre_, b_) = (intervals@, border as int);
            proof { assert(intervals@.take(border + 1)[border as int] == intervals@[border as int]); } @*/
        let interval = intervals[index];
        let right = intervals[border].1;
        if interval.0 <= right + 1 {
            if interval.1 > right {
                intervals[border].1 = interval.1;
            }
        } else {
            border += 1;
            intervals[border] = interval;
        }
        /*@ proof {
            lemma_cov_in_snoc(sorted, 0, index as int);
            lemma_merge_step(pre_, intervals@, b_, border as int, interval);
        } @*/
    }
    /*@ let ghost full_ = intervals@; @*/
    intervals.truncate(border + 1);
    /*@ proof {
        lemma_cov_all(sorted);
        lemma_cov_all(intervals@);
        if sorted.len() > 0 {
            assert(intervals@ =~= full_.take(border + 1));
            lemma_cov_in_frame(full_, intervals@, 0, border + 1);
        }
        lemma_below_from_cov(sorted, intervals@);
    } @*/
}

/*@
/// one step of merging: `iv` joins the merged prefix `pre[..=b]`, giving `post[..=b2]`
pub proof fn lemma_merge_step(pre: Seq<Interval>, post: Seq<Interval>, b: int, b2: int, iv: Interval)
    requires
        0 <= b < pre.len(), pre.len() == post.len(), 0 <= b2 < post.len(),
        iv.0 <= iv.1, iv.1 < u32::MAX,
        canonical(pre.take(b + 1)), below(pre.take(b + 1), u32::MAX - 1),
        pre[b].0 <= iv.0,
        forall|k: int| 0 <= k < b ==> #[trigger] post[k] == pre[k],
        iv.0 <= pre[b].1 + 1 ==> b2 == b && post[b].0 == pre[b].0 && post[b].1 == if iv.1 > pre[b].1 { iv.1 } else { pre[b].1 },
        iv.0 > pre[b].1 + 1 ==> b2 == b + 1 && post[b] == pre[b] && post[b2] == iv,
    ensures
        canonical(post.take(b2 + 1)), below(post.take(b2 + 1), u32::MAX - 1),
        forall|c: int| #![trigger cov_in(post, 0, b2 + 1, c)]
            cov_in(post, 0, b2 + 1, c) <==> cov_in(pre, 0, b + 1, c) || iv_has(iv, c),
{
    let p = pre.take(b + 1);
    let q = post.take(b2 + 1);
    assert(forall|k: int| 0 <= k <= b ==> p[k] == #[trigger] pre[k]);
    assert(forall|k: int| 0 <= k <= b2 ==> #[trigger] q[k] == post[k]);
    lemma_cov_in_snoc(pre, 0, b);
    lemma_cov_in_snoc(post, 0, b);
    lemma_cov_in_frame(pre, post, 0, b);
    if b2 == b + 1 {
        lemma_cov_in_snoc(post, 0, b2);
    }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).1 + 1 < (#[trigger] q[j]).0 by {
        assert(p[i] == pre[i]);
        if j <= b { assert(p[j].0 == pre[j].0); }
        if i < b { assert(p[i].1 + 1 < p[b].0); }
    }
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 <= q[i].1 && q[i].1 <= u32::MAX - 1 by {
        if i <= b { assert(p[i].0 <= p[i].1 && p[i].1 <= u32::MAX - 1); }
    }
}
@*/
