use crate::Interval;

/*@ #[verifier::external_derive(Clone)] @*/
#[derive(Debug, Clone)]
pub struct IntervalSet {
    intervals: Vec<Interval>,
    offsets: Vec<u32>,
    size: u32,
}

/*@
impl IntervalSet {
    /// representation invariant: holds of every value, wherever it comes from
    #[verifier::type_invariant]
    spec fn wf(&self) -> bool {
        &&& canonical(self.intervals@)
        &&& below(self.intervals@, maxc())
        &&& self.offsets@.len() == self.intervals@.len() + 1
        &&& forall|i: int| 0 <= i < self.offsets@.len() ==> #[trigger] self.offsets@[i] == psum(self.intervals@, i)
        &&& self.size == psum(self.intervals@, self.intervals@.len() as int)
    }

    /// the intervals described
    pub closed spec fn ivs(&self) -> Seq<Interval> { self.intervals@ }

    /// the code points of the set in increasing order
    pub open spec fn points(&self) -> Seq<u32> { flat(self.ivs()) }

    /// what every interval set built by the crate guarantees
    pub proof fn lemma_points(tracked &self)
        ensures
            canonical(self.ivs()), below(self.ivs(), maxc()),
            increasing(self.points()),
            forall|c: u32| self.points().contains(c) <==> cov(self.ivs(), c as int),
            self.points().len() <= maxc() + 1,
    {
        use_type_invariant(self);
        lemma_flat(self.intervals@);
        lemma_psum_bound(self.intervals@, self.intervals@.len() as int);
    }
}
@*/

impl IntervalSet {
    pub(crate) fn new(intervals: Vec<Interval>) -> IntervalSet
    /*@
        requires canonical(intervals@), below(intervals@, maxc()),
        ensures ret.ivs() == intervals@,
    @*/
    {
        let mut offsets = vec![0];
        offsets.reserve_exact(intervals.len());
        let mut size = 0;
        for (left, right) in /*@ it: @*/ &intervals
        /*@
            invariant
                canonical(intervals@), below(intervals@, maxc()),
                it.seq().len() == intervals@.len(), it.index() <= it.seq().len(),
                forall|k: int| 0 <= k < it.seq().len() ==> *#[trigger] it.seq()[k] == intervals@[k],
                offsets@.len() == it.index() + 1,
                forall|i: int| 0 <= i < offsets@.len() ==> #[trigger] offsets@[i] == psum(intervals@, i),
                size == psum(intervals@, it.index() as int),
        @*/
        {
            /*@ proof {
                let i = it.index() as int;
                lemma_psum_bound(intervals@, i);
                lemma_psum_bound(intervals@, i + 1);
            } @*/
            size += *right - *left + 1;
            offsets.push(size);
        }
        IntervalSet {
            intervals,
            offsets,
            size,
        }
    }

    pub fn len(&self) -> usize
    /*@ ensures ret == self.points().len(), @*/
    {
        /*@ proof { use_type_invariant(self); lemma_flat(self.intervals@); } @*/
        self.size as usize
    }

    pub const fn is_empty(&self) -> bool
    /*@ ensures ret <==> self.points().len() == 0, @*/
    {
        /*@ proof { use_type_invariant(self); lemma_flat(self.intervals@); } @*/
        self.size == 0
    }

    pub fn contains(&self, codepoint: impl Into<u32>) -> bool
    /*@
        requires call_requires(<__T0 as Into<u32>>::into, (codepoint,)),
        ensures exists|v: u32| #[trigger] call_ensures(<__T0 as Into<u32>>::into, (codepoint,), v) && ret == cov(self.ivs(), v as int),
    @*/
    {
        /*@ proof { use_type_invariant(self); self.lemma_points(); } @*/
        self.index_of(codepoint.into()).is_some()
    }

    pub fn codepoint_at(&self, index: u32) -> Option<u32>
    /*@
                ensures ret == if index < self.points().len() { Some(self.points()[index as int]) } else { None },
    @*/
    {
        /*@ proof { use_type_invariant(self); lemma_flat(self.intervals@); lemma_psum_bound(self.intervals@, self.intervals@.len() as int); lemma_psum_mono(self.intervals@); } @*/
        if index >= self.size {
            return None;
        }
        /*@ proof { assert(self.offsets@[0] == 0 && self.offsets@[self.offsets@.len() - 1] == self.size); } @*/
        let current = self.offsets.partition_point(|&offset| /*@ -> (r: bool) ensures r == (*__p <= index) @*/ offset <= index) - 1;
        /*@ proof { assert(self.offsets@[current as int] <= index); assert(self.offsets@[current + 1] > index); lemma_at(self.intervals@, current as int, index as int); } @*/
        Some(self.intervals[current].0 + index - self.offsets[current])
    }

    pub fn index_of(&self, codepoint: impl Into<u32>) -> Option<u32>
    /*@
        requires call_requires(<__T0 as Into<u32>>::into, (codepoint,)),
        ensures exists|v: u32| #[trigger] call_ensures(<__T0 as Into<u32>>::into, (codepoint,), v) && (match ret {
            Some(i) => i < self.points().len() && self.points()[i as int] == v,
            None => !self.points().contains(v),
        }),
    @*/
    {
        /*@ proof { use_type_invariant(self); lemma_flat(self.intervals@); lemma_psum_bound(self.intervals@, self.intervals@.len() as int); lemma_psum_mono(self.intervals@); } @*/
        let codepoint = codepoint.into();
        let idx = self
            .intervals
            .partition_point(|&(left, _)| /*@ -> (r: bool) ensures r == (__p.0 <= codepoint) @*/ left <= codepoint);
        /*@ proof { lemma_find(self.intervals@, idx as int, codepoint); } @*/
        if idx == 0 {
            return None;
        }
        let (left, right) = self.intervals[idx - 1];
        if codepoint <= right {
            Some(self.offsets[idx - 1] + (codepoint - left))
        } else {
            None
        }
    }

    pub fn index_above(&self, codepoint: impl Into<u32>) -> u32
    /*@
        requires call_requires(<__T0 as Into<u32>>::into, (codepoint,)),
        ensures exists|v: u32| #[trigger] call_ensures(<__T0 as Into<u32>>::into, (codepoint,), v) && ret <= self.points().len()
            && (forall|k: int| 0 <= k < ret ==> #[trigger] self.points()[k] < v)
            && (forall|k: int| ret <= k < self.points().len() ==> #[trigger] self.points()[k] >= v),
    @*/
    {
        /*@ proof { use_type_invariant(self); lemma_flat(self.intervals@); lemma_psum_bound(self.intervals@, self.intervals@.len() as int); lemma_psum_mono(self.intervals@); } @*/
        let codepoint = codepoint.into();
        let idx = self
            .intervals
            .partition_point(|&(left, _)| /*@ -> (r: bool) ensures r == (__p.0 <= codepoint) @*/ left <= codepoint);
        /*@ proof { lemma_find(self.intervals@, idx as int, codepoint); } @*/
        if idx > 0 {
            let (left, right) = self.intervals[idx - 1];
            if codepoint <= right {
                return self.offsets[idx - 1] + (codepoint - left);
            }
        }
        self.offsets[idx]
    }

    pub fn iter(&self) -> Codepoints<'_>
    /*@ ensures ret.items() == self.points(), @*/
    {
        fn expand((left, right): Interval) -> core::ops::RangeInclusive<u32>
        /*@ requires __arg0.0 <= __arg0.1, ensures ret.remaining() =~= range_seq(__arg0.0, __arg0.1), @*/
        {
            left..=right
        }
        let expand: Expand = expand;
        /*@ proof { use_type_invariant(self); crate::shim::lemma_concat_all(self.intervals@); } @*/
        Codepoints(self.intervals.iter().copied().flat_map(expand))
    }
}

type Expand = fn(Interval) -> core::ops::RangeInclusive<u32>;

#[derive(Debug, Clone)]
pub struct Codepoints<'a>(
    core::iter::FlatMap<
        core::iter::Copied<core::slice::Iter<'a, Interval>>,
        core::ops::RangeInclusive<u32>,
        Expand,
    >,
);

/*@
impl<'a> Codepoints<'a> {
    /// the code points not yet yielded, in order
    pub closed spec fn items(&self) -> Seq<u32> { self.0@ }
}

impl<'a> vstd::std_specs::iter::IteratorSpecImpl for Codepoints<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<u32> { self.items() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.items().len() as nat) }
    open spec fn peek(&self, index: int) -> Option<u32> {
        if 0 <= index < self.items().len() { Some(self.items()[index]) } else { None }
    }
}

impl<'a> vstd::std_specs::iter::DoubleEndedIteratorSpecImpl for Codepoints<'a> {
    open spec fn peek_back(&self, index: int) -> Option<u32> {
        if 0 <= index < self.items().len() { Some(self.items()[self.items().len() - 1 - index]) } else { None }
    }
}
@*/

impl Iterator for Codepoints<'_> {
    type Item = u32;

    fn next(&mut self) -> Option<u32> {
        self.0.next()
    }
}

impl DoubleEndedIterator for Codepoints<'_> {
    fn next_back(&mut self) -> Option<u32> {
        self.0.next_back()
    }
}

impl<'a> IntoIterator for &'a IntervalSet {
    type Item = u32;
    type IntoIter = Codepoints<'a>;

    fn into_iter(self) -> Codepoints<'a>
    /*@ ensures ret.items() == self.points(), @*/
    {
        self.iter()
    }
}
