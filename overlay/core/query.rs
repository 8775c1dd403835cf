use crate::{
    categories,
    categories::UnicodeCategorySet,
    constants::{ALL_CATEGORIES, MAX_CODEPOINT},
    intervals, Interval, UnicodeVersion,
};
use core::cmp::{max, min};
use std::borrow::Cow;
pub fn query(
    version: UnicodeVersion,
    include_categories: Option<UnicodeCategorySet>,
    exclude_categories: UnicodeCategorySet,
    include_characters: &str,
    exclude_characters: &str,
    min_codepoint: u32,
    max_codepoint: u32,
) -> Vec<Interval>
/*@
    requires min_codepoint <= max_codepoint <= maxc(),
    ensures
        canonical(ret@), below(ret@, maxc()),
        forall|c: int| cov(ret@, c) <==> result_has(version, include_categories, exclude_categories, include_characters@, exclude_characters@,
            min_codepoint as int, max_codepoint as int, c),
@*/
{
    /*@ proof { lemma_tables(version); } @*/
    if max_codepoint < ASCII_BOUND
        && is_ascii_range(include_characters)
        && is_ascii_range(exclude_characters)
    {
        return ascii_query(
            version,
            include_categories,
            exclude_categories,
            include_characters,
            exclude_characters,
            min_codepoint,
            max_codepoint,
        );
    }
    let categories = categories::merge(include_categories, exclude_categories);

    let include_intervals = intervals::from_str(include_characters);
    let exclude_intervals = intervals::from_str(exclude_characters);
    let needs_merge = categories.len() > 1 && categories.into_value() != ALL_CATEGORIES;
    let mut intervals = if min_codepoint == 0 && max_codepoint == MAX_CODEPOINT {
        intervals_for_set(version, categories).into_owned()
    } else {
        collect_in_range(version, categories, min_codepoint, max_codepoint)
    };
    /*@ let ghost base_ = intervals@; let ghost inc_ = include_intervals@;
        proof {
            assert forall|c: int| cov(base_, c) <==> set_cov(version, categories, c) && min_codepoint <= c <= max_codepoint by {
                assert(set_cov(version, categories, c) ==> 0 <= c <= maxc());
            }
            lemma_cov_concat(base_, inc_);
            assert(base_.len() == 0 ==> forall|c: int| !cov(base_, c));
            assert(inc_.len() == 0 ==> forall|c: int| !cov(inc_, c));
        } @*/
    if intervals.is_empty() {
        intervals = include_intervals;
    } else if !include_intervals.is_empty() {
        intervals.extend_from_slice(&include_intervals);
        /*@< proof { assert(intervals@ =~= base_ + inc_); } @*/
        intervals::merge(&mut intervals);
    } else if needs_merge {
        intervals::merge(&mut intervals);
    }
    /*@ proof {
        assert(canonical(intervals@));
        assert forall|c: int| #![trigger cov(intervals@, c)] cov(intervals@, c) <==> cov(base_, c) || cov(inc_, c) by {}
        assert forall|c: int| set_cov(version, categories, c) <==> in_effective(version, include_categories, exclude_categories, c) by {
            lemma_set_effective(version, categories, include_categories, exclude_categories, c);
        }
    } @*/
    intervals::subtract(intervals, exclude_intervals.as_slice())
}
pub fn intervals_for_set(
    version: UnicodeVersion,
    categories: UnicodeCategorySet,
) -> Cow<'static, [Interval]>
/*@
    ensures
        well(ret@), below(ret@, maxc()),
        items_of(categories.bits(), 30).len() <= 1 || categories.bits() == 0x3fff_ffff ==> canonical(ret@),
        forall|c: int| cov(ret@, c) <==> set_cov(version, categories, c),
@*/
{
    /*@ proof {
        lemma_tables(version);
        categories.lemma_wf();
        lemma_none(categories.bits());
        lemma_len(categories.bits());
        lemma_items(categories.bits(), 30);
        lemma_next(categories.bits());
        lemma_all_cov(version, categories);
        lemma_cov_literals();
        lemma_set_items(version, categories);
        lemma_cat_at();
        lemma_sizes(version, categories.bits());
    } @*/
    match categories.into_value() {
        0 => Cow::Borrowed(&[]),
        ALL_CATEGORIES => Cow::Borrowed(&[(0, MAX_CODEPOINT)]),
        value => {
            if categories.len() == 1 {
                let category_idx = value.trailing_zeros() as usize;
                Cow::Borrowed(version.table()[category_idx])
            } else {
                let size: usize = categories
                    .iter()
                    .map(|c| /*@ -> (r: usize) requires (c as usize) < 30, ensures r == tab(version)[cid(c)]@.len() @*/ version.table()[c as usize].len())
                    .sum();
                let mut intervals = Vec::with_capacity(size);
                for category in /*@ it: @*/ categories.iter()
                /*@
                    invariant
                        table_wf(tab(version)),
                        it.seq() == items_of(categories.bits(), 30), it.index() <= it.seq().len(),
                        well(intervals@), below(intervals@, maxc()),
                        forall|c: int| #![trigger cov(intervals@, c)] cov(intervals@, c) <==> items_cov(version, it.seq(), it.index() as int, c),
                @*/
                {
                    /*@ let ghost iv0 = intervals@; proof { lemma_cat_at(); } @*/
                    intervals.extend_from_slice(version.table()[category as usize]);
                    /*@ proof {
                        let cat_ = it.seq()[it.index() as int];
                        assert(intervals@ =~= iv0 + tab(version)[cid(cat_)]@);
                        lemma_cov_concat(iv0, tab(version)[cid(cat_)]@);
                        lemma_items_cov_step(version, it.seq(), it.index() as int);
                        assert(below(tab(version)[cid(cat_)]@, maxc()));
                    } @*/
                }
                Cow::Owned(intervals)
            }
        }
    }
}
fn collect_in_range(
    version: UnicodeVersion,
    categories: UnicodeCategorySet,
    min_codepoint: u32,
    max_codepoint: u32,
) -> Vec<Interval>
/*@
    requires min_codepoint <= max_codepoint <= maxc(),
    ensures
        well(ret@), below(ret@, maxc()),
        items_of(categories.bits(), 30).len() <= 1 || categories.bits() == 0x3fff_ffff ==> canonical(ret@),
        forall|c: int| cov(ret@, c) <==> set_cov(version, categories, c) && min_codepoint <= c <= max_codepoint,
@*/
{
    /*@ proof {
        lemma_tables(version);
        categories.lemma_wf();
        lemma_none(categories.bits());
        lemma_len(categories.bits());
        lemma_items(categories.bits(), 30);
        lemma_next(categories.bits());
        lemma_all_cov(version, categories);
        lemma_cov_literals();
        lemma_set_items(version, categories);
        lemma_cat_at();
    } @*/
    match categories.into_value() {
        0 => Vec::new(),
        ALL_CATEGORIES => vec![(min_codepoint, max_codepoint)],
        value => {
            let table = version.table();
            let mut intervals = Vec::new();
            if categories.len() == 1 {
                let category_idx = value.trailing_zeros() as usize;
                extend_clamped(
                    &mut intervals,
                    table[category_idx],
                    min_codepoint,
                    max_codepoint,
                );
            } else {
                for category in /*@ it: @*/ categories.iter()
                /*@
                    invariant
                        table_wf(tab(version)), table@ == tab(version), max_codepoint <= maxc(),
                        it.seq() == items_of(categories.bits(), 30), it.index() <= it.seq().len(),
                        well(intervals@), below(intervals@, maxc()),
                        forall|c: int| #![trigger cov(intervals@, c)] cov(intervals@, c) <==>
                            items_cov(version, it.seq(), it.index() as int, c) && min_codepoint <= c <= max_codepoint,
                @*/
                {
                    /*@ let ghost iv0 = intervals@; proof { lemma_cat_at(); } @*/
                    extend_clamped(
                        &mut intervals,
                        table[category as usize],
                        min_codepoint,
                        max_codepoint,
                    );
                    /*@ proof {
                        lemma_items_cov_step(version, it.seq(), it.index() as int);
                        let cat_ = it.seq()[it.index() as int];
                        assert forall|c: int| #![trigger cov(intervals@, c)] cov(intervals@, c) <==>
                            items_cov(version, it.seq(), it.index() + 1, c) && min_codepoint <= c <= max_codepoint by {
                            assert(cov(iv0, c) <==> items_cov(version, it.seq(), it.index() as int, c) && min_codepoint <= c <= max_codepoint);
                            assert(cat_has(version, cat_, c) <==> cov(tab(version)[cid(cat_)]@, c));
                        }
                    } @*/
                }
            }
            /*@ proof {
                assert forall|c: int| cov(intervals@, c) <==> set_cov(version, categories, c) && min_codepoint <= c <= max_codepoint by {
                    if items_of(categories.bits(), 30).len() == 1 {
                        let k = items_of(categories.bits(), 30)[0];
                        assert(cat_has(version, k, c) <==> cov(tab(version)[cid(k)]@, c));
                    }
                }
            } @*/
            intervals
        }
    }
}
const BINARY_SEARCH_THRESHOLD: usize = 32;
fn extend_clamped(
    out: &mut Vec<Interval>,
    table: &[Interval],
    min_codepoint: u32,
    max_codepoint: u32,
)
/*@
    requires canonical(table@), well(old(out)@),
    ensures
        well(final(out)@),
        old(out)@.len() == 0 ==> canonical(final(out)@),
        forall|m: int| below(old(out)@, m) && max_codepoint <= m ==> below(final(out)@, m),
        forall|c: int| cov(final(out)@, c) <==> cov(old(out)@, c) || (cov(table@, c) && min_codepoint <= c <= max_codepoint),
@*/
{
    let start = match table.first() {
        Some(&(_, right)) if right < min_codepoint && table.len() >= BINARY_SEARCH_THRESHOLD => {
            table.partition_point(|&(_, right)| /*@ -> (r: bool) ensures r == (__p.1 < min_codepoint) @*/ right < min_codepoint)
        }
        _ => 0,
    };
    /*@ let ghost out0 = out@;
        proof { lemma_clamp_init(out0, table@, start as int, min_codepoint as int, max_codepoint as int); } @*/
    for &(left, right) in /*@ it: @*/ &table[start..]
    /*@
        invariant_except_break
            it.index() <= it.seq().len(),
        invariant
            canonical(table@), well(out0), start <= table@.len(),
            it.seq().len() == table@.len() - start,
            forall|k: int| 0 <= k < it.seq().len() ==> *#[trigger] it.seq()[k] == table@[k + start],
            forall|k: int| 0 <= k < start ==> (#[trigger] table@[k]).1 < min_codepoint,
            clamp_inv(out0, out@, table@, start + it.index(), min_codepoint as int, max_codepoint as int),
        ensures
            clamp_done(out0, out@, table@, min_codepoint as int, max_codepoint as int),
    @*/
    {
        /*@ let ghost out1 = out@; @*/
        if left > max_codepoint {
            /*@ proof { lemma_clamp_done(out0, out@, table@, start + it.index(), min_codepoint as int, max_codepoint as int); } @*/
            break;
        }
        let lo = max(left, min_codepoint);
        let hi = min(right, max_codepoint);
        if lo <= hi {
            out.push((lo, hi));
        }
        /*@ proof { lemma_clamp_step(out0, out1, out@, table@, start + it.index(), min_codepoint, max_codepoint); } @*/
    }
    /*@ proof { lemma_clamp_end(out0, out@, table@, min_codepoint as int, max_codepoint as int); } @*/
}

const ASCII_BOUND: u32 = 256;

type AsciiMask = [u64; 4];
const fn build_ascii_masks(table: &[&[Interval]]) -> [AsciiMask; 30]
/*@
    requires table_wf(table@),
    ensures masks_ok(ret, table@),
@*/
{
    let mut masks = [[0u64; 4]; 30];
    let mut category = 0;
    /*@ proof { lemma_mask_zero(); } @*/
    while category < 30
    /*@
        invariant
            table_wf(table@), category <= 30,
            forall|k: int, cp: int| 0 <= k < category && 0 <= cp < 256 ==> mbit(#[trigger] masks@[k], cp) == #[trigger] cov(table@[k]@, cp),
            forall|k: int, cp: int| category <= k < 30 && 0 <= cp < 256 ==> !#[trigger] mbit(masks@[k], cp),
        decreases 30 - category,
    @*/
    {
        let slice = table[category];
        let mut i = 0;
        /*@ let ghost masks0 = masks@; @*/
        while i < slice.len()
        /*@
            invariant_except_break
                i <= slice@.len(),
                forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(masks@[category as int], cp) == cov_in(slice@, 0, i as int, cp),
            invariant
                category < 30, canonical(slice@), masks@.len() == masks0.len(), masks0.len() == 30,
                forall|k: int| 0 <= k < 30 && k != category ==> #[trigger] masks@[k] == masks0[k],
            ensures
                forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(masks@[category as int], cp) == cov(slice@, cp),
            decreases slice@.len() - i,
        @*/
        {
            let (left, right) = slice[i];
            /*@ proof { lemma_cov_all(slice@); lemma_cov_in_snoc(slice@, 0, i as int); lemma_rest_high(slice@, i as int); } @*/
            if left >= ASCII_BOUND {
                break; // sorted by left bound: nothing else reaches into 0..256
            }
            let hi = if right >= ASCII_BOUND {
                ASCII_BOUND - 1
            } else {
                right
            };
            let mut cp = left;
            while cp <= hi
            /*@
                invariant
                    category < 30, left <= cp <= hi + 1, hi < 256, i < slice@.len(),
                    masks@.len() == masks0.len(), masks0.len() == 30,
                    forall|k: int| 0 <= k < 30 && k != category ==> #[trigger] masks@[k] == masks0[k],
                    forall|c: int| 0 <= c < 256 ==> #[trigger] mbit(masks@[category as int], c) == (cov_in(slice@, 0, i as int, c) || left <= c < cp),
                decreases hi + 1 - cp,
            @*/
            {
                /*@ let ghost m0 = masks@[category as int]; @*/
                masks[category][(cp / 64) as usize] |= 1u64 << (cp % 64);
                /*@< proof { lemma_mask_set(m0, masks@[category as int], cp as int); } @*/
                cp += 1;
            }
            i += 1;
        }
        category += 1;
    }
    masks
}
const ASCII_MASKS: [[AsciiMask; 30]; 11]
/*@ ensures forall|v: UnicodeVersion| (v as int) < 11 && masks_ok(ASCII_MASKS[v as int], #[trigger] tab(v)), @*/
= /*@ proof { lemma_tables_each(); } @*/ [
    build_ascii_masks(crate::tables::v9_0_0::BY_NAME),
    build_ascii_masks(crate::tables::v10_0_0::BY_NAME),
    build_ascii_masks(crate::tables::v11_0_0::BY_NAME),
    build_ascii_masks(crate::tables::v12_0_0::BY_NAME),
    build_ascii_masks(crate::tables::v12_1_0::BY_NAME),
    build_ascii_masks(crate::tables::v13_0_0::BY_NAME),
    build_ascii_masks(crate::tables::v14_0_0::BY_NAME),
    build_ascii_masks(crate::tables::v15_0_0::BY_NAME),
    build_ascii_masks(crate::tables::v15_1_0::BY_NAME),
    build_ascii_masks(crate::tables::v16_0_0::BY_NAME),
    build_ascii_masks(crate::tables::v17_0_0::BY_NAME),
];
fn is_ascii_range(s: &str) -> bool
/*@ ensures ret == (forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i] as u32) < 256), @*/
{
    s.chars().all(|c| /*@ -> (r: bool) ensures r == ((c as u32) < ASCII_BOUND) @*/ (c as u32) < ASCII_BOUND)
}
fn ascii_query(
    version: UnicodeVersion,
    include_categories: Option<UnicodeCategorySet>,
    exclude_categories: UnicodeCategorySet,
    include_characters: &str,
    exclude_characters: &str,
    min_codepoint: u32,
    max_codepoint: u32,
) -> Vec<Interval>
/*@
    requires
        min_codepoint <= max_codepoint < 256,
        forall|i: int| 0 <= i < include_characters@.len() ==> (#[trigger] include_characters@[i] as u32) < 256,
        forall|i: int| 0 <= i < exclude_characters@.len() ==> (#[trigger] exclude_characters@[i] as u32) < 256,
    ensures
        canonical(ret@), below(ret@, maxc()),
        forall|c: int| cov(ret@, c) <==> result_has(version, include_categories, exclude_categories, include_characters@, exclude_characters@,
            min_codepoint as int, max_codepoint as int, c),
@*/
{
    let categories = categories::merge(include_categories, exclude_categories);
    let masks = &ASCII_MASKS[version as usize];
    /*@ proof {
        lemma_tables(version);
        categories.lemma_wf();
        lemma_none(categories.bits());
        lemma_items(categories.bits(), 30);
        lemma_all_cov(version, categories);
        lemma_set_items(version, categories);
        lemma_cat_at();
        lemma_mask_zero();
        assert((version as int) < 11);
    } @*/
    let mut bits = match categories.into_value() {
        0 => [0u64; 4],
        ALL_CATEGORIES => [u64::MAX; 4],
        _ => {
            let mut bits = [0u64; 4];
            for category in /*@ it: @*/ categories.iter()
            /*@
                invariant
                    table_wf(tab(version)), masks_ok(*masks, tab(version)),
                    it.seq() == items_of(categories.bits(), 30), it.index() <= it.seq().len(),
                    forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits, cp) == items_cov(version, it.seq(), it.index() as int, cp),
            @*/
            {
                /*@ let ghost bits0 = bits;
                    proof { lemma_cat_at(); lemma_items_cov_step(version, it.seq(), it.index() as int); } @*/
                let mask = masks[category as usize];
                bits[0] |= mask[0];
                bits[1] |= mask[1];
                bits[2] |= mask[2];
                bits[3] |= mask[3];
                /*@ proof {
                    lemma_mask_or(bits0, mask, bits);
                    assert forall|cp: int| 0 <= cp < 256 implies #[trigger] mbit(bits, cp) == items_cov(version, it.seq(), it.index() + 1, cp) by {
                        assert(mbit(masks@[category as int], cp) == cov(tab(version)[cid(category)]@, cp));
                    }
                } @*/
            }
            bits
        }
    };
    /*@ let ghost bits1 = bits;
        proof { assert(forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits1, cp) == set_cov(version, categories, cp)); } @*/
    let range = range_mask(min_codepoint, max_codepoint);
    bits[0] &= range[0];
    bits[1] &= range[1];
    bits[2] &= range[2];
    bits[3] &= range[3];
    /*@ let ghost bits2 = bits;
        proof { lemma_mask_and(bits1, range, bits); } @*/
    for character in /*@ it: @*/ include_characters.chars()
    /*@
        invariant
            it.seq() == include_characters@, it.index() <= it.seq().len(),
            forall|i: int| 0 <= i < include_characters@.len() ==> (#[trigger] include_characters@[i] as u32) < 256,
            forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits, cp) == (mbit(bits2, cp) || str_has_upto(include_characters@, it.index() as int, cp)),
    @*/
    {
        /*@ let ghost bits0 = bits; proof { lemma_str_step(include_characters@, it.index() as int); } broadcast use crate::bits::group_div; @*/
        let cp = character as u32;
        bits[(cp / 64) as usize] |= 1u64 << (cp % 64);
        /*@ proof { lemma_mask_set(bits0, bits, cp as int); } @*/
    }
    /*@ let ghost bits3 = bits; @*/
    for character in /*@ it: @*/ exclude_characters.chars()
    /*@
        invariant
            it.seq() == exclude_characters@, it.index() <= it.seq().len(),
            forall|i: int| 0 <= i < exclude_characters@.len() ==> (#[trigger] exclude_characters@[i] as u32) < 256,
            forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits, cp) == (mbit(bits3, cp) && !str_has_upto(exclude_characters@, it.index() as int, cp)),
    @*/
    {
        /*@ let ghost bits0 = bits; proof { lemma_str_step(exclude_characters@, it.index() as int); } broadcast use crate::bits::group_div; @*/
        let cp = character as u32;
        bits[(cp / 64) as usize] &= !(1u64 << (cp % 64));
        /*@ proof { lemma_mask_clear(bits0, bits, cp as int); } @*/
    }
    /*@ proof {
        lemma_str_upto(include_characters@);
        lemma_str_upto(exclude_characters@);
        assert forall|c: int| #[trigger] result_has(version, include_categories, exclude_categories, include_characters@, exclude_characters@,
            min_codepoint as int, max_codepoint as int, c) == (0 <= c < 256 && mbit(bits, c)) by {
            lemma_set_effective(version, categories, include_categories, exclude_categories, c);
            if 0 <= c < 256 {
                assert(mbit(bits2, c) == (mbit(bits1, c) && min_codepoint <= c <= max_codepoint));
                assert(mbit(bits3, c) == (mbit(bits2, c) || str_has(include_characters@, c)));
            } else {
                assert(!str_has(include_characters@, c));
            }
        }
    } @*/
    extract_intervals(&bits)
}
fn range_mask(min_codepoint: u32, max_codepoint: u32) -> AsciiMask
/*@
    requires min_codepoint <= max_codepoint,
    ensures forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(ret, cp) == (min_codepoint <= cp <= max_codepoint),
@*/
{
    let mut mask = [0u64; 4];
    let mut word: u32 = 0;
    while word < 4
    /*@
        invariant
            min_codepoint <= max_codepoint, word <= 4,
            forall|k: int| word <= k < 4 ==> #[trigger] mask@[k] == 0,
            forall|k: int, j: u32| 0 <= k < word && j < 64 ==> #[trigger] bit64(mask@[k], j) == (min_codepoint <= k * 64 + j <= max_codepoint),
        decreases 4 - word,
    @*/
    {
        /*@ broadcast use crate::bits::group_bits64; @*/
        let base = word * 64;
        let top = base + 63;
        if max_codepoint >= base && min_codepoint <= top {
            let lo = min_codepoint.saturating_sub(base);
            let hi = if max_codepoint < top {
                max_codepoint - base
            } else {
                63
            };
            let width = hi - lo + 1;
            /*@ proof { lemma_low_bits(width as u64); } @*/
            mask[word as usize] = if width == 64 {
                u64::MAX
            } else {
                ((1u64 << width) - 1) << lo
            };
        }
        word += 1;
    }
    mask
}
fn extract_intervals(bits: &AsciiMask) -> Vec<Interval>
/*@
    ensures
        canonical(ret@), below(ret@, 255),
        forall|c: int| cov(ret@, c) <==> 0 <= c < 256 && mbit(*bits, c),
@*/
{
    let mut result = Vec::new();
    let mut current: Option<Interval> = None;
    let mut word: u32 = 0;
    while word < 4
    /*@
        invariant word <= 4, ext_inv(*bits, result@, current, word * 64),
        decreases 4 - word,
    @*/
    {
        let mut remaining = bits[word as usize];
        let base = word * 64;
        /*@ let ghost mut done: int = 0; @*/
        while remaining != 0
        /*@
            invariant
                word < 4, base == word * 64, 0 <= done <= 64,
                ext_inv(*bits, result@, current, base + done),
                forall|j: u32| j < 64 ==> #[trigger] bit64(remaining, j) == (bit64(bits@[word as int], j) && j >= done),
                done == 0 || done == 64 || !bit64(bits@[word as int], done as u32),
            decreases 64 - done,
        @*/
        {
            /*@ broadcast use crate::bits::group_bits64;
                broadcast use vstd::std_specs::bits::axiom_u64_trailing_zeros, vstd::std_specs::bits::axiom_u64_trailing_ones;
                let ghost (rem0, res0, cur0) = (remaining, result@, current); @*/
            let start = remaining.trailing_zeros();
            let run = (remaining >> start).trailing_ones();
            /*@ proof { lemma_run(rem0, start, run); } @*/
            let lo = base + start;
            let hi = lo + run - 1;
            match current {
                Some((_, ref mut chi)) if *chi + 1 == lo => *chi = hi,
                Some(interval) => {
                    result.push(interval);
                    current = Some((lo, hi));
                }
                None => current = Some((lo, hi)),
            }
            let cleared = start + run;
            /*@ proof {
                lemma_low_bits(cleared as u64);
                lemma_ext_step(*bits, res0, cur0, result@, current, base as int, done, start as int, run as int, rem0, word as int);
                done = cleared as int;
            } @*/
            remaining = if cleared == 64 {
                0
            } else {
                remaining & !((1u64 << cleared) - 1)
            };
        }
        /*@ proof { lemma_ext_skip(*bits, result@, current, base as int, done, remaining, word as int); } @*/
        word += 1;
    }
    /*@ let ghost res_ = result@; proof { lemma_ext_end(*bits, res_, current); } @*/
    if let Some(interval) = current {
        result.push(interval);
    }
    result
}


/*@
/// code point `c` belongs to category `k` in the given version's data
pub open spec fn cat_has(v: UnicodeVersion, k: UnicodeCategory, c: int) -> bool { cov(tab(v)[cid(k)]@, c) }

pub open spec fn set_cov(v: UnicodeVersion, set: UnicodeCategorySet, c: int) -> bool {
    exists|k: UnicodeCategory| set.has(k) && #[trigger] cat_has(v, k, c)
}

pub open spec fn in_effective(v: UnicodeVersion, include: Option<UnicodeCategorySet>, exclude: UnicodeCategorySet, c: int) -> bool {
    exists|k: UnicodeCategory| effective(include, exclude, k) && #[trigger] cat_has(v, k, c)
}

/// the code points a query asks for
pub open spec fn result_has(v: UnicodeVersion, include: Option<UnicodeCategorySet>, exclude: UnicodeCategorySet,
    include_characters: Seq<char>, exclude_characters: Seq<char>, min: int, max: int, c: int) -> bool
{
    ((in_effective(v, include, exclude, c) && min <= c <= max) || str_has(include_characters, c)) && !str_has(exclude_characters, c)
}

pub proof fn lemma_set_effective(v: UnicodeVersion, set: UnicodeCategorySet, include: Option<UnicodeCategorySet>, exclude: UnicodeCategorySet, c: int)
    requires forall|k: UnicodeCategory| set.has(k) <==> effective(include, exclude, k),
    ensures set_cov(v, set, c) <==> in_effective(v, include, exclude, c),
{
    if set_cov(v, set, c) { let k = choose|k: UnicodeCategory| set.has(k) && #[trigger] cat_has(v, k, c); assert(effective(include, exclude, k)); }
    if in_effective(v, include, exclude, c) { let k = choose|k: UnicodeCategory| effective(include, exclude, k) && #[trigger] cat_has(v, k, c); assert(set.has(k)); }
}

/// covered by one of the first `n` listed categories
pub open spec fn items_cov(v: UnicodeVersion, s: Seq<UnicodeCategory>, n: int, c: int) -> bool {
    exists|i: int| 0 <= i < n && i < s.len() && #[trigger] cat_has(v, s[i], c)
}

pub proof fn lemma_items_cov_step(v: UnicodeVersion, s: Seq<UnicodeCategory>, n: int)
    requires 0 <= n < s.len(),
    ensures forall|c: int| #![trigger items_cov(v, s, n + 1, c)] #![trigger items_cov(v, s, n, c)] items_cov(v, s, n + 1, c) <==> items_cov(v, s, n, c) || cat_has(v, s[n], c),
{
    assert forall|c: int| #![trigger items_cov(v, s, n + 1, c)] #![trigger items_cov(v, s, n, c)] items_cov(v, s, n + 1, c) <==> items_cov(v, s, n, c) || cat_has(v, s[n], c) by {
        if items_cov(v, s, n + 1, c) { let i = choose|i: int| 0 <= i < n + 1 && i < s.len() && #[trigger] cat_has(v, s[i], c); }
    }
}

pub proof fn lemma_set_items(v: UnicodeVersion, set: UnicodeCategorySet)
    ensures
        forall|c: int| #![trigger set_cov(v, set, c)] set_cov(v, set, c) <==> items_cov(v, items_of(set.bits(), 30), items_of(set.bits(), 30).len() as int, c),
        items_of(set.bits(), 30).len() == 1 ==> forall|c: int| #![trigger set_cov(v, set, c)] set_cov(v, set, c) <==> cat_has(v, items_of(set.bits(), 30)[0], c),
        items_of(set.bits(), 30).len() == 0 ==> forall|c: int| #![trigger set_cov(v, set, c)] !set_cov(v, set, c),
{
    let s = items_of(set.bits(), 30);
    lemma_items(set.bits(), 30);
    lemma_cat_at();
    assert forall|c: int| #![trigger set_cov(v, set, c)] set_cov(v, set, c) <==> items_cov(v, s, s.len() as int, c) by {
        if set_cov(v, set, c) {
            let k = choose|k: UnicodeCategory| set.has(k) && #[trigger] cat_has(v, k, c);
            assert(s.contains(k));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
            assert(cat_has(v, s[i], c));
        }
        if items_cov(v, s, s.len() as int, c) {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] cat_has(v, s[i], c);
            assert(set.has(s[i]));
        }
    }
}

/// all categories together cover every code point
pub proof fn lemma_all_cov(v: UnicodeVersion, set: UnicodeCategorySet)
    ensures
        set.bits() == 0x3fff_ffff ==> forall|c: int| #![trigger set_cov(v, set, c)] set_cov(v, set, c) <==> 0 <= c <= maxc(),
        forall|c: int| #![trigger set_cov(v, set, c)] set_cov(v, set, c) ==> 0 <= c <= maxc(),
{
    lemma_tables(v);
    lemma_cat_at();
    assert forall|c: int| #![trigger set_cov(v, set, c)] set_cov(v, set, c) implies 0 <= c <= maxc() by {
        let k = choose|k: UnicodeCategory| set.has(k) && #[trigger] cat_has(v, k, c);
        lemma_below_cov(tab(v)[cid(k)]@, maxc());
    }
    if set.bits() == 0x3fff_ffff {
        assert forall|c: int| 0 <= c <= maxc() implies #[trigger] set_cov(v, set, c) by {
            assert(some_cov(tab(v), c));
            let i = choose|i: int| 0 <= i < 30 && #[trigger] cov(tab(v)[i]@, c);
            let k = cat_at(i);
            assert(k as int == i);
            lemma_all_categories(i as u32);
            assert(set.has(k));
            assert(cat_has(v, k, c));
        }
    }
}

pub proof fn lemma_cov_literals()
    ensures
        forall|c: int| !#[trigger] cov(Seq::<Interval>::empty(), c),
        forall|s: Seq<Interval>, c: int| s.len() == 1 ==> (#[trigger] cov(s, c) <==> iv_has(s[0], c)),
        forall|s: Seq<Interval>, c: int| s.len() == 0 ==> !#[trigger] cov(s, c),
{
    assert forall|s: Seq<Interval>, c: int| s.len() == 1 implies (#[trigger] cov(s, c) <==> iv_has(s[0], c)) by {
    }
}

pub proof fn lemma_cov_concat(a: Seq<Interval>, b: Seq<Interval>)
    ensures
        forall|c: int| #[trigger] cov(a + b, c) <==> cov(a, c) || cov(b, c),
        well(a) && well(b) ==> well(a + b),
        forall|m: int| below(a, m) && below(b, m) ==> #[trigger] below(a + b, m),
{
    let s = a + b;
    assert forall|c: int| #[trigger] cov(s, c) <==> cov(a, c) || cov(b, c) by {
        if cov(s, c) {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] iv_has(s[i], c);
            if i < a.len() { assert(iv_has(a[i], c)); } else { assert(iv_has(b[i - a.len()], c)); }
        }
        if cov(a, c) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] iv_has(a[i], c); assert(iv_has(s[i], c)); }
        if cov(b, c) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] iv_has(b[i], c); assert(iv_has(s[i + a.len()], c)); }
    }
}

/// the capacity hint cannot overflow
pub proof fn lemma_sizes(v: UnicodeVersion, b: u32)
    ensures forall|s: Seq<usize>| s.len() == items_of(b, 30).len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == tab(v)[cid(items_of(b, 30)[i])]@.len())
        ==> #[trigger] crate::shim::sum_seq(s) <= usize::MAX,
{
    let it = items_of(b, 30);
    lemma_items(b, 30);
    lemma_len_to(b, 30);
    lemma_cat_at();
    lemma_tables(v);
    assert forall|s: Seq<usize>| s.len() == it.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == tab(v)[cid(it[i])]@.len())
        implies #[trigger] crate::shim::sum_seq(s) <= usize::MAX by {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] <= 0x110000 by {
            let t = tab(v)[cid(it[i])]@;
            lemma_psum_bound(t, t.len() as int);
        }
        lemma_sum_bound(s, 0x110000);
    }
}

pub proof fn lemma_sum_bound(s: Seq<usize>, m: int)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= m, m >= 0,
    ensures 0 <= crate::shim::sum_seq(s) <= s.len() * m,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_sum_bound(s.drop_last(), m);
        assert((s.len() - 1) * m + m == s.len() * m) by (nonlinear_arith);
    }
}

// ---- clamping

/// `out` is `out0` followed by the parts of `t[..n]` that lie in `lo..=hi`
pub open spec fn clamp_inv(out0: Seq<Interval>, out: Seq<Interval>, t: Seq<Interval>, n: int, lo: int, hi: int) -> bool {
    let add = out.skip(out0.len() as int);
    &&& out.len() >= out0.len()
    &&& out == out0 + add
    &&& canonical(add)
    &&& below(add, hi)
    &&& forall|k: int| 0 <= k < add.len() && 0 <= n < t.len() ==> (#[trigger] add[k]).1 + 1 < t[n].0
    &&& forall|c: int| #[trigger] cov(out.skip(out0.len() as int), c) <==> cov_in(t, 0, n, c) && lo <= c <= hi
}

pub open spec fn clamp_done(out0: Seq<Interval>, out: Seq<Interval>, t: Seq<Interval>, lo: int, hi: int) -> bool {
    let add = out.skip(out0.len() as int);
    &&& out.len() >= out0.len()
    &&& out == out0 + add
    &&& canonical(add)
    &&& below(add, hi)
    &&& forall|c: int| #[trigger] cov(out.skip(out0.len() as int), c) <==> cov(t, c) && lo <= c <= hi
}

pub proof fn lemma_clamp_init(out0: Seq<Interval>, t: Seq<Interval>, start: int, lo: int, hi: int)
    requires 0 <= start <= t.len(), forall|k: int| 0 <= k < start ==> (#[trigger] t[k]).1 < lo,
    ensures clamp_inv(out0, out0, t, start, lo, hi),
{
    let add = out0.skip(out0.len() as int);
    assert(add.len() == 0);
    assert(out0 =~= out0 + add);
    assert forall|c: int| #[trigger] cov(add, c) <==> cov_in(t, 0, start, c) && lo <= c <= hi by {
        if cov_in(t, 0, start, c) { let i = choose|i: int| 0 <= i < start && 0 <= i < t.len() && #[trigger] iv_has(t[i], c); assert(t[i].1 < lo); }
    }
}

pub proof fn lemma_clamp_step(out0: Seq<Interval>, out: Seq<Interval>, out2: Seq<Interval>, t: Seq<Interval>, n: int, lo: u32, hi: u32)
    requires
        canonical(t), 0 <= n < t.len(), clamp_inv(out0, out, t, n, lo as int, hi as int),
        ({
            let l = if t[n].0 >= lo { t[n].0 } else { lo };
            let h = if t[n].1 <= hi { t[n].1 } else { hi };
            ||| l <= h && out2 == out.push((l, h))
            ||| l > h && out2 == out
        }),
    ensures clamp_inv(out0, out2, t, n + 1, lo as int, hi as int),
{
    let add = out.skip(out0.len() as int);
    let add2 = out2.skip(out0.len() as int);
    let l = if t[n].0 >= lo { t[n].0 } else { lo };
    let h = if t[n].1 <= hi { t[n].1 } else { hi };
    assert(t[n].0 <= t[n].1);
    if n + 1 < t.len() { assert(t[n].1 + 1 < t[n + 1].0); }
    lemma_cov_in_snoc(t, 0, n);
    if l <= h {
        assert(add2 =~= add.push((l, h)));
        assert(out2 =~= out0 + add2);
        assert forall|c: int| #[trigger] cov(add2, c) <==> cov_in(t, 0, n + 1, c) && lo <= c <= hi by {
            assert(cov(add, c) <==> cov_in(t, 0, n, c) && lo <= c <= hi);
            if cov(add2, c) { let k = choose|k: int| 0 <= k < add2.len() && #[trigger] iv_has(add2[k], c); if k < add.len() { assert(iv_has(add[k], c)); } }
            if cov(add, c) { let k = choose|k: int| 0 <= k < add.len() && #[trigger] iv_has(add[k], c); assert(iv_has(add2[k], c)); }
            if iv_has(t[n], c) && lo <= c <= hi { assert(iv_has(add2[add.len() as int], c)); }
        }
        assert forall|i: int, j: int| 0 <= i < j < add2.len() implies (#[trigger] add2[i]).1 + 1 < (#[trigger] add2[j]).0 by {
            if j < add.len() { assert(add[i].1 + 1 < add[j].0); } else { assert(add[i].1 + 1 < t[n].0); }
        }
        assert forall|k: int| 0 <= k < add2.len() && n + 1 < t.len() implies (#[trigger] add2[k]).1 + 1 < t[n + 1].0 by {
            if k < add.len() { assert(add[k].1 + 1 < t[n].0); }
        }
        assert forall|k: int| 0 <= k < add2.len() implies (#[trigger] add2[k]).1 <= hi && add2[k].0 <= add2[k].1 by {
            if k < add.len() { assert(add[k].1 <= hi && add[k].0 <= add[k].1); }
        }
    } else {
        assert forall|c: int| #[trigger] cov(add2, c) <==> cov_in(t, 0, n + 1, c) && lo <= c <= hi by {
            assert(cov(add, c) <==> cov_in(t, 0, n, c) && lo <= c <= hi);
        }
        assert forall|k: int| 0 <= k < add2.len() && n + 1 < t.len() implies (#[trigger] add2[k]).1 + 1 < t[n + 1].0 by {
            assert(add[k].1 + 1 < t[n].0);
        }
    }
}

pub proof fn lemma_clamp_done(out0: Seq<Interval>, out: Seq<Interval>, t: Seq<Interval>, n: int, lo: int, hi: int)
    requires canonical(t), 0 <= n <= t.len(), clamp_inv(out0, out, t, n, lo, hi), n == t.len() || t[n].0 > hi,
    ensures clamp_done(out0, out, t, lo, hi),
{
    let add = out.skip(out0.len() as int);
    assert forall|c: int| #[trigger] cov(add, c) <==> cov(t, c) && lo <= c <= hi by {
        assert(cov(add, c) <==> cov_in(t, 0, n, c) && lo <= c <= hi);
        if cov(t, c) && lo <= c <= hi {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] iv_has(t[i], c);
            if i > n { assert(t[n].1 + 1 < t[i].0); assert(t[n].0 <= t[n].1); }
            assert(cov_in(t, 0, n, c));
        }
    }
}

pub proof fn lemma_clamp_end(out0: Seq<Interval>, out: Seq<Interval>, t: Seq<Interval>, lo: int, hi: int)
    requires well(out0), clamp_done(out0, out, t, lo, hi),
    ensures
        well(out),
        out0.len() == 0 ==> canonical(out),
        forall|m: int| below(out0, m) && hi <= m ==> #[trigger] below(out, m),
        forall|c: int| #[trigger] cov(out, c) <==> cov(out0, c) || (cov(t, c) && lo <= c <= hi),
{
    let add = out.skip(out0.len() as int);
    lemma_cov_concat(out0, add);
    if out0.len() == 0 { assert(out =~= add); }
    assert forall|m: int| below(out0, m) && hi <= m implies #[trigger] below(out, m) by {
        assert(below(add, m));
        assert(below(out0 + add, m));
    }
}

// ---- bit masks for the first 256 code points

pub open spec fn mbit(m: AsciiMask, cp: int) -> bool { bit64(m@[cp / 64], (cp % 64) as u32) }

pub open spec fn masks_ok(m: [AsciiMask; 30], t: Seq<&'static [Interval]>) -> bool {
    forall|k: int, cp: int| 0 <= k < 30 && 0 <= cp < 256 ==> mbit(#[trigger] m@[k], cp) == #[trigger] cov(t[k]@, cp)
}

pub proof fn lemma_mask_zero()
    ensures
        forall|m: AsciiMask, cp: int| 0 <= cp < 256 && (forall|k: int| 0 <= k < 4 ==> #[trigger] m@[k] == 0) ==> !#[trigger] mbit(m, cp),
        forall|m: AsciiMask, cp: int| 0 <= cp < 256 && (forall|k: int| 0 <= k < 4 ==> #[trigger] m@[k] == u64::MAX) ==> #[trigger] mbit(m, cp),
{
    broadcast use crate::bits::group_bits64;
}

pub proof fn lemma_mask_set(a: AsciiMask, b: AsciiMask, cp: int)
    requires 0 <= cp < 256, b@ =~= a@.update(cp / 64, a@[cp / 64] | (1u64 << ((cp % 64) as u32))),
    ensures forall|c: int| 0 <= c < 256 ==> #[trigger] mbit(b, c) == (mbit(a, c) || c == cp),
{
    broadcast use crate::bits::group_bits64;
}

pub proof fn lemma_mask_clear(a: AsciiMask, b: AsciiMask, cp: int)
    requires 0 <= cp < 256, b@ =~= a@.update(cp / 64, a@[cp / 64] & !(1u64 << ((cp % 64) as u32))),
    ensures forall|c: int| 0 <= c < 256 ==> #[trigger] mbit(b, c) == (mbit(a, c) && c != cp),
{
    broadcast use crate::bits::group_bits64;
}

pub proof fn lemma_mask_or(a: AsciiMask, b: AsciiMask, r: AsciiMask)
    requires forall|k: int| 0 <= k < 4 ==> #[trigger] r@[k] == a@[k] | b@[k],
    ensures forall|c: int| 0 <= c < 256 ==> #[trigger] mbit(r, c) == (mbit(a, c) || mbit(b, c)),
{
    broadcast use crate::bits::group_bits64;
}

pub proof fn lemma_mask_and(a: AsciiMask, b: AsciiMask, r: AsciiMask)
    requires forall|k: int| 0 <= k < 4 ==> #[trigger] r@[k] == a@[k] & b@[k],
    ensures forall|c: int| 0 <= c < 256 ==> #[trigger] mbit(r, c) == (mbit(a, c) && mbit(b, c)),
{
    broadcast use crate::bits::group_bits64;
}

/// intervals after one that starts at 256 or later start there too
pub proof fn lemma_rest_high(s: Seq<Interval>, i: int)
    requires canonical(s), 0 <= i < s.len(),
    ensures s[i].0 >= 256 ==> forall|c: int| 0 <= c < 256 ==> (#[trigger] cov(s, c) <==> cov_in(s, 0, i, c)),
{
    if s[i].0 >= 256 {
        assert forall|c: int| 0 <= c < 256 && #[trigger] cov(s, c) implies cov_in(s, 0, i, c) by {
            let k = choose|k: int| 0 <= k < s.len() && #[trigger] iv_has(s[k], c);
            if k > i { assert(s[i].1 + 1 < s[k].0); }
        }
    }
}

pub open spec fn str_has_upto(s: Seq<char>, n: int, c: int) -> bool {
    exists|i: int| 0 <= i < n && i < s.len() && #[trigger] s[i] as int == c
}

pub proof fn lemma_str_step(s: Seq<char>, n: int)
    requires 0 <= n < s.len(),
    ensures forall|c: int| #![trigger str_has_upto(s, n + 1, c)] #![trigger str_has_upto(s, n, c)] str_has_upto(s, n + 1, c) <==> str_has_upto(s, n, c) || s[n] as int == c,
{
    assert forall|c: int| #![trigger str_has_upto(s, n + 1, c)] #![trigger str_has_upto(s, n, c)] str_has_upto(s, n + 1, c) <==> str_has_upto(s, n, c) || s[n] as int == c by {
        if str_has_upto(s, n + 1, c) { let i = choose|i: int| 0 <= i < n + 1 && i < s.len() && #[trigger] s[i] as int == c; }
    }
}

pub proof fn lemma_str_upto(s: Seq<char>)
    ensures forall|c: int| #![trigger str_has(s, c)] #![trigger str_has_upto(s, s.len() as int, c)] str_has(s, c) <==> str_has_upto(s, s.len() as int, c),
{
}

/// state of the interval extraction: everything below `done` is reported
pub open spec fn ext_inv(bits: AsciiMask, res: Seq<Interval>, cur: Option<Interval>, done: int) -> bool {
    &&& canonical(ext_all(res, cur))
    &&& below(ext_all(res, cur), done - 1)
    &&& cur is None ==> res.len() == 0
    &&& cur is Some ==> (cur->0).1 < done
    &&& forall|c: int| #[trigger] cov(ext_all(res, cur), c) <==> 0 <= c < done && mbit(bits, c)
}

pub open spec fn ext_all(res: Seq<Interval>, cur: Option<Interval>) -> Seq<Interval> {
    if cur is Some { res.push(cur->0) } else { res }
}

/// the lowest run of ones is `start..start + run`
pub proof fn lemma_run(x: u64, start: u32, run: u32)
    requires
        x != 0, start == vstd::std_specs::bits::u64_trailing_zeros(x), run == vstd::std_specs::bits::u64_trailing_ones(x >> start),
    ensures
        start < 64, run >= 1, start + run <= 64,
        forall|j: u32| j < start ==> !#[trigger] bit64(x, j),
        forall|j: u32| start <= j < start + run ==> #[trigger] bit64(x, j),
        start + run < 64 ==> !bit64(x, (start + run) as u32),
{
    broadcast use crate::bits::group_bits64;
    broadcast use vstd::std_specs::bits::axiom_u64_trailing_zeros, vstd::std_specs::bits::axiom_u64_trailing_ones;
    let y = x >> start;
    assert(start < 64);
    assert(bit64(x, start));
    assert(bit64(y, 0) == bit64(x, start));
    assert(y >> 0u32 == y) by (bit_vector);
    assert forall|j: u32| j < start implies !#[trigger] bit64(x, j) by {}
    assert(forall|j: u32| j < run ==> #[trigger] bit64(y, j));
    assert(run < 64 ==> !bit64(y, run));
    if run == 0 { assert(!bit64(y, 0)); }
    if start + run > 64 {
        let j = (64 - start) as u32;
        assert(bit64(y, j));
        assert(bit64(y, j) == (start + j < 64 && bit64(x, (start + j) as u32)));
    }
    assert forall|j: u32| start <= j < start + run implies #[trigger] bit64(x, j) by {
        assert(bit64(y, (j - start) as u32));
    }
}

pub proof fn lemma_ext_step(bits: AsciiMask, res0: Seq<Interval>, cur0: Option<Interval>, res: Seq<Interval>, cur: Option<Interval>,
    base: int, done: int, start: int, run: int, rem: u64, word: int)
    requires
        0 <= word < 4, base == word * 64, 0 <= done <= 64,
        ext_inv(bits, res0, cur0, base + done),
        forall|j: u32| j < 64 ==> #[trigger] bit64(rem, j) == (bit64(bits@[word], j) && j >= done),
        done == 0 || done == 64 || !bit64(bits@[word], done as u32),
        0 <= start < 64, run >= 1, start + run <= 64,
        forall|j: u32| j < start ==> !#[trigger] bit64(rem, j),
        forall|j: u32| start <= j < start + run ==> #[trigger] bit64(rem, j),
        ({
            let (lo, hi) = ((base + start) as u32, (base + start + run - 1) as u32);
            ||| cur0 is Some && (cur0->0).1 + 1 == lo && res == res0 && cur == Some(((cur0->0).0, hi))
            ||| cur0 is Some && (cur0->0).1 + 1 != lo && res == res0.push(cur0->0) && cur == Some((lo, hi))
            ||| cur0 is None && res == res0 && cur == Some((lo, hi))
        }),
    ensures ext_inv(bits, res, cur, base + start + run), start >= done,
{
    let all0 = ext_all(res0, cur0);
    let all = ext_all(res, cur);
    let (lo, hi) = ((base + start) as u32, (base + start + run - 1) as u32);
    assert(start >= done) by { assert(bit64(rem, start as u32)); }
    let n0 = all0.len() as int;
    if cur0 is Some {
        assert(all0[n0 - 1] == cur0->0);
        assert((cur0->0).1 <= base + done - 1);
    }
    assert forall|c: int| base + done <= c < base + start + run implies #[trigger] mbit(bits, c) == (lo <= c <= hi) by {
        let j = (c - base) as u32;
        assert(c / 64 == word && c % 64 == j);
        assert(bit64(rem, j) == bit64(bits@[word], j));
        if start <= j { assert(bit64(rem, j)); }
    }
    if cur0 is Some && (cur0->0).1 + 1 == lo {
        assert(forall|k: int| 0 <= k < n0 - 1 ==> #[trigger] all[k] == all0[k]);
        assert forall|c: int| #![trigger cov(all, c)] cov(all, c) <==> cov(all0, c) || lo <= c <= hi by {
            if cov(all, c) { let k = choose|k: int| 0 <= k < all.len() && #[trigger] iv_has(all[k], c); if k < n0 - 1 { assert(iv_has(all0[k], c)); } else if c < lo { assert(iv_has(all0[n0 - 1], c)); } }
            if cov(all0, c) { let k = choose|k: int| 0 <= k < all0.len() && #[trigger] iv_has(all0[k], c); if k < n0 - 1 { assert(iv_has(all[k], c)); } else { assert(iv_has(all[n0 - 1], c)); } }
            if lo <= c <= hi { assert(iv_has(all[n0 - 1], c)); }
        }
        assert forall|i: int, j: int| 0 <= i < j < all.len() implies (#[trigger] all[i]).1 + 1 < (#[trigger] all[j]).0 by {
            assert(all0[i].1 + 1 < all0[j].0);
        }
    } else {
        assert(all =~= all0.push((lo, hi)));
        assert forall|c: int| #![trigger cov(all, c)] cov(all, c) <==> cov(all0, c) || lo <= c <= hi by {
            if cov(all, c) { let k = choose|k: int| 0 <= k < all.len() && #[trigger] iv_has(all[k], c); if k < n0 { assert(iv_has(all0[k], c)); } }
            if cov(all0, c) { let k = choose|k: int| 0 <= k < all0.len() && #[trigger] iv_has(all0[k], c); assert(iv_has(all[k], c)); }
            if lo <= c <= hi { assert(iv_has(all[n0], c)); }
        }
        assert forall|i: int, j: int| 0 <= i < j < all.len() implies (#[trigger] all[i]).1 + 1 < (#[trigger] all[j]).0 by {
            if j < n0 { assert(all0[i].1 + 1 < all0[j].0); }
            else { if i < n0 - 1 { assert(all0[i].1 + 1 < all0[n0 - 1].0); assert(all0[n0 - 1].0 <= all0[n0 - 1].1); } }
        }
    }
    assert forall|c: int| #![trigger cov(all, c)] cov(all, c) <==> 0 <= c < base + start + run && mbit(bits, c) by {
        assert(cov(all0, c) <==> 0 <= c < base + done && mbit(bits, c));
    }
}

/// a word with no ones left is done
pub proof fn lemma_ext_skip(bits: AsciiMask, res: Seq<Interval>, cur: Option<Interval>, base: int, done: int, rem: u64, word: int)
    requires
        0 <= word < 4, base == word * 64, 0 <= done <= 64, rem == 0,
        ext_inv(bits, res, cur, base + done),
        forall|j: u32| j < 64 ==> #[trigger] bit64(rem, j) == (bit64(bits@[word], j) && j >= done),
    ensures ext_inv(bits, res, cur, base + 64),
{
    broadcast use crate::bits::group_bits64;
    let all = ext_all(res, cur);
    assert forall|c: int| base + done <= c < base + 64 implies !#[trigger] mbit(bits, c) by {
        let j = (c - base) as u32;
        assert(c / 64 == word && c % 64 == j);
        assert(!bit64(rem, j));
    }
    assert forall|c: int| #![trigger cov(all, c)] cov(all, c) <==> 0 <= c < base + 64 && mbit(bits, c) by {
        assert(cov(all, c) <==> 0 <= c < base + done && mbit(bits, c));
    }
}

pub proof fn lemma_ext_end(bits: AsciiMask, res: Seq<Interval>, cur: Option<Interval>)
    requires ext_inv(bits, res, cur, 256),
    ensures ({
        let all = ext_all(res, cur);
        canonical(all) && below(all, 255) && forall|c: int| #[trigger] cov(ext_all(res, cur), c) <==> 0 <= c < 256 && mbit(bits, c)
    }),
{
}
@*/
