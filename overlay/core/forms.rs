//# intervals|fn merge
fn merge() {
    intervals.sort_by_key(|a| /*@ -> (r: u32) ensures r == a.0 @*/ a.0);
    /*@ let ghost sorted = intervals@;
        proof { lemma_cov_perm(old(intervals)@, sorted); } @*/
    let mut border = 0_usize;
    /*@ proof {
        if sorted.len() > 0 { lemma_cov_in_frame(sorted, intervals@, 0, 1); }
    } @*/
    let mut index = 1;
    while index < intervals.len()
    /*@
        invariant
            well(sorted), below(sorted, u32::MAX - 1), intervals@.len() == sorted.len(),
            forall|a: int, b: int| 0 <= a < b < sorted.len() ==> (#[trigger] sorted[a]).0 <= (#[trigger] sorted[b]).0,
            index >= 1, sorted.len() > 0 ==> index <= sorted.len(), sorted.len() == 0 ==> index == 1,
            border < index,
            forall|k: int| index <= k < sorted.len() ==> #[trigger] intervals@[k] == sorted[k],
            sorted.len() > 0 ==> canonical(intervals@.take(border + 1)),
            sorted.len() > 0 ==> intervals@[border as int].0 <= sorted[index - 1].0,
            sorted.len() > 0 ==> below(intervals@.take(border + 1), u32::MAX - 1),
            sorted.len() > 0 ==> forall|c: int| #![trigger cov_in(sorted, 0, index as int, c)]
                cov_in(sorted, 0, index as int, c) <==> cov_in(intervals@, 0, border + 1, c),
        decreases intervals@.len() - index,
    @*/
    {
        /*@ let ghost (pre_, b_) = (intervals@, border as int);
            proof { assert(intervals@.take(border + 1)[border as int] == intervals@[border as int]); } @*/
        let interval = intervals[index];
        let right = intervals[border].1;
        if interval.0 <= right + 1 {
            if interval.1 > right {
                intervals[border].1 = interval.1;
            }
        } else {
            border += 1;
            intervals[border] = interval;
        }
        /*@ proof {
            lemma_cov_in_snoc(sorted, 0, index as int);
            lemma_merge_step(pre_, intervals@, b_, border as int, interval);
        } @*/
        index += 1;
    }
    /*@ let ghost full_ = intervals@; @*/
    intervals.truncate(border + 1);
    /*@ proof {
        lemma_cov_all(sorted);
        lemma_cov_all(intervals@);
        if sorted.len() > 0 {
            assert(intervals@ =~= full_.take(border + 1));
            lemma_cov_in_frame(full_, intervals@, 0, border + 1);
        }
        lemma_below_from_cov(sorted, intervals@);
    } @*/
}

//# intervals|fn merge
fn merge() {
    intervals.sort_by_key(|a| /*@ -> (r: u32) ensures r == a.0 @*/ a.0);
    /*@ let ghost sorted = intervals@;
        proof { lemma_cov_perm(old(intervals)@, sorted); } @*/
    let mut border = 0_usize;
    /*@ proof {
        if sorted.len() > 0 { lemma_cov_in_frame(sorted, intervals@, 0, 1); }
    } @*/
    for index in /*@ it: @*/ 1..intervals.len()
    /*@
        invariant
            well(sorted), below(sorted, u32::MAX - 1), intervals@.len() == sorted.len(),
            forall|a: int, b: int| 0 <= a < b < sorted.len() ==> (#[trigger] sorted[a]).0 <= (#[trigger] sorted[b]).0,
            it.seq().len() == if sorted.len() > 0 { sorted.len() - 1 } else { 0 }, it.index() <= it.seq().len(),
            border < it.index() + 1,
            forall|k: int| it.index() + 1 <= k < sorted.len() ==> #[trigger] intervals@[k] == sorted[k],
            sorted.len() > 0 ==> canonical(intervals@.take(border + 1)),
            sorted.len() > 0 ==> intervals@[border as int].0 <= sorted[it.index() as int].0,
            sorted.len() > 0 ==> below(intervals@.take(border + 1), u32::MAX - 1),
            forall|c: int| #![trigger cov_in(sorted, 0, it.index() + 1, c)]
                cov_in(sorted, 0, it.index() + 1, c) <==> cov_in(intervals@, 0, border + 1, c),
    @*/
    {
        /*@ let ghost (pre_, b_) = (intervals@, border as int);
            proof { assert(intervals@.take(border + 1)[border as int] == intervals@[border as int]); } @*/
        let (start, end) = intervals[index];
        let right = intervals[border].1;
        if start <= right + 1 {
            if end > right {
                intervals[border].1 = end;
            }
        } else {
            border += 1;
            intervals[border] = (start, end);
        }
        /*@ proof {
            lemma_cov_in_snoc(sorted, 0, index as int);
            lemma_merge_step(pre_, intervals@, b_, border as int, sorted[index as int]);
        } @*/
    }
    /*@ let ghost full_ = intervals@; @*/
    intervals.truncate(border + 1);
    /*@ proof {
        lemma_cov_all(sorted);
        lemma_cov_all(intervals@);
        if sorted.len() > 0 {
            assert(intervals@ =~= full_.take(border + 1));
            lemma_cov_in_frame(full_, intervals@, 0, border + 1);
        }
        lemma_below_from_cov(sorted, intervals@);
    } @*/
}

//# intervals|fn from_str
fn from_str() {
    if string.is_empty() {
        return vec![];
    }
    let mut intervals = Vec::new();
    for c in /*@ it: @*/ string.chars()
    /*@
        invariant
            it.seq() == string@, it.index() <= it.seq().len(),
            intervals@.len() == it.index(),
            forall|k: int| 0 <= k < intervals@.len() ==> #[trigger] intervals@[k] == (string@[k] as u32, string@[k] as u32),
    @*/
    {
        intervals.push((c as u32, c as u32));
    }
    /*@ proof { lemma_points(string@, intervals@); } @*/
    merge(&mut intervals);
    intervals
}

//# query|fn extend_clamped
fn extend_clamped() {
    let start = match table.first() {
        Some(&(_, right)) if right < min_codepoint && table.len() >= BINARY_SEARCH_THRESHOLD => {
            table.partition_point(|&(_, right)| /*@ -> (r: bool) ensures r == (__p.1 < min_codepoint) @*/ right < min_codepoint)
        }
        _ => 0,
    };
    /*@ let ghost out0 = out@;
        proof { lemma_clamp_init(out0, table@, start as int, min_codepoint as int, max_codepoint as int); } @*/
    let mut i = start;
    while i < table.len()
    /*@
        invariant_except_break
            clamp_inv(out0, out@, table@, i as int, min_codepoint as int, max_codepoint as int),
        invariant
            canonical(table@), well(out0), start <= i <= table@.len(),
        ensures
            clamp_done(out0, out@, table@, min_codepoint as int, max_codepoint as int),
        decreases table@.len() - i,
    @*/
    {
        /*@ let ghost out1 = out@; let ghost i0_ = i as int; @*/
        let (left, right) = table[i];
        i += 1;
        if left > max_codepoint {
            /*@ proof { lemma_clamp_done(out0, out@, table@, i0_, min_codepoint as int, max_codepoint as int); } @*/
            break;
        }
        let lo = max(left, min_codepoint);
        let hi = min(right, max_codepoint);
        if lo <= hi {
            out.push((lo, hi));
        }
        /*@ proof {
            lemma_clamp_step(out0, out1, out@, table@, i0_, min_codepoint, max_codepoint);
            if i == table@.len() { lemma_clamp_end(out0, out@, table@, min_codepoint as int, max_codepoint as int); }
        } @*/
    }
    /*@ proof { lemma_clamp_end(out0, out@, table@, min_codepoint as int, max_codepoint as int); } @*/
}

//# query|fn is_ascii_range
fn is_ascii_range() {
    for c in /*@ it: @*/ s.chars()
    /*@
        invariant
            it.seq() == s@, it.index() <= it.seq().len(),
            forall|i: int| 0 <= i < it.index() ==> (#[trigger] s@[i] as u32) < 256,
    @*/
    {
        if c as u32 >= ASCII_BOUND {
            return false;
        }
    }
    true
}

//# lib|impl UnicodeVersion :: fn normalized_categories
fn normalized_categories() {
        /*@ proof { lemma_tables(self); lemma_cat_at(); } @*/
        let mut keyed: [(UnicodeCategory, usize); 30] = [(UnicodeCategory::Cc, 0); 30];
        let table = self.table();
        let mut idx = 0;
        while idx < table.len()
        /*@
            invariant
                table_wf(table@), table@ == tab(self), idx <= 30,
                forall|k: int| 0 <= k < idx ==> #[trigger] keyed@[k] == (cat_at(k), key_of(self, cat_at(k)) as usize),
            decreases 30 - idx,
        @*/
        {
            /*@ proof { lemma_cat_at(); lemma_key(self, cat_at(idx as int)); } @*/
            if let Some(category) = UnicodeCategory::from_index(idx as u8) {
                keyed[idx] = (
                    category,
                    table[idx].len() * 30 + category.abbrev_rank() as usize,
                );
            }
            idx += 1;
        }
        /*@ proof { lemma_keyed_init(self, keyed@); } @*/
        let mut i = 1;
        while i < keyed.len()
        /*@
            invariant
                keyed_ok(self, keyed@), 1 <= i <= 30,
                forall|k: int| 1 <= k < i ==> (#[trigger] keyed@[k - 1]).1 <= keyed@[k].1,
            decreases 30 - i,
        @*/
        {
            let mut j = i;
            while j > 0 && keyed[j - 1].1 > keyed[j].1
            /*@
                invariant
                    keyed_ok(self, keyed@), 0 <= j <= i < 30,
                    forall|k: int| 1 <= k <= i && k != j ==> (#[trigger] keyed@[k - 1]).1 <= keyed@[k].1,
                    0 < j < i ==> keyed@[j - 1].1 <= keyed@[j + 1].1,
                ensures
                    forall|k: int| 1 <= k <= i ==> (#[trigger] keyed@[k - 1]).1 <= keyed@[k].1,
                decreases j,
            @*/
            {
                /*@ let ghost k0 = keyed@; @*/
                let tmp = keyed[j - 1];
                keyed[j - 1] = keyed[j];
                keyed[j] = tmp;
                /*@ proof { lemma_swap(self, k0, keyed@, j as int); } @*/
                j -= 1;
            }
            i += 1;
        }
        let mut output = [UnicodeCategory::Cc; 30];
        output[29] = UnicodeCategory::Cs;
        let mut idx = 0;
        let mut ptr = 0;
        /*@ let ghost (pc, ps) = (pos_of(keyed@, UnicodeCategory::Cc), pos_of(keyed@, UnicodeCategory::Cs));
            proof {
                assert(has_cat(keyed@, UnicodeCategory::Cc) && has_cat(keyed@, UnicodeCategory::Cs));
                lemma_sorted(keyed@);
                lemma_cat_at();
            } @*/
        while idx < keyed.len()
        /*@
            invariant
                keyed_ok(self, keyed@), idx <= 30,
                0 <= pc < 30, 0 <= ps < 30, pc != ps, keyed@[pc].0 is Cc, keyed@[ps].0 is Cs,
                ptr == idx - (if pc < idx { 1int } else { 0int }) - (if ps < idx { 1int } else { 0int }),
                output@.len() == 30, output@[28] is Cc, output@[29] is Cs,
                forall|a: int| 0 <= a < ptr ==> out_from(keyed@, idx as int, #[trigger] output@[a]),
                forall|a: int, b: int| 0 <= a < b < ptr ==> out_order(keyed@, #[trigger] output@[a], #[trigger] output@[b]),
                forall|k: int| 0 <= k < idx && !(keyed@[k].0 is Cc) && !(keyed@[k].0 is Cs) ==> in_out(output@, ptr as int, (#[trigger] keyed@[k]).0),
            decreases 30 - idx,
        @*/
        {
            /*@ let ghost (out0, ptr0) = (output@, ptr as int);
                proof { lemma_cat_at(); assert(forall|k: int| 0 <= k < 30 && k != idx ==> (#[trigger] keyed@[k]).0 != keyed@[idx as int].0); } @*/
            let (category, _) = keyed[idx];
            if category as u8 != UnicodeCategory::Cc as u8
                && category as u8 != UnicodeCategory::Cs as u8
            {
                output[ptr] = category;
                ptr += 1;
                /*@< proof { lemma_out_step(keyed@, idx as int, out0, output@, ptr0); } @*/
            }
            idx += 1;
        }
        /*@ proof { lemma_out_done(self, keyed@, output@, pc, ps); } @*/
        output
    }


//# lib|impl UnicodeVersion :: fn normalized_categories
fn normalized_categories() {
        /*@ proof { lemma_tables(self); lemma_cat_at(); } @*/
        let mut keyed: [(UnicodeCategory, usize); 30] = [(UnicodeCategory::Cc, 0); 30];
        let table = self.table();
        let mut idx = 0;
        while idx < table.len()
        /*@
            invariant
                table_wf(table@), table@ == tab(self), idx <= 30,
                forall|k: int| 0 <= k < idx ==> #[trigger] keyed@[k] == (cat_at(k), key_of(self, cat_at(k)) as usize),
            decreases 30 - idx,
        @*/
        {
            /*@ proof { lemma_cat_at(); lemma_key(self, cat_at(idx as int)); } @*/
            if let Some(category) = UnicodeCategory::from_index(idx as u8) {
                keyed[idx] = (
                    category,
                    table[idx].len() * 30 + category.abbrev_rank() as usize,
                );
            }
            idx += 1;
        }
        /*@ proof { lemma_keyed_init(self, keyed@); } @*/
        let mut i = 0;
        while i < keyed.len()
        /*@
            invariant
                keyed_ok(self, keyed@), 0 <= i <= 30,
                forall|k: int, l: int| 0 <= k < i && k < l < 30 ==> (#[trigger] keyed@[k]).1 <= (#[trigger] keyed@[l]).1,
            decreases 30 - i,
        @*/
        {
            let mut min = i;
            let mut j = i + 1;
            while j < keyed.len()
            /*@
                invariant
                    keyed_ok(self, keyed@), 0 <= i <= min < 30, i < j <= 30,
                    forall|l: int| i <= l < j ==> keyed@[min as int].1 <= (#[trigger] keyed@[l]).1,
                decreases 30 - j,
            @*/
            {
                if keyed[j].1 < keyed[min].1 {
                    min = j;
                }
                j += 1;
            }
            /*@ let ghost k0 = keyed@; @*/
            let tmp = keyed[i];
            keyed[i] = keyed[min];
            keyed[min] = tmp;
            /*@ proof { lemma_swap_any(self, k0, keyed@, i as int, min as int); } @*/
            i += 1;
        }
        let mut output = [UnicodeCategory::Cc; 30];
        output[29] = UnicodeCategory::Cs;
        let mut idx = 0;
        let mut ptr = 0;
        /*@ let ghost (pc, ps) = (pos_of(keyed@, UnicodeCategory::Cc), pos_of(keyed@, UnicodeCategory::Cs));
            proof {
                assert(has_cat(keyed@, UnicodeCategory::Cc) && has_cat(keyed@, UnicodeCategory::Cs));
                lemma_sorted(keyed@);
                lemma_cat_at();
            } @*/
        while idx < keyed.len()
        /*@
            invariant
                keyed_ok(self, keyed@), idx <= 30,
                0 <= pc < 30, 0 <= ps < 30, pc != ps, keyed@[pc].0 is Cc, keyed@[ps].0 is Cs,
                ptr == idx - (if pc < idx { 1int } else { 0int }) - (if ps < idx { 1int } else { 0int }),
                output@.len() == 30, output@[28] is Cc, output@[29] is Cs,
                forall|a: int| 0 <= a < ptr ==> out_from(keyed@, idx as int, #[trigger] output@[a]),
                forall|a: int, b: int| 0 <= a < b < ptr ==> out_order(keyed@, #[trigger] output@[a], #[trigger] output@[b]),
                forall|k: int| 0 <= k < idx && !(keyed@[k].0 is Cc) && !(keyed@[k].0 is Cs) ==> in_out(output@, ptr as int, (#[trigger] keyed@[k]).0),
            decreases 30 - idx,
        @*/
        {
            /*@ let ghost (out0, ptr0) = (output@, ptr as int);
                proof { lemma_cat_at(); assert(forall|k: int| 0 <= k < 30 && k != idx ==> (#[trigger] keyed@[k]).0 != keyed@[idx as int].0); } @*/
            let (category, _) = keyed[idx];
            if category as u8 != UnicodeCategory::Cc as u8
                && category as u8 != UnicodeCategory::Cs as u8
            {
                output[ptr] = category;
                ptr += 1;
                /*@< proof { lemma_out_step(keyed@, idx as int, out0, output@, ptr0); } @*/
            }
            idx += 1;
        }
        /*@ proof { lemma_out_done(self, keyed@, output@, pc, ps); } @*/
        output
    }


//# lib|impl FromStr for UnicodeVersion :: fn from_str
fn from_str() {
    /*@ proof { lemma_all_versions(); } @*/
    for version in /*@ it: @*/ UnicodeVersion::ALL
    /*@
        invariant
            it.seq() == all_versions(), it.index() <= it.seq().len(),
            forall|k: int| 0 <= k < it.index() ==> s@ != version_name(#[trigger] all_versions()[k]),
    @*/
    {
        if version.as_str() == s {
            return Ok(version);
        }
    }
    /*@ proof {
        assert forall|v: UnicodeVersion| s@ != #[trigger] version_name(v) by { assert(all_versions()[v as int] == v); }
    } @*/
    Err(Error::InvalidVersion(s.into()))
}


//# lib|impl FromStr for UnicodeVersion :: fn from_str
fn from_str() {
    /*@ proof { lemma_all_versions(); } @*/
    for version in /*@ it: @*/ UnicodeVersion::ALL.iter()
    /*@
        invariant
            it.seq().len() == 11, forall|k: int| 0 <= k < 11 ==> *(#[trigger] it.seq()[k]) == all_versions()[k], it.index() <= it.seq().len(),
            forall|k: int| 0 <= k < it.index() ==> s@ != version_name(#[trigger] all_versions()[k]),
    @*/
    {
        /*@ proof { assert(*version == all_versions()[it.index() as int]); } @*/
        if version.as_str() == s {
            return Ok(*version);
        }
    }
    /*@ proof {
        assert forall|v: UnicodeVersion| s@ != #[trigger] version_name(v) by { assert(all_versions()[v as int] == v); }
    } @*/
    Err(Error::InvalidVersion(s.into()))
}


//# lib|impl FromStr for UnicodeVersion :: fn from_str
fn from_str() {
    /*@ proof { lemma_all_versions(); } @*/
    for &version in /*@ it: @*/ &UnicodeVersion::ALL
    /*@
        invariant
            it.seq().len() == 11, forall|k: int| 0 <= k < 11 ==> *(#[trigger] it.seq()[k]) == all_versions()[k], it.index() <= it.seq().len(),
            forall|k: int| 0 <= k < it.index() ==> s@ != version_name(#[trigger] all_versions()[k]),
    @*/
    {
        /*@ proof { assert(version == all_versions()[it.index() as int]); } @*/
        if version.as_str() == s {
            return Ok(version);
        }
    }
    /*@ proof {
        assert forall|v: UnicodeVersion| s@ != #[trigger] version_name(v) by { assert(all_versions()[v as int] == v); }
    } @*/
    Err(Error::InvalidVersion(s.to_string().into_boxed_str()))
}


//# intervalset|impl IntervalSet :: fn codepoint_at
fn codepoint_at() {
    /*@ proof { use_type_invariant(self); lemma_flat(self.intervals@); lemma_psum_bound(self.intervals@, self.intervals@.len() as int); lemma_psum_mono(self.intervals@); } @*/
    if index < self.size {
        /*@ proof { assert(self.offsets@[0] == 0 && self.offsets@[self.offsets@.len() - 1] == self.size); } @*/
        let current = self.offsets.partition_point(|&offset| /*@ -> (r: bool) ensures r == (*__p <= index) @*/ offset <= index) - 1;
        /*@ proof { assert(self.offsets@[current as int] <= index); assert(self.offsets@[current + 1] > index); lemma_at(self.intervals@, current as int, index as int); } @*/
        let (left, _) = self.intervals[current];
        let offset = self.offsets[current];
        Some(left + (index - offset))
    } else {
        None
    }
}


//# categories|impl Iterator for Iter :: fn next
fn next() {
    /*@ broadcast use vstd::std_specs::bits::group_bits_axioms;
        proof { use_type_invariant(self.data); lemma_next(self.data.0); lemma_none(self.data.0); assert(forall|c: UnicodeCategory| #[trigger] cbit(self.data.0, c) == self.data.has(c)); } @*/
    if self.data.is_empty() {
        return None;
    }
    let index = self.data.0.trailing_zeros() as u8;
    let category = UnicodeCategory::from_index(index);
    self.data.unset(index);
    category
}


//# categories|fn as_general_categories
fn as_general_categories() {
    let mut wanted = UnicodeCategorySet::new();
    for category in /*@ it: @*/ categories
    /*@
        invariant
            it.iter.obeys_prophetic_iter_laws(),
            it.index() <= it.seq().len(),
            call_ensures(<I as IntoIterator>::into_iter, (categories,), __iter0), it.seq() == __iter0.remaining(),
            forall|i: int| 0 <= i < it.index() ==> entry_valid(entry_text(#[trigger] it.seq()[i])),
            forall|c: UnicodeCategory| #[trigger] wanted.has(c) <==> named_upto(it.seq(), it.index() as int, c),
    @*/
    {
        /*@ proof { crate::shim::lemma_str_eq(); lemma_named_step(it.seq(), it.index() as int); lemma_entry(entry_text(category)); } @*/
        let set = match category.as_ref() {
            "L" => UnicodeCategory::L,
            "M" => UnicodeCategory::M,
            "N" => UnicodeCategory::N,
            "P" => UnicodeCategory::P,
            "S" => UnicodeCategory::S,
            "Z" => UnicodeCategory::Z,
            "C" => UnicodeCategory::C,
            other => other.parse::<UnicodeCategory>()?.into(),
        };
        wanted |= set;
    }
    let mut output = Vec::new();
    /*@ let ghost n_ = __iter0.remaining().len() as int;
        let ghost w_ = |c: UnicodeCategory| named_upto(__iter0.remaining(), n_, c); @*/
    for category in /*@ it2: @*/ version.normalized_categories()
    /*@
        invariant
            it2.index() <= it2.seq().len(),
            forall|c: UnicodeCategory| #[trigger] wanted.has(c) <==> w_(c),
            crate::normalized(version, it2.seq()),
            output@ == it2.seq().take(it2.index() as int).filter(w_),
            it2.index() == it2.seq().len() ==> exists|order: Seq<UnicodeCategory>| #[trigger] crate::normalized(version, order) && output@ == order.filter(w_),
    @*/
    {
        /*@ let ghost o0_ = output@; @*/
        if wanted.contains(category) {
            output.push(category);
        }
        /*@ proof {
            let i = it2.index() as int;
            assert(it2.seq().take(i + 1) =~= it2.seq().take(i).push(it2.seq()[i]));
            reveal_with_fuel(Seq::filter, 2);
            it2.seq().take(i).lemma_filter_push(it2.seq()[i], w_);
            assert(it2.seq().take(it2.seq().len() as int) =~= it2.seq());
        } @*/
    }
    /*@ proof { assert(exists|order: Seq<UnicodeCategory>| #[trigger] crate::normalized(version, order) && output@ == order.filter(w_)); } @*/
    Ok(output)
}


//# categories|impl fmt :: Display for UnicodeCategorySet :: fn fmt
fn fmt() {
    let mut first = true;
    /*@ proof { lemma_len_to(self.bits(), 30); } @*/
    for category in /*@ it: @*/ self.iter()
    /*@
        invariant
            it.seq() == items_of(self.bits(), 30), it.index() <= it.seq().len(),
            first == (it.index() == 0),
            fmt_out(f) == fmt_out(old(f)) + joined_before(it.seq(), it.index() as int),
            crate::shim::fmt_good(old(f)) ==> crate::shim::fmt_good(f),
    @*/
    {
        /*@ let ghost (i_, f0_) = (it.index() as int, fmt_out(f)); @*/
        if !first {
            f.write_str(", ")?;
        }
        first = false;
        f.write_str(category.as_str())?;
        /*@ proof {
            assert(fmt_out(f) =~= fmt_out(old(f)) + joined_before(it.seq(), i_ + 1));
        } @*/
    }
    /*@ proof { lemma_joined_before(items_of(self.bits(), 30), items_of(self.bits(), 30).len() as int); } @*/
    Ok(())
}


//# query|fn collect_in_range
fn collect_in_range() {
    /*@ proof {
        lemma_tables(version);
        categories.lemma_wf();
        lemma_none(categories.bits());
        lemma_len(categories.bits());
        lemma_items(categories.bits(), 30);
        lemma_next(categories.bits());
        lemma_all_cov(version, categories);
        lemma_cov_literals();
        lemma_set_items(version, categories);
        lemma_cat_at();
    } @*/
    match categories.into_value() {
        0 => Vec::new(),
        ALL_CATEGORIES => vec![(min_codepoint, max_codepoint)],
        _ => {
            let table = version.table();
            let mut intervals = Vec::new();
            for category in /*@ it: @*/ categories.iter()
            /*@
                invariant
                    table_wf(tab(version)), table@ == tab(version), max_codepoint <= maxc(),
                    it.seq() == items_of(categories.bits(), 30), it.index() <= it.seq().len(),
                    it.index() == 0 ==> intervals@.len() == 0, it.index() == 1 ==> canonical(intervals@), well(intervals@), below(intervals@, maxc()),
                    forall|c: int| #![trigger cov(intervals@, c)] cov(intervals@, c) <==>
                        items_cov(version, it.seq(), it.index() as int, c) && min_codepoint <= c <= max_codepoint,
            @*/
            {
                /*@ let ghost iv0 = intervals@; proof { lemma_cat_at(); } @*/
                extend_clamped(
                    &mut intervals,
                    table[category as usize],
                    min_codepoint,
                    max_codepoint,
                );
                /*@ proof {
                    lemma_items_cov_step(version, it.seq(), it.index() as int);
                    let cat_ = it.seq()[it.index() as int];
                    assert forall|c: int| #![trigger cov(intervals@, c)] cov(intervals@, c) <==>
                        items_cov(version, it.seq(), it.index() + 1, c) && min_codepoint <= c <= max_codepoint by {
                        assert(cov(iv0, c) <==> items_cov(version, it.seq(), it.index() as int, c) && min_codepoint <= c <= max_codepoint);
                        assert(cat_has(version, cat_, c) <==> cov(tab(version)[cid(cat_)]@, c));
                    }
                } @*/
            }
            /*@ proof {
                assert forall|c: int| cov(intervals@, c) <==> set_cov(version, categories, c) && min_codepoint <= c <= max_codepoint by {
                    if items_of(categories.bits(), 30).len() == 1 {
                        let k = items_of(categories.bits(), 30)[0];
                        assert(cat_has(version, k, c) <==> cov(tab(version)[cid(k)]@, c));
                    }
                }
            } @*/
            intervals
        }
    }
}


//# query|fn ascii_query
fn ascii_query() {
    let categories = categories::merge(include_categories, exclude_categories);
    let masks = &ASCII_MASKS[version as usize];
    /*@ proof {
        lemma_tables(version);
        categories.lemma_wf();
        lemma_none(categories.bits());
        lemma_items(categories.bits(), 30);
        lemma_all_cov(version, categories);
        lemma_set_items(version, categories);
        lemma_cat_at();
        lemma_mask_zero();
        assert((version as int) < 11);
    } @*/
    let mut bits = match categories.into_value() {
        0 => [0u64; 4],
        ALL_CATEGORIES => [u64::MAX; 4],
        _ => {
            let mut bits = [0u64; 4];
            for category in /*@ it: @*/ categories.iter()
            /*@
                invariant
                    table_wf(tab(version)), masks_ok(*masks, tab(version)),
                    it.seq() == items_of(categories.bits(), 30), it.index() <= it.seq().len(),
                    forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits, cp) == items_cov(version, it.seq(), it.index() as int, cp),
            @*/
            {
                /*@ let ghost bits0 = bits;
                    proof { lemma_cat_at(); lemma_items_cov_step(version, it.seq(), it.index() as int); } @*/
                let mask = masks[category as usize];
                let mut word = 0;
                while word < 4
                /*@
                    invariant
                        word <= 4,
                        forall|k: int| 0 <= k < word ==> #[trigger] bits@[k] == bits0@[k] | mask@[k],
                        forall|k: int| word <= k < 4 ==> #[trigger] bits@[k] == bits0@[k],
                    decreases 4 - word,
                @*/
                {
                    bits[word] |= mask[word];
                    word += 1;
                }
                /*@ proof {
                    lemma_mask_or(bits0, mask, bits);
                    assert forall|cp: int| 0 <= cp < 256 implies #[trigger] mbit(bits, cp) == items_cov(version, it.seq(), it.index() + 1, cp) by {
                        assert(mbit(masks@[category as int], cp) == cov(tab(version)[cid(category)]@, cp));
                    }
                } @*/
            }
            bits
        }
    };
    /*@ let ghost bits1 = bits;
        proof { assert(forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits1, cp) == set_cov(version, categories, cp)); } @*/
    let range = range_mask(min_codepoint, max_codepoint);
    bits[0] &= range[0];
    bits[1] &= range[1];
    bits[2] &= range[2];
    bits[3] &= range[3];
    /*@ let ghost bits2 = bits;
        proof { lemma_mask_and(bits1, range, bits); } @*/
    for character in /*@ it: @*/ include_characters.chars()
    /*@
        invariant
            it.seq() == include_characters@, it.index() <= it.seq().len(),
            forall|i: int| 0 <= i < include_characters@.len() ==> (#[trigger] include_characters@[i] as u32) < 256,
            forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits, cp) == (mbit(bits2, cp) || str_has_upto(include_characters@, it.index() as int, cp)),
    @*/
    {
        /*@ let ghost bits0 = bits; proof { lemma_str_step(include_characters@, it.index() as int); } @*/
        let cp = character as u32;
        bits[(cp / 64) as usize] |= 1u64 << (cp % 64);
        /*@ proof { lemma_mask_set(bits0, bits, cp as int); } @*/
    }
    /*@ let ghost bits3 = bits; @*/
    for character in /*@ it: @*/ exclude_characters.chars()
    /*@
        invariant
            it.seq() == exclude_characters@, it.index() <= it.seq().len(),
            forall|i: int| 0 <= i < exclude_characters@.len() ==> (#[trigger] exclude_characters@[i] as u32) < 256,
            forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits, cp) == (mbit(bits3, cp) && !str_has_upto(exclude_characters@, it.index() as int, cp)),
    @*/
    {
        /*@ let ghost bits0 = bits; proof { lemma_str_step(exclude_characters@, it.index() as int); } @*/
        let cp = character as u32;
        bits[(cp / 64) as usize] &= !(1u64 << (cp % 64));
        /*@ proof { lemma_mask_clear(bits0, bits, cp as int); } @*/
    }
    /*@ proof {
        lemma_str_upto(include_characters@);
        lemma_str_upto(exclude_characters@);
        assert forall|c: int| #[trigger] result_has(version, include_categories, exclude_categories, include_characters@, exclude_characters@,
            min_codepoint as int, max_codepoint as int, c) == (0 <= c < 256 && mbit(bits, c)) by {
            lemma_set_effective(version, categories, include_categories, exclude_categories, c);
            if 0 <= c < 256 {
                assert(mbit(bits2, c) == (mbit(bits1, c) && min_codepoint <= c <= max_codepoint));
                assert(mbit(bits3, c) == (mbit(bits2, c) || str_has(include_characters@, c)));
            } else {
                assert(!str_has(include_characters@, c));
            }
        }
    } @*/
    extract_intervals(&bits)
}


//# query|fn ascii_query
fn ascii_query() {
    let categories = categories::merge(include_categories, exclude_categories);
    let masks = &ASCII_MASKS[version as usize];
    /*@ proof {
        lemma_tables(version);
        categories.lemma_wf();
        lemma_none(categories.bits());
        lemma_items(categories.bits(), 30);
        lemma_all_cov(version, categories);
        lemma_set_items(version, categories);
        lemma_cat_at();
        lemma_mask_zero();
        assert((version as int) < 11);
    } @*/
    let mut bits = match categories.into_value() {
        0 => [0u64; 4],
        ALL_CATEGORIES => [u64::MAX; 4],
        _ => {
            let mut bits = [0u64; 4];
            for category in /*@ it: @*/ categories.iter()
            /*@
                invariant
                    table_wf(tab(version)), masks_ok(*masks, tab(version)),
                    it.seq() == items_of(categories.bits(), 30), it.index() <= it.seq().len(),
                    forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits, cp) == items_cov(version, it.seq(), it.index() as int, cp),
            @*/
            {
                /*@ let ghost bits0 = bits;
                    proof { lemma_cat_at(); lemma_items_cov_step(version, it.seq(), it.index() as int); } @*/
                let mask = masks[category as usize];
                for word in /*@ it2: @*/ 0..4
                /*@
                    invariant
                        it2.seq().len() == 4, it2.index() <= 4,
                        forall|k: int| 0 <= k < it2.index() ==> #[trigger] bits@[k] == bits0@[k] | mask@[k],
                        forall|k: int| it2.index() <= k < 4 ==> #[trigger] bits@[k] == bits0@[k],
                @*/
                {
                    bits[word] |= mask[word];
                }
                /*@ proof {
                    lemma_mask_or(bits0, mask, bits);
                    assert forall|cp: int| 0 <= cp < 256 implies #[trigger] mbit(bits, cp) == items_cov(version, it.seq(), it.index() + 1, cp) by {
                        assert(mbit(masks@[category as int], cp) == cov(tab(version)[cid(category)]@, cp));
                    }
                } @*/
            }
            bits
        }
    };
    /*@ let ghost bits1 = bits;
        proof { assert(forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits1, cp) == set_cov(version, categories, cp)); } @*/
    let range = range_mask(min_codepoint, max_codepoint);
    for word in /*@ it: @*/ 0..4
    /*@
        invariant
            it.seq().len() == 4, it.index() <= 4,
            forall|k: int| 0 <= k < it.index() ==> #[trigger] bits@[k] == bits1@[k] & range@[k],
            forall|k: int| it.index() <= k < 4 ==> #[trigger] bits@[k] == bits1@[k],
    @*/
    {
        bits[word] &= range[word];
    }
    /*@ let ghost bits2 = bits;
        proof { lemma_mask_and(bits1, range, bits); } @*/
    for character in /*@ it: @*/ include_characters.chars()
    /*@
        invariant
            it.seq() == include_characters@, it.index() <= it.seq().len(),
            forall|i: int| 0 <= i < include_characters@.len() ==> (#[trigger] include_characters@[i] as u32) < 256,
            forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits, cp) == (mbit(bits2, cp) || str_has_upto(include_characters@, it.index() as int, cp)),
    @*/
    {
        /*@ let ghost bits0 = bits; proof { lemma_str_step(include_characters@, it.index() as int); } @*/
        let cp = character as u32;
        bits[(cp / 64) as usize] |= 1u64 << (cp % 64);
        /*@ proof { lemma_mask_set(bits0, bits, cp as int); } @*/
    }
    /*@ let ghost bits3 = bits; @*/
    for character in /*@ it: @*/ exclude_characters.chars()
    /*@
        invariant
            it.seq() == exclude_characters@, it.index() <= it.seq().len(),
            forall|i: int| 0 <= i < exclude_characters@.len() ==> (#[trigger] exclude_characters@[i] as u32) < 256,
            forall|cp: int| 0 <= cp < 256 ==> #[trigger] mbit(bits, cp) == (mbit(bits3, cp) && !str_has_upto(exclude_characters@, it.index() as int, cp)),
    @*/
    {
        /*@ let ghost bits0 = bits; proof { lemma_str_step(exclude_characters@, it.index() as int); } @*/
        let cp = character as u32;
        bits[(cp / 64) as usize] &= !(1u64 << (cp % 64));
        /*@ proof { lemma_mask_clear(bits0, bits, cp as int); } @*/
    }
    /*@ proof {
        lemma_str_upto(include_characters@);
        lemma_str_upto(exclude_characters@);
        assert forall|c: int| #[trigger] result_has(version, include_categories, exclude_categories, include_characters@, exclude_characters@,
            min_codepoint as int, max_codepoint as int, c) == (0 <= c < 256 && mbit(bits, c)) by {
            lemma_set_effective(version, categories, include_categories, exclude_categories, c);
            if 0 <= c < 256 {
                assert(mbit(bits2, c) == (mbit(bits1, c) && min_codepoint <= c <= max_codepoint));
                assert(mbit(bits3, c) == (mbit(bits2, c) || str_has(include_characters@, c)));
            } else {
                assert(!str_has(include_characters@, c));
            }
        }
    } @*/
    extract_intervals(&bits)
}
