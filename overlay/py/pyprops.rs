//! C15 and C16: theorems over the contracts of the binding.
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::pyo3::*;
use crate::py::*;
use crate::bind::*;
use crate::spec::*;
use crate::categories::*;
use crate::error::*;
use crate::*;

verus! {
broadcast use crate::shim::group_shim;

// ---- C15

/// the name of a version as an attribute of the class
pub open spec fn attr_of(n: Seq<char>) -> Seq<char> {
    Seq::new(n.len() + 1, |i: int| if i == 0 { 'V' } else if n[i - 1] == '.' { '_' } else { n[i - 1] })
}

/// every version object is the attribute named after its core version
pub proof fn c15_same_name(p: PyUnicodeVersion)
    ensures py_attr(p) == attr_of(version_name(py_core(p))),
{
    reveal_strlit("V9_0_0"); reveal_strlit("9.0.0");
    reveal_strlit("V10_0_0"); reveal_strlit("10.0.0");
    reveal_strlit("V11_0_0"); reveal_strlit("11.0.0");
    reveal_strlit("V12_0_0"); reveal_strlit("12.0.0");
    reveal_strlit("V12_1_0"); reveal_strlit("12.1.0");
    reveal_strlit("V13_0_0"); reveal_strlit("13.0.0");
    reveal_strlit("V14_0_0"); reveal_strlit("14.0.0");
    reveal_strlit("V15_0_0"); reveal_strlit("15.0.0");
    reveal_strlit("V15_1_0"); reveal_strlit("15.1.0");
    reveal_strlit("V16_0_0"); reveal_strlit("16.0.0");
    reveal_strlit("V17_0_0"); reveal_strlit("17.0.0");
    let (a, b) = (py_attr(p), attr_of(version_name(py_core(p))));
    assert(a.len() == b.len());
    assert(a =~= b);
}

/// one version object for every core version, one core version for every version object
pub proof fn c15_one_to_one()
    ensures
        forall|p: PyUnicodeVersion| core_py(#[trigger] py_core(p)) == p,
        forall|v: UnicodeVersion| py_core(#[trigger] core_py(v)) == v,
        forall|p: PyUnicodeVersion, q: PyUnicodeVersion| #[trigger] py_core(p) == #[trigger] py_core(q) ==> p == q,
{
}

/// both conversions keep the version
pub fn c15_conversions(p: PyUnicodeVersion, v: UnicodeVersion) -> (r: (UnicodeVersion, PyUnicodeVersion))
    ensures r.0 == py_core(p), py_core(r.1) == v,
{
    (UnicodeVersion::from(p), PyUnicodeVersion::from(v))
}

/// a string makes a version object iff it is a bundled name, and that of the name; otherwise ValueError
pub fn c15_new(s: &str) -> (r: PyResult<PyUnicodeVersion>)
    ensures
        (exists|v: UnicodeVersion| s@ == #[trigger] version_name(v)) <==> r is Ok,
        r is Ok ==> s@ == version_name(py_core(r->Ok_0)),
        r is Err ==> r->Err_0.value_error(),
{
    PyUnicodeVersion::new(s)
}

/// the text gives the name, and the name the object, back
pub fn c15_round_trip(p: PyUnicodeVersion) -> (r: PyResult<PyUnicodeVersion>)
    ensures r is Ok && r->Ok_0 == p,
{
    let s = p.__str__();
    proof { crate::props::c11_names(); }
    PyUnicodeVersion::new(s)
}

pub fn c15_text(p: PyUnicodeVersion) -> (r: (&'static str, String))
    ensures r.0@ == version_name(py_core(p)), r.1@ == "UnicodeVersion(\""@ + version_name(py_core(p)) + "\")"@,
{
    (p.__str__(), p.__repr__())
}

/// the latest version object is that of the core's latest
pub fn c15_latest() -> (r: (PyUnicodeVersion, UnicodeVersion))
    ensures py_core(r.0) == r.1, r.1 == all_versions().last(),
{
    (PyUnicodeVersion::latest(), UnicodeVersion::latest())
}

/// version objects are equal iff they denote the same version
pub fn c15_equal(p: PyUnicodeVersion, q: PyUnicodeVersion) -> (r: bool)
    ensures r <==> version_name(py_core(p)) == version_name(py_core(q)),
{
    proof { crate::props::c11_names(); }
    py_eq(&p, &q)
}

/// the module's list of versions is the core's, in order
pub fn c15_available(py: Python<'_>, module: &mut Bound<'_, PyModule>) -> (r: PyResult<[UnicodeVersion; 11]>)
    ensures
        r is Ok ==> ({
            let a = final(module).attrs();
            let s = r->Ok_0@;
            &&& s.len() == 11
            &&& s == all_versions()
            &&& a.dom().contains("available_versions"@)
            &&& a["available_versions"@] == PyVal::Tuple(Seq::new(11, |i: int| PyVal::Version(core_py(s[i]))))
            &&& a.dom().contains("UnicodeVersion"@) && a["UnicodeVersion"@] == PyVal::Class("UnicodeVersion"@)
        }),
{
    match unicode_intervals(py, module) {
        Ok(_) => {
            let all = UnicodeVersion::ALL;
            proof {
                assert(all@ == all_versions());
                assert(Seq::new(11, |i: int| PyVal::Version(core_py(all_versions()[i]))) == Seq::new(11, |i: int| PyVal::Version(core_py(all@[i]))));
            }
            Ok(all)
        }
        Err(e) => Err(e),
    }
}

// ---- C16

/// an argument, `None` when omitted or given as None
pub open spec fn given<T>(o: Option<Option<T>>) -> Option<T> {
    match o { Some(x) => x, None => None }
}

/// a text, empty when omitted
pub open spec fn given_text(o: Option<&str>) -> Seq<char> {
    match o { Some(x) => x@, None => Seq::empty() }
}

/// the two outcomes say the same
pub open spec fn same_answer(p: PyResult<Py<PyTuple>>, c: Result<Vec<Interval>, Error>) -> bool {
    match c { Ok(v) => p is Ok && p->Ok_0.content() == iv_vals(v@), Err(_) => p is Err && p->Err_0.value_error() }
}

/// what a query from Python means: the core settings with omitted arguments at their defaults
pub fn c16_settings(py: Python<'_>, a: args_query<'_>) -> (r: PyResult<Py<PyTuple>>)
    ensures
        !(names_ok(given(a.categories)) && names_ok(given(a.exclude_categories))) ==> r is Err && r->Err_0.value_error(),
        names_ok(given(a.categories)) && names_ok(given(a.exclude_categories)) ==> forall|inc: Option<UnicodeCategorySet>, exc: Option<UnicodeCategorySet>|
            set_for(given(a.categories), inc) && set_for(given(a.exclude_categories), exc)
            ==> py_answer(#[trigger] settings_for(inc, exc, given(a.min_codepoint), given(a.max_codepoint), given_text(a.include_characters), given_text(a.exclude_characters), asked(given(a.version))), r),
{
    proof { lemma_opt_text(); }
    call_query!(py, a)
}

/// a query from Python gives what the core's own builder gives when only the given arguments are set
pub fn c16_query(py: Python<'_>, a: args_query<'_>, inc: Option<UnicodeCategorySet>, exc: Option<UnicodeCategorySet>) -> (r: (PyResult<Py<PyTuple>>, Result<Vec<Interval>, Error>))
    requires
        names_ok(given(a.categories)), names_ok(given(a.exclude_categories)),
        set_for(given(a.categories), inc), set_for(given(a.exclude_categories), exc),
    ensures
        same_answer(r.0, r.1),
        answer(settings_for(inc, exc, given(a.min_codepoint), given(a.max_codepoint), given_text(a.include_characters), given_text(a.exclude_characters), asked(given(a.version))), r.1),
{
    let mut q = match a.version { Some(Some(v)) => UnicodeVersion::from(v).query(), _ => crate::query() };
    if let Some(s) = inc { q = q.include_categories(Some(s)); }
    if let Some(s) = exc { q = q.exclude_categories(s); }
    if let Some(t) = a.include_characters { q = q.include_characters(t); }
    if let Some(t) = a.exclude_characters { q = q.exclude_characters(t); }
    if let Some(Some(m)) = a.min_codepoint { q = q.min_codepoint(m); }
    if let Some(Some(m)) = a.max_codepoint { q = q.max_codepoint(m); }
    let ghost s = settings_for(inc, exc, given(a.min_codepoint), given(a.max_codepoint), given_text(a.include_characters), given_text(a.exclude_characters), asked(given(a.version)));
    let c = q.intervals();
    let p = c16_settings(py, a);
    proof {
        lemma_equiv(q.settings(), s);
        assert(answer(s, c));
        assert(py_answer(s, p));
        let b = choose|b: Result<Vec<(u32, u32)>, Error>| #[trigger] answer(s, b) && same_answer(p, b);
        if b is Ok { crate::props::c02_unique(b->Ok_0@, c->Ok_0@); }
    }
    (p, c)
}

/// an unknown category name is a ValueError
pub fn c16_unknown_name(py: Python<'_>, a: args_query<'_>) -> (r: PyResult<Py<PyTuple>>)
    requires
        given(a.categories) is Some && exists|i: int| 0 <= i < given(a.categories)->0@.len() && !known(#[trigger] given(a.categories)->0@[i]@)
        || given(a.exclude_categories) is Some && exists|i: int| 0 <= i < given(a.exclude_categories)->0@.len() && !known(#[trigger] given(a.exclude_categories)->0@[i]@),
    ensures r is Err && r->Err_0.value_error(),
{
    c16_settings(py, a)
}

/// an empty list of categories asks for no category: only included characters come back
pub fn c16_no_category(py: Python<'_>, a: args_query<'_>) -> (r: PyResult<Py<PyTuple>>)
    requires
        given(a.categories) is Some, given(a.categories)->0@.len() == 0,
        given(a.exclude_categories) is None, given(a.min_codepoint) is None, given(a.max_codepoint) is None,
        a.include_characters is None,
    ensures r is Ok && r->Ok_0.content() == Seq::<PyVal>::empty(),
{
    let e = UnicodeCategorySet::new();
    let (p, c) = c16_query(py, a, Some(e), None);
    proof {
        lemma_opt_text();
        let v = c->Ok_0@;
        if v.len() > 0 { assert(iv_has(v[0], v[0].0 as int)); assert(cov(v, v[0].0 as int)); }
        assert(iv_vals(v) =~= Seq::<PyVal>::empty());
    }
    p
}

/// with no argument at all: every code point of the latest version
pub fn c16_defaults(py: Python<'_>) -> (r: PyResult<Py<PyTuple>>)
    ensures
        r is Ok,
        r->Ok_0.content() == seq![PyVal::Tuple(seq![PyVal::Int(0), PyVal::Int(0x10ffff)])],
{
    let a = args_query { categories: None, exclude_categories: None, min_codepoint: None, max_codepoint: None, include_characters: None, exclude_characters: None, version: None, p: core::marker::PhantomData };
    let (p, c) = c16_query(py, a, None, None);
    proof {
        lemma_opt_text();
        let v = c->Ok_0@;
        let w = seq![(0u32, 0x10ffffu32)];
        let s = settings_for(None, None, None, None, Seq::empty(), Seq::empty(), all_versions().last());
        assert forall|x: int| cov(v, x) <==> cov(w, x) by {
            if cov(w, x) { assert(iv_has(w[0], x)); lemma_every(all_versions().last(), x); assert(wanted(s, x)); }
            if 0 <= x <= 0x10ffff { assert(iv_has(w[0], x)); assert(cov(w, x)); }
            if cov(v, x) { let i = choose|i: int| 0 <= i < v.len() && #[trigger] iv_has(v[i], x); }
        }
        crate::props::c02_unique(v, w);
        assert(iv_vals(v) =~= seq![PyVal::Tuple(seq![PyVal::Int(0), PyVal::Int(0x10ffff)])]);
    }
    p
}

/// every code point has a category
proof fn lemma_every(v: UnicodeVersion, c: int)
    requires 0 <= c <= 0x10ffff,
    ensures exists|k: UnicodeCategory| #[trigger] crate::query::cat_has(v, k, c),
{
    crate::props::c04_partition(v, c);
}

/// there is one normalized order only
pub proof fn c16_order_unique(v: UnicodeVersion, a: Seq<UnicodeCategory>, b: Seq<UnicodeCategory>)
    requires normalized(v, a), normalized(v, b),
    ensures a == b,
{
    lemma_order_upto(v, a, b, 28);
    assert(a =~= b);
}

proof fn lemma_order_upto(v: UnicodeVersion, a: Seq<UnicodeCategory>, b: Seq<UnicodeCategory>, n: int)
    requires normalized(v, a), normalized(v, b), 0 <= n <= 28,
    ensures forall|i: int| 0 <= i < n ==> a[i] == b[i],
    decreases n,
{
    if n > 0 {
        lemma_order_upto(v, a, b, n - 1);
        let k = n - 1;
        lemma_rank();
        assert(listed(b, a[k]) && listed(a, b[k]));
        let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[k];
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == b[k];
        assert(a[28] is Cc && a[29] is Cs && b[28] is Cc && b[29] is Cs);
        if a[k] != b[k] {
            assert(j < 28 && i < 28);
            if j < k { assert(a[j] == b[j]); assert(a[j] != a[k]); }
            if i < k { assert(a[i] == b[i]); assert(b[i] != b[k]); }
            assert(before(v, b[k], b[j]));
            assert(before(v, a[k], a[i]));
        }
    }
}

/// the category list is the core's for the version asked for, whatever was asked before
pub fn c16_categories(py: Python<'_>, a: args_categories<'_>) -> (r: (PyResult<Py<PyTuple>>, [UnicodeCategory; 30]))
    ensures r.0 is Ok, r.0->Ok_0.content() == cat_vals(r.1@), normalized(asked(given(a.version)), r.1@),
{
    let v = match a.version { Some(Some(v)) => UnicodeVersion::from(v), _ => UnicodeVersion::latest() };
    let c = v.normalized_categories();
    let p = categories_of(py, a);
    proof {
        let o = choose|o: Seq<UnicodeCategory>| #[trigger] normalized(v, o) && p->Ok_0.content() == cat_vals(o);
        c16_order_unique(v, o, c@);
    }
    (p, c)
}

fn categories_of(py: Python<'_>, a: args_categories<'_>) -> (r: PyResult<Py<PyTuple>>)
    ensures r is Ok, names_in_order(asked(given(a.version)), r->Ok_0.content()),
{
    call_categories!(py, a)
}

/// calls for other versions, and other calls, in between change nothing
pub fn c16_history(py: Python<'_>, v: Option<PyUnicodeVersion>, others: Vec<Option<PyUnicodeVersion>>) -> (r: (PyResult<Py<PyTuple>>, PyResult<Py<PyTuple>>))
    ensures r.0 is Ok, r.1 is Ok, r.0->Ok_0.content() == r.1->Ok_0.content(),
{
    let a = args_categories { version: Some(v), p: core::marker::PhantomData };
    let b = args_categories { version: Some(v), p: core::marker::PhantomData };
    let (p, c) = c16_categories(py, a);
    for o in others
        invariant true,
    {
        let _ = c16_categories(py, args_categories { version: Some(o), p: core::marker::PhantomData });
    }
    let (q, d) = c16_categories(py, b);
    proof { c16_order_unique(asked(v), c@, d@); }
    (p, q)
}

/// class expansion gives what the core gives for the same list and version
pub fn c16_expansion(py: Python<'_>, list: Vec<String>, copy: &Vec<String>, version: Option<Option<PyUnicodeVersion>>) -> (r: (PyResult<Py<PyTuple>>, Result<Vec<UnicodeCategory>, Error>))
    requires list@ == copy@,
    ensures
        expansion(list@, asked(given(version)), r.1),
        match r.1 { Ok(v) => r.0 is Ok && r.0->Ok_0.content() == cat_vals(v@), Err(_) => r.0 is Err && r.0->Err_0.value_error() },
{
    let v = match version { Some(Some(v)) => UnicodeVersion::from(v), _ => UnicodeVersion::latest() };
    let ghost names = list@;
    let c = crate::as_general_categories(copy, v);
    proof {
        assert forall|it: core::slice::Iter<'_, String>, r: Result<Vec<UnicodeCategory>, Error>|
            #[trigger] call_ensures(<&Vec<String> as IntoIterator>::into_iter, (copy,), it) && #[trigger] general::<&String>(it.remaining(), v, r)
            implies expansion(names, v, r) by {
            assert(it.remaining() == copy@.map(|i: int, s: String| &s));
        }
    }
    let p = expand_of(py, args_as_general_categories { categories: Some(list), version, p: core::marker::PhantomData });
    proof {
        let b = choose|b: Result<Vec<UnicodeCategory>, Error>| #[trigger] expansion(names, v, b) && (match b {
            Ok(v) => p is Ok && p->Ok_0.content() == cat_vals(v@),
            Err(_) => p is Err && p->Err_0.value_error(),
        });
        lemma_expansion_unique(names, v, b, c);
    }
    (p, c)
}

fn expand_of(py: Python<'_>, a: args_as_general_categories<'_>) -> (r: PyResult<Py<PyTuple>>)
    requires a.categories is Some,
    ensures
        exists|b: Result<Vec<UnicodeCategory>, Error>| #[trigger] expansion(a.categories->0@, asked(given(a.version)), b) && (match b {
            Ok(v) => r is Ok && r->Ok_0.content() == cat_vals(v@),
            Err(_) => r is Err && r->Err_0.value_error(),
        }),
{
    call_as_general_categories!(py, a)
}

/// the expansion of a list is determined
proof fn lemma_expansion_unique(names: Seq<String>, v: UnicodeVersion, a: Result<Vec<UnicodeCategory>, Error>, b: Result<Vec<UnicodeCategory>, Error>)
    requires expansion(names, v, a), expansion(names, v, b),
    ensures a is Ok <==> b is Ok, a is Ok ==> a->Ok_0@ == b->Ok_0@,
{
    let s = choose|s: Seq<&String>| s.len() == names.len() && (forall|i: int| 0 <= i < s.len() ==> *s[i] == names[i]) && #[trigger] general::<&String>(s, v, a);
    let t = choose|s: Seq<&String>| s.len() == names.len() && (forall|i: int| 0 <= i < s.len() ==> *s[i] == names[i]) && #[trigger] general::<&String>(s, v, b);
    assert(s =~= t);
    if a is Ok && b is Ok {
        let p = choose|o: Seq<UnicodeCategory>| #[trigger] normalized(v, o) && a->Ok_0@ == o.filter(|c: UnicodeCategory| named_upto(s, s.len() as int, c));
        let q = choose|o: Seq<UnicodeCategory>| #[trigger] normalized(v, o) && b->Ok_0@ == o.filter(|c: UnicodeCategory| named_upto(t, t.len() as int, c));
        c16_order_unique(v, p, q);
    }
}

/// the module offers the functions under their own names
pub fn c16_module(py: Python<'_>, module: &mut Bound<'_, PyModule>) -> (r: PyResult<()>)
    ensures
        r is Ok ==> ({
            let a = final(module).attrs();
            &&& a.dom().contains("query"@) && a["query"@] == PyVal::Function("query"@)
            &&& a.dom().contains("categories"@) && a["categories"@] == PyVal::Function("categories"@)
            &&& a.dom().contains("as_general_categories"@) && a["as_general_categories"@] == PyVal::Function("as_general_categories"@)
        }),
{
    unicode_intervals(py, module)
}

}
