use pyo3::{exceptions::PyValueError, prelude::*, types::PyTuple, wrap_pyfunction};
use std::sync::OnceLock;
use unicode_intervals_core::{UnicodeCategory, UnicodeCategorySet, UnicodeVersion as CoreVersion};

/// Cached category-name tuples, one slot per bundled version (the result is immutable).
static CATEGORIES_CACHE: [OnceLock<Py<PyTuple>>; CoreVersion::ALL.len()]
/*@ ensures forall|i: int, t: Py<PyTuple>| 0 <= i < 11 ==> (#[trigger] crate::pyo3::cell_inv(&CATEGORIES_CACHE@[i], t) <==> slot_holds(i, t)), @*/
=
    [const { OnceLock::new() }; CoreVersion::ALL.len()];

/// A bundled Unicode version, e.g. ``UnicodeVersion("16.0.0")``.
#[pyclass(
    eq,
    frozen,
    from_py_object,
    name = "UnicodeVersion",
    module = "unicode_intervals"
)]
#[derive(Clone, Copy, PartialEq, Eq)]
enum PyUnicodeVersion {
    V9_0_0,
    V10_0_0,
    V11_0_0,
    V12_0_0,
    V12_1_0,
    V13_0_0,
    V14_0_0,
    V15_0_0,
    V15_1_0,
    V16_0_0,
    V17_0_0,
}

/*@
/// the core version of the same name
pub open spec fn py_core(p: PyUnicodeVersion) -> CoreVersion {
    match p {
        PyUnicodeVersion::V9_0_0 => CoreVersion::V9_0_0,
        PyUnicodeVersion::V10_0_0 => CoreVersion::V10_0_0,
        PyUnicodeVersion::V11_0_0 => CoreVersion::V11_0_0,
        PyUnicodeVersion::V12_0_0 => CoreVersion::V12_0_0,
        PyUnicodeVersion::V12_1_0 => CoreVersion::V12_1_0,
        PyUnicodeVersion::V13_0_0 => CoreVersion::V13_0_0,
        PyUnicodeVersion::V14_0_0 => CoreVersion::V14_0_0,
        PyUnicodeVersion::V15_0_0 => CoreVersion::V15_0_0,
        PyUnicodeVersion::V15_1_0 => CoreVersion::V15_1_0,
        PyUnicodeVersion::V16_0_0 => CoreVersion::V16_0_0,
        PyUnicodeVersion::V17_0_0 => CoreVersion::V17_0_0,
    }
}

pub open spec fn core_py(v: CoreVersion) -> PyUnicodeVersion {
    match v {
        CoreVersion::V9_0_0 => PyUnicodeVersion::V9_0_0,
        CoreVersion::V10_0_0 => PyUnicodeVersion::V10_0_0,
        CoreVersion::V11_0_0 => PyUnicodeVersion::V11_0_0,
        CoreVersion::V12_0_0 => PyUnicodeVersion::V12_0_0,
        CoreVersion::V12_1_0 => PyUnicodeVersion::V12_1_0,
        CoreVersion::V13_0_0 => PyUnicodeVersion::V13_0_0,
        CoreVersion::V14_0_0 => PyUnicodeVersion::V14_0_0,
        CoreVersion::V15_0_0 => PyUnicodeVersion::V15_0_0,
        CoreVersion::V15_1_0 => PyUnicodeVersion::V15_1_0,
        CoreVersion::V16_0_0 => PyUnicodeVersion::V16_0_0,
        CoreVersion::V17_0_0 => PyUnicodeVersion::V17_0_0,
    }
}

/// the version asked for, the latest when none is
pub open spec fn asked(v: Option<PyUnicodeVersion>) -> CoreVersion {
    match v { Some(p) => py_core(p), None => all_versions().last() }
}

impl crate::pyo3::IntoPyObject for PyUnicodeVersion {
    open spec fn py_val(self) -> crate::pyo3::PyVal { crate::pyo3::PyVal::Version(self) }
}

impl vstd::std_specs::convert::FromSpecImpl<PyUnicodeVersion> for CoreVersion {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: PyUnicodeVersion) -> Self { py_core(v) }
}

impl vstd::std_specs::convert::FromSpecImpl<CoreVersion> for PyUnicodeVersion {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: CoreVersion) -> Self { core_py(v) }
}

impl vstd::std_specs::cmp::PartialEqSpecImpl for PyUnicodeVersion {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PyUnicodeVersion) -> bool { *self == *o }
}

/// the names of the version's categories in normalized order
pub open spec fn names_in_order(v: CoreVersion, s: Seq<crate::pyo3::PyVal>) -> bool {
    exists|order: Seq<UnicodeCategory>| #[trigger] crate::normalized(v, order) && s == cat_vals(order)
}

/// what a slot of the cache may hold
pub open spec fn slot_holds(i: int, t: Py<PyTuple>) -> bool { names_in_order(all_versions()[i], t.content()) }

pub open spec fn cat_vals(s: Seq<UnicodeCategory>) -> Seq<crate::pyo3::PyVal> {
    Seq::new(s.len(), |i: int| crate::pyo3::PyVal::Str(crate::categories::cat_name(s[i])))
}

/// a tuple of pairs of integers
pub open spec fn iv_vals(s: Seq<(u32, u32)>) -> Seq<crate::pyo3::PyVal> {
    Seq::new(s.len(), |i: int| crate::pyo3::PyVal::Tuple(seq![crate::pyo3::PyVal::Int(s[i].0 as int), crate::pyo3::PyVal::Int(s[i].1 as int)]))
}

pub open spec fn known(n: Seq<char>) -> bool { exists|c: UnicodeCategory| n == #[trigger] crate::categories::cat_name(c) }

pub open spec fn all_known(names: Seq<String>) -> bool { forall|i: int| 0 <= i < names.len() ==> known((#[trigger] names[i])@) }

/// one of the first `n` names is the category's
pub open spec fn named(names: Seq<String>, n: int, c: UnicodeCategory) -> bool {
    exists|i: int| 0 <= i < n && i < names.len() && (#[trigger] names[i])@ == crate::categories::cat_name(c)
}

pub open spec fn holds(set: UnicodeCategorySet, names: Seq<String>) -> bool {
    forall|c: UnicodeCategory| #[trigger] set.has(c) <==> named(names, names.len() as int, c)
}

/// the expansion the core gives for the names
pub open spec fn expansion(names: Seq<String>, v: CoreVersion, r: Result<Vec<UnicodeCategory>, crate::Error>) -> bool {
    exists|s: Seq<&String>| s.len() == names.len() && (forall|i: int| 0 <= i < s.len() ==> *s[i] == names[i]) && #[trigger] crate::categories::general::<&String>(s, v, r)
}

/// the settings of the core query that stands for the arguments
pub open spec fn settings_for(include: Option<UnicodeCategorySet>, exclude: Option<UnicodeCategorySet>, min: Option<u32>, max: Option<u32>, inc: Seq<char>, exc: Seq<char>, version: CoreVersion) -> crate::Settings {
    crate::Settings {
        version, include_categories: include, exclude_categories: exclude, include_characters: Some(inc), exclude_characters: Some(exc),
        min: match min { Some(m) => m, None => 0 }, max: match max { Some(m) => m, None => 0x10ffff },
    }
}

pub open spec fn names_ok(names: Option<Vec<String>>) -> bool { names is Some ==> all_known(names->0@) }

pub open spec fn set_for(names: Option<Vec<String>>, set: Option<UnicodeCategorySet>) -> bool {
    match (names, set) { (None, None) => true, (Some(l), Some(s)) => holds(s, l@), _ => false }
}

/// the same answer
pub open spec fn equiv(a: crate::Settings, b: crate::Settings) -> bool {
    a.min == b.min && a.max == b.max && forall|c: int| crate::wanted(a, c) <==> crate::wanted(b, c)
}

/// sets with the same members are interchangeable, and excluding nothing is the default
pub proof fn lemma_equiv(a: crate::Settings, b: crate::Settings)
    requires
        a.version == b.version, a.min == b.min, a.max == b.max,
        text_or_empty(a.include_characters) == text_or_empty(b.include_characters), text_or_empty(a.exclude_characters) == text_or_empty(b.exclude_characters),
        a.include_categories is None <==> b.include_categories is None,
        a.include_categories is Some ==> forall|k: UnicodeCategory| a.include_categories->0.has(k) <==> b.include_categories->0.has(k),
        forall|k: UnicodeCategory| (a.exclude_categories is Some && a.exclude_categories->0.has(k)) <==> (b.exclude_categories is Some && b.exclude_categories->0.has(k)),
    ensures equiv(a, b), forall|r: Result<Vec<(u32, u32)>, crate::Error>| crate::answer(a, r) ==> #[trigger] crate::answer(b, r),
{
    assert forall|c: int| crate::wanted(a, c) <==> crate::wanted(b, c) by {}
}

pub proof fn lemma_iv_vals()
    ensures forall|s: Seq<(u32, u32)>| #[trigger] crate::pyo3::py_vals(s) == iv_vals(s),
{
    assert forall|s: Seq<(u32, u32)>| #[trigger] crate::pyo3::py_vals(s) == iv_vals(s) by { assert(crate::pyo3::py_vals(s) =~= iv_vals(s)); }
}

pub proof fn lemma_attr_names()
    ensures
        "UnicodeVersion"@ != "__version__"@,
        "available_versions"@ != "__version__"@,
        "query"@ != "__version__"@,
        "categories"@ != "__version__"@,
        "as_general_categories"@ != "__version__"@,
        "available_versions"@ != "UnicodeVersion"@,
        "query"@ != "UnicodeVersion"@,
        "categories"@ != "UnicodeVersion"@,
        "as_general_categories"@ != "UnicodeVersion"@,
        "query"@ != "available_versions"@,
        "categories"@ != "available_versions"@,
        "as_general_categories"@ != "available_versions"@,
        "categories"@ != "query"@,
        "as_general_categories"@ != "query"@,
        "as_general_categories"@ != "categories"@,
{
    reveal_strlit("__version__"); reveal_strlit("UnicodeVersion"); reveal_strlit("available_versions"); reveal_strlit("query"); reveal_strlit("categories"); reveal_strlit("as_general_categories");
    assert(forall|a: Seq<char>, b: Seq<char>| a.len() != b.len() ==> a != b);
    assert("__version__"@.len() == 11);
    assert("UnicodeVersion"@.len() == 14);
    assert("available_versions"@.len() == 18);
    assert("query"@.len() == 5);
    assert("categories"@.len() == 10);
    assert("as_general_categories"@.len() == 21);
}

/// the names of categories
pub proof fn lemma_names(names: Seq<String>)
    ensures forall|o: Seq<UnicodeCategory>| o.len() == names.len() && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] names[i])@ == crate::categories::cat_name(o[i]))
        ==> crate::pyo3::py_vals(names) == #[trigger] cat_vals(o),
{
    assert forall|o: Seq<UnicodeCategory>| o.len() == names.len() && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] names[i])@ == crate::categories::cat_name(o[i]))
        implies crate::pyo3::py_vals(names) == #[trigger] cat_vals(o) by { assert(crate::pyo3::py_vals(names) =~= cat_vals(o)); }
}

/// the core's answer, as Python sees it
pub open spec fn py_answer(q: crate::Settings, r: PyResult<Py<PyTuple>>) -> bool {
    exists|a: Result<Vec<(u32, u32)>, crate::Error>| #[trigger] crate::answer(q, a) && (match a {
        Ok(v) => r is Ok && r->Ok_0.content() == iv_vals(v@),
        Err(_) => r is Err && r->Err_0.value_error(),
    })
}
@*/

impl From<PyUnicodeVersion> for CoreVersion {
    fn from(value: PyUnicodeVersion) -> Self {
        match value {
            PyUnicodeVersion::V9_0_0 => CoreVersion::V9_0_0,
            PyUnicodeVersion::V10_0_0 => CoreVersion::V10_0_0,
            PyUnicodeVersion::V11_0_0 => CoreVersion::V11_0_0,
            PyUnicodeVersion::V12_0_0 => CoreVersion::V12_0_0,
            PyUnicodeVersion::V12_1_0 => CoreVersion::V12_1_0,
            PyUnicodeVersion::V13_0_0 => CoreVersion::V13_0_0,
            PyUnicodeVersion::V14_0_0 => CoreVersion::V14_0_0,
            PyUnicodeVersion::V15_0_0 => CoreVersion::V15_0_0,
            PyUnicodeVersion::V15_1_0 => CoreVersion::V15_1_0,
            PyUnicodeVersion::V16_0_0 => CoreVersion::V16_0_0,
            PyUnicodeVersion::V17_0_0 => CoreVersion::V17_0_0,
        }
    }
}

impl From<CoreVersion> for PyUnicodeVersion {
    fn from(value: CoreVersion) -> Self {
        match value {
            CoreVersion::V9_0_0 => PyUnicodeVersion::V9_0_0,
            CoreVersion::V10_0_0 => PyUnicodeVersion::V10_0_0,
            CoreVersion::V11_0_0 => PyUnicodeVersion::V11_0_0,
            CoreVersion::V12_0_0 => PyUnicodeVersion::V12_0_0,
            CoreVersion::V12_1_0 => PyUnicodeVersion::V12_1_0,
            CoreVersion::V13_0_0 => PyUnicodeVersion::V13_0_0,
            CoreVersion::V14_0_0 => PyUnicodeVersion::V14_0_0,
            CoreVersion::V15_0_0 => PyUnicodeVersion::V15_0_0,
            CoreVersion::V15_1_0 => PyUnicodeVersion::V15_1_0,
            CoreVersion::V16_0_0 => PyUnicodeVersion::V16_0_0,
            CoreVersion::V17_0_0 => PyUnicodeVersion::V17_0_0,
            // `CoreVersion` is non-exhaustive; fail loud instead of mismapping a new version.
            _ => unreachable!("core Unicode version not mirrored in the binding"),
        }
    }
}

#[pymethods]
impl PyUnicodeVersion {
    /// Parse a version string such as ``"16.0.0"``.
    #[new]
    fn new(value: &str) -> PyResult<Self>
    /*@
        ensures
            (match ret {
                Ok(p) => value@ == version_name(py_core(p)),
                Err(e) => e.value_error() && (forall|v: CoreVersion| value@ != #[trigger] version_name(v)),
            }),
    @*/
    {
        value
            .parse::<CoreVersion>()
            .map(Into::into)
            .map_err(|_| /*@ -> (e: PyErr) ensures e.value_error() @*/ PyValueError::new_err(format!("Unknown Unicode version: {value}")))
    }
    /// The latest bundled Unicode version.
    #[staticmethod]
    fn latest() -> Self
    /*@ ensures py_core(ret) == all_versions().last(), @*/
    {
        CoreVersion::latest().into()
    }
    fn __str__(&self) -> &'static str
    /*@ ensures ret@ == version_name(py_core(*self)), @*/
    {
        CoreVersion::from(*self).as_str()
    }
    fn __repr__(&self) -> String
    /*@ ensures ret@ == "UnicodeVersion(\""@ + version_name(py_core(*self)) + "\")"@, @*/
    {
        format!("UnicodeVersion(\"{}\")", CoreVersion::from(*self).as_str())
    }
}

fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCategorySet>>
/*@
    ensures
        (match ret {
            Ok(s) => names_ok(names) && set_for(names, s),
            Err(e) => e.value_error() && !names_ok(names),
        }),
@*/
{
    match names {
        None => Ok(None),
        Some(list) => {
            let mut set = UnicodeCategorySet::new();
            /*@ let ghost list0 = list@; @*/
            for name in /*@ it: @*/ list
            /*@
                invariant
                    it.seq() == list0, names == Some(list),  it.index() <= it.seq().len(),
                    forall|i: int| 0 <= i < it.index() ==> known((#[trigger] it.seq()[i])@),
                    forall|c: UnicodeCategory| #[trigger] set.has(c) <==> named(it.seq(), it.index() as int, c),
            @*/
            {
                /*@ proof { crate::categories::lemma_cat_names(); } @*/
                let category: UnicodeCategory = name
                    .parse()
                    .map_err(|_| /*@ -> (e: PyErr) ensures e.value_error() @*/ PyValueError::new_err(format!("Unknown category: {name}")))?;
                set |= category;
            }
            Ok(Some(set))
        }
    }
}

/// Return a tuple of inclusive ``(start, end)`` code point intervals matching the criteria.
///
/// ``categories``/``exclude_categories`` take abbreviations like ``"Lu"``;
/// ``include_characters``/``exclude_characters`` add or drop individual code points;
/// ``version`` defaults to the latest bundled Unicode version.
#[pyfunction]
#[pyo3(signature = (*, categories=None, exclude_categories=None, min_codepoint=None,
                    max_codepoint=None, include_characters="", exclude_characters="",
                    version=None))]
#[allow(clippy::too_many_arguments)]
fn query(
    py: Python<'_>,
    categories: Option<Vec<String>>,
    exclude_categories: Option<Vec<String>>,
    min_codepoint: Option<u32>,
    max_codepoint: Option<u32>,
    include_characters: &str,
    exclude_characters: &str,
    version: Option<PyUnicodeVersion>,
) -> PyResult<Py<PyTuple>>
/*@
    ensures
        !(names_ok(categories) && names_ok(exclude_categories)) ==> ret is Err && ret->Err_0.value_error(),
        names_ok(categories) && names_ok(exclude_categories) ==> forall|inc: Option<UnicodeCategorySet>, exc: Option<UnicodeCategorySet>|
            set_for(categories, inc) && set_for(exclude_categories, exc)
            ==> py_answer(#[trigger] settings_for(inc, exc, min_codepoint, max_codepoint, include_characters@, exclude_characters@, asked(version)), ret),
@*/
{
    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    let include = parse_categories(categories)?;
    let exclude = parse_categories(exclude_categories)?.unwrap_or_default();
    let mut builder = core_version
        .query()
        .include_categories(include)
        .exclude_categories(exclude)
        .include_characters(include_characters)
        .exclude_characters(exclude_characters);
    if let Some(lo) = min_codepoint {
        builder = builder.min_codepoint(lo);
    }
    if let Some(hi) = max_codepoint {
        builder = builder.max_codepoint(hi);
    }
    /*@ proof {
        let s = builder.settings();
        assert forall|inc: Option<UnicodeCategorySet>, exc: Option<UnicodeCategorySet>, a: Result<Vec<(u32, u32)>, crate::Error>|
            set_for(categories, inc) && set_for(exclude_categories, exc) && #[trigger] crate::answer(s, a)
            implies crate::answer(#[trigger] settings_for(inc, exc, min_codepoint, max_codepoint, include_characters@, exclude_characters@, asked(version)), a) by {
            lemma_equiv(s, settings_for(inc, exc, min_codepoint, max_codepoint, include_characters@, exclude_characters@, asked(version)));
        }
        lemma_iv_vals();
    } @*/
    let intervals = builder
        .intervals()
        .map_err(|e| /*@ -> (x: PyErr) ensures x.value_error() @*/ PyValueError::new_err(e.to_string()))?;
    Ok(PyTuple::new(py, intervals)?.into())
}

/// Unicode category abbreviations in normalised order (control and surrogate last).
#[pyfunction]
#[pyo3(signature = (version=None))]
fn categories(py: Python<'_>, version: Option<PyUnicodeVersion>) -> PyResult<Py<PyTuple>>
/*@ ensures ret is Ok, names_in_order(asked(version), ret->Ok_0.content()), @*/
{
    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    let cached = CATEGORIES_CACHE[core_version as usize].get_or_init(|| /*@ -> (t: Py<PyTuple>) ensures names_in_order(core_version, t.content()) @*/ {
        let names = core_version
            .normalized_categories()
            .iter()
            .map(ToString::to_string)
            .collect::<Vec<_>>();
        /*@ proof { lemma_names(names@); } @*/
        PyTuple::new(py, names)
            .expect("category names are valid")
            .unbind()
    });
    Ok(cached.clone_ref(py))
}

/// Expand major classes (e.g. ``"N"`` -> ``"Nd"``, ``"Nl"``, ``"No"``) and validate category names.
#[pyfunction]
#[pyo3(signature = (categories, version=None))]
fn as_general_categories(
    py: Python<'_>,
    categories: Vec<String>,
    version: Option<PyUnicodeVersion>,
) -> PyResult<Py<PyTuple>>
/*@
    ensures
        exists|a: Result<Vec<UnicodeCategory>, crate::Error>| #[trigger] expansion(categories@, asked(version), a) && (match a {
            Ok(v) => ret is Ok && ret->Ok_0.content() == cat_vals(v@),
            Err(_) => ret is Err && ret->Err_0.value_error(),
        }),
@*/
{
    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    /*@ proof {
        assert forall|it: core::slice::Iter<'_, String>, r: Result<Vec<UnicodeCategory>, crate::Error>|
            #[trigger] call_ensures(<&Vec<String> as IntoIterator>::into_iter, (&categories,), it) && #[trigger] crate::categories::general::<&String>(it.remaining(), core_version, r)
            implies expansion(categories@, core_version, r) by {
            assert(it.remaining() == categories@.map(|i: int, s: String| &s));
        }
    } @*/
    let expanded = unicode_intervals_core::as_general_categories(&categories, core_version)
        .map_err(|e| /*@ -> (x: PyErr) ensures x.value_error() @*/ PyValueError::new_err(e.to_string()))?;
    let names: Vec<String> = expanded.iter().map(ToString::to_string).collect();
    /*@ proof { lemma_names(names@); } @*/
    Ok(PyTuple::new(py, names)?.into())
}

/// Search Unicode code point intervals by category, codepoint range, and characters.
#[pymodule]
fn unicode_intervals(py: Python<'_>, module: &Bound<'_, PyModule>) -> PyResult<()>
/*@
    ensures
        ret is Ok ==> ({
            let a = final(module).attrs();
            &&& a.dom().contains("available_versions"@) && a["available_versions"@] == crate::pyo3::PyVal::Tuple(Seq::new(11, |i: int| crate::pyo3::PyVal::Version(core_py(all_versions()[i]))))
            &&& a.dom().contains("query"@) && a["query"@] == crate::pyo3::PyVal::Function("query"@)
            &&& a.dom().contains("categories"@) && a["categories"@] == crate::pyo3::PyVal::Function("categories"@)
            &&& a.dom().contains("as_general_categories"@) && a["as_general_categories"@] == crate::pyo3::PyVal::Function("as_general_categories"@)
            &&& a.dom().contains("UnicodeVersion"@) && a["UnicodeVersion"@] == crate::pyo3::PyVal::Class("UnicodeVersion"@)
        }),
@*/
{
    /*@ proof { lemma_attr_names(); } @*/
    module.add("__version__", env!("CARGO_PKG_VERSION"))?;
    module.add_class::<PyUnicodeVersion>()?;
    let versions: Vec<PyUnicodeVersion> = CoreVersion::ALL.iter().map(|v| /*@ -> (p: PyUnicodeVersion) ensures p == core_py(*v) @*/ (*v).into()).collect();
    /*@ proof { assert(crate::pyo3::py_vals(versions@) =~= Seq::new(11, |i: int| crate::pyo3::PyVal::Version(core_py(all_versions()[i])))); } @*/
    module.add("available_versions", PyTuple::new(py, versions)?)?;
    module.add_wrapped(wrap_pyfunction!(query))?;
    module.add_wrapped(wrap_pyfunction!(categories))?;
    module.add_wrapped(wrap_pyfunction!(as_general_categories))?;
    Ok(())
}
