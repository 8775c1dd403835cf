//! Trusted contracts of the PyO3 items the binding calls (listed in every evidence file).
//! Bodies here are never executed; the binding itself is compiled against PyO3.
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use core::marker::PhantomData;

verus! {

/// the Python values the binding makes
pub ghost enum PyVal {
    Int(int),
    Str(Seq<char>),
    Tuple(Seq<PyVal>),
    Version(crate::py::PyUnicodeVersion),
    Class(Seq<char>),
    Function(Seq<char>),
    None,
    Other,
}

#[derive(Clone, Copy)]
pub struct Python<'py> { p: PhantomData<&'py u32> }

/// what an exception is
pub ghost enum ExcKind { ValueError, Other }

#[verifier::external_body]
pub struct PyErr { p: u32 }

impl PyErr {
    pub uninterp spec fn kind(&self) -> ExcKind;
    pub open spec fn value_error(&self) -> bool { self.kind() is ValueError }
}

#[verifier::external]
impl core::fmt::Debug for PyErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}

pub type PyResult<T> = Result<T, PyErr>;

pub mod prelude { pub use super::{Python, PyErr, PyResult, Py, Bound, PyModule, IntoPyObject}; }
pub mod types { pub use super::{PyTuple, PyModule}; }
/// stands for the import of the macro of that name
pub fn wrap_pyfunction() {}

pub mod exceptions {
    use vstd::prelude::*;
    use super::{PyErr, ExcKind};
    verus! {
    pub struct PyValueError;
    impl PyValueError {
        /// `PyValueError::new_err(message)`
        #[verifier::external_body]
        pub fn new_err<A>(args: A) -> (r: PyErr)
            ensures r.kind() is ValueError,
        { unimplemented!() }
    }
    pub struct PyTypeError;
    impl PyTypeError {
        #[verifier::external_body]
        pub fn new_err<A>(args: A) -> (r: PyErr)
            ensures r.kind() is Other,
        { unimplemented!() }
    }
    pub struct PyKeyError;
    impl PyKeyError {
        #[verifier::external_body]
        pub fn new_err<A>(args: A) -> (r: PyErr)
            ensures r.kind() is Other,
        { unimplemented!() }
    }
    pub struct PyRuntimeError;
    impl PyRuntimeError {
        #[verifier::external_body]
        pub fn new_err<A>(args: A) -> (r: PyErr)
            ensures r.kind() is Other,
        { unimplemented!() }
    }
    }
}

/// conversion of a Rust value to a Python value; the conversions used here cannot fail
pub trait IntoPyObject: Sized {
    spec fn py_val(self) -> PyVal;
}

impl IntoPyObject for u32 { open spec fn py_val(self) -> PyVal { PyVal::Int(self as int) } }
impl IntoPyObject for usize { open spec fn py_val(self) -> PyVal { PyVal::Int(self as int) } }
impl IntoPyObject for String { open spec fn py_val(self) -> PyVal { PyVal::Str(self@) } }
impl<'a> IntoPyObject for &'a str { open spec fn py_val(self) -> PyVal { PyVal::Str(self@) } }
impl<'a> IntoPyObject for &'a String { open spec fn py_val(self) -> PyVal { PyVal::Str(self@) } }
impl<A: IntoPyObject, B: IntoPyObject> IntoPyObject for (A, B) {
    open spec fn py_val(self) -> PyVal { PyVal::Tuple(seq![self.0.py_val(), self.1.py_val()]) }
}
impl<'py> IntoPyObject for Bound<'py, PyTuple> { open spec fn py_val(self) -> PyVal { PyVal::Tuple(self.content()) } }
impl IntoPyObject for Py<PyTuple> { open spec fn py_val(self) -> PyVal { PyVal::Tuple(self.content()) } }

pub struct PyTuple { p: u32 }
pub struct PyModule { p: u32 }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Py<T> { p: PhantomData<T> }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Bound<'py, T> { p: PhantomData<&'py T> }

#[verifier::external]
unsafe impl<T> Send for Py<T> {}
#[verifier::external]
unsafe impl<T> Sync for Py<T> {}

pub open spec fn py_vals<T: IntoPyObject>(s: Seq<T>) -> Seq<PyVal> {
    Seq::new(s.len(), |i: int| s[i].py_val())
}

impl PyTuple {
    /// `PyTuple::new(py, elements)`: a tuple of the converted elements
    #[verifier::external_body]
    pub fn new<'py, T: IntoPyObject, U: IntoIterator<Item = T>>(py: Python<'py>, elements: U) -> (r: PyResult<Bound<'py, PyTuple>>)
        ensures
            r is Ok,
            exists|it: U::IntoIter| #[trigger] call_ensures(<U as IntoIterator>::into_iter, (elements,), it) && r->Ok_0.content() == py_vals(it.remaining()),
    { unimplemented!() }
}

impl<'py> Bound<'py, PyTuple> {
    /// the elements; tuples, strings and integers of Python do not change
    pub uninterp spec fn content(&self) -> Seq<PyVal>;
    #[verifier::external_body]
    pub fn unbind(self) -> (r: Py<PyTuple>)
        ensures r.content() == self.content(),
    { unimplemented!() }
}

impl Py<PyTuple> {
    pub uninterp spec fn content(&self) -> Seq<PyVal>;
    #[verifier::external_body]
    pub fn clone_ref(&self, py: Python<'_>) -> (r: Py<PyTuple>)
        ensures r.content() == self.content(),
    { unimplemented!() }
}

impl<'py> From<Bound<'py, PyTuple>> for Py<PyTuple> {
    #[verifier::external_body]
    fn from(b: Bound<'py, PyTuple>) -> (r: Self) { unimplemented!() }
}
pub uninterp spec fn unbound<'py>(b: Bound<'py, PyTuple>) -> Py<PyTuple>;
impl<'py> vstd::std_specs::convert::FromSpecImpl<Bound<'py, PyTuple>> for Py<PyTuple> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Bound<'py, PyTuple>) -> Self { unbound(v) }
}
#[verifier::external_body]
pub broadcast proof fn axiom_unbound<'py>(b: Bound<'py, PyTuple>)
    ensures (#[trigger] unbound(b)).content() == b.content(),
{
}

// ---- modules

/// a `#[pyclass]` and the name it has in Python
pub trait PyClass { spec fn class_name() -> Seq<char>; }

/// what `wrap_pyfunction!` gives
#[verifier::external_body]
pub struct Wrapped { p: u32 }
impl Wrapped {
    /// the name in Python
    pub uninterp spec fn name(&self) -> Seq<char>;
    /// the Rust function
    pub uninterp spec fn func(&self) -> Seq<char>;
}
#[verifier::external_body]
pub fn wrapped(name: &str, func: &str) -> (r: Wrapped)
    ensures r.name() == name@, r.func() == func@,
{ unimplemented!() }
#[verifier::external_body]
pub fn wrapped_in(name: &str, func: &str) -> (r: PyResult<Wrapped>)
    ensures r is Ok ==> r->Ok_0.name() == name@ && r->Ok_0.func() == func@,
{ unimplemented!() }

impl<'py> Bound<'py, PyModule> {
    /// the module's attributes
    pub uninterp spec fn attrs(&self) -> Map<Seq<char>, PyVal>;
    #[verifier::external_body]
    pub fn add<V: IntoPyObject>(&mut self, name: &str, value: V) -> (r: PyResult<()>)
        ensures r is Ok ==> final(self).attrs() == old(self).attrs().insert(name@, value.py_val()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_class<T: PyClass>(&mut self) -> (r: PyResult<()>)
        ensures r is Ok ==> final(self).attrs() == old(self).attrs().insert(T::class_name(), PyVal::Class(T::class_name())),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_wrapped(&mut self, w: Wrapped) -> (r: PyResult<()>)
        ensures r is Ok ==> final(self).attrs() == old(self).attrs().insert(w.name(), PyVal::Function(w.func())),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_function(&mut self, w: Wrapped) -> (r: PyResult<()>)
        ensures r is Ok ==> final(self).attrs() == old(self).attrs().insert(w.name(), PyVal::Function(w.func())),
    { unimplemented!() }
}

/// `env!(..)`
#[verifier::external_body]
pub fn env_text() -> (r: &'static str) { unimplemented!() }

// ---- write-once cells

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExOnceLock<T>(std::sync::OnceLock<T>);

/// what may be stored in a cell, chosen when the cell is made
pub uninterp spec fn cell_inv<T>(c: &std::sync::OnceLock<T>, v: T) -> bool;

/// an array of fresh cells
#[verifier::external_body]
pub const fn cells<T, const N: usize>(g: Ghost<spec_fn(int, T) -> bool>) -> (r: [std::sync::OnceLock<T>; N])
    ensures forall|i: int, v: T| 0 <= i < N ==> (#[trigger] cell_inv(&r@[i], v) <==> g@(i, v)),
{ [const { std::sync::OnceLock::new() }; N] }

/// `OnceLock::get_or_init`: the value stored by the first call that stores one
pub assume_specification<T, F: FnOnce() -> T>[ std::sync::OnceLock::<T>::get_or_init ](c: &std::sync::OnceLock<T>, f: F) -> (r: &T)
    requires
        call_requires(f, ()),
        forall|v: T| call_ensures(f, (), v) ==> #[trigger] cell_inv(c, v),
    ensures
        cell_inv(c, *r),
;

pub assume_specification<T>[ std::sync::OnceLock::<T>::get ](c: &std::sync::OnceLock<T>) -> (r: Option<&T>)
    ensures
        r is Some ==> cell_inv(c, *r->0),
;

pub assume_specification<T>[ std::sync::OnceLock::<T>::set ](c: &std::sync::OnceLock<T>, v: T) -> (r: Result<(), T>)
    requires
        cell_inv(c, v),
;

// ---- standard library

/// `to_string` gives what `Display` writes
#[verifier::external_body]
pub broadcast proof fn axiom_to_string_category(c: &crate::UnicodeCategory, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<crate::UnicodeCategory>(c, r) ==> r@ == crate::categories::cat_name(*c),
{
}

/// `format!`: the pieces one after the other
#[verifier::external_body]
pub fn fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn fmt_lit(s: String, t: &str) -> (r: String) ensures r@ == s@ + t@ { unimplemented!() }
#[verifier::external_body]
pub fn fmt_disp<T: core::fmt::Display + ?Sized>(s: String, x: &T) -> (r: String) ensures r@ == s@ + crate::shim::display_text(x) { unimplemented!() }

#[verifier::external_body]
pub broadcast proof fn axiom_display_str(x: &str)
    ensures #[trigger] crate::shim::display_text::<str>(x) == x@,
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_display_string(x: &String)
    ensures #[trigger] crate::shim::display_text::<String>(x) == x@,
{
}
#[verifier::external_body]
pub broadcast proof fn axiom_display_version(x: &crate::UnicodeVersion)
    ensures #[trigger] crate::shim::display_text::<crate::UnicodeVersion>(x) == crate::version_name(*x),
{
}

pub broadcast group group_pyo3 {
    axiom_unbound, axiom_to_string_category, axiom_display_str, axiom_display_string, axiom_display_version, crate::shim::group_display,
}

}
