//! A stand-in for pyo3 with just enough of an object model to call the methods of a `#[pyclass]`
//! the way CPython's slots do: receivers are checked, arguments are extracted, a failed
//! extraction in an operator gives NotImplemented, reflected operators are tried second.
#![allow(clippy::all)]
use num_bigint::BigInt;
use std::{any::Any, cell::RefCell, convert::Infallible, marker::PhantomData, sync::Arc};
pub use verif_pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};

pub enum Obj {
    None,
    NotImplemented,
    Bool(bool),
    Int(BigInt),
    Float(f64),
    Str(String),
    Tuple(Vec<PyObject>),
    List(Vec<PyObject>),
    Instance(&'static str, CallFn, Box<dyn Any + Send + Sync>),
}
pub type CallFn = fn(&str, &PyAny, &[&PyAny], Python<'_>) -> Outcome;
pub enum Outcome {
    NoMethod,
    BadArguments,
    Done(PyResult<PyObject>),
}
pub struct PyAny {
    obj: Obj,
}
pub struct Py<T>(Arc<PyAny>, PhantomData<T>);
unsafe impl<T> Send for Py<T> {}
unsafe impl<T> Sync for Py<T> {}
pub type PyObject = Py<PyAny>;
impl<T> Clone for Py<T> {
    fn clone(&self) -> Self {
        Py(self.0.clone(), PhantomData)
    }
}
impl<T> Py<T> {
    pub fn any(&self) -> &PyAny {
        &self.0
    }
    pub fn as_ref<'p>(&'p self, _py: Python<'p>) -> &'p PyAny {
        &self.0
    }
    pub fn clone_ref(&self, _py: Python<'_>) -> Self {
        self.clone()
    }
}
impl PyObject {
    pub fn of(obj: Obj) -> PyObject {
        Py(Arc::new(PyAny { obj }), PhantomData)
    }
    pub fn none() -> PyObject {
        Self::of(Obj::None)
    }
    pub fn int(v: BigInt) -> PyObject {
        Self::of(Obj::Int(v))
    }
    pub fn instance<T: PyClass + PyMethods + Send + Sync + 'static>(v: T) -> PyObject {
        Self::of(Obj::Instance(T::NAME, T::call, Box::new(PyCell { v })))
    }
    pub fn obj(&self) -> &Obj {
        &self.0.obj
    }
}
impl PyAny {
    pub fn obj(&self) -> &Obj {
        &self.obj
    }
    pub fn is_none(&self) -> bool {
        matches!(self.obj, Obj::None)
    }
    pub fn is_true(&self) -> PyResult<bool> {
        Ok(match &self.obj {
            Obj::None => false,
            Obj::Bool(v) => *v,
            Obj::Int(v) => !num_traits::Zero::is_zero(v),
            Obj::Float(v) => *v != 0.0,
            Obj::Str(v) => !v.is_empty(),
            Obj::Tuple(v) | Obj::List(v) => !v.is_empty(),
            _ => true,
        })
    }
    pub fn extract<'s, T: FromPyObject<'s>>(&'s self) -> PyResult<T> {
        T::extract(self)
    }
    pub fn downcast<T: PyClass>(&self) -> Result<&PyCell<T>, PyErr> {
        self.cell().ok_or_else(|| PyErr::new("TypeError", "wrong type".into()))
    }
    pub fn cell<T: PyClass>(&self) -> Option<&PyCell<T>> {
        match &self.obj {
            Obj::Instance(_, _, v) => v.downcast_ref(),
            _ => None,
        }
    }
    pub fn call(&self, name: &str, args: &[&PyAny]) -> Outcome {
        match &self.obj {
            Obj::Instance(_, f, _) => f(name, self, args, Python::new()),
            _ => Outcome::NoMethod,
        }
    }
}
/// `lhs op rhs`, and `pow` with an optional third argument
pub fn binary_op(op: &str, lhs: &PyAny, rhs: &PyAny, third: Option<&PyAny>) -> PyResult<PyObject> {
    let mut a = vec![rhs];
    let mut b = vec![lhs];
    a.extend(third);
    b.extend(third);
    for (slf, name, args) in [(lhs, format!("__{}__", op), a), (rhs, format!("__r{}__", op), b)] {
        if let Outcome::Done(r) = slf.call(&name, &args) {
            match &r {
                Ok(v) if matches!(v.obj(), Obj::NotImplemented) => {}
                _ => return r,
            }
        }
    }
    Err(PyErr::new("TypeError", format!("unsupported operand type(s) for {}", op)))
}
/// a rich comparison; the reflected one is tried second. None: not comparable
pub fn compare(lhs: &PyAny, rhs: &PyAny, op: basic::CompareOp) -> Option<PyResult<PyObject>> {
    use basic::CompareOp::*;
    let code = |op| PyObject::of(Obj::Str(format!("{:?}", op)));
    let refl = match op {
        Lt => Gt,
        Le => Ge,
        Eq => Eq,
        Ne => Ne,
        Gt => Lt,
        Ge => Le,
    };
    for (slf, other, op) in [(lhs, rhs, op), (rhs, lhs, refl)] {
        if let Outcome::Done(r) = slf.call("__richcmp__", &[other, code(op).any()]) {
            match &r {
                Ok(v) if matches!(v.obj(), Obj::NotImplemented) => {}
                _ => return Some(r),
            }
        }
    }
    None
}

#[derive(Clone, Copy)]
pub struct Python<'p>(PhantomData<&'p ()>);
impl<'p> Python<'p> {
    pub fn new() -> Self {
        Python(PhantomData)
    }
    pub fn allow_threads<T: Send, F: Send + FnOnce() -> T>(self, f: F) -> T {
        f()
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> PyObject {
        PyObject::none()
    }
    #[allow(non_snake_case)]
    pub fn NotImplemented(self) -> PyObject {
        PyObject::of(Obj::NotImplemented)
    }
}

#[derive(Debug, Clone)]
pub struct PyErr {
    pub kind: &'static str,
    pub message: String,
}
impl PyErr {
    pub fn new(kind: &'static str, message: String) -> Self {
        PyErr { kind, message }
    }
}
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}: {}", self.kind, self.message)
    }
}
impl std::error::Error for PyErr {}
pub type PyResult<T> = Result<T, PyErr>;
pub trait PyErrArguments {
    fn message(self) -> String;
}
impl PyErrArguments for &'static str {
    fn message(self) -> String {
        self.into()
    }
}
impl PyErrArguments for String {
    fn message(self) -> String {
        self
    }
}
impl PyErrArguments for () {
    fn message(self) -> String {
        String::new()
    }
}
pub mod exceptions {
    use super::*;
    macro_rules! exc {
        ($($t:ident $n:literal),*) => {$(
            pub struct $t;
            impl $t {
                pub fn new_err<A: PyErrArguments>(args: A) -> PyErr {
                    PyErr::new($n, args.message())
                }
            }
        )*};
    }
    exc!(PyTypeError "TypeError", PyValueError "ValueError", PyZeroDivisionError "ZeroDivisionError", PyArithmeticError "ArithmeticError",
         PyOverflowError "OverflowError", PyRuntimeError "RuntimeError", PyException "Exception", PyNotImplementedError "NotImplementedError",
         PyAssertionError "AssertionError", PyIndexError "IndexError", PyKeyError "KeyError");
}
pub mod basic {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CompareOp {
        Lt,
        Le,
        Eq,
        Ne,
        Gt,
        Ge,
    }
}
pub mod pyclass {
    pub use super::basic::CompareOp;
    pub use super::PyClass;
}

pub trait PyClass: Sized + 'static {
    const NAME: &'static str;
}
pub trait PyMethods {
    fn call(name: &str, slf: &PyAny, args: &[&PyAny], py: Python<'_>) -> Outcome;
}
pub struct PyCell<T> {
    v: T,
}
impl<T> PyCell<T> {
    pub fn get(&self) -> &T {
        &self.v
    }
    pub fn borrow(&self) -> PyRef<'_, T> {
        PyRef(self)
    }
    pub fn try_borrow(&self) -> Result<PyRef<'_, T>, Infallible> {
        Ok(PyRef(self))
    }
}
pub struct PyRef<'p, T>(&'p PyCell<T>);
impl<T> std::ops::Deref for PyRef<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0.v
    }
}
impl<'p, T> From<&'p PyCell<T>> for PyRef<'p, T> {
    fn from(v: &'p PyCell<T>) -> Self {
        PyRef(v)
    }
}

pub trait FromPyObject<'s>: Sized {
    fn extract(ob: &'s PyAny) -> PyResult<Self>;
}
fn wrong<T>() -> PyResult<T> {
    Err(PyErr::new("TypeError", "wrong type".into()))
}
impl<'s, T: PyClass> FromPyObject<'s> for PyRef<'s, T> {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        ob.cell().map_or_else(wrong, |v| Ok(PyRef(v)))
    }
}
impl<'s, T: PyClass> FromPyObject<'s> for &'s PyCell<T> {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        ob.cell().map_or_else(wrong, Ok)
    }
}
impl<'s> FromPyObject<'s> for &'s PyAny {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        Ok(ob)
    }
}
impl<'s, T: FromPyObject<'s>> FromPyObject<'s> for Option<T> {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        if ob.is_none() {
            Ok(None)
        } else {
            T::extract(ob).map(Some)
        }
    }
}
impl FromPyObject<'_> for BigInt {
    fn extract(ob: &PyAny) -> PyResult<Self> {
        match ob.obj() {
            Obj::Int(v) => Ok(v.clone()),
            Obj::Bool(v) => Ok(BigInt::from(*v as i32)),
            _ => wrong(),
        }
    }
}
impl FromPyObject<'_> for f64 {
    fn extract(ob: &PyAny) -> PyResult<Self> {
        match ob.obj() {
            Obj::Float(v) => Ok(*v),
            _ => wrong(),
        }
    }
}
impl FromPyObject<'_> for bool {
    fn extract(ob: &PyAny) -> PyResult<Self> {
        match ob.obj() {
            Obj::Bool(v) => Ok(*v),
            _ => wrong(),
        }
    }
}
impl FromPyObject<'_> for basic::CompareOp {
    fn extract(ob: &PyAny) -> PyResult<Self> {
        use basic::CompareOp::*;
        match ob.obj() {
            Obj::Str(v) => [Lt, Le, Eq, Ne, Gt, Ge].into_iter().find(|c| format!("{:?}", c) == *v).map_or_else(wrong, Ok),
            _ => wrong(),
        }
    }
}

pub trait IntoPy<T>: Sized {
    fn into_py(self, py: Python<'_>) -> T;
}
impl IntoPy<PyObject> for PyObject {
    fn into_py(self, _: Python<'_>) -> PyObject {
        self
    }
}
impl IntoPy<PyObject> for BigInt {
    fn into_py(self, _: Python<'_>) -> PyObject {
        PyObject::int(self)
    }
}
macro_rules! ints {
    ($($t:ty),*) => {$(impl IntoPy<PyObject> for $t {
        fn into_py(self, _: Python<'_>) -> PyObject {
            PyObject::int(BigInt::from(self))
        }
    })*};
}
ints!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
impl IntoPy<PyObject> for bool {
    fn into_py(self, _: Python<'_>) -> PyObject {
        PyObject::of(Obj::Bool(self))
    }
}
impl IntoPy<PyObject> for f64 {
    fn into_py(self, _: Python<'_>) -> PyObject {
        PyObject::of(Obj::Float(self))
    }
}
impl IntoPy<PyObject> for String {
    fn into_py(self, _: Python<'_>) -> PyObject {
        PyObject::of(Obj::Str(self))
    }
}
impl IntoPy<PyObject> for &str {
    fn into_py(self, _: Python<'_>) -> PyObject {
        PyObject::of(Obj::Str(self.into()))
    }
}
impl IntoPy<PyObject> for () {
    fn into_py(self, _: Python<'_>) -> PyObject {
        PyObject::none()
    }
}
impl<T: IntoPy<PyObject>> IntoPy<PyObject> for Option<T> {
    fn into_py(self, py: Python<'_>) -> PyObject {
        self.map_or_else(PyObject::none, |v| v.into_py(py))
    }
}
impl<T: IntoPy<PyObject>> IntoPy<PyObject> for Vec<T> {
    fn into_py(self, py: Python<'_>) -> PyObject {
        PyObject::of(Obj::List(self.into_iter().map(|v| v.into_py(py)).collect()))
    }
}
impl<A: IntoPy<PyObject>, B: IntoPy<PyObject>> IntoPy<PyObject> for (A, B) {
    fn into_py(self, py: Python<'_>) -> PyObject {
        PyObject::of(Obj::Tuple(vec![self.0.into_py(py), self.1.into_py(py)]))
    }
}
pub trait OkWrap {
    fn wrap(self, py: Python<'_>) -> PyResult<PyObject>;
}
impl<T: IntoPy<PyObject>> OkWrap for T {
    fn wrap(self, py: Python<'_>) -> PyResult<PyObject> {
        Ok(self.into_py(py))
    }
}
impl<T: IntoPy<PyObject>, E: Into<PyErr>> OkWrap for Result<T, E> {
    fn wrap(self, py: Python<'_>) -> PyResult<PyObject> {
        self.map(|v| v.into_py(py)).map_err(Into::into)
    }
}

#[derive(Default)]
pub struct PyModule {
    classes: RefCell<Vec<(&'static str, CallFn)>>,
}
impl PyModule {
    pub fn add_class<T: PyClass + PyMethods>(&self) -> PyResult<()> {
        self.classes.borrow_mut().push((T::NAME, T::call));
        Ok(())
    }
    /// `module.name(args)`
    pub fn construct(&self, name: &str, args: &[&PyAny]) -> Outcome {
        let f = self.classes.borrow().iter().find(|c| c.0 == name).map(|c| c.1);
        match f {
            Some(f) => f("__new__", PyObject::none().any(), args, Python::new()),
            None => Outcome::NoMethod,
        }
    }
}
pub mod types {
    pub use super::{PyAny, PyModule};
}
pub mod prelude {
    pub use super::{pyclass, pyfunction, pymethods, pymodule, FromPyObject, IntoPy, Py, PyAny, PyCell, PyErr, PyModule, PyObject, PyRef, PyResult, Python};
}
