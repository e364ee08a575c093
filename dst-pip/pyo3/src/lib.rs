//! A simulated Python interpreter behind the part of pyo3's interface that the Python package uses: objects,
//! calls bound by Python's rules, callbacks that are the simulator's, exceptions.

use std::any::Any;
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;

pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};

pub mod impl_ {
    use super::*;

    pub trait PyClass: 'static {
        const NAME: &'static str;
    }
    pub trait Methods {
        fn call_method(&self, py: Python<'_>, name: &str) -> Option<PyResult<Obj>>;
    }
    pub trait Instance {
        fn class(&self) -> &'static str;
        fn method(&self, py: Python<'_>, name: &str) -> Option<PyResult<Obj>>;
        fn any(&self) -> &dyn Any;
    }
    impl<T: PyClass + Methods> Instance for T {
        fn class(&self) -> &'static str {
            T::NAME
        }
        fn method(&self, py: Python<'_>, name: &str) -> Option<PyResult<Obj>> {
            self.call_method(py, name)
        }
        fn any(&self) -> &dyn Any {
            self
        }
    }

    pub type Function = dyn Fn(Python<'_>, Vec<Obj>) -> PyResult<Obj>;

    /// A Python object.
    #[derive(Clone)]
    pub enum Obj {
        None,
        Bool(bool),
        Int(i128),
        Float(f64),
        Str(String),
        Bytes(Vec<u8>),
        List(Vec<Obj>),
        Tuple(Vec<Obj>),
        Function(Rc<Function>),
        Instance(Rc<dyn Instance>),
        Module(Rc<std::cell::RefCell<Vec<(String, Member)>>>),
    }
    #[derive(Clone)]
    pub enum Member {
        Function(FnDef),
        Class(&'static str),
        Value(Obj),
    }
    impl Obj {
        pub fn call(&self, py: Python<'_>, args: Vec<Obj>) -> PyResult<Obj> {
            match self {
                Obj::Function(f) => f(py, args),
                _ => Err(PyErr::of("TypeError", "object is not callable".into())),
            }
        }
        pub fn str(&self, py: Python<'_>, how: &str) -> PyResult<String> {
            match self {
                Obj::Str(s) => Ok(s.clone()),
                Obj::Instance(i) => match i.method(py, how) {
                    Some(Ok(Obj::Str(s))) => Ok(s),
                    Some(Err(e)) => Err(e),
                    _ => Err(PyErr::of("TypeError", format!("no usable {how}"))),
                },
                _ => Err(PyErr::of("TypeError", format!("no {how}"))),
            }
        }
    }

    #[derive(Clone)]
    pub struct FnDef {
        pub name: &'static str,
        pub signature: &'static str,
        pub call: for<'py> fn(Python<'py>, Vec<(String, Obj)>) -> PyResult<Obj>,
    }

    fn type_error<T>(m: String) -> PyResult<T> {
        Err(PyErr::of("TypeError", m))
    }

    impl FnDef {
        /// The parameters and, where they have one, their defaults.
        pub fn parameters(&self) -> Vec<(String, Option<Obj>)> {
            self.signature
                .split(',')
                .map(str::trim)
                .filter(|s| !s.is_empty())
                .map(|s| match s.split_once('=') {
                    None => (s.to_string(), None),
                    Some((n, d)) => {
                        let d = d.trim();
                        let o = match d {
                            "None" => Obj::None,
                            "true" => Obj::Bool(true),
                            "false" => Obj::Bool(false),
                            _ => d.parse().map(Obj::Int).unwrap_or_else(|_| Obj::Str(d.trim_matches('"').to_string())),
                        };
                        (n.trim().to_string(), Some(o))
                    }
                })
                .collect()
        }
        /// A call from Python.
        pub fn invoke(&self, py: Python<'_>, args: Vec<Obj>, kwargs: Vec<(String, Obj)>) -> PyResult<Obj> {
            let ps = self.parameters();
            let star = ps.iter().position(|p| p.0 == "*").unwrap_or(ps.len());
            let mut got: Vec<(String, Option<Obj>)> = ps.iter().filter(|p| p.0 != "*" && p.0 != "/").map(|p| (p.0.clone(), None)).collect();
            if args.len() > star.min(got.len()) {
                return type_error(format!("{}() takes {} positional arguments but {} were given", self.name, star.min(got.len()), args.len()));
            }
            for (i, a) in args.into_iter().enumerate() {
                got[i].1 = Some(a);
            }
            for (k, v) in kwargs {
                match got.iter_mut().find(|g| g.0 == k) {
                    None => return type_error(format!("{}() got an unexpected keyword argument '{k}'", self.name)),
                    Some((_, Some(_))) => return type_error(format!("{}() got multiple values for argument '{k}'", self.name)),
                    Some(g) => g.1 = Some(v),
                }
            }
            let mut all = vec![];
            for (n, v) in got {
                let d = ps.iter().find(|p| p.0 == n).and_then(|p| p.1.clone());
                match v.or(d) {
                    Some(v) => all.push((n, v)),
                    None => return type_error(format!("{}() missing required argument '{n}'", self.name)),
                }
            }
            // a panic becomes an exception
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.call)(py, all))) {
                Ok(r) => r,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default();
                    Err(PyErr::of("PanicException", m))
                }
            }
        }
    }

    pub fn take<T: FromPy>(args: &mut Vec<(String, Obj)>, n: &str) -> PyResult<T> {
        match args.iter().position(|a| a.0 == n) {
            Some(i) => T::from_py(args.remove(i).1).map_err(|mut e| {
                e.message = format!("argument '{n}': {}", e.message);
                e
            }),
            None => type_error(format!("no parameter {n}")),
        }
    }

    pub trait FromPy: Sized {
        fn from_py(o: Obj) -> PyResult<Self>;
    }
    fn wrong<T>(what: &str) -> PyResult<T> {
        type_error(format!("the object cannot be converted to {what}"))
    }
    impl FromPy for String {
        fn from_py(o: Obj) -> PyResult<Self> {
            if let Obj::Str(s) = o { Ok(s) } else { wrong("str") }
        }
    }
    impl FromPy for std::path::PathBuf {
        fn from_py(o: Obj) -> PyResult<Self> {
            if let Obj::Str(s) = o { Ok(s.into()) } else { wrong("path") }
        }
    }
    impl FromPy for bool {
        fn from_py(o: Obj) -> PyResult<Self> {
            if let Obj::Bool(s) = o { Ok(s) } else { wrong("bool") }
        }
    }
    macro_rules! ints {
        ($($t:ty)*) => {$(
            impl FromPy for $t {
                fn from_py(o: Obj) -> PyResult<Self> {
                    let n = match o {
                        Obj::Int(n) => n,
                        Obj::Bool(b) => i128::from(b),
                        _ => return wrong("int"),
                    };
                    n.try_into().map_err(|_| PyErr::of("OverflowError", "out of range".into()))
                }
            }
        )*};
    }
    ints!(u16 u32 u64 usize i32 i64 u128);
    impl<T: FromPyItem> FromPy for Vec<T> {
        fn from_py(o: Obj) -> PyResult<Self> {
            T::vec(o)
        }
    }
    pub trait FromPyItem: Sized {
        fn vec(o: Obj) -> PyResult<Vec<Self>>;
    }
    impl FromPyItem for u8 {
        fn vec(o: Obj) -> PyResult<Vec<u8>> {
            match o {
                Obj::Bytes(b) => Ok(b),
                Obj::List(v) | Obj::Tuple(v) => v
                    .into_iter()
                    .map(|x| match x {
                        Obj::Int(n) => n.try_into().map_err(|_| PyErr::of("OverflowError", "out of range".into())),
                        _ => wrong("int"),
                    })
                    .collect(),
                _ => wrong("bytes"),
            }
        }
    }
    impl FromPyItem for String {
        fn vec(o: Obj) -> PyResult<Vec<String>> {
            match o {
                Obj::List(v) | Obj::Tuple(v) => v.into_iter().map(String::from_py).collect(),
                _ => wrong("list"),
            }
        }
    }
    impl<T: FromPy> FromPy for Option<T> {
        fn from_py(o: Obj) -> PyResult<Self> {
            if matches!(o, Obj::None) { Ok(None) } else { T::from_py(o).map(Some) }
        }
    }
    impl FromPy for Py<PyAny> {
        fn from_py(o: Obj) -> PyResult<Self> {
            Ok(Py { obj: o, t: PhantomData })
        }
    }

    pub trait Ret {
        fn ret(self) -> PyResult<Obj>;
    }
    impl<T: ToObj> Ret for T {
        fn ret(self) -> PyResult<Obj> {
            Ok(self.obj())
        }
    }
    impl<T: ToObj, E: Into<PyErr>> Ret for Result<T, E> {
        fn ret(self) -> PyResult<Obj> {
            self.map(ToObj::obj).map_err(Into::into)
        }
    }
    pub trait ToObj {
        fn obj(self) -> Obj;
    }
    impl ToObj for () {
        fn obj(self) -> Obj {
            Obj::None
        }
    }
    impl ToObj for String {
        fn obj(self) -> Obj {
            Obj::Str(self)
        }
    }
    impl ToObj for &str {
        fn obj(self) -> Obj {
            Obj::Str(self.to_string())
        }
    }
    impl ToObj for bool {
        fn obj(self) -> Obj {
            Obj::Bool(self)
        }
    }
    impl<T> ToObj for Py<T> {
        fn obj(self) -> Obj {
            self.obj
        }
    }
    impl<T> ToObj for &Py<T> {
        fn obj(self) -> Obj {
            self.obj.clone()
        }
    }
    impl<T> ToObj for Bound<'_, T> {
        fn obj(self) -> Obj {
            self.obj
        }
    }
    impl<T: PyClass + Methods> ToObj for T {
        fn obj(self) -> Obj {
            Obj::Instance(Rc::new(self))
        }
    }

    pub trait CallArgs {
        fn args(self) -> Vec<Obj>;
    }
    impl CallArgs for () {
        fn args(self) -> Vec<Obj> {
            vec![]
        }
    }
    impl<A: ToObj> CallArgs for (A,) {
        fn args(self) -> Vec<Obj> {
            vec![self.0.obj()]
        }
    }
    impl<A: ToObj, B: ToObj> CallArgs for (A, B) {
        fn args(self) -> Vec<Obj> {
            vec![self.0.obj(), self.1.obj()]
        }
    }
    impl CallArgs for Bound<'_, types::PyTuple> {
        fn args(self) -> Vec<Obj> {
            if let Obj::Tuple(v) = self.obj { v } else { vec![] }
        }
    }
    impl CallArgs for &Bound<'_, types::PyTuple> {
        fn args(self) -> Vec<Obj> {
            self.clone().args()
        }
    }
    impl CallArgs for Py<types::PyTuple> {
        fn args(self) -> Vec<Obj> {
            if let Obj::Tuple(v) = self.obj { v } else { vec![] }
        }
    }

    pub fn new_module<'py>(py: Python<'py>) -> Bound<'py, types::PyModule> {
        Bound { obj: Obj::Module(Rc::default()), py, t: PhantomData }
    }
}
use impl_::*;

/// Proof that the interpreter is held.
#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<(&'py (), *mut ())>);
impl<'py> Python<'py> {
    pub fn attach<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R {
        f(Python(PhantomData))
    }
    pub fn with_gil<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R {
        f(Python(PhantomData))
    }
    pub fn check_signals(self) -> PyResult<()> {
        Ok(())
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> Py<PyAny> {
        Py { obj: Obj::None, t: PhantomData }
    }
}

pub struct PyAny;
pub type PyObject = Py<PyAny>;

pub struct Py<T: ?Sized> {
    pub obj: Obj,
    t: PhantomData<T>,
}
impl<T: PyClass + Methods> Py<T> {
    pub fn new(_py: Python<'_>, v: T) -> PyResult<Py<T>> {
        Ok(Py { obj: Obj::Instance(Rc::new(v)), t: PhantomData })
    }
}
impl<T> Py<T> {
    pub fn call1<A: CallArgs>(&self, py: Python<'_>, args: A) -> PyResult<Py<PyAny>> {
        self.obj.call(py, args.args()).map(|obj| Py { obj, t: PhantomData })
    }
    pub fn call0(&self, py: Python<'_>) -> PyResult<Py<PyAny>> {
        self.call1(py, ())
    }
    pub fn clone_ref(&self, _py: Python<'_>) -> Py<T> {
        Py { obj: self.obj.clone(), t: PhantomData }
    }
    pub fn bind<'py>(&self, py: Python<'py>) -> Bound<'py, T> {
        Bound { obj: self.obj.clone(), py, t: PhantomData }
    }
    pub fn into_bound(self, py: Python<'_>) -> Bound<'_, T> {
        Bound { obj: self.obj, py, t: PhantomData }
    }
    pub fn is_none(&self, _py: Python<'_>) -> bool {
        matches!(self.obj, Obj::None)
    }
    pub fn into_any(self) -> Py<PyAny> {
        Py { obj: self.obj, t: PhantomData }
    }
}

pub struct Bound<'py, T: ?Sized> {
    pub obj: Obj,
    py: Python<'py>,
    t: PhantomData<T>,
}
impl<T> Clone for Bound<'_, T> {
    fn clone(&self) -> Self {
        Bound { obj: self.obj.clone(), py: self.py, t: PhantomData }
    }
}
impl<'py, T> Bound<'py, T> {
    pub fn call1<A: CallArgs>(&self, args: A) -> PyResult<Bound<'py, PyAny>> {
        self.obj.call(self.py, args.args()).map(|obj| Bound { obj, py: self.py, t: PhantomData })
    }
    pub fn py(&self) -> Python<'py> {
        self.py
    }
    pub fn unbind(self) -> Py<T> {
        Py { obj: self.obj, t: PhantomData }
    }
    pub fn is_callable(&self) -> bool {
        matches!(self.obj, Obj::Function(_))
    }
}
impl<'py> Bound<'py, types::PyModule> {
    fn add_member(&self, n: &str, m: Member) -> PyResult<()> {
        if let Obj::Module(v) = &self.obj {
            let mut v = v.borrow_mut();
            v.retain(|x| x.0 != n);
            v.push((n.to_string(), m));
        }
        Ok(())
    }
    pub fn add_function(&self, f: FnDef) -> PyResult<()> {
        self.add_member(f.name, Member::Function(f.clone()))
    }
    pub fn add_class<T: PyClass>(&self) -> PyResult<()> {
        self.add_member(T::NAME, Member::Class(T::NAME))
    }
    pub fn add<V: ToObj>(&self, n: &str, v: V) -> PyResult<()> {
        self.add_member(n, Member::Value(v.obj()))
    }
    pub fn member(&self, n: &str) -> Option<Member> {
        if let Obj::Module(v) = &self.obj { v.borrow().iter().find(|x| x.0 == n).map(|x| x.1.clone()) } else { None }
    }
}

/// A Python exception.
#[derive(Debug, Clone)]
pub struct PyErr {
    pub kind: &'static str,
    pub message: String,
}
pub type PyResult<T> = Result<T, PyErr>;
impl PyErr {
    pub fn of(kind: &'static str, message: String) -> PyErr {
        PyErr { kind, message }
    }
    #[allow(clippy::self_named_constructors, clippy::new_ret_no_self)]
    pub fn new<T: exceptions::Exception, A: fmt::Display>(a: A) -> PyErr {
        PyErr { kind: T::NAME, message: a.to_string() }
    }
}
impl fmt::Display for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}: {}", self.kind, self.message)
    }
}
impl std::error::Error for PyErr {}
impl From<PyErr> for std::io::Error {
    fn from(e: PyErr) -> Self {
        std::io::Error::other(e)
    }
}
impl From<std::io::Error> for PyErr {
    fn from(e: std::io::Error) -> Self {
        PyErr::of("OSError", e.to_string())
    }
}

pub mod exceptions {
    use super::PyErr;
    pub trait Exception {
        const NAME: &'static str;
    }
    macro_rules! exceptions {
        ($($t:ident $n:literal)*) => {$(
            pub struct $t;
            impl Exception for $t {
                const NAME: &'static str = $n;
            }
            impl $t {
                #[allow(clippy::new_ret_no_self)]
                pub fn new_err<A: std::fmt::Display>(a: A) -> PyErr {
                    PyErr::of($n, a.to_string())
                }
            }
        )*};
    }
    exceptions!(PyRuntimeError "RuntimeError" PyValueError "ValueError" PyTypeError "TypeError" PyException "Exception" PyOSError "OSError" PyIOError "OSError"
        PyOverflowError "OverflowError" PyUnicodeDecodeError "UnicodeDecodeError" PyKeyboardInterrupt "KeyboardInterrupt");
}

pub mod types {
    use super::*;
    pub use super::PyAny;
    pub struct PyTuple;
    pub struct PyModule;
    pub struct PyString;
    pub struct PyBytes;
    impl PyTuple {
        #[allow(clippy::new_ret_no_self)]
        pub fn new<'py, T: ToObj>(py: Python<'py>, v: impl IntoIterator<Item = T>) -> PyResult<Bound<'py, PyTuple>> {
            Ok(Bound { obj: Obj::Tuple(v.into_iter().map(ToObj::obj).collect()), py, t: PhantomData })
        }
    }
    impl PyString {
        #[allow(clippy::new_ret_no_self)]
        pub fn new<'py>(py: Python<'py>, s: &str) -> Bound<'py, PyString> {
            Bound { obj: Obj::Str(s.to_string()), py, t: PhantomData }
        }
    }
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:ident, $m:expr) => {{
        let _ = &$m;
        Ok::<_, $crate::PyErr>($f::def())
    }};
    ($f:ident) => {
        $f::def()
    };
}

pub mod prelude {
    pub use crate::types::PyModule;
    pub use crate::{Bound, Py, PyAny, PyErr, PyObject, PyResult, Python, pyclass, pyfunction, pymethods, pymodule, wrap_pyfunction};
}
