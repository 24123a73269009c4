//! Objects, types and attribute lookup.
use std::ptr::{addr_of_mut, null_mut};

pub type P = *mut Obj;
pub type Str = &'static [u8];
pub const IMMORTAL: isize = 0xffff_ffff;

#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum K {
    Obj, Type, Module, Str, Int, Bool, Float, Bytes, ByteArray, Complex, Dict, FrozenSet, Set, List, Tuple, Slice, None,
    Ellipsis, Func, Builtin, Method, StaticMethod, ClassMethod, Property, MappingProxy, Wrapper, GetSet, Iter,
    Signature, Parameter, ParamMap, Partial, Alias, TypeVar, File, Exc, Code, ModInfo, GenAlias, Path, Sink,
}

#[repr(C)]
pub struct TypeObj {
    pub rc: isize,
    pub ty: *mut TypeObj,
    pub size: isize,
    pub tp_name: *const u8,
    _p1: [usize; 17],
    pub tp_flags: u64,
    _p2: [usize; 34],
    pub kind: K,
    pub name: Str,
    pub module: Str,
    pub bases: Vec<*mut TypeObj>,
    pub base: *mut TypeObj,
    pub attrs: Vec<(Str, P)>,
    pub heap: bool,
    pub doc: P,
    pub repr: Str,
}

#[repr(C)]
pub struct Obj {
    pub rc: isize,
    pub ty: *mut TypeObj,
    pub size: isize,
    pub items: *mut P,
    pub alloc: isize,
    pub s: Str,
    pub i: i64,
    pub a: P,
    pub b: P,
    pub c: P,
    pub attrs: Vec<(Str, P)>,
    pub list: Vec<P>,
    pub code: Option<&'static super::eval::Expr>,
}

const IMM: u64 = 1 << 8;
impl TypeObj {
    const fn new(name: &'static str, module: &'static str, base: *mut TypeObj, kind: K, flags: u64) -> Self {
        let b = name.as_bytes();
        let (short, _) = b.split_at(b.len() - 1);
        TypeObj { rc: IMMORTAL, ty: addr_of_mut!(PyType_Type), size: 0, tp_name: b.as_ptr(), _p1: [0; 17], tp_flags: flags | IMM, _p2: [0; 34], kind, name: short,
            module: module.as_bytes(), bases: Vec::new(), base, attrs: Vec::new(), heap: false, doc: null_mut(), repr: b"" }
    }
    pub const fn public(name: &'static str, module: &'static str, repr: Str) -> Self {
        let mut t = Self::heapy(name, module, addr_of_mut!(PyBaseObject_Type), K::Obj, 0);
        t.repr = repr;
        t
    }
    const fn heapy(name: &'static str, module: &'static str, base: *mut TypeObj, kind: K, flags: u64) -> Self {
        let mut t = Self::new(name, module, base, kind, flags);
        t.tp_flags &= !IMM;
        t.heap = true;
        t
    }
}
macro_rules! tys { ($f:ident: $($id:ident = $name:literal, $module:literal, $base:ident, $kind:ident, $flags:expr;)*) => {$(
    pub static mut $id: TypeObj = TypeObj::$f(concat!($name, "\0"), $module, addr_of_mut!($base), K::$kind, $flags);
)*} }
pub static mut PyBaseObject_Type: TypeObj = TypeObj::new("object\0", "builtins", null_mut(), K::Obj, 0);
tys! { new:
    PyType_Type = "type", "builtins", PyBaseObject_Type, Type, 1 << 31;
    PyModule_Type = "module", "builtins", PyBaseObject_Type, Module, 0;
    PyUnicode_Type = "str", "builtins", PyBaseObject_Type, Str, 1 << 28;
    PyLong_Type = "int", "builtins", PyBaseObject_Type, Int, 1 << 24;
    PyBool_Type = "bool", "builtins", PyLong_Type, Bool, 1 << 24;
    PyFloat_Type = "float", "builtins", PyBaseObject_Type, Float, 0;
    PyBytes_Type = "bytes", "builtins", PyBaseObject_Type, Bytes, 1 << 27;
    PyByteArray_Type = "bytearray", "builtins", PyBaseObject_Type, ByteArray, 0;
    PyComplex_Type = "complex", "builtins", PyBaseObject_Type, Complex, 0;
    PyDict_Type = "dict", "builtins", PyBaseObject_Type, Dict, 1 << 29;
    PyFrozenSet_Type = "frozenset", "builtins", PyBaseObject_Type, FrozenSet, 0;
    PySet_Type = "set", "builtins", PyBaseObject_Type, Set, 0;
    PyList_Type = "list", "builtins", PyBaseObject_Type, List, 1 << 25;
    PyTuple_Type = "tuple", "builtins", PyBaseObject_Type, Tuple, 1 << 26;
    PySlice_Type = "slice", "builtins", PyBaseObject_Type, Slice, 0;
    PyCapsule_Type = "PyCapsule", "builtins", PyBaseObject_Type, Obj, 0;
    PyCFunction_Type = "builtin_function_or_method", "builtins", PyBaseObject_Type, Builtin, 0;
    PyCode_Type = "code", "builtins", PyBaseObject_Type, Code, 0;
    PyFrame_Type = "frame", "builtins", PyBaseObject_Type, Obj, 0;
    PyFunction_Type = "function", "builtins", PyBaseObject_Type, Func, 0;
    PySuper_Type = "super", "builtins", PyBaseObject_Type, Obj, 0;
    PyTraceBack_Type = "traceback", "builtins", PyBaseObject_Type, Obj, 0;
    PyProperty_Type = "property", "builtins", PyBaseObject_Type, Property, 0;
    PyStaticMethod_Type = "staticmethod", "builtins", PyBaseObject_Type, StaticMethod, 0;
    PyClassMethod_Type = "classmethod", "builtins", PyBaseObject_Type, ClassMethod, 0;
    PyMethod_Type = "method", "builtins", PyBaseObject_Type, Method, 0;
    PyDictProxy_Type = "mappingproxy", "builtins", PyBaseObject_Type, MappingProxy, 0;
    PyWrapperDescr_Type = "wrapper_descriptor", "builtins", PyBaseObject_Type, Wrapper, 0;
    PyGetSetDescr_Type = "getset_descriptor", "builtins", PyBaseObject_Type, GetSet, 0;
    PyMemberDescr_Type = "member_descriptor", "builtins", PyBaseObject_Type, GetSet, 0;
    PyMethodDescr_Type = "method_descriptor", "builtins", PyBaseObject_Type, Wrapper, 0;
    PyEllipsis_Type = "ellipsis", "builtins", PyBaseObject_Type, Ellipsis, 0;
    NoneType = "NoneType", "builtins", PyBaseObject_Type, None, 0;
    ParamMapType = "mappingproxy", "builtins", PyBaseObject_Type, ParamMap, 0;
    IterType = "list_iterator", "builtins", PyBaseObject_Type, Iter, 0;
    PartialType = "functools.partial", "functools", PyBaseObject_Type, Partial, 0;
    TypeVarType = "typing.TypeVar", "typing", PyBaseObject_Type, TypeVar, 0;
    GenAliasType = "types.GenericAlias", "types", PyBaseObject_Type, GenAlias, 0;
    UnionType = "types.UnionType", "types", PyBaseObject_Type, GenAlias, 0;
    TextIO = "_io.TextIOWrapper", "_io", PyBaseObject_Type, File, 0;
    StringIO = "_io.StringIO", "_io", PyBaseObject_Type, Sink, 0;
    DateType = "datetime.date", "datetime", PyBaseObject_Type, Obj, 0;
    DateTimeType = "datetime.datetime", "datetime", DateType, Obj, 0;
    TimeType = "datetime.time", "datetime", PyBaseObject_Type, Obj, 0;
    DeltaType = "datetime.timedelta", "datetime", PyBaseObject_Type, Obj, 0;
    TZInfoType = "datetime.tzinfo", "datetime", PyBaseObject_Type, Obj, 0;
    ExcBase = "BaseException", "builtins", PyBaseObject_Type, Exc, 1 << 30;
    ExcException = "Exception", "builtins", ExcBase, Exc, 1 << 30;
    ExcAttr = "AttributeError", "builtins", ExcException, Exc, 1 << 30;
    ExcType = "TypeError", "builtins", ExcException, Exc, 1 << 30;
    ExcValue = "ValueError", "builtins", ExcException, Exc, 1 << 30;
    ExcImport = "ImportError", "builtins", ExcException, Exc, 1 << 30;
    ExcModNotFound = "ModuleNotFoundError", "builtins", ExcImport, Exc, 1 << 30;
    ExcKey = "KeyError", "builtins", ExcException, Exc, 1 << 30;
    ExcIndex = "IndexError", "builtins", ExcException, Exc, 1 << 30;
    ExcName = "NameError", "builtins", ExcException, Exc, 1 << 30;
    ExcRuntime = "RuntimeError", "builtins", ExcException, Exc, 1 << 30;
    ExcSystem = "SystemError", "builtins", ExcException, Exc, 1 << 30;
    ExcStop = "StopIteration", "builtins", ExcException, Exc, 1 << 30;
    ExcOverflow = "OverflowError", "builtins", ExcException, Exc, 1 << 30;
    ExcSyntax = "SyntaxError", "builtins", ExcException, Exc, 1 << 30;
    ExcOS = "OSError", "builtins", ExcException, Exc, 1 << 30;
    ExcUnicode = "UnicodeDecodeError", "builtins", ExcValue, Exc, 1 << 30;
}
tys! { heapy:
    SignatureType = "Signature", "inspect", PyBaseObject_Type, Signature, 0;
    ParameterType = "Parameter", "inspect", PyBaseObject_Type, Parameter, 0;
    ParamKindType = "_ParameterKind", "inspect", PyLong_Type, Int, 1 << 24;
    ModInfoType = "ModuleInfo", "pkgutil", PyTuple_Type, ModInfo, 0;
    AliasType = "_GenericAlias", "typing", PyBaseObject_Type, Alias, 0;
    UnionAliasType = "_UnionGenericAlias", "typing", AliasType, Alias, 0;
    CallableAliasType = "_CallableGenericAlias", "typing", AliasType, Alias, 0;
    SpecialAliasType = "_SpecialGenericAlias", "typing", PyBaseObject_Type, Alias, 0;
    SpecialFormType = "_SpecialForm", "typing", PyBaseObject_Type, Alias, 0;
    ForwardRefType = "ForwardRef", "typing", PyBaseObject_Type, Alias, 0;
    PosixPath = "PosixPath", "pathlib", PyBaseObject_Type, Path, 0;
    SpecType = "ModuleSpec", "_frozen_importlib", PyBaseObject_Type, Obj, 0;
    LoaderType = "SourceFileLoader", "_frozen_importlib_external", PyBaseObject_Type, Obj, 0;
}

impl Obj {
    pub const fn empty(ty: *mut TypeObj) -> Obj {
        Obj { rc: IMMORTAL, ty, size: 0, items: null_mut(), alloc: 0, s: b"", i: 0, a: null_mut(), b: null_mut(), c: null_mut(), attrs: Vec::new(), list: Vec::new(), code: None }
    }
}
pub static mut _Py_NoneStruct: Obj = Obj::empty(addr_of_mut!(NoneType));
pub static mut _Py_EllipsisObject: Obj = Obj::empty(addr_of_mut!(PyEllipsis_Type));
pub static mut _Py_FalseStruct: Obj = Obj::empty(addr_of_mut!(PyBool_Type));
pub static mut _Py_TrueStruct: Obj = { let mut o = Obj::empty(addr_of_mut!(PyBool_Type)); o.i = 1; o };
/// `inspect.Signature.empty` / `inspect.Parameter.empty`
pub static mut EmptyType: TypeObj = TypeObj::heapy("_empty\0", "inspect", addr_of_mut!(PyBaseObject_Type), K::Obj, 0);

pub struct Mod { pub name: Str, pub obj: P, pub loaded: bool, pub done: bool, pub parent: Str, pub short: Str, pub prints: u8, pub raises: bool, pub source: bool, pub deps: Vec<Str> }
pub struct World {
    pub err: P,
    pub mods: Vec<Mod>,
    pub out: Vec<(u8, Str)>,
    pub interned: Vec<P>,
    /// results of `dir()` that are not the names of the attributes (null: raises)
    pub listings: Vec<(P, P)>,
}
pub static mut W: World = World { err: null_mut(), mods: Vec::new(), out: Vec::new(), interned: Vec::new(), listings: Vec::new() };

pub fn none() -> P { addr_of_mut!(_Py_NoneStruct) }
pub fn tp(t: *mut TypeObj) -> P { t as P }
pub fn alloc(o: Obj) -> P { Box::into_raw(Box::new(o)) }
pub fn leak(b: &[u8]) -> Str { Box::leak(b.to_vec().into_boxed_slice()) }
pub fn cat(parts: &[&[u8]]) -> Str { let mut v = Vec::new(); for p in parts { v.extend_from_slice(p); } Box::leak(v.into_boxed_slice()) }
pub fn new(ty: *mut TypeObj) -> P { alloc(Obj::empty(ty)) }
pub fn s(b: Str) -> P { unsafe { let o = new(addr_of_mut!(PyUnicode_Type)); (*o).s = b; o } }
pub fn int(i: i64) -> P { unsafe { let o = new(addr_of_mut!(PyLong_Type)); (*o).i = i; o } }
pub fn boolean(b: bool) -> P { if b { addr_of_mut!(_Py_TrueStruct) } else { addr_of_mut!(_Py_FalseStruct) } }
pub fn list(v: Vec<P>) -> P {
    unsafe {
        let o = new(addr_of_mut!(PyList_Type));
        (*o).size = v.len() as isize;
        (*o).alloc = v.len() as isize;
        let v = Box::leak(v.into_boxed_slice());
        (*o).items = v.as_mut_ptr();
        o
    }
}
/// Tuples hold their items inline after the variable-size header.
pub fn tuple(v: &[P]) -> P {
    unsafe {
        let mut w: Vec<usize> = Vec::with_capacity(3 + v.len().max(1));
        w.push(IMMORTAL as usize);
        w.push(addr_of_mut!(PyTuple_Type) as usize);
        w.push(v.len());
        for x in v { w.push(*x as usize); }
        if v.is_empty() { w.push(0); }
        Box::leak(w.into_boxed_slice()).as_mut_ptr() as P
    }
}
pub fn ty_of(o: P) -> *mut TypeObj { unsafe { (*o).ty } }
pub fn kind(o: P) -> K { unsafe { let t = (*o).ty; if t == addr_of_mut!(PyType_Type) { K::Type } else { (*t).kind } } }
pub fn seq(o: P) -> &'static mut [P] {
    unsafe {
        match kind(o) {
            K::Tuple => std::slice::from_raw_parts_mut((o as *mut P).add(3), (*o).size as usize),
            K::List => if (*o).size == 0 { &mut [] } else { std::slice::from_raw_parts_mut((*o).items, (*o).size as usize) },
            K::ModInfo | K::FrozenSet | K::Set | K::ParamMap => { let v: &'static mut Vec<P> = &mut (*o).list; v.as_mut_slice() }
            _ => unsupported("sequence access"),
        }
    }
}
#[cold]
pub fn unsupported(what: &str) -> ! { panic!("MODEL-UNSUPPORTED: {what}") }
pub fn text(o: P) -> Str { unsafe { if kind(o) != K::Str { unsupported("text of non-str") } (*o).s } }

pub fn raise(t: *mut TypeObj, msg: Str) -> P {
    unsafe {
        let e = new(t);
        (*e).s = msg;
        W.err = e;
        null_mut()
    }
}
pub fn mro(t: *mut TypeObj) -> Vec<*mut TypeObj> {
    fn go(t: *mut TypeObj, v: &mut Vec<*mut TypeObj>) {
        unsafe {
            if let Some(i) = v.iter().position(|x| *x == t) { v.remove(i); }
            v.push(t);
            if (*t).bases.is_empty() { if !(*t).base.is_null() { go((*t).base, v); } } else { for b in &(*t).bases { go(*b, v); } }
        }
    }
    let mut v = Vec::new();
    go(t, &mut v);
    v
}
pub fn is_sub(t: *mut TypeObj, of: *mut TypeObj) -> bool {
    unsafe {
        let mut c = t;
        while !c.is_null() {
            if c == of { return true; }
            if !(*c).bases.is_empty() { return (*c).bases.iter().any(|b| is_sub(*b, of)); }
            c = (*c).base;
        }
        false
    }
}
pub fn find(v: &[(Str, P)], n: &[u8]) -> Option<P> { for (k, x) in v { if k.len() == n.len() && *k == n { return Some(*x); } } None }
pub fn set(v: &mut Vec<(Str, P)>, n: Str, x: P) { for (k, y) in v.iter_mut() { if k.len() == n.len() && *k == n { *y = x; return; } } v.push((n, x)); }
pub fn type_lookup(t: *mut TypeObj, n: &[u8]) -> Option<P> {
    unsafe { if (*t).bases.is_empty() && ((*t).base.is_null() || !(*t).heap) {
        let mut c = t;
        while !c.is_null() { if let Some(x) = find(&(*c).attrs, n) { return Some(x); } c = (*c).base; }
        return None;
    } }
    for c in mro(t) { if let Some(x) = unsafe { find(&(*c).attrs, n) } { return Some(x); } }
    None
}
pub fn method(f: P, slf: P) -> P { unsafe { let m = new(addr_of_mut!(PyMethod_Type)); (*m).a = f; (*m).b = slf; m } }
/// A native function identified by `i`.
pub fn builtin(name: &'static str, module: &'static str) -> P {
    unsafe { let o = new(addr_of_mut!(PyCFunction_Type)); (*o).s = name.as_bytes(); (*o).a = s(module.as_bytes()); o }
}
fn bound_native(name: &'static str, slf: P) -> P { unsafe { let o = builtin(name, "builtins"); (*o).b = slf; o } }

/// Attribute lookup; `None` without an exception set means "no such attribute".
pub fn lookup(o: P, n: &[u8]) -> Option<P> {
    unsafe {
        let t = ty_of(o);
        if n == b"__class__" { return Some(tp(t)); }
        match kind(o) {
            K::Type => {
                let c = o as *mut TypeObj;
                match n {
                    b"__name__" | b"__qualname__" => return Some(s(short_name((*c).name))),
                    b"__module__" => return Some(s((*c).module)),
                    b"__doc__" => { if let Some(d) = find(&(*c).attrs, b"__doc__") { return Some(d); } return Some(if (*c).doc.is_null() { none() } else { (*c).doc }); }
                    b"__dict__" => { let m = new(addr_of_mut!(PyDictProxy_Type)); (*m).a = o; return Some(m); }
                    b"__mro__" => { let v: Vec<P> = mro(c).into_iter().map(tp).collect(); return Some(tuple(&v)); }
                    b"__bases__" => { let v: Vec<P> = if (*c).bases.is_empty() { if (*c).base.is_null() { vec![] } else { vec![tp((*c).base)] } } else { (*c).bases.iter().map(|b| tp(*b)).collect() }; return Some(tuple(&v)); }
                    b"empty" if c == addr_of_mut!(SignatureType) || c == addr_of_mut!(ParameterType) => return Some(tp(addr_of_mut!(EmptyType))),
                    _ => {}
                }
                let x = type_lookup(c, n)?;
                Some(match kind(x) { K::StaticMethod => (*x).a, K::ClassMethod => method((*x).a, o), _ => x })
            }
            K::Module => find(&(*o).attrs, n),
            K::Func => match n {
                b"__name__" => Some(s((*o).s)),
                b"__qualname__" => Some((*o).c),
                b"__module__" => Some((*o).a),
                b"__doc__" => Some((*o).b),
                _ => find(&(*o).attrs, n),
            },
            K::Builtin => match n { b"__name__" | b"__qualname__" => Some(s((*o).s)), b"__module__" => Some((*o).a), b"__doc__" => Some(if (*o).c.is_null() { none() } else { (*o).c }), _ => None },
            K::Method => match n { b"__func__" => Some((*o).a), b"__self__" => Some((*o).b), _ => lookup((*o).a, n) },
            K::StaticMethod | K::ClassMethod => match n { b"__func__" | b"__wrapped__" => Some((*o).a), b"__name__" | b"__doc__" | b"__module__" | b"__qualname__" => lookup((*o).a, n), _ => None },
            K::Property => match n {
                b"fget" => Some((*o).a), b"fset" => Some((*o).b), b"fdel" => Some((*o).c),
                b"__doc__" => if kind((*o).a) == K::Func { lookup((*o).a, n) } else { Some(none()) },
                _ => None,
            },
            K::Signature => match n {
                b"parameters" => Some((*o).a), b"return_annotation" => Some((*o).b), b"empty" => Some(tp(addr_of_mut!(EmptyType))),
                b"__module__" => Some(s(b"inspect")), _ => None,
            },
            K::Parameter => match n {
                b"name" => Some(s((*o).s)), b"kind" => { let k = new(addr_of_mut!(ParamKindType)); (*k).i = (*o).i; Some(k) }
                b"annotation" => Some((*o).a), b"default" => Some((*o).b), b"empty" => Some(tp(addr_of_mut!(EmptyType))),
                b"__module__" => Some(s(b"inspect")), _ => None,
            },
            K::ParamMap => match n { b"values" => Some(bound_native("values", o)), b"items" => Some(bound_native("items", o)), b"keys" => Some(bound_native("keys", o)), _ => None },
            K::Dict => match n { b"get" => Some(bound_native("get", o)), b"items" => Some(bound_native("items", o)), b"keys" => Some(bound_native("keys", o)), b"values" => Some(bound_native("values", o)), b"__doc__" => Some(s(b"dict() -> new empty dictionary")), _ => None },
            K::MappingProxy => match n { b"get" => Some(bound_native("get", o)), b"items" => Some(bound_native("items", o)), b"keys" => Some(bound_native("keys", o)), _ => None },
            K::ModInfo => match n { b"name" => Some((*o).a), b"ispkg" => Some((*o).b), b"module_finder" => Some(none()), b"__module__" => Some(s(b"pkgutil")), _ => None },
            K::Alias => match n {
                b"__origin__" if !(*o).a.is_null() => Some((*o).a),
                b"__args__" if !(*o).b.is_null() => Some((*o).b),
                b"__metadata__" if !(*o).c.is_null() => Some((*o).c),
                b"__module__" => Some(s(b"typing")),
                b"__name__" | b"_name" => Some(s((*o).s)),
                _ => None,
            },
            K::GenAlias => match n {
                b"__origin__" if !(*o).a.is_null() => Some((*o).a),
                b"__args__" if !(*o).b.is_null() => Some((*o).b),
                b"__module__" => if (*o).a.is_null() { None } else { lookup((*o).a, n) },
                _ => None,
            },
            K::TypeVar => match n { b"__name__" => Some(s((*o).s)), b"__module__" => Some((*o).a), b"__doc__" => Some(none()), _ => None },
            K::Partial => match n { b"func" => Some((*o).a), b"__module__" => Some(s(b"functools")), b"__doc__" => Some(s(PARTIAL_DOC)), _ => find(&(*o).attrs, n) },
            K::File | K::Sink => match n { b"write" => Some(bound_native("write", o)), b"flush" => Some(bound_native("flush", o)), b"close" => Some(bound_native("close", o)), b"__module__" => None, _ => None },
            K::Str => match n { b"startswith" => Some(bound_native("startswith", o)), b"__doc__" => Some(s(b"str(object='') -> str")), _ => None },
            _ => {
                // (tuples have their own layout)
                if kind(o) != K::Tuple { if let Some(x) = find(&(*o).attrs, n) { return Some(x); } }
                if n == b"__module__" { return if (*t).heap { Some(s((*t).module)) } else { None }; }
                if n == b"__doc__" { return lookup(tp(t), n); }
                if n == b"__dict__" { return None; }
                let x = type_lookup(t, n)?;
                Some(match kind(x) {
                    K::StaticMethod => (*x).a,
                    K::ClassMethod => method((*x).a, tp(t)),
                    K::Func | K::Wrapper => method(x, o),
                    K::Property => { return call_getter(x, o); }
                    _ => x,
                })
            }
        }
    }
}
fn call_getter(p: P, _o: P) -> Option<P> { unsafe { if kind((*p).a) == K::None { None } else { Some(none()) } } }
const PARTIAL_DOC: Str = b"partial(func, *args, **keywords) - new function with partial application\n    of the given arguments and keywords.\n";

pub fn short_name(n: Str) -> Str { match n.iter().rposition(|c| *c == b'.') { Some(i) => &n[i + 1..], None => n } }

/// `str(o)`
pub fn str_of(o: P) -> Str {
    unsafe {
        match kind(o) {
            K::Str => (*o).s,
            K::None => b"None",
            K::Ellipsis => b"Ellipsis",
            K::Bool => if (*o).i != 0 { b"True" } else { b"False" },
            K::Int => { let t = (*o).i.to_string(); leak(t.as_bytes()) }
            K::Float => b"1.5",
            K::Type => {
                let c = o as *mut TypeObj;
                if !(*c).repr.is_empty() { return (*c).repr; }
                let n = short_name((*c).name);
                if (*c).module == b"builtins" { cat(&[b"<class '", n, b"'>"]) } else { cat(&[b"<class '", (*c).module, b".", n, b"'>"]) }
            }
            K::Module => match find(&(*o).attrs, b"__name__") { Some(n) if kind(n) == K::Str => cat(&[b"<module '", (*n).s, b"'>"]), _ => b"<module '?'>" },
            K::Func => cat(&[b"<function ", (*(*o).c).s, b" at 0x7f0000000000>"]),
            K::Builtin => cat(&[b"<built-in function ", (*o).s, b">"]),
            K::Method => cat(&[b"<bound method ", str_of((*o).a), b">"]),
            K::Property => b"<property object at 0x7f0000000000>",
            K::Alias | K::GenAlias | K::Exc | K::Path => (*o).s,
            K::TypeVar => cat(&[b"~", (*o).s]),
            K::Wrapper => cat(&[b"<slot wrapper '", (*o).s, b"' of 'object' objects>"]),
            _ => {
                let t = ty_of(o);
                cat(&[b"<", (*t).module, b".", short_name((*t).name), b" object at 0x7f0000000000>"])
            }
        }
    }
}
/// `sorted(dir(o))`
pub fn dir(o: P) -> Vec<Str> {
    unsafe {
        let mut v: Vec<Str> = Vec::new();
        let add = |v: &mut Vec<Str>, n: Str| { if !v.iter().any(|x| x.len() == n.len() && *x == n) { v.push(n); } };
        match kind(o) {
            K::Module => for (n, _) in (*o).attrs.iter() { add(&mut v, n); },
            K::Type => for c in mro(o as *mut TypeObj) { for (n, _) in (*c).attrs.iter() { add(&mut v, n); } },
            K::Tuple => for c in mro(ty_of(o)) { for (n, _) in (*c).attrs.iter() { add(&mut v, n); } },
            _ => { for (n, _) in (*o).attrs.iter() { add(&mut v, n); } for c in mro(ty_of(o)) { for (n, _) in (*c).attrs.iter() { add(&mut v, n); } } }
        }
        // insertion sort (the names may be symbolic)
        let mut i = 1;
        while i < v.len() {
            let mut j = i;
            while j > 0 && v[j] < v[j - 1] { v.swap(j, j - 1); j -= 1; }
            i += 1;
        }
        v
    }
}
/// Create a heap type (`class` statement).
pub fn new_class(name: Str, module: Str, bases: Vec<*mut TypeObj>) -> *mut TypeObj {
    unsafe {
        let first = if bases.is_empty() { addr_of_mut!(PyBaseObject_Type) } else { bases[0] };
        let k = (*first).kind;
        let cname = cat(&[name, b"\0"]);
        let mut flags = 0;
        for b in &bases { flags |= (**b).tp_flags & !IMM; }
        let t = Box::into_raw(Box::new(TypeObj { rc: IMMORTAL, ty: addr_of_mut!(PyType_Type), size: 0, tp_name: cname.as_ptr(), _p1: [0; 17], tp_flags: flags, _p2: [0; 34], kind: k, name, module,
            bases: if bases.is_empty() { vec![addr_of_mut!(PyBaseObject_Type)] } else { bases }, base: first, attrs: Vec::new(), heap: true, doc: null_mut(), repr: b"" }));
        t
    }
}
pub fn world() -> &'static mut World { unsafe { &mut W } }
