//! The C API entry points used by pyo3, implemented over the object model.
use super::eval::{self, Expr};
pub use super::obj::*;
pub use crate::disk::{__errno_location, open64, write, close, fsync, ftruncate64, lseek64, mkdir};
use std::ptr::{addr_of_mut, null_mut};
type C = *const u8;
type I = i32;
type Z = isize;

macro_rules! excs { ($($id:ident = $t:ident;)*) => {$( pub static mut $id: P = addr_of_mut!($t) as P; )*} }
excs! {
    PyExc_BaseException = ExcBase; PyExc_Exception = ExcException; PyExc_AttributeError = ExcAttr; PyExc_TypeError = ExcType;
    PyExc_ValueError = ExcValue; PyExc_ImportError = ExcImport; PyExc_ModuleNotFoundError = ExcModNotFound; PyExc_KeyError = ExcKey;
    PyExc_IndexError = ExcIndex; PyExc_NameError = ExcName; PyExc_RuntimeError = ExcRuntime; PyExc_SystemError = ExcSystem;
    PyExc_StopIteration = ExcStop; PyExc_OverflowError = ExcOverflow; PyExc_SyntaxError = ExcSyntax; PyExc_OSError = ExcOS; PyExc_UnicodeDecodeError = ExcUnicode;
}

unsafe fn cstr(p: C) -> &'static [u8] { let mut n = 0; while *p.add(n) != 0 { n += 1; } std::slice::from_raw_parts(p, n) }
fn ret(x: Option<P>, n: &[u8], o: P) -> P {
    match x {
        Some(x) => x,
        None => { if unsafe { !W.err.is_null() } { return null_mut(); } let t = unsafe { short_name((*ty_of(o)).name) }; raise(addr_of_mut!(ExcAttr), cat(&[b"'", t, b"' object has no attribute '", n, b"'"])) }
    }
}

// --- interpreter state
pub unsafe extern "C" fn Py_IsInitialized() -> I { 1 }
pub unsafe extern "C" fn Py_InitializeEx(_: I) {}
pub unsafe extern "C" fn PyEval_SaveThread() -> P { null_mut() }
pub unsafe extern "C" fn PyEval_RestoreThread(_: P) {}
pub unsafe extern "C" fn PyGILState_Ensure() -> I { 0 }
pub unsafe extern "C" fn PyGILState_Release(_: I) {}
pub unsafe extern "C" fn PyGILState_Check() -> I { 1 }
pub unsafe extern "C" fn _Py_Dealloc(_: P) {}
pub unsafe extern "C" fn Py_IncRef(_: P) {}
pub unsafe extern "C" fn Py_DecRef(_: P) {}

// --- errors
pub unsafe extern "C" fn PyErr_Occurred() -> P { if W.err.is_null() { null_mut() } else { (*W.err).ty as P } }
pub unsafe extern "C" fn PyErr_GetRaisedException() -> P { let e = W.err; W.err = null_mut(); e }
pub unsafe extern "C" fn PyErr_SetRaisedException(e: P) { W.err = e; }
pub unsafe extern "C" fn PyErr_Clear() { W.err = null_mut(); }
pub unsafe extern "C" fn PyErr_SetObject(t: P, v: P) { if kind(v) == K::Exc { W.err = v; } else { raise(t as *mut TypeObj, str_of(v)); } }
pub unsafe extern "C" fn PyErr_SetString(t: P, m: C) { raise(t as *mut TypeObj, cstr(m)); }
pub unsafe extern "C" fn PyErr_NewExceptionWithDoc(n: C, _d: C, base: P, _dict: P) -> P {
    let b = if base.is_null() { addr_of_mut!(ExcException) } else { base as *mut TypeObj };
    new_class(short_name(cstr(n)), b"pyo3_runtime", vec![b]) as P
}
pub unsafe extern "C" fn PyErr_GivenExceptionMatches(e: P, t: P) -> I {
    let et = if kind(e) == K::Type { e as *mut TypeObj } else { ty_of(e) };
    is_sub(et, t as *mut TypeObj) as I
}
pub unsafe extern "C" fn PyErr_ExceptionMatches(t: P) -> I { if W.err.is_null() { 0 } else { is_sub(ty_of(W.err), t as *mut TypeObj) as I } }
pub unsafe extern "C" fn PyException_GetTraceback(_: P) -> P { null_mut() }
pub unsafe extern "C" fn PyException_SetTraceback(_: P, _: P) -> I { 0 }
pub unsafe extern "C" fn PyException_GetCause(_: P) -> P { null_mut() }
pub unsafe extern "C" fn PyException_SetCause(_: P, _: P) {}
pub unsafe extern "C" fn PyErr_WriteUnraisable(_: P) { W.err = null_mut(); }
pub unsafe extern "C" fn PyErr_PrintEx(_: I) { W.err = null_mut(); }
pub unsafe extern "C" fn PyErr_DisplayException(_: P) {}
pub unsafe extern "C" fn PyErr_CheckSignals() -> I { 0 }

// --- strings
pub unsafe extern "C" fn PyUnicode_FromStringAndSize(p: C, n: Z) -> P { s(leak(std::slice::from_raw_parts(p, n as usize))) }
pub unsafe extern "C" fn PyUnicode_DecodeFSDefaultAndSize(p: C, n: Z) -> P { PyUnicode_FromStringAndSize(p, n) }
pub unsafe extern "C" fn PyUnicode_FromString(p: C) -> P { s(leak(cstr(p))) }
pub unsafe extern "C" fn PyUnicode_InternFromString(p: C) -> P { s(leak(cstr(p))) }
pub unsafe extern "C" fn PyUnicode_InternInPlace(_: *mut P) {}
pub unsafe extern "C" fn PyUnicode_AsUTF8AndSize(o: P, n: *mut Z) -> C {
    if kind(o) != K::Str { raise(addr_of_mut!(ExcType), b"bad argument type for built-in operation"); return std::ptr::null(); }
    if !n.is_null() { *n = (*o).s.len() as isize; }
    (*o).s.as_ptr()
}
pub unsafe extern "C" fn PyUnicode_AsUTF8(o: P) -> C { cat(&[(*o).s, b"\0"]).as_ptr() }
pub unsafe extern "C" fn PyUnicode_AsUTF8String(o: P) -> P { bytes((*o).s) }
pub unsafe extern "C" fn PyUnicode_AsEncodedString(o: P, _: C, _: C) -> P { bytes((*o).s) }
pub unsafe extern "C" fn PyUnicode_EncodeFSDefault(o: P) -> P { bytes((*o).s) }
unsafe fn bytes(_: Str) -> P { unsupported("bytes objects") }
pub unsafe extern "C" fn PyUnicode_CompareWithASCIIString(o: P, c: C) -> I { match (*o).s.cmp(cstr(c)) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 } }

// --- numbers
pub unsafe extern "C" fn PyLong_AsLong(o: P) -> i64 { if is_sub(ty_of(o), addr_of_mut!(PyLong_Type)) { (*o).i } else { raise(addr_of_mut!(ExcType), b"an integer is required"); -1 } }
pub unsafe extern "C" fn PyLong_AsLongLong(o: P) -> i64 { PyLong_AsLong(o) }
pub unsafe extern "C" fn PyLong_AsUnsignedLongLong(o: P) -> u64 { PyLong_AsLong(o) as u64 }
pub unsafe extern "C" fn PyLong_AsSsize_t(o: P) -> Z { PyLong_AsLong(o) as Z }
pub unsafe extern "C" fn PyNumber_Index(o: P) -> P { if is_sub(ty_of(o), addr_of_mut!(PyLong_Type)) { o } else { raise(addr_of_mut!(ExcType), b"object cannot be interpreted as an integer") } }
pub unsafe extern "C" fn PyLong_FromLong(i: i64) -> P { int(i) }
pub unsafe extern "C" fn PyLong_FromLongLong(i: i64) -> P { int(i) }
pub unsafe extern "C" fn PyLong_FromUnsignedLongLong(i: u64) -> P { int(i as i64) }
pub unsafe extern "C" fn PyLong_FromSsize_t(i: Z) -> P { int(i as i64) }
pub unsafe extern "C" fn PyBool_FromLong(i: i64) -> P { boolean(i != 0) }

// --- generic objects
pub unsafe extern "C" fn PyObject_GetAttr(o: P, n: P) -> P { let n = (*n).s; ret(lookup(o, n), n, o) }
pub unsafe extern "C" fn PyObject_GetAttrString(o: P, n: C) -> P { let n = cstr(n); ret(lookup(o, n), n, o) }
pub unsafe extern "C" fn PyObject_HasAttr(o: P, n: P) -> I { let r = lookup(o, (*n).s).is_some(); W.err = null_mut(); r as I }
pub unsafe extern "C" fn PyObject_SetAttr(o: P, n: P, v: P) -> I { set_attr(o, (*n).s, v); 0 }
pub unsafe extern "C" fn PyObject_SetAttrString(o: P, n: C, v: P) -> I { set_attr(o, leak(cstr(n)), v); 0 }
pub unsafe extern "C" fn PyObject_GenericSetAttr(o: P, n: P, v: P) -> I { set_attr(o, (*n).s, v); 0 }
pub unsafe fn set_attr(o: P, n: Str, v: P) {
    match kind(o) {
        K::Type => { let t = o as *mut TypeObj; set(&mut (*t).attrs, n, v) }
        K::Tuple | K::Str | K::Int => unsupported("setattr on builtin object"),
        _ => set(&mut (*o).attrs, n, v),
    }
}
pub unsafe extern "C" fn PyObject_Str(o: P) -> P { if kind(o) == K::Str { o } else { s(str_of(o)) } }
pub unsafe extern "C" fn PyObject_Repr(o: P) -> P { if kind(o) == K::Str { s(cat(&[b"'", (*o).s, b"'"])) } else { s(str_of(o)) } }
pub unsafe extern "C" fn PyObject_Dir(o: P) -> P {
    for (x, l) in W.listings.iter() { if *x == o { return if l.is_null() { raise(addr_of_mut!(ExcValue), b"no") } else { list((**l).list.clone()) }; } }
    list(dir(o).into_iter().map(s).collect())
}
pub unsafe extern "C" fn PyObject_IsTrue(o: P) -> I { truthy(o) as I }
pub unsafe extern "C" fn PyObject_Not(o: P) -> I { !truthy(o) as I }
pub unsafe fn truthy(o: P) -> bool {
    match kind(o) {
        K::None => false,
        K::Bool | K::Int => (*o).i != 0,
        K::Str => !(*o).s.is_empty(),
        K::List | K::Tuple => (*o).size != 0,
        K::Dict => !(*o).attrs.is_empty(),
        _ => true,
    }
}
pub unsafe extern "C" fn PyObject_IsSubclass(a: P, b: P) -> I {
    if kind(b) == K::Tuple { for x in seq(b) { if PyObject_IsSubclass(a, *x) == 1 { return 1; } } return 0; }
    if kind(a) != K::Type { raise(addr_of_mut!(ExcType), b"issubclass() arg 1 must be a class"); return -1; }
    is_sub(a as *mut TypeObj, b as *mut TypeObj) as I
}
pub unsafe extern "C" fn PyType_IsSubtype(a: *mut TypeObj, b: *mut TypeObj) -> I { is_sub(a, b) as I }
pub unsafe extern "C" fn PyType_GetFlags(a: *mut TypeObj) -> u64 { (*a).tp_flags }
pub unsafe extern "C" fn PyType_GetName(a: *mut TypeObj) -> P { s(short_name((*a).name)) }
pub unsafe extern "C" fn PyType_GetQualName(a: *mut TypeObj) -> P { s(short_name((*a).name)) }
pub unsafe extern "C" fn PyObject_Type(o: P) -> P { (*o).ty as P }
pub unsafe extern "C" fn PyObject_IsInstance(o: P, t: P) -> I {
    if kind(t) == K::Tuple { for x in seq(t) { if PyObject_IsInstance(o, *x) == 1 { return 1; } } return 0; }
    is_sub(ty_of(o), t as *mut TypeObj) as I
}
pub unsafe extern "C" fn PyCallable_Check(o: P) -> I { matches!(kind(o), K::Type | K::Func | K::Builtin | K::Method | K::Partial) as I }
pub unsafe fn equal(a: P, b: P) -> bool {
    if a == b { return true; }
    match (kind(a), kind(b)) {
        (K::Str, K::Str) => (*a).s.len() == (*b).s.len() && (*a).s == (*b).s,
        (K::Int | K::Bool, K::Int | K::Bool) => (*a).i == (*b).i,
        (K::Tuple, K::Tuple) => (*a).size == (*b).size && seq(a).iter().zip(seq(b).iter()).all(|(x, y)| equal(*x, *y)),
        _ => false,
    }
}
pub unsafe extern "C" fn PyObject_RichCompare(a: P, b: P, op: I) -> P { match op { 2 => boolean(equal(a, b)), 3 => boolean(!equal(a, b)), _ => unsupported("rich comparison") } }
pub unsafe extern "C" fn PyObject_RichCompareBool(a: P, b: P, op: I) -> I { match op { 2 => equal(a, b) as I, 3 => !equal(a, b) as I, _ => unsupported("rich comparison") } }
pub unsafe extern "C" fn PyObject_Hash(o: P) -> Z { if kind(o) == K::Str { 1 } else { o as Z } }
pub unsafe extern "C" fn PyObject_Size(o: P) -> Z { match kind(o) { K::List | K::Tuple => (*o).size, K::Dict => (*o).attrs.len() as Z, _ => unsupported("len()") } }
pub unsafe extern "C" fn PyObject_GetItem(o: P, k: P) -> P {
    match kind(o) {
        K::MappingProxy => match find(&(*((*o).a as *mut TypeObj)).attrs, text(k)) { Some(x) => x, None => raise(addr_of_mut!(ExcKey), (*k).s) },
        K::Dict => match find(&(*dict_of(o)), text(k)) { Some(x) => x, None => raise(addr_of_mut!(ExcKey), (*k).s) },
        K::List | K::Tuple => { let v = seq(o); let i = (*k).i; if i < 0 || i as usize >= v.len() { raise(addr_of_mut!(ExcIndex), b"index out of range") } else { v[i as usize] } }
        _ => raise(addr_of_mut!(ExcType), b"object is not subscriptable"),
    }
}
pub unsafe extern "C" fn PyObject_SetItem(o: P, k: P, v: P) -> I { match kind(o) { K::Dict => { set(dict_of(o), text(k), v); 0 } _ => unsupported("setitem") } }
pub unsafe extern "C" fn PySequence_Contains(o: P, k: P) -> I {
    match kind(o) { K::Dict => find(dict_of(o), text(k)).is_some() as I, K::MappingProxy => find(&(*((*o).a as *mut TypeObj)).attrs, text(k)).is_some() as I, _ => seq(o).iter().any(|x| equal(*x, k)) as I }
}
pub unsafe extern "C" fn PySequence_List(o: P) -> P { list(elements(o)) }
pub unsafe extern "C" fn PySequence_Tuple(o: P) -> P { tuple(&elements(o)) }
pub unsafe extern "C" fn PySequence_Size(o: P) -> Z { PyObject_Size(o) }
pub unsafe extern "C" fn PySequence_Check(o: P) -> I { matches!(kind(o), K::List | K::Tuple | K::Str) as I }

// --- iteration
pub unsafe fn elements(o: P) -> Vec<P> {
    match kind(o) {
        K::Dict => (*dict_of(o)).iter().map(|(k, _)| s(k)).collect(),
        K::MappingProxy => (*((*o).a as *mut TypeObj)).attrs.iter().map(|(k, _)| s(k)).collect(),
        K::ParamMap => (*o).list.iter().map(|p| s((**p).s)).collect(),
        K::Iter => (&(*o).list)[(*o).i as usize..].to_vec(),
        K::List | K::Tuple | K::ModInfo => seq(o).to_vec(),
        K::Str => (0..(*o).s.len()).map(|i| s(&(&(*o).s)[i..i + 1])).collect(),
        _ => unsupported("iteration"),
    }
}
pub unsafe fn iter_of(v: Vec<P>) -> P { let it = new(addr_of_mut!(IterType)); (*it).list = v; it }
pub unsafe extern "C" fn PyObject_GetIter(o: P) -> P {
    match kind(o) {
        K::Iter => o,
        K::Dict | K::MappingProxy | K::ParamMap | K::List | K::Tuple | K::ModInfo | K::Str => iter_of(elements(o)),
        _ => raise(addr_of_mut!(ExcType), b"object is not iterable"),
    }
}
pub unsafe extern "C" fn PyIter_Next(it: P) -> P {
    let i = (*it).i as usize;
    if i < (*it).list.len() { (*it).i += 1; let v: &Vec<P> = &(*it).list; v[i] } else { null_mut() }
}
pub unsafe extern "C" fn PyIter_Check(o: P) -> I { (kind(o) == K::Iter) as I }
pub unsafe extern "C" fn PyObject_LengthHint(o: P, _: Z) -> Z { (*o).list.len() as Z - (*o).i as Z }

// --- containers
pub unsafe extern "C" fn PyList_New(n: Z) -> P { list(vec![null_mut(); n as usize]) }
pub unsafe extern "C" fn PyList_Size(o: P) -> Z { (*o).size }
pub unsafe extern "C" fn PyList_GetItem(o: P, i: Z) -> P { seq(o)[i as usize] }
pub unsafe extern "C" fn PyList_SetItem(o: P, i: Z, x: P) -> I { seq(o)[i as usize] = x; 0 }
pub unsafe extern "C" fn PyList_Append(o: P, x: P) -> I {
    let mut v: Vec<P> = seq(o).to_vec();
    v.push(x);
    (*o).size = v.len() as isize;
    (*o).items = Box::leak(v.into_boxed_slice()).as_mut_ptr();
    0
}
pub unsafe extern "C" fn PyTuple_New(n: Z) -> P { tuple(&vec![null_mut(); n as usize]) }
pub unsafe extern "C" fn PyTuple_Size(o: P) -> Z { (*o).size }
pub unsafe extern "C" fn PyTuple_GetItem(o: P, i: Z) -> P { seq(o)[i as usize] }
pub unsafe extern "C" fn PyTuple_SetItem(o: P, i: Z, x: P) -> I { seq(o)[i as usize] = x; 0 }
/// The table behind a dict; `a` points at the object whose namespace it is.
pub unsafe fn dict_of(o: P) -> &'static mut Vec<(Str, P)> { if (*o).a.is_null() { &mut (*o).attrs } else { &mut (*(*o).a).attrs } }
pub unsafe extern "C" fn PyDict_New() -> P { new(addr_of_mut!(PyDict_Type)) }
pub unsafe extern "C" fn PyDict_SetItem(d: P, k: P, v: P) -> I { set(dict_of(d), text(k), v); 0 }
pub unsafe extern "C" fn PyDict_SetItemString(d: P, k: C, v: P) -> I { set(dict_of(d), leak(cstr(k)), v); 0 }
pub unsafe extern "C" fn PyDict_GetItemWithError(d: P, k: P) -> P { find(dict_of(d), text(k)).unwrap_or(null_mut()) }
pub unsafe extern "C" fn PyDict_GetItem(d: P, k: P) -> P { find(dict_of(d), text(k)).unwrap_or(null_mut()) }
pub unsafe extern "C" fn PyDict_Contains(d: P, k: P) -> I { find(dict_of(d), text(k)).is_some() as I }
pub unsafe extern "C" fn PyDict_Size(d: P) -> Z { dict_of(d).len() as Z }
pub unsafe extern "C" fn PyDict_Keys(d: P) -> P { list(dict_of(d).iter().map(|(k, _)| s(k)).collect()) }
pub unsafe extern "C" fn PyDict_Values(d: P) -> P { list(dict_of(d).iter().map(|(_, v)| *v).collect()) }
pub unsafe extern "C" fn PyDict_Items(d: P) -> P { list(dict_of(d).iter().map(|(k, v)| tuple(&[s(k), *v])).collect()) }

// --- modules
pub unsafe extern "C" fn PyImport_Import(n: P) -> P { import(text(n)) }
pub unsafe extern "C" fn PyImport_ImportModule(n: C) -> P { import(cstr(n)) }
pub unsafe extern "C" fn PyImport_AddModule(n: C) -> P {
    let n = cstr(n);
    for m in W.mods.iter() { if m.name == n { return m.obj; } }
    unsupported("PyImport_AddModule of a new module")
}
pub unsafe extern "C" fn PyModule_GetDict(m: P) -> P { let d = new(addr_of_mut!(PyDict_Type)); (*d).a = m; d }
pub unsafe extern "C" fn PyModule_GetNameObject(m: P) -> P {
    match find(&(*m).attrs, b"__name__") { Some(n) if kind(n) == K::Str => n, _ => raise(addr_of_mut!(ExcSystem), b"nameless module") }
}
pub unsafe extern "C" fn PyImport_GetModuleDict() -> P { let m = import(b"sys"); find(&(*m).attrs, b"modules").unwrap() }
pub unsafe extern "C" fn PyEval_GetBuiltins() -> P { PyModule_GetDict(import(b"builtins")) }
pub unsafe extern "C" fn PyImport_ExecCodeModuleEx(name: C, code: P, _path: C) -> P {
    let n = cstr(name);
    let _ = code;
    for i in 0..W.mods.len() { if W.mods[i].name.len() == n.len() && W.mods[i].name == n { return load(i); } }
    unsupported("executing unknown source code")
}
/// Run a module body: bind it in its parent and perform its output.
pub unsafe fn load(i: usize) -> P {
    let m = &mut W.mods[i];
    let obj = m.obj;
    if m.loaded { return obj; }
    m.loaded = true;
    let (prints, raises, parent, short) = (m.prints, m.raises, m.parent, m.short);
    let deps = m.deps.clone();
    for d in deps { if import(d).is_null() { W.mods[i].loaded = false; return null_mut(); } }
    for (bit, stream) in [(1u8, &b"stdout"[..]), (2, b"stderr")] {
        if prints & bit != 0 && !python_print(stream) { W.mods[i].loaded = false; return null_mut(); }
    }
    if raises { W.mods[i].loaded = false; return raise(addr_of_mut!(ExcRuntime), b"module failed"); }
    if !parent.is_empty() {
        let p = import(parent);
        // (what the body of the parent itself assigns to the name comes after the import in the body)
        let busy = W.mods.iter().any(|m| m.obj == p && !m.done);
        if !p.is_null() && !(busy && find(&(*p).attrs, short).is_some()) { set(&mut (*p).attrs, short, obj); }
    }
    W.mods[i].done = true;
    obj
}
/// `print("x", file=sys.<stream>)`
pub unsafe fn python_print(stream: &[u8]) -> bool {
    let sys = import(b"sys");
    let Some(f) = find(&(*sys).attrs, stream) else { raise(addr_of_mut!(ExcRuntime), b"lost sys.stdout"); return false };
    if kind(f) == K::None { return true; }
    let w = ret(lookup(f, b"write"), b"write", f);
    if w.is_null() { return false; }
    !call(w, &[s(b"x")]).is_null()
}
pub unsafe fn import(n: &[u8]) -> P {
    let mut from = 0;
    // what is in sys.modules needs no parents, but `__import__` looks up the first one
    for i in 0..W.mods.len() {
        let m = &W.mods[i];
        if m.source && m.loaded && m.name.len() == n.len() && m.name == n {
            let root = n.split(|c| *c == b'.').next().unwrap_or(n);
            if root.len() < n.len() && import(root).is_null() { return null_mut(); }
            return W.mods[i].obj;
        }
    }
    // parents are imported first
    loop {
        let end = n[from..].iter().position(|c| *c == b'.').map(|p| from + p).unwrap_or(n.len());
        let part = &n[..end];
        let mut hit = None;
        for (i, m) in W.mods.iter().enumerate() { if (!m.source | m.loaded) && m.name.len() == part.len() && m.name == part { hit = Some(i); break; } }
        let Some(i) = hit else {
            if part.is_empty() { return raise(addr_of_mut!(ExcValue), b"Empty module name"); }
            return raise(addr_of_mut!(ExcModNotFound), cat(&[b"No module named '", part, b"'"]));
        };
        let o = load(i);
        if o.is_null() || end == n.len() { return o; }
        from = end + 1;
    }
}

// --- calls
pub unsafe extern "C" fn PyObject_Call(f: P, args: P, kw: P) -> P {
    if !kw.is_null() && !dict_of(kw).is_empty() { unsupported("keyword arguments") }
    let a: Vec<P> = seq(args).to_vec();
    call(f, &a)
}
pub unsafe extern "C" fn PyObject_CallNoArgs(f: P) -> P { call(f, &[]) }
pub unsafe extern "C" fn PyObject_CallOneArg(f: P, a: P) -> P { call(f, &[a]) }
pub unsafe extern "C" fn PyObject_CallObject(f: P, a: P) -> P { if a.is_null() { call(f, &[]) } else { let v = seq(a).to_vec(); call(f, &v) } }
pub unsafe extern "C" fn PyObject_Vectorcall(f: P, a: *const P, n: usize, kw: P) -> P {
    if !kw.is_null() { unsupported("vectorcall keywords") }
    call(f, std::slice::from_raw_parts(a, n & !(1 << 63)))
}
pub unsafe extern "C" fn PyObject_VectorcallMethod(name: P, a: *const P, n: usize, kw: P) -> P {
    if !kw.is_null() { unsupported("vectorcall keywords") }
    let v = std::slice::from_raw_parts(a, n & !(1 << 63));
    let f = PyObject_GetAttr(v[0], name);
    if f.is_null() { return f; }
    call(f, &v[1..])
}
pub unsafe extern "C" fn PyObject_CallMethodNoArgs(o: P, name: P) -> P { let f = PyObject_GetAttr(o, name); if f.is_null() { f } else { call(f, &[]) } }
pub unsafe extern "C" fn PyObject_CallMethodOneArg(o: P, name: P, a: P) -> P { let f = PyObject_GetAttr(o, name); if f.is_null() { f } else { call(f, &[a]) } }

unsafe fn callable_isfunction(o: P) -> bool { ty_of(o) == addr_of_mut!(PyFunction_Type) }
pub unsafe fn call(f: P, a: &[P]) -> P {
    match kind(f) {
        K::Method => { let mut v = vec![(*f).b]; v.extend_from_slice(a); call((*f).a, &v) }
        K::Func => match (*f).code { Some(e) => eval::call_lambda(e, f, a), None => none() },
        K::StaticMethod => call((*f).a, a),
        K::Type => {
            let t = f as *mut TypeObj;
            if t == addr_of_mut!(PyType_Type) {
                if a.len() == 1 { return (*a[0]).ty as P; }
                let bases: Vec<*mut TypeObj> = seq(a[1]).iter().map(|b| *b as *mut TypeObj).collect();
                let c = new_class((*a[0]).s, b"__main__", bases);
                for (k, v) in dict_of(a[2]).iter() { set(&mut (*c).attrs, k, *v); }
                return c as P;
            }
            if t == addr_of_mut!(PyUnicode_Type) { return PyObject_Str(a[0]); }
            if t == addr_of_mut!(PyList_Type) { return list(if a.is_empty() { vec![] } else { elements(a[0]) }); }
            if t == addr_of_mut!(PyTuple_Type) { return tuple(&if a.is_empty() { vec![] } else { elements(a[0]) }); }
            if t == addr_of_mut!(PyDict_Type) && a.is_empty() { return PyDict_New(); }
            if t == addr_of_mut!(PyBool_Type) { return boolean(!a.is_empty() && truthy(a[0])); }
            if t == addr_of_mut!(StringIO) { return new(t); }
            if (*t).heap || t == addr_of_mut!(PyBaseObject_Type) {
                let o = new(t);
                if let Some(init) = type_lookup(t, b"__init__") { if kind(init) == K::Func { let mut v = vec![o]; v.extend_from_slice(a); if call(init, &v).is_null() { return null_mut(); } } }
                return o;
            }
            unsupported("call of a built-in type")
        }
        K::Builtin => native(f, a),
        K::Obj if type_lookup(ty_of(f), b"__call__").is_some() => { let m = type_lookup(ty_of(f), b"__call__").unwrap(); let mut v = vec![f]; v.extend_from_slice(a); call(m, &v) }
        K::Partial => none(),
        _ => raise(addr_of_mut!(ExcType), b"object is not callable"),
    }
}
unsafe fn native(f: P, a: &[P]) -> P {
    let b = (*f).b;
    match (*f).s {
        b"isfunction" => boolean(callable_isfunction(a[0])),
        b"ismethod" => boolean(kind(a[0]) == K::Method),
        b"isclass" => boolean(kind(a[0]) == K::Type),
        b"ismodule" => boolean(kind(a[0]) == K::Module),
        b"isbuiltin" => boolean(kind(a[0]) == K::Builtin),
        b"isroutine" => boolean(matches!(kind(a[0]), K::Func | K::Builtin | K::Method | K::Wrapper)),
        b"ismethoddescriptor" => boolean(kind(a[0]) == K::Wrapper),
        b"isdatadescriptor" => boolean(matches!(kind(a[0]), K::Property | K::GetSet)),
        b"iscoroutinefunction" | b"isgeneratorfunction" | b"isabstract" | b"isgenerator" => boolean(false),
        b"signature" => super::install::signature(a[0]),
        b"iter_modules" => super::install::iter_modules(a),
        b"isinstance" => { let r = PyObject_IsInstance(a[0], a[1]); boolean(r == 1) }
        b"issubclass" => { let r = PyObject_IsSubclass(a[0], a[1]); if r < 0 { null_mut() } else { boolean(r == 1) } }
        b"callable" => boolean(PyCallable_Check(a[0]) == 1),
        b"hasattr" => { let r = lookup(a[0], text(a[1])).is_some(); W.err = null_mut(); boolean(r) }
        b"getattr" => match lookup(a[0], text(a[1])) { Some(x) => x, None if a.len() > 2 => { W.err = null_mut(); a[2] } None => ret(None, text(a[1]), a[0]) },
        b"setattr" => { set_attr(a[0], text(a[1]), a[2]); none() }
        b"repr" => PyObject_Repr(a[0]),
        b"dir" => PyObject_Dir(a[0]),
        b"len" => { let n = PyObject_Size(a[0]); int(n as i64) }
        b"id" => int(a[0] as i64),
        b"getattr_static" => match find(&(*(a[0] as *mut TypeObj)).attrs, text(a[1])) { Some(x) => x, None => match type_lookup(a[0] as *mut TypeObj, text(a[1])) { Some(x) => x, None => raise(addr_of_mut!(ExcAttr), (*a[1]).s) } },
        b"open" => new(addr_of_mut!(StringIO)),
        b"__import__" | b"import_module" => import(text(a[0])),
        b"values" => match kind(b) { K::ParamMap => iter_of((*b).list.clone()), _ => iter_of(dict_of(b).iter().map(|(_, v)| *v).collect()) },
        b"keys" => iter_of(elements(b)),
        b"items" => match kind(b) { K::ParamMap => iter_of((*b).list.iter().map(|p| tuple(&[s((**p).s), *p])).collect()), K::MappingProxy => iter_of((*((*b).a as *mut TypeObj)).attrs.iter().map(|(k, v)| tuple(&[s(k), *v])).collect()), _ => iter_of(dict_of(b).iter().map(|(k, v)| tuple(&[s(k), *v])).collect()) },
        b"get" => { let t = if kind(b) == K::MappingProxy { &(*((*b).a as *mut TypeObj)).attrs } else { &*dict_of(b) }; find(t, text(a[0])).unwrap_or(if a.len() > 1 { a[1] } else { none() }) }
        b"write" => { if kind(b) == K::File { W.out.push(((*b).i as u8, (*a[0]).s)); } none() }
        b"flush" | b"close" => none(),
        b"startswith" => boolean((*b).s.starts_with((*a[0]).s)),
        _ => unsupported("native function"),
    }
}

// --- code
pub unsafe extern "C" fn Py_CompileStringExFlags(src: C, _file: C, start: I, _flags: P, _opt: I) -> P {
    let c = new(addr_of_mut!(PyCode_Type));
    (*c).s = leak(cstr(src));
    if start == 258 {
        match eval::parse((*c).s) { Some(e) => (*c).code = Some(e), None => unsupported("expression syntax outside the modelled subset") }
    }
    (*c).i = start as i64;
    c
}
pub unsafe extern "C" fn PyEval_EvalCode(c: P, globals: P, locals: P) -> P {
    match (*c).code { Some(e) => eval::eval(e, &[dict_of(locals) as *mut _, dict_of(globals) as *mut _]), None => unsupported("executing statements") }
}
#[repr(C)]
pub struct DateTimeCapi { date: *mut TypeObj, datetime: *mut TypeObj, time: *mut TypeObj, delta: *mut TypeObj, tz: *mut TypeObj, utc: P, f: [usize; 16] }
static mut CAPI: DateTimeCapi = DateTimeCapi { date: addr_of_mut!(DateType), datetime: addr_of_mut!(DateTimeType), time: addr_of_mut!(TimeType), delta: addr_of_mut!(DeltaType), tz: addr_of_mut!(TZInfoType), utc: null_mut(), f: [0; 16] };
pub unsafe extern "C" fn PyCapsule_Import(_: C, _: I) -> *mut u8 { addr_of_mut!(CAPI) as *mut u8 }
#[allow(dead_code)]
fn _unused(_: &Expr) {}

// --- the process
/// Redirected to the standard library's record of the command line.
#[inline(never)]
pub unsafe fn init_args(_argc: isize, _argv: *const C) {}
pub unsafe extern "C" fn getenv(_: C) -> C { std::ptr::null() }
pub unsafe extern "C" fn isatty(_: I) -> I { 0 }
pub unsafe extern "C" fn exit(_: I) -> ! { crate::oracle::fail("the process exits") }
/// `futex` wakes, `statx`.
pub unsafe extern "C" fn syscall(n: usize, _: usize, path: C, _: usize, _: usize, buf: *mut u8, _: usize) -> Z { if n == 332 { crate::disk::stat(path, buf) as Z } else { 1 } }
