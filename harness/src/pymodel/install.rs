//! Standard modules of the model and instantiation of module descriptions.
use super::capi;
use super::obj::*;
use crate::spec::{self, Ann, Bt, Kind, Member, Val};
use std::ptr::{addr_of_mut, null_mut};

pub fn func(name: Str, module: Str) -> P {
    unsafe {
        let f = new(addr_of_mut!(PyFunction_Type));
        (*f).s = name;
        (*f).a = s(module);
        (*f).b = none();
        (*f).c = s(name);
        f
    }
}
fn add_mod(name: Str) -> P {
    unsafe {
        let m = new(addr_of_mut!(PyModule_Type));
        let (parent, short): (Str, Str) = match name.iter().rposition(|c| *c == b'.') { Some(i) => (&name[..i], &name[i + 1..]), None => (b"", name) };
        let a = &mut (*m).attrs;
        a.push((b"__name__", s(name)));
        a.push((b"__doc__", none()));
        W.mods.push(Mod { name, obj: m, loaded: false, done: false, parent, short, prints: 0, raises: false, source: false, deps: Vec::new() });
        m
    }
}
fn std_mod(name: &'static str, members: &[(&'static str, P)]) -> P {
    unsafe {
        let m = add_mod(name.as_bytes());
        for (k, v) in members { (*m).attrs.push((k.as_bytes(), *v)); }
        m
    }
}
fn t(x: *mut TypeObj) -> P { x as P }
pub fn init() {
    unsafe {
        macro_rules! bi { ($m:literal: $($n:literal),*) => { [$(($n, builtin($n, $m))),*] } }
        let o = &mut (*addr_of_mut!(PyBaseObject_Type)).attrs;
        if o.is_empty() {
            let w = new(addr_of_mut!(PyWrapperDescr_Type)); (*w).s = b"__init__"; o.push((b"__init__", w));
            let w = new(addr_of_mut!(PyWrapperDescr_Type)); (*w).s = b"__eq__"; o.push((b"__eq__", w));
            let g = new(addr_of_mut!(PyGetSetDescr_Type)); o.push((b"__class__", g));
        }
        let b = std_mod("builtins", &bi!["builtins": "isinstance", "issubclass", "callable", "hasattr", "getattr", "setattr", "repr", "dir", "len", "id", "open", "__import__"]);
        for (n, x) in [("type", t(addr_of_mut!(PyType_Type))), ("object", t(addr_of_mut!(PyBaseObject_Type))), ("str", t(addr_of_mut!(PyUnicode_Type))), ("int", t(addr_of_mut!(PyLong_Type))), ("bool", t(addr_of_mut!(PyBool_Type))),
            ("list", t(addr_of_mut!(PyList_Type))), ("dict", t(addr_of_mut!(PyDict_Type))), ("tuple", t(addr_of_mut!(PyTuple_Type))), ("set", t(addr_of_mut!(PySet_Type))),
            ("classmethod", t(addr_of_mut!(PyClassMethod_Type))), ("staticmethod", t(addr_of_mut!(PyStaticMethod_Type))), ("property", t(addr_of_mut!(PyProperty_Type)))] { (*b).attrs.push((n.as_bytes(), x)); }
        let out = new(addr_of_mut!(TextIO)); (*out).i = 1;
        let err = new(addr_of_mut!(TextIO)); (*err).i = 2;
        let sys = std_mod("sys", &[("stdout", out), ("stderr", err), ("__stdout__", out), ("__stderr__", err)]);
        (*sys).a = out; (*sys).b = err;
        std_mod("__main__", &[("__builtins__", b)]);
        let insp = std_mod("inspect", &bi!["inspect": "isfunction", "ismethod", "isclass", "ismodule", "isbuiltin", "isroutine", "ismethoddescriptor", "isdatadescriptor", "iscoroutinefunction", "isgeneratorfunction", "isgenerator", "isabstract", "signature", "getattr_static"]);
        (*insp).attrs.push((b"Signature", t(addr_of_mut!(SignatureType))));
        (*insp).attrs.push((b"Parameter", t(addr_of_mut!(ParameterType))));
        (*insp).attrs.push((b"_empty", t(addr_of_mut!(EmptyType))));
        std_mod("pkgutil", &bi!["pkgutil": "iter_modules"]);
        std_mod("importlib", &bi!["importlib": "import_module"]);
        std_mod("typing", &[]);
        std_mod("functools", &[("partial", t(addr_of_mut!(PartialType)))]);
        std_mod("types", &[("FunctionType", t(addr_of_mut!(PyFunction_Type))), ("ModuleType", t(addr_of_mut!(PyModule_Type))), ("MethodType", t(addr_of_mut!(PyMethod_Type))), ("BuiltinFunctionType", t(addr_of_mut!(PyCFunction_Type)))]);
        std_mod("io", &[("StringIO", t(addr_of_mut!(StringIO)))]);
        std_mod("os", &[("devnull", s(b"/dev/null"))]);
        (*addr_of_mut!(ParamKindType)).attrs.clear();
    }
}
fn l(x: spec::S) -> Str { Box::leak(x.into_boxed_slice()) }
fn find_obj(m: &[u8], n: &[u8]) -> P {
    unsafe {
        for x in W.mods.iter() { if x.name.len() == m.len() && x.name == m { if let Some(o) = find(&(*x.obj).attrs, n) { return o; } } }
        unsupported("reference to an undefined member")
    }
}
pub fn bt(x: Bt) -> *mut TypeObj {
    unsafe { match x {
        Bt::Int => addr_of_mut!(PyLong_Type), Bt::Str => addr_of_mut!(PyUnicode_Type), Bt::Float => addr_of_mut!(PyFloat_Type), Bt::Bool => addr_of_mut!(PyBool_Type),
        Bt::Bytes => addr_of_mut!(PyBytes_Type), Bt::ByteArray => addr_of_mut!(PyByteArray_Type), Bt::List => addr_of_mut!(PyList_Type), Bt::Dict => addr_of_mut!(PyDict_Type),
        Bt::Set => addr_of_mut!(PySet_Type), Bt::FrozenSet => addr_of_mut!(PyFrozenSet_Type), Bt::Tuple => addr_of_mut!(PyTuple_Type), Bt::Slice => addr_of_mut!(PySlice_Type),
        Bt::Complex => addr_of_mut!(PyComplex_Type), Bt::Object => addr_of_mut!(PyBaseObject_Type), Bt::Type => addr_of_mut!(PyType_Type), Bt::NoneType => addr_of_mut!(NoneType),
        Bt::Date => addr_of_mut!(DateType), Bt::DateTime => addr_of_mut!(DateTimeType), Bt::Time => addr_of_mut!(TimeType), Bt::Delta => addr_of_mut!(DeltaType), Bt::TzInfo => addr_of_mut!(TZInfoType),
        Bt::Function => addr_of_mut!(PyFunction_Type), Bt::Module => addr_of_mut!(PyModule_Type), Bt::Code => addr_of_mut!(PyCode_Type), Bt::Path => addr_of_mut!(PathType), Bt::IpV4 => addr_of_mut!(IpV4Type), Bt::Exception => addr_of_mut!(ExcException),
    } }
}
/// How an annotation is written inside another one.
fn inner_repr(o: P) -> Str {
    unsafe { match kind(o) {
        K::Type => { let c = o as *mut TypeObj; if (*c).module == b"builtins" { short_name((*c).name) } else { cat(&[(*c).module, b".", short_name((*c).name)]) } }
        K::Str => cat(&[b"ForwardRef('", (*o).s, b"')"]),
        K::Ellipsis => b"...",
        K::List => { let v: Vec<Str> = seq(o).iter().map(|x| inner_repr(*x)).collect(); cat(&[b"[", &v.join(&b", "[..]), b"]"]) }
        _ => str_of(o),
    } }
}
fn join_repr(v: &[P], sep: &[u8]) -> Str { let v: Vec<Str> = v.iter().map(|x| inner_repr(*x)).collect(); let r = v.join(sep); l(r) }
fn fwd(o: P) -> P { unsafe { if kind(o) == K::Str { let f = new(addr_of_mut!(ForwardRefType)); (*f).s = inner_repr(o); f } else if kind(o) == K::None { t(addr_of_mut!(NoneType)) } else { o } } }
pub fn ann(a: &Ann) -> P {
    unsafe { match a {
        Ann::Str(x) => s(l(x.clone())),
        Ann::Ty(x) => t(bt(*x)),
        Ann::Class(m, n) => find_obj(m, n),
        Ann::None => none(),
        Ann::Ellipsis => addr_of_mut!(_Py_EllipsisObject),
        Ann::Params(v) => list(v.iter().map(ann).collect()),
        Ann::Pep585(x, v) => {
            let v: Vec<P> = v.iter().map(ann).collect();
            let g = new(addr_of_mut!(GenAliasType));
            (*g).a = t(bt(*x));
            (*g).b = tuple(&v);
            let v2: Vec<Str> = v.iter().map(|x| if kind(*x) == K::Str { cat(&[b"'", (**x).s, b"'"]) } else { inner_repr(*x) }).collect();
            (*g).s = cat(&[inner_repr(t(bt(*x))), b"[", &v2.join(&b", "[..]), b"]"]);
            g
        }
        Ann::Pep604(v) => {
            let v: Vec<P> = v.iter().map(ann).collect();
            let g = new(addr_of_mut!(UnionType));
            (*g).b = tuple(&v);
            (*g).s = join_repr(&v, b" | ");
            g
        }
        Ann::Generic(m, n, v) => {
            let v: Vec<P> = v.iter().map(ann).collect();
            let g = new(addr_of_mut!(AliasType));
            (*g).a = find_obj(m, n);
            (*g).b = tuple(&v);
            (*g).s = cat(&[inner_repr((*g).a), b"[", join_repr(&v, b", "), b"]"]);
            g
        }
        Ann::Typing(n, args) => typing(n, args),
    } }
}
fn special(n: &'static str) -> P { unsafe { let o = new(addr_of_mut!(SpecialFormType)); (*o).s = cat(&[b"typing.", n.as_bytes()]); o } }
static mut ANY: TypeObj = TypeObj::public("Any\0", "typing", b"typing.Any");
static mut CALLABLE_ABC: TypeObj = TypeObj::public("Callable\0", "collections.abc", b"");
static mut SEQUENCE_ABC: TypeObj = TypeObj::public("Sequence\0", "collections.abc", b"");
static mut ITERABLE_ABC: TypeObj = TypeObj::public("Iterable\0", "collections.abc", b"");
static mut ITERATOR_ABC: TypeObj = TypeObj::public("Iterator\0", "collections.abc", b"");
static mut MAPPING_ABC: TypeObj = TypeObj::public("Mapping\0", "collections.abc", b"");
static mut PathType: TypeObj = TypeObj::public("Path\0", "pathlib", b"");
static mut IpV4Type: TypeObj = TypeObj::public("IPv4Address\0", "ipaddress", b"");
fn typing(n: &'static str, args: &[Ann]) -> P {
    unsafe {
        let mut v: Vec<P> = args.iter().map(|a| if let Ann::Params(..) = a { ann(a) } else { fwd(ann(a)) }).collect();
        let (origin, ty): (P, *mut TypeObj) = match n {
            "Any" => return t(addr_of_mut!(ANY)),
            "Optional" | "Union" => {
                if v.is_empty() { return special(n); }
                if n == "Optional" { v.push(t(addr_of_mut!(NoneType))); }
                // unions of unions are flattened, duplicates are not listed again
                let mut w: Vec<P> = vec![];
                for x in v {
                    let l: Vec<P> = if (*x).ty == addr_of_mut!(UnionAliasType) { seq((*x).b).to_vec() } else { vec![x] };
                    for y in l { if !w.contains(&y) { w.push(y); } }
                }
                let nt = t(addr_of_mut!(NoneType));
                let o = new(addr_of_mut!(UnionAliasType));
                (*o).a = special("Union");
                (*o).s = if w.len() == 2 && w.contains(&nt) { cat(&[b"typing.Optional[", inner_repr(if w[0] == nt { w[1] } else { w[0] }), b"]"]) } else { cat(&[b"typing.Union[", join_repr(&w, b", "), b"]"]) };
                (*o).b = tuple(&w);
                return o;
            }
            "Annotated" => {
                let o = new(addr_of_mut!(AliasType));
                (*o).a = v[0];
                (*o).b = tuple(&v);
                (*o).c = tuple(&[super::obj::s(b"x")]);
                (*o).s = cat(&[b"typing.Annotated[", inner_repr(v[0]), b", 'x']"]);
                return o;
            }
            "List" => (t(addr_of_mut!(PyList_Type)), addr_of_mut!(AliasType)),
            "Dict" => (t(addr_of_mut!(PyDict_Type)), addr_of_mut!(AliasType)),
            "Set" => (t(addr_of_mut!(PySet_Type)), addr_of_mut!(AliasType)),
            "FrozenSet" => (t(addr_of_mut!(PyFrozenSet_Type)), addr_of_mut!(AliasType)),
            "Tuple" => (t(addr_of_mut!(PyTuple_Type)), addr_of_mut!(AliasType)),
            "Type" => (t(addr_of_mut!(PyType_Type)), addr_of_mut!(AliasType)),
            "Callable" => (t(addr_of_mut!(CALLABLE_ABC)), addr_of_mut!(CallableAliasType)),
            "Sequence" => (t(addr_of_mut!(SEQUENCE_ABC)), addr_of_mut!(AliasType)),
            "Iterable" => (t(addr_of_mut!(ITERABLE_ABC)), addr_of_mut!(AliasType)),
            "Iterator" => (t(addr_of_mut!(ITERATOR_ABC)), addr_of_mut!(AliasType)),
            "Mapping" => (t(addr_of_mut!(MAPPING_ABC)), addr_of_mut!(AliasType)),
            _ => unsupported("typing form"),
        };
        if v.is_empty() {
            let o = new(addr_of_mut!(SpecialAliasType));
            (*o).a = origin;
            (*o).s = cat(&[b"typing.", n.as_bytes()]);
            return o;
        }
        let o = new(ty);
        (*o).a = origin;
        (*o).s = cat(&[b"typing.", n.as_bytes(), b"[", join_repr(&v, b", "), b"]"]);
        if n == "Callable" && kind(v[0]) == K::List { let mut w: Vec<P> = seq(v[0]).iter().map(|x| fwd(*x)).collect(); w.push(v[1]); v = w; }
        (*o).b = tuple(&v);
        o
    }
}
fn mk_func(name: Str, home: Str, qual: Str, f: &spec::Func) -> P {
    unsafe {
        let module = f.module.clone().map(l).unwrap_or(home);
        let o = func(f.name.clone().map(l).unwrap_or(name), module);
        (*o).c = s(qual);
        if let Some(d) = &f.doc { (*o).b = s(l(d.clone())); }
        for p in &f.params {
            let q = new(addr_of_mut!(ParameterType));
            (*q).s = l(p.name.clone());
            (*q).i = match p.kind { Kind::PosOnly => 0, Kind::PosOrKw => 1, Kind::VarPos => 2, Kind::KwOnly => 3, Kind::VarKw => 4 };
            (*q).a = match &p.ann { Some(a) => ann(a), None => t(addr_of_mut!(EmptyType)) };
            (*q).b = if p.default { int(0) } else { t(addr_of_mut!(EmptyType)) };
            (*o).list.push(q);
        }
        (*o).items = match &f.ret { Some(a) => ann(a), None => t(addr_of_mut!(EmptyType)) } as *mut P;
        (*o).i = f.nosig as i64;
        o
    }
}
/// `inspect.signature`
pub fn signature(o: P) -> P {
    unsafe {
        match kind(o) {
            K::Func if (*o).i == 0 => {
                let m = new(addr_of_mut!(ParamMapType));
                (*m).list = (*o).list.clone();
                let g = new(addr_of_mut!(SignatureType));
                (*g).a = m;
                (*g).b = (*o).items as P;
                g
            }
            K::Method => {
                let g = signature((*o).a);
                if g.is_null() { return g; }
                // the bound first positional parameter is dropped
                let m = (*g).a;
                if !(*m).list.is_empty() && matches!((*(&(*m).list)[0]).i, 0 | 1) { (*m).list.remove(0); }
                else if (*m).list.is_empty() { return raise(addr_of_mut!(ExcValue), b"invalid method signature"); }
                g
            }
            K::Partial => signature((*o).a),
            K::Func | K::Builtin => raise(addr_of_mut!(ExcValue), b"no signature found for builtin"),
            _ => raise(addr_of_mut!(ExcType), b"is not a callable object"),
        }
    }
}
/// `pkgutil.iter_modules(paths)`: the path of package `x.y` is `/x.y`.
pub fn iter_modules(a: &[P]) -> P {
    unsafe {
        let mut v: Vec<P> = vec![];
        for p in seq(a[0]).iter() {
            let dir = str_of(*p);
            for m in W.mods.iter() {
                if m.parent.is_empty() || dir.len() != m.parent.len() + 1 || &dir[1..] != m.parent { continue; }
                if find(&(*m.obj).attrs, b"__nofile__").is_some() { continue; }
                let i = new(addr_of_mut!(ModInfoType));
                (*i).a = s(m.short);
                (*i).b = boolean(find(&(*m.obj).attrs, b"__path__").is_some());
                (*i).list = vec![none(), (*i).a, (*i).b];
                v.push(i);
            }
        }
        // by name
        let mut i = 1;
        while i < v.len() { let mut j = i; while j > 0 && (*(*v[j]).a).s < (*(*v[j - 1]).a).s { v.swap(j, j - 1); j -= 1; } i += 1; }
        capi::iter_of(v)
    }
}
fn value(v: &Val) -> P {
    unsafe { match v {
        Val::Int => int(7), Val::Str => s(b"v"), Val::Float => new(addr_of_mut!(PyFloat_Type)), Val::Bool => boolean(true), Val::None => none(), Val::Bytes => new(addr_of_mut!(PyBytes_Type)),
        Val::List => list(vec![]), Val::Dict => capi::PyDict_New(), Val::Tuple => tuple(&[]), Val::Set => new(addr_of_mut!(PySet_Type)), Val::FrozenSet => new(addr_of_mut!(PyFrozenSet_Type)),
        Val::Complex => new(addr_of_mut!(PyComplex_Type)), Val::Slice => new(addr_of_mut!(PySlice_Type)), Val::Numbers => list(vec![int(7)]), Val::Instance(m, n) => new(find_obj(m, n) as *mut TypeObj),
    } }
}
fn member(name: Str, home: Str, qual: Str, m: &Member, deps: &mut Vec<Str>) -> P {
    unsafe { match m {
        Member::Func(f) => mk_func(name, home, qual, f),
        Member::Static(f) => { let o = new(addr_of_mut!(PyStaticMethod_Type)); (*o).a = mk_func(name, home, qual, f); o }
        Member::ClassM(f) => { let o = new(addr_of_mut!(PyClassMethod_Type)); (*o).a = mk_func(name, home, qual, f); o }
        Member::Deletable(g) => {
            let o = new(addr_of_mut!(PyProperty_Type));
            (*o).a = mk_func(name, home, qual, g);
            (*o).b = none();
            (*o).c = (*o).a;
            o
        }
        Member::Prop(g, st) => {
            let o = new(addr_of_mut!(PyProperty_Type));
            (*o).a = g.as_ref().map(|f| mk_func(name, home, qual, f)).unwrap_or(none());
            (*o).b = st.as_ref().map(|f| mk_func(name, home, qual, f)).unwrap_or(none());
            (*o).c = none();
            o
        }
        Member::Class(c) => {
            let module = c.module.clone().map(l).unwrap_or(home);
            let mut bases: Vec<*mut TypeObj> = c.bases.iter().map(|(m, n)| find_obj(m, n) as *mut TypeObj).collect();
            if let Some(x) = c.base { bases.push(bt(x)); }
            let k = new_class(name, module, bases);
            (*k).attrs.push((b"__module__", s(module)));
            (*k).attrs.push((b"__doc__", match &c.doc { Some(d) => s(l(d.clone())), None => none() }));
            for (n, x) in &c.members {
                let n = l(n.clone());
                let q = cat(&[name, b".", n]);
                let v = member(n, module, q, x, deps);
                set(&mut (*k).attrs, n, v);
            }
            if c.unlistable { W.listings.push((k as P, null_mut())); }
            k as P
        }
        Member::Val(v) => value(v),
        Member::Builtin => { let o = builtin("breakpoint", "builtins"); (*o).c = s(b"breakpoint(*args, **kws)"); o }
        Member::From(m, n) => { deps.push(l(m.clone())); find_obj(m, n) }
        Member::Mod(m) => { let m = l(m.clone()); deps.push(m); for x in W.mods.iter() { if x.name.len() == m.len() && x.name == m { return x.obj; } } unsupported("undefined module") }
        Member::Partial(f) => { let o = new(addr_of_mut!(PartialType)); (*o).a = mk_func(name, home, qual, f); o }
        Member::TypeVar(n) => { let o = new(addr_of_mut!(TypeVarType)); (*o).s = l(n.clone()); (*o).a = s(home); o }
        Member::Ty(x) => t(bt(*x)),
    } }
}
/// Modules must be listed after the modules they refer to (`Mod`) or import from (`From`).
pub fn install(mods: Vec<spec::Mod>) {
    unsafe {
        if W.mods.is_empty() { init(); }
        // module objects first, so that they can refer to each other
        let first = W.mods.len();
        for m in &mods {
            let name = l(m.name.clone());
            let o = add_mod(name);
            let w = W.mods.last_mut().unwrap();
            w.prints = m.prints;
            w.raises = m.raises;
            if m.source { w.parent = b""; w.source = true; }
            let a = &mut (*o).attrs;
            set(a, b"__doc__", match &m.doc { Some(d) => s(l(d.clone())), None => none() });
            a.push((b"__file__", s(b"/f")));
            a.push((b"__spec__", new(addr_of_mut!(SpecType))));
            if m.package { a.push((b"__path__", list(vec![s(cat(&[b"/", name]))]))); }
            if let Some(all) = &m.all { let v: Vec<P> = all.iter().map(|x| s(l(x.clone()))).collect(); a.push((b"__all__", match m.index { 0 => list(v), 1 => tuple(&v), _ => int(v.len() as i64) })); }
            match &m.listing { None => {} Some(None) => W.listings.push((o, null_mut())), Some(Some(v)) => { let mut v: Vec<&spec::S> = v.iter().collect(); v.sort(); let k = new(addr_of_mut!(PyModule_Type)); (*k).list = v.into_iter().map(|x| s(l(x.clone()))).collect(); W.listings.push((o, k)); } }
        }
        for (i, m) in mods.iter().enumerate() {
            let name = W.mods[first + i].name;
            let o = W.mods[first + i].obj;
            let mut deps = vec![];
            for (n, x) in &m.members {
                let n = l(n.clone());
                let v = member(n, name, n, x, &mut deps);
                set(&mut (*o).attrs, n, v);
            }
            W.mods[first + i].deps = deps;
        }
    }
}
pub fn output() -> Vec<u8> { unsafe { let mut v = vec![]; for (k, t) in W.out.iter() { v.push(b'0' + *k); v.extend_from_slice(t); } v } }
pub fn streams_restored() -> bool {
    unsafe {
        let sys = capi::import(b"sys");
        find(&(*sys).attrs, b"stdout") == Some((*sys).a) && find(&(*sys).attrs, b"stderr") == Some((*sys).b)
    }
}
