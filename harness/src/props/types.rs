//! Types of parameters and return values.
use super::*;

/// What an annotation means.
#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Any, Bool, I64, F64, Str, Bytes, ByteArray, Path, Ip, Ellipsis, None,
    Native(&'static str),
    Opt(Box<T>), Dict(Box<T>, Box<T>), Set(Box<T>), FrozenSet(Box<T>), List(Box<T>), Tuple(Vec<T>),
    Local(&'static str),
    /// may also be treated as an arbitrary object
    Loose(Box<T>),
}
const ANY: &str = "pyo3::Bound<'py,pyo3::types::PyAny>";
const INTO: &str = "impl pyo3::IntoPy<pyo3::Py<pyo3::types::PyAny>>";
fn nat(n: &str) -> String { cat3("pyo3::Bound<'py,pyo3::types::", n, ">") }
fn bx(t: T) -> Box<T> { Box::new(t) }
fn wrap(a: &str, v: Vec<String>, z: &str) -> Vec<String> { v.iter().map(|x| cat3(a, x, z)).collect() }
fn one(s: &str) -> Vec<String> { vec![String::from(s)] }
fn hashable(t: &T) -> bool { matches!(t, T::Bool | T::I64 | T::Str | T::Path | T::Ip) }
fn loose(t: &T) -> Vec<T> { match t { T::Loose(t) => vec![(**t).clone(), T::Any], t => vec![t.clone()] } }
fn add(a: &mut Vec<String>, b: Vec<String>) { for x in b { if !a.contains(&x) { a.push(x); } } }
/// Rust types that a value so annotated may have.
pub fn owned_ty(t: &T) -> Vec<String> {
    match t {
        T::Any | T::Ellipsis | T::None => one(ANY),
        T::Bool => one("bool"), T::I64 => one("i64"), T::F64 => one("f64"), T::Str => one("String"),
        T::Bytes | T::ByteArray => one("Vec<u8>"), T::Path => one("std::path::PathBuf"), T::Ip => one("std::net::IpAddr"),
        T::Native(n) => vec![nat(n)],
        T::Opt(t) => wrap("Option<", owned_ty(t), ">"),
        T::List(t) => wrap("Vec<", owned_ty(t), ">"),
        T::Dict(k, v) => {
            let mut o = vec![];
            for k in &loose(k) {
                for x in owned_ty(v) {
                    if hashable(k) && !x.contains("PyAny") { for y in owned_ty(k) { add(&mut o, vec![format!("std::collections::HashMap<{y},{x}>")]); } } else { add(&mut o, vec![nat("PyDict")]); }
                }
            }
            o
        }
        T::Set(i) | T::FrozenSet(i) => {
            let n = if matches!(t, T::Set(_)) { "PySet" } else { "PyFrozenSet" };
            let mut o = vec![];
            for i in &loose(i) { add(&mut o, if hashable(i) { wrap("std::collections::HashSet<", owned_ty(i), ">") } else { vec![nat(n)] }); }
            o
        }
        T::Tuple(v) => {
            if v.len() == 2 && v[1] == T::Ellipsis { return owned_ty(&T::List(bx(v[0].clone()))); }
            if v.len() < 2 || v.len() > 12 { return vec![nat("PyTuple")]; }
            let mut o = one("(");
            for (i, t) in v.iter().enumerate() {
                let mut p = vec![];
                for a in &o { for x in owned_ty(t) { p.push(cat3(a, if i > 0 { "," } else { "" }, &x)); } }
                o = p;
            }
            wrap("", o, ")")
        }
        T::Local(p) => vec![cat3("pyo3::Bound<'py,", p, ">")],
        T::Loose(t) => { let mut o = owned_ty(t); add(&mut o, one(ANY)); o }
    }
}
/// Rust types that a parameter so annotated may have.
pub fn borrowed_ty(t: &T) -> Vec<String> {
    let by_ref = |t: &T| wrap("&", owned_ty(t), "");
    match t {
        T::Any | T::Ellipsis | T::None => one(INTO),
        T::Bool | T::I64 | T::F64 | T::Ip | T::Opt(_) => owned_ty(t),
        T::Str => one("&str"), T::Bytes | T::ByteArray => one("&[u8]"), T::Path => one("&std::path::Path"),
        T::Native(_) | T::Local(_) | T::Set(_) | T::FrozenSet(_) => by_ref(t),
        T::List(i) => wrap("&[", owned_ty(i), "]"),
        T::Dict(..) => owned_ty(t).into_iter().map(|x| if x == nat("PyDict") { String::from("impl pyo3::types::IntoPyDict") } else { cat3("&", &x, "") }).collect(),
        T::Tuple(v) => {
            if v.len() == 2 && v[1] == T::Ellipsis { return borrowed_ty(&T::List(bx(v[0].clone()))); }
            if v.len() < 2 || v.len() > 12 { return one("impl pyo3::IntoPy<pyo3::Py<pyo3::types::PyTuple>>"); }
            owned_ty(t)
        }
        T::Loose(t) => { let mut o = borrowed_ty(t); add(&mut o, one(INTO)); o }
    }
}

/// An annotation and its meaning.
#[derive(Clone)]
struct An { a: Ann, t: T }
fn an(a: Ann, t: T) -> An { An { a, t } }
const N_CLASS: u8 = 27;
fn class_t(x: Bt) -> T {
    use Bt::*;
    let any = || bx(T::Any);
    match x {
        Int => T::I64, Bt::Str => T::Str, Float => T::F64, Bt::Bool => T::Bool, Bt::Bytes => T::Bytes, Bt::ByteArray => T::ByteArray,
        Bt::List => T::List(any()), Bt::Dict => T::Dict(any(), any()), Bt::Set => T::Set(any()), Bt::FrozenSet => T::FrozenSet(any()), Bt::Tuple => T::Tuple(vec![T::Any]),
        Slice => T::Native("PySlice"), Complex => T::Native("PyComplex"), Type => T::Native("PyType"), Date => T::Native("PyDate"), DateTime => T::Native("PyDateTime"), Time => T::Native("PyTime"),
        TzInfo => T::Native("PyTzInfo"), Function => T::Native("PyFunction"), Module => T::Native("PyModule"), Code => T::Native("PyCode"), Bt::Path => T::Path, IpV4 => T::Ip,
        Object | NoneType | Delta | Exception => T::Any,
    }
}
pub const ALL_BT: [Bt; 27] = [Bt::Int, Bt::Str, Bt::Float, Bt::Bool, Bt::Bytes, Bt::ByteArray, Bt::List, Bt::Dict, Bt::Set, Bt::FrozenSet, Bt::Tuple, Bt::Slice, Bt::Complex, Bt::Object, Bt::Type, Bt::NoneType, Bt::Date, Bt::DateTime,
    Bt::Time, Bt::Delta, Bt::TzInfo, Bt::Function, Bt::Module, Bt::Code, Bt::Path, Bt::IpV4, Bt::Exception];
/// Functions `f0(a: A0) -> A0`, ... next to the classes `Cls` and the ones given.
fn members(v: &[An], more: Vec<(S, Member)>) -> Vec<(S, Member)> {
    let mut m = more;
    for (i, x) in v.iter().enumerate() {
        let mut p = param(b("a"), Kind::PosOrKw);
        p.ann = Some(x.a.clone());
        m.push((format!("f{i}").into_bytes(), Member::Func(Func { params: vec![p], ret: Some(x.a.clone()), ..Default::default() })));
    }
    m
}
fn cls(n: &str) -> (S, Member) { (b(n), Member::Class(Class::default())) }
/// Parameters and results have the types that their annotations mean, and are converted accordingly.
fn check_types(items: &[Item], v: &[An]) {
    for (i, x) in v.iter().enumerate() {
        let f = get_fn(items, &format!("f{i}"));
        let (e, kinds) = eval_kinds(f);
        let vis = visible(f);
        note(&vis[0].1); note(&f.ret);
        check(vis.len() == 1 && matches!(e, V::Extracted(_)), "generated code: parameters");
        let (bt, ot) = (borrowed_ty(&x.t), wrap("pyo3::PyResult<", owned_ty(&x.t), ">"));
        if !bt.contains(&vis[0].1) { note(&vis[0].1); for w in &bt { note(w); } fail("a parameter has another type than its annotation says"); }
        if !ot.contains(&f.ret) { note(&f.ret); for w in &ot { note(w); } fail("a function returns another type than its annotation says"); }
        let raw = match &x.t { T::Loose(t) => t, t => t };
        let raw = match raw { T::Opt(t) => t, t => t };
        if vis[0].1 == "&[u8]" || vis[0].1 == "Option<Vec<u8>>" { check(kinds == vec![(f.params.len() - 1, if *raw == T::ByteArray { "PyByteArray" } else { "PyBytes" })], "a parameter is passed as an object of another type"); }
    }
}
fn bind_types(v: &[An]) {
    install(vec![module("vm", vec![cls("Cls")])]);
    install(vec![module("vf", members(v, vec![]))]);
    // (the class belongs to another module, so that it can be referred to)
    let out = bind_quiet(Config::default(), &["vm", "vf"]);
    check_types(&get_mod(&out, "vf").items, v);
}
const LOCAL: T = T::Local("super::vm::Cls");
/// every built-in class, and classes derived from it
pub fn classes() {
    let x = ALL_BT[pick(N_CLASS) as usize];
    let base = matches!(x, Bt::Int | Bt::Str | Bt::Float | Bt::Bytes | Bt::ByteArray | Bt::List | Bt::Dict | Bt::Set | Bt::FrozenSet | Bt::Tuple | Bt::Complex | Bt::Date | Bt::DateTime | Bt::Time | Bt::TzInfo | Bt::Type | Bt::Module | Bt::Object | Bt::Delta | Bt::Exception);
    let mut v = vec![an(Ann::Ty(x), class_t(x)), an(Ann::Typing("Optional", vec![Ann::Ty(if x == Bt::NoneType { Bt::Int } else { x })]), T::Opt(bx(class_t(if x == Bt::NoneType { Bt::Int } else { x }))))];
    if base {
        // what has no counterpart in Rust is bound as a class
        let t = match x { Bt::Object | Bt::Delta | Bt::Exception => T::Local("super::vm::Sub"), _ => class_t(x) };
        if x != Bt::Delta { v.push(an(Ann::Class(b("vm"), b("Sub")), t)); }
        install(vec![module("vm", vec![cls("Cls"), (b("Sub"), Member::Class(Class { base: if x == Bt::Object { None } else { Some(x) }, ..Default::default() }))])]);
        reach(2);
    } else { install(vec![module("vm", vec![cls("Cls")])]); }
    v.push(an(Ann::Class(b("vm"), b("Cls")), LOCAL));
    install(vec![module("vf", members(&v, vec![]))]);
    let out = bind_quiet(Config::default(), &["vm", "vf"]);
    check_types(&get_mod(&out, "vf").items, &v);
    reach(1);
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Style { Typing, Pep, Text, Dense, Wide }
const N_ATOM: u8 = 10;
fn atom(i: u8, s: Style) -> An {
    let text = |n: &str, t: T| an(Ann::Str(b(n)), t);
    if s == Style::Text || s == Style::Dense || s == Style::Wide {
        return match i {
            0 => text("int", T::I64), 1 => text("str", T::Str), 2 => text("bool", T::Bool), 3 => text("float", T::F64), 4 => text("bytes", T::Bytes), 5 => text("vm.Cls", LOCAL), 6 => text("Any", T::Any), 7 => text("Foo", T::Any),
            8 => text("dict", T::Dict(bx(T::Any), bx(T::Any))), _ => text("bytearray", T::ByteArray),
        };
    }
    let ty = |x: Bt| an(Ann::Ty(x), class_t(x));
    match i { 0 => ty(Bt::Int), 1 => ty(Bt::Str), 2 => ty(Bt::Bool), 3 => ty(Bt::Float), 4 => ty(Bt::Bytes), 5 => an(Ann::Class(b("vm"), b("Cls")), LOCAL), 6 => an(Ann::Typing("Any", vec![]), T::Any), 7 => ty(Bt::Object), 8 => ty(Bt::Dict), _ => ty(Bt::ByteArray) }
}
fn txt(a: &Ann) -> &[u8] { match a { Ann::Str(x) => x, _ => fail("harness: text") } }
/// `form[args]`
const N_FORM: u8 = 16;
fn arity(f: u8) -> usize { match f { 5 | 6 | 8 | 10 | 13 | 15 => 2, _ => 1 } }
fn form(f: u8, s: Style, v: &[An]) -> An {
    let t = |i: usize| bx(v[i].t.clone());
    let meaning = match f {
        0 => T::Opt(t(0)),
        1 => T::List(t(0)), 2 => T::Set(t(0)), 3 => T::FrozenSet(t(0)), 4 => T::Tuple(vec![v[0].t.clone()]), 5 => T::Dict(t(0), t(1)), 6 => T::Tuple(vec![v[0].t.clone(), v[1].t.clone()]), 7 => T::Tuple(vec![v[0].t.clone(), T::Ellipsis]),
        8 | 15 => T::Any, 9 => T::Native("PyType"), 10 => T::Native("PyFunction"), 11 | 12 => T::List(t(0)), 13 if v.len() > 1 => T::Dict(t(0), t(1)), _ => T::List(t(0)),
    };
    let args: Vec<Ann> = v.iter().map(|x| x.a.clone()).collect();
    let a = match s {
        Style::Typing => match f {
            0 => Ann::Typing("Optional", args), 1 => Ann::Typing("List", args), 2 => Ann::Typing("Set", args), 3 => Ann::Typing("FrozenSet", args), 4 | 6 => Ann::Typing("Tuple", args), 5 => Ann::Typing("Dict", args),
            7 => Ann::Typing("Tuple", vec![args[0].clone(), Ann::Ellipsis]), 8 => Ann::Typing("Union", args), 9 => Ann::Typing("Type", args), 10 => Ann::Typing("Callable", vec![Ann::Params(vec![args[0].clone()]), args[1].clone()]),
            11 => Ann::Typing("Sequence", args), 12 => Ann::Typing("Iterable", args), 13 => Ann::Typing("Mapping", args), 15 => Ann::Typing("Optional", vec![Ann::Typing("Union", args)]), _ => Ann::Typing("Iterator", args),
        },
        Style::Pep => match f {
            0 => Ann::Pep604(vec![args[0].clone(), Ann::None]), 1 => Ann::Pep585(Bt::List, args), 2 => Ann::Pep585(Bt::Set, args), 3 => Ann::Pep585(Bt::FrozenSet, args), 4 | 6 => Ann::Pep585(Bt::Tuple, args), 5 => Ann::Pep585(Bt::Dict, args),
            7 => Ann::Pep585(Bt::Tuple, vec![args[0].clone(), Ann::Ellipsis]), 8 => Ann::Pep604(args), 15 => Ann::Pep604(vec![args[0].clone(), args[1].clone(), Ann::None]), 9 => Ann::Pep585(Bt::Type, args), _ => fail("harness: no such form"),
        },
        Style::Text | Style::Dense | Style::Wide => {
            let (bar, comma): (&[u8], &[u8]) = match s { Style::Text => (b" | ", b", "), Style::Dense => (b"|", b","), _ => (b"  |  ", b" ,  ") };
            let pad: &[u8] = if s == Style::Wide { b" " } else { b"" };
            let x: Vec<&[u8]> = args.iter().map(txt).collect();
            let gen = |n: &[u8]| cat(&[n, b"[", pad, &x.join(comma), pad, b"]"]);
            Ann::Str(match f {
                0 => cat(&[x[0], bar, b"None"]), 1 => gen(b"list"), 2 => gen(b"set"), 3 => gen(b"frozenset"), 4 | 6 => gen(b"tuple"), 5 => gen(b"dict"), 7 => cat(&[b"tuple[", x[0], comma, b"...]"]), 8 => x.join(bar), 15 => if s == Style::Text { cat(&[x[0], bar, x[1], bar, b"None"]) } else { cat(&[b"None", bar, x[0], bar, x[1]]) }, 9 => gen(b"type"),
                10 => cat(&[b"Callable[[", x[0], b"]", comma, x[1], b"]"]), 11 => gen(b"Sequence"), 12 => gen(b"collections.abc.Iterable"), 13 => cat(&[b"None", bar, x[0]]), _ => gen(b"typing.Iterator"),
            })
        }
    };
    let meaning = if matches!(s, Style::Text | Style::Dense | Style::Wide) && f == 13 { T::Opt(t(0)) } else { meaning };
    an(a, meaning)
}
/// a form around an atom, inside another form
fn inner(i: u8, s: Style) -> An {
    let a = |i| atom(i, s);
    match i { 0 => form(1, s, &[a(0)]), 1 => form(5, s, &[a(1), a(6)]), 2 => form(5, s, &[a(1), a(0)]), 3 => form(6, s, &[a(0), a(1)]), 4 => form(2, s, &[a(1)]), 5 => form(7, s, &[a(0)]), 6 => form(9, s, &[a(5)]), _ => form(1, s, &[a(5)]) }
}
const N_ARG: u8 = N_ATOM + 8;
fn arg(i: u8, s: Style) -> An { if i < N_ATOM { atom(i, s) } else { inner(i - N_ATOM, s) } }
/// the second argument runs through all atoms and the inner forms
fn fill(f: u8, s: Style, first: u8) -> Vec<An> {
    let mut v = vec![];
    if arity(f) == 1 || (matches!(s, Style::Text | Style::Dense | Style::Wide) && f == 13) { v.push(form(f, s, &[arg(first, s)])); return v; }
    for i in 0..N_ARG { if (f != 8 && f != 15) || i != first { v.push(form(f, s, &[arg(first, s), arg(i, s)])); } }
    v
}
/// `typing.X[...]` of built-in types, local classes and other forms
pub fn typing() { let f = pick(N_FORM); bind_types(&fill(f, Style::Typing, pick(N_ARG))); reach(1); }
/// `list[...]`, `a | b`
pub fn pep() { let mut f = pick(11); if f == 10 { f = 15; } bind_types(&fill(f, Style::Pep, pick(N_ARG))); reach(1); }
/// the same as text
pub fn text() {
    let f = pick(N_FORM);
    let i = pick(N_ARG);
    let mut v = fill(f, Style::Text, i);
    // (one of the other spacings each)
    if f != 2 && f != 3 { v.extend(fill(f, if (f + i) % 2 == 0 { Style::Dense } else { Style::Wide }, i)); }
    bind_types(&v);
    reach(1);
}
/// tuples of any length
pub fn tuples() {
    let s = [Style::Typing, Style::Pep, Style::Text][pick(3) as usize];
    let (x, step) = (pick(N_ATOM), pick(2));
    let mut v = vec![];
    for n in 2..15usize {
        let l: Vec<An> = (0..n).map(|i| atom((x + i as u8 * step) % N_ATOM, s)).collect();
        let args: Vec<Ann> = l.iter().map(|t| t.a.clone()).collect();
        let a = match s { Style::Typing => Ann::Typing("Tuple", args), Style::Pep => Ann::Pep585(Bt::Tuple, args), _ => { let w: Vec<&[u8]> = args.iter().map(txt).collect(); Ann::Str(cat(&[b"tuple[", &w.join(&b", "[..]), b"]"])) } };
        v.push(an(a, T::Tuple(l.into_iter().map(|t| t.t).collect())));
    }
    bind_types(&v);
    reach(1);
}
/// annotations with metadata, and generic classes derived from built-in ones
pub fn wrapped() {
    let i = pick(N_ARG);
    let mut v = vec![];
    for f in 0..N_FORM {
        if f > 12 { continue; }
        let s = if f % 2 == 0 || f > 9 { Style::Typing } else { Style::Pep };
        let a = form(f, s, &[arg(i, s), arg(if i == 0 { 1 } else { 0 }, s)][..arity(f)]);
        v.push(an(Ann::Typing("Annotated", vec![a.a]), T::Loose(Box::new(a.t))));
    }
    let a = arg(i, Style::Typing);
    v.push(an(Ann::Typing("Annotated", vec![a.a.clone()]), T::Loose(Box::new(a.t.clone()))));
    let any = || bx(T::Any);
    for (n, t) in [("MyDict", T::Dict(any(), any())), ("MyList", T::List(any())), ("MySet", T::Set(any())), ("MyTuple", T::Tuple(vec![T::Any]))] {
        v.push(an(Ann::Generic(b("vm"), b(n), vec![a.a.clone()]), t.clone()));
        v.push(an(Ann::Generic(b("vm"), b(n), vec![a.a.clone(), Ann::Ty(Bt::Int)]), t));
    }
    let gen = |n: &str, x: Bt| (b(n), Member::Class(Class { base: Some(x), members: vec![(b("__orig_bases__"), Member::Val(Val::Tuple))], ..Default::default() }));
    install(vec![module("vm", vec![cls("Cls"), gen("MyDict", Bt::Dict), gen("MyList", Bt::List), gen("MySet", Bt::Set), gen("MyTuple", Bt::Tuple)])]);
    install(vec![module("vf", members(&v, vec![]))]);
    let out = bind_quiet(Config::default(), &["vm", "vf"]);
    check_types(&get_mod(&out, "vf").items, &v);
    reach(1);
}
/// any string is an annotation: what is not understood is an arbitrary object
fn arbitrary(x: S) {
    let t = match &x[..] { b"Any" | b"" => T::Any, b"int" => T::I64, b"str" => T::Str, _ => T::Any };
    bind_types(&[an(Ann::Str(x), t)]);
    reach(1);
}
fn chars(len: u8, l: &[u8]) -> S {
    let mut x = vec![];
    for _ in 0..len { let c = any_u8(); let mut ok = false; for k in l { ok = ok | (c == *k); } assume(ok); x.push(c); }
    x
}
pub fn short() { let mut x = vec![]; if flag() { let c = any_u8(); assume((c >= 0x20) & (c < 0x7f)); x.push(c); } arbitrary(x); }
/// strings over the characters with a meaning
pub fn symbols() { let n = pick(4); arbitrary(chars(n, b"[]|,. ")); }
pub fn symbols_deep() { arbitrary(chars(4, b"[]|,.:' i")); }
/// ... inside a generic type
pub fn inside() { let g: &[u8] = [&b"dict["[..], b"list[", b"tuple[", b"set[", b"Callable[", b"type["][pick(6) as usize]; let n = pick(3); let x = chars(n, b"[]|, "); let t = cat(&[g, &x, b"]"]); total(t); }
/// the engine copes with it
fn total(x: S) {
    let v = [an(Ann::Str(x), T::Any)];
    install(vec![module("vf", members(&v, vec![]))]);
    let out = bind_quiet(Config::default(), &["vf"]);
    let f = get_fn(&get_mod(&out, "vf").items, "f0");
    note(&f.ret);
    check(visible(f).len() == 1, "generated code: parameters");
    reach(1);
}

// ------------------------------------------------------------------ conversions
const NATIVE: [&str; 26] = ["PyAny", "PyDict", "PySet", "PyFrozenSet", "PyTuple", "PyList", "PySlice", "PyComplex", "PyDate", "PyDateTime", "PyDelta", "PyTime", "PyTzInfo", "PyCapsule", "PyCFunction", "PyCode", "PyFrame", "PyFunction", "PyModule", "PySuper",
    "PyTraceback", "PyType", "PyBytes", "PyByteArray", "PyString", "PyIterator"];
/// Arguments of `a<b,c<d>>`: at the top level.
fn parts(s: &str) -> Vec<&str> {
    let mut o = vec![];
    let (mut d, mut st) = (0i32, 0);
    for (i, c) in s.bytes().enumerate() {
        match c { b'<' | b'(' | b'[' => d += 1, b'>' | b')' | b']' => d -= 1, b',' if d == 0 => { o.push(&s[st..i]); st = i + 1; } _ => {} }
    }
    if st < s.len() { o.push(&s[st..]); }
    o
}
fn inside_of<'a>(s: &'a str, a: &str, z: &str) -> Option<&'a str> { s.strip_prefix(a).and_then(|s| s.strip_suffix(z)) }
fn hashes(s: &str) -> bool { matches!(s, "bool" | "i64" | "String" | "std::path::PathBuf" | "std::net::IpAddr" | "std::net::Ipv4Addr" | "std::net::Ipv6Addr") || inside_of(s, "Option<", ">").is_some_and(hashes) || inside_of(s, "Vec<", ">").is_some_and(hashes) }
/// pyo3 converts objects to this type and back. Other names have to be classes of the bindings.
pub fn convertible(s: &str, classes: &[&str]) -> bool {
    if matches!(s, "bool" | "i64" | "f64" | "String" | "std::path::PathBuf" | "std::net::IpAddr") { return true; }
    if let Some(x) = inside_of(s, "Option<", ">") { return convertible(x, classes); }
    if let Some(x) = inside_of(s, "Vec<", ">") { return x == "u8" || convertible(x, classes); }
    if let Some(x) = inside_of(s, "std::collections::HashSet<", ">") { return hashes(x) && convertible(x, classes); }
    if let Some(x) = inside_of(s, "std::collections::HashMap<", ">") { let p = parts(x); return p.len() == 2 && hashes(p[0]) && convertible(p[0], classes) && convertible(p[1], classes); }
    if let Some(x) = inside_of(s, "pyo3::Bound<'py,pyo3::types::", ">") { return NATIVE.contains(&x); }
    if let Some(x) = inside_of(s, "pyo3::Bound<'py,", ">") { return classes.contains(&x); }
    if let Some(x) = inside_of(s, "(", ")") { let p = parts(x); return !p.is_empty() && p.len() <= 12 && p.iter().all(|x| convertible(x, classes)); }
    false
}
pub fn convertible_arg(s: &str, classes: &[&str]) -> bool {
    if matches!(s, "&str" | "&[u8]" | "&std::path::Path" | "impl pyo3::IntoPy<pyo3::Py<pyo3::types::PyAny>>" | "impl pyo3::IntoPy<pyo3::Py<pyo3::types::PyTuple>>" | "impl pyo3::types::IntoPyDict") { return true; }
    if let Some(x) = inside_of(s, "&[", "]") { return convertible(x, classes); }
    if let Some(x) = s.strip_prefix('&') { return convertible(x, classes) && (x.starts_with("pyo3::Bound<") || x.starts_with("std::collections::Hash")); }
    convertible(s, classes)
}
pub fn check_convertible(f: &FnI, classes: &[&str]) {
    for p in visible(f) { if !convertible_arg(&p.1, classes) { note(&p.1); fail("a parameter has a type that cannot be converted to a Python object"); } }
    match inside_of(&f.ret, "pyo3::PyResult<", ">") { Some(r) if convertible(r, classes) => {} _ => { note(&f.ret); fail("a result has a type that Python objects cannot be converted to"); } }
    // (the conversions of parameters are looked at as well)
    eval(f);
}
fn bind_conv(v: &[An]) {
    install(vec![module("vm", vec![cls("Cls")])]);
    install(vec![module("vf", members(v, vec![]))]);
    let out = bind_quiet(Config::default(), &["vm", "vf"]);
    for i in 0..v.len() { let f = get_fn(&get_mod(&out, "vf").items, &format!("f{i}")); note(&f.ret); check_convertible(f, &["super::vm::Cls"]); }
    reach(1);
}
/// forms of forms of forms
pub fn nested() { nesting(&[0, 1, 5, 6, N_ATOM + 2]) }
pub fn nested_deep() { let all: Vec<u8> = (0..N_ARG).collect(); nesting(&all) }
fn nesting(args: &[u8]) {
    let s = [Style::Typing, Style::Text][pick(2) as usize];
    let (f, g) = (pick(11), pick(11));
    // (typing itself flattens unions of unions)
    assume(!((s == Style::Typing) & ((f == 0) | (f == 8)) & ((g == 0) | (g == 8))));
    let mut v = vec![];
    for &i in args {
        let x = arg(i, s);
        let k = arg(1, s);
        let y = match arity(g) { 1 => vec![form(g, s, &[x.clone()])], _ => vec![form(g, s, &[x.clone(), k.clone()]), form(g, s, &[k.clone(), x.clone()])] };
        for y in y {
            if s == Style::Typing && g == 8 && i == 1 { continue; }
            match arity(f) { 1 => v.push(form(f, s, &[y])), _ => { v.push(form(f, s, &[y.clone(), k.clone()])); v.push(form(f, s, &[k.clone(), y])); } }
        }
    }
    bind_conv(&v);
}
/// tuples of any length, keys of every type
pub fn keys() {
    let s = [Style::Typing, Style::Pep, Style::Text][pick(3) as usize];
    let x = pick(10);
    let mut v = vec![];
    for n in 0..14usize {
        let t: Vec<An> = (0..n + 1).map(|i| atom((x + i as u8) % N_ATOM, s)).collect();
        let args: Vec<Ann> = t.iter().map(|t| t.a.clone()).collect();
        v.push(an(match s { Style::Typing => Ann::Typing("Tuple", args), Style::Pep => Ann::Pep585(Bt::Tuple, args), _ => { let w: Vec<&[u8]> = args.iter().map(txt).collect(); Ann::Str(cat(&[b"tuple[", &w.join(&b", "[..]), b"]"])) } }, T::Any));
    }
    if s != Style::Text {
        for i in 0..27 { let t = Ann::Ty(ALL_BT[i]); v.push(an(if s == Style::Typing { Ann::Typing("Dict", vec![t.clone(), Ann::Ty(Bt::Int)]) } else { Ann::Pep585(Bt::Dict, vec![t.clone(), Ann::Ty(Bt::Int)]) }, T::Any)); v.push(an(if s == Style::Typing { Ann::Typing("Set", vec![t]) } else { Ann::Pep585(Bt::FrozenSet, vec![t]) }, T::Any)); }
    } else {
        for n in ["ipaddress.IPv4Address", "ipaddress.IPv6Address", "pathlib.Path", "os.PathLike", "datetime.date", "timedelta", "module", "frame", "traceback", "super", "code", "capsule", "cfunction", "function", "slice", "complex", "callable", "tuple", "list", "Mapping", "Sequence"] {
            v.push(an(Ann::Str(b(n)), T::Any)); v.push(an(Ann::Str(cat(&[b"dict[", n.as_bytes(), b", int]"])), T::Any)); v.push(an(Ann::Str(cat(&[b"set[", n.as_bytes(), b"]"])), T::Any));
        }
    }
    bind_conv(&v);
}
