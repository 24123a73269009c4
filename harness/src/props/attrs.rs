//! Attributes: getters and setters of properties and module-level values.
use super::*;

fn p(n: &str) -> Param { param(b(n), Kind::PosOrKw) }
fn getter(ret: Option<Ann>) -> Func { Func { params: vec![p("self")], ret, ..Default::default() } }
fn setter(ann: Option<Ann>) -> Func { let mut v = vec![p("self"), p("v")]; v[1].ann = ann; Func { params: v, ..Default::default() } }
fn method() -> Member { func(vec![p("self")]) }

/// The function reads attribute `name` of the object and returns it converted.
pub fn check_get(f: &FnI, class: bool, module: &str, name: &str) {
    let V::Extracted(v) = eval(f) else { fail("the value of an attribute is not returned") };
    let V::Getattr(r, n) = *v else { fail("a getter does something else than reading an attribute") };
    check(n == name, "a getter reads another attribute");
    check(visible(f).is_empty(), "a getter has parameters");
    on(f, class, module, &r);
}
fn on(f: &FnI, class: bool, module: &str, r: &V) {
    if class { check(*r == V::This && f.recv.as_deref() == Some("&'py self"), "an attribute of another object is accessed"); }
    else { check(dotted(r) == module && f.public && f.recv.is_none(), "an attribute of another object is accessed"); }
}
pub fn check_set(f: &FnI, class: bool, module: &str, name: &str) {
    let V::Setattr(r, n, v) = eval(f) else { fail("a setter does something else than setting an attribute") };
    check(n == name, "a setter sets another attribute");
    check(visible(f).len() == 1, "a setter does not have one parameter");
    check(f.ret == "pyo3::PyResult<()>", "a setter returns something");
    check(*v == V::Param(f.params.len() - 1, ""), "a setter sets something else than its argument");
    on(f, class, module, &r);
}
fn items_of<'a>(out: &'a [Item], class: bool) -> &'a [Item] {
    let m = get_mod(out, "vm");
    if class { let c = get_class(&m.items, "Cls"); same_decl(c.tr, c.tri); c.tri } else { &m.items }
}
fn same_decl(a: &[Item], b: &[Item]) {
    let (a, b) = (fns(a), fns(b));
    check(a.len() == b.len(), "the declared methods are not the implemented ones");
    for (x, y) in a.iter().zip(&b) { check(x.name == y.name && x.recv == y.recv && x.params == y.params && x.ret == y.ret, "a method differs from its declaration"); }
}
/// The names that getter and setter get next to functions and attributes of other names.
fn names(n: &str, fns: &[&str], attrs: &[&str], mutable: bool) -> (Option<String>, Option<String>) {
    let get = cat3("get_", n, "");
    let set = cat3("set_", n, "");
    let free = |x: &str| !fns.contains(&x) && !attrs.contains(&x);
    let g = if fns.contains(&n) || is_no_raw(n.as_bytes()) { free(&get).then_some(get) } else { Some(String::from(n)) };
    (g, (mutable && free(&set)).then_some(set))
}
/// all accessors are there under the right names and access the right attribute, and nothing else is there
fn check_all(items: &[Item], class: bool, attrs: &[(&str, bool)], funcs: &[&str], scope: &[&str]) {
    let all: Vec<&str> = attrs.iter().map(|a| a.0).collect();
    let mut n = funcs.len();
    for (a, mutable) in attrs {
        let (g, s) = names(a, scope, &all, *mutable);
        if let Some(g) = g { check_get(get_fn(items, &g), class, "vm", a); n += 1; }
        if let Some(s) = s { check_set(get_fn(items, &s), class, "vm", a); n += 1; }
    }
    for f in funcs { get_fn(items, f); }
    // (accessors of special methods are not looked at)
    check(fns(items).iter().filter(|f| f.name != "__init__" && f.name != "__call__").count() == n, "there is an accessor that should not be there, or one is missing");
}
const NAMES: [&str; 9] = ["x", "match", "self", "super", "crate", "get_x", "set_x", "fn", "Self"];
/// one or two attributes of a class or a module, next to functions with the names of their accessors
pub fn clashes() {
    let class = flag();
    let n = NAMES[pick(9) as usize];
    let mutable = !class || flag();
    let (g, s) = (cat3("get_", n, ""), cat3("set_", n, ""));
    let mut attrs = vec![(n, mutable)];
    // each accessor name may belong to a function or to another attribute
    let (a, c) = (pick(3), pick(3));
    let mut funcs: Vec<&str> = vec![];
    if a == 1 { funcs.push(&g); } else if a == 2 { attrs.push((&g, true)); }
    if c == 1 { funcs.push(&s); } else if c == 2 { attrs.push((&s, false || !class)); }
    let mut members = vec![];
    for (n, m) in &attrs { members.push((b(n), if class { Member::Prop(Some(getter(None)), m.then(|| setter(None))) } else { Member::Val(Val::Int) })); }
    for f in &funcs { members.push((b(f), if class { method() } else { func(vec![]) })); }
    install(vec![module("vm", if class { vec![(b("Cls"), Member::Class(Class { members, ..Default::default() }))] } else { members })]);
    let out = bind(Config::default(), &["vm"]);
    check_all(items_of(&out, class), class, &attrs, &funcs, &funcs);
    reach(1);
    if a == 2 && c == 2 { reach(2); }
    if class && !mutable { reach(3); }
}
/// properties with the names of the constructor and the call method
pub fn specials() {
    let n = ["new", "call", "new1", "call1"][pick(4) as usize];
    let (i, c) = (flag(), flag());
    let taken = pick(3);
    let mut members = vec![];
    if i { members.push((b("__init__"), method())); }
    if c { members.push((b("__call__"), method())); }
    let mut funcs = vec![];
    if taken > 0 { let f = ["new", "call"][taken as usize - 1]; assume_ne(n, f); funcs.push(f); members.push((b(f), method())); }
    let mutable = flag();
    members.push((b(n), Member::Prop(Some(getter(None)), mutable.then(|| setter(None)))));
    install(vec![module("vm", vec![(b("Cls"), Member::Class(Class { members, ..Default::default() }))])]);
    let out = bind(Config::default(), &["vm"]);
    let cl = get_class(&get_mod(&out, "vm").items, "Cls");
    same_decl(cl.tr, cl.tri);
    let new = if taken == 1 { "new1" } else { "new" };
    let call = if taken == 2 { "call1" } else { "call" };
    let mut scope = funcs.clone();
    if i { get_fn(cl.own, new); scope.push(new); }
    if c { get_fn(cl.tri, call); scope.push(call); }
    if c { funcs.push(call); }
    check_all(cl.tri, true, &[(n, mutable)], &funcs, &scope);
    reach(1);
    if scope.contains(&n) { reach(2); }
}
fn assume_ne(a: &str, b: &str) { assume(a != b); }
/// getters return what the getter is annotated with, setters take what the setter is annotated with
pub fn annotated() {
    let (g, s) = (pick(8), pick(8));
    let ann = |k: u8| match k { 0 => None, 1 => Some(Ann::Ty(Bt::Int)), 2 => Some(Ann::Ty(Bt::Str)), 3 => Some(Ann::Typing("Optional", vec![Ann::Ty(Bt::Int)])), 4 => Some(Ann::Ty(Bt::Bytes)), 5 => Some(Ann::Ty(Bt::Tuple)), 6 => Some(Ann::Str(b("float"))), _ => Some(Ann::Ty(Bt::Dict)) };
    let owned = ["pyo3::Bound<'py,pyo3::types::PyAny>", "i64", "String", "Option<i64>", "Vec<u8>", "pyo3::Bound<'py,pyo3::types::PyTuple>", "f64", "pyo3::Bound<'py,pyo3::types::PyDict>"];
    let borrowed = ["impl pyo3::IntoPy<pyo3::Py<pyo3::types::PyAny>>", "i64", "&str", "Option<i64>", "&[u8]", "impl pyo3::IntoPy<pyo3::Py<pyo3::types::PyTuple>>", "f64", "impl pyo3::types::IntoPyDict"];
    let m = vec![(b("x"), Member::Prop(Some(getter(ann(g))), Some(setter(ann(s)))))];
    install(vec![module("vm", vec![(b("Cls"), Member::Class(Class { members: m, ..Default::default() }))])]);
    let out = bind(Config::default(), &["vm"]);
    let items = items_of(&out, true);
    let (gf, sf) = (get_fn(items, "x"), get_fn(items, "set_x"));
    check_get(gf, true, "vm", "x");
    let V::Setattr(r, n, _) = eval(sf) else { fail("a setter does something else than setting an attribute") };
    check(*r == V::This && n == "x", "a setter sets another attribute");
    note(&gf.ret); note(&sf.params[0].1);
    check(gf.ret == format!("pyo3::PyResult<{}>", owned[g as usize]), "a getter returns another type than its annotation says");
    check(sf.params.len() == 1 && sf.params[0].1 == borrowed[s as usize], "a setter takes another type than its annotation says");
    reach(1);
}
/// properties without a getter, setters without a separate value, built-in functions as accessors
pub fn odd() {
    let k = pick(7);
    let (g, s) = match k {
        0 => (None, Some(setter(None))),
        1 => (Some(getter(None)), Some(Func { params: vec![param(b("a"), Kind::VarPos)], ..Default::default() })),
        2 => (Some(Func { nosig: true, ..getter(None) }), Some(setter(None))),
        3 => (Some(getter(None)), Some(Func { nosig: true, ..setter(None) })),
        4 => (Some(Func { params: vec![param(b("a"), Kind::VarPos)], ..Default::default() }), None),
        6 => (Some(getter(None)), None),
        _ => (None, None),
    };
    let mutable = s.is_some();
    install(vec![module("vm", vec![(b("Cls"), Member::Class(Class { members: vec![(b("x"), if k == 6 { Member::Deletable(getter(None)) } else { Member::Prop(g, s) })], ..Default::default() }))])]);
    let out = bind(Config::default(), &["vm"]);
    let items = items_of(&out, true);
    if k == 5 { reach(2); return; }
    if k != 0 { check_get(get_fn(items, "x"), true, "vm", "x"); }
    if mutable { check_set(get_fn(items, "set_x"), true, "vm", "x"); } else { check(find_fn(items, "set_x").is_none(), "a read-only attribute has a setter"); }
    reach(1);
}
/// inherited properties; every pair of read-only and mutable ones
pub fn inherited() {
    let (a, c, over) = (flag(), flag(), pick(3));
    let prop = |m: bool| Member::Prop(Some(getter(None)), m.then(|| setter(None)));
    let mut own = vec![];
    if over == 1 { own.push((b("x"), prop(c))); }
    if over == 2 { own.push((b("x"), method())); }
    install(vec![module("vm", vec![(b("Base"), Member::Class(Class { members: vec![(b("x"), prop(a))], ..Default::default() }))])]);
    install(vec![module("vn", vec![(b("Cls"), Member::Class(Class { bases: vec![(b("vm"), b("Base"))], members: own, ..Default::default() }))])]);
    let out = bind(Config::default(), &["vn"]);
    let cl = get_class(&get_mod(&out, "vn").items, "Cls");
    same_decl(cl.tr, cl.tri);
    match over { 0 => check_all(cl.tri, true, &[("x", a)], &[], &[]), 1 => check_all(cl.tri, true, &[("x", c)], &[], &[]), _ => check_all(cl.tri, true, &[], &["x"], &[]) }
    reach(1);
}
/// whether an attribute can be set has nothing to do with its name
pub fn capitals() {
    let first = any_u8();
    assume(((first >= b'a') & (first <= b'c')) | ((first >= b'L') & (first <= b'N')));
    let mut n = vec![first];
    match pick(4) {
        0 => {}
        1 => { let c = any_u8(); assume(((c >= b'x') & (c <= b'z')) | ((c >= b'W') & (c <= b'Y')) | (c == b'_') | ((c >= b'0') & (c <= b'1'))); n.push(c); }
        2 => n.extend_from_slice(b"_AX"),
        _ => n.extend_from_slice(b"AX_VALUE_1"),
    }
    let class = flag();
    let set = !class || flag();
    let ms = vec![(n.clone(), if class { Member::Prop(Some(getter(None)), set.then(|| setter(None))) } else { Member::Val(Val::Int) })];
    install(vec![module("vm", if class { vec![(b("Cls"), Member::Class(Class { members: ms, ..Default::default() }))] } else { ms })]);
    let out = bind(Config::default(), &["vm"]);
    let items = items_of(&out, class);
    let n = st(&n);
    check_get(get_fn(items, n), class, "vm", n);
    let sn = format!("set_{n}");
    if set { check_set(get_fn(items, &sn), class, "vm", n); } else { check(find_fn(items, &sn).is_none(), "a read-only attribute has a setter"); }
    reach(1);
}
