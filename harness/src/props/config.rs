//! Configuration: every option switches exactly what it is about.
use super::*;
use crate::resolve::*;

fn all_docs(v: &[Item], o: &mut Vec<String>) {
    for i in v {
        match i {
            Item::Mod(m) => { o.extend(m.docs.iter().cloned()); all_docs(&m.items, o); }
            Item::Fn(f) => o.extend(f.docs.iter().cloned()),
            Item::Struct(s) => o.extend(s.docs.iter().cloned()),
            Item::Trait(t) => all_docs(&t.items, o),
            Item::Impl(t) => all_docs(&t.items, o),
            _ => {}
        }
    }
}
fn doc(t: &str) -> Option<S> { Some(b(t)) }
fn class(n: &str) -> Member {
    let f = |d: &str, p: Vec<Param>| Func { doc: doc(d), params: p, ..Default::default() };
    let me = || vec![self_param("self")];
    Member::Class(Class { doc: doc(&cat3("class ", n, "")), members: vec![(b("__init__"), Member::Func(f("init", me()))), (b("__call__"), Member::Func(f("call", me()))), (b("m"), Member::Func(f("method", me()))), (b("s"), Member::Static(f("static", vec![]))), (b("c"), Member::ClassM(f("class method", vec![self_param("cls")]))), (b("p"), Member::Prop(Some(f("property", me())), Some(Func { doc: doc("setter"), params: vec![self_param("self"), param(b("v"), Kind::PosOrKw)], ..Default::default() })))], ..Default::default() })
}
fn want_class(w: &mut Want, n: &str) { w.class(n, &["new", "s", "c"], &["call", "m", "p", "set_p"]); }
/// every combination of the options
pub fn flags_deep() { configured([flag(), flag(), flag(), flag(), flag(), flag(), flag(), flag()]) }
/// at most two options differ from all others
pub fn flags() {
    let (base, i, j) = (flag(), pick(8) as usize, pick(8) as usize);
    assume(i <= j);
    let mut l = [base; 8];
    l[i] = !base;
    l[j] = !base;
    configured(l)
}
fn configured([traverse, preludes, imports, classes, type_vars, functions, properties, docs]: [bool; 8]) {
    install(vec![module("va.b", vec![(b("g"), Member::Func(Func { doc: doc("g of b"), ..Default::default() })), (b("L"), class("L")), (b("y"), Member::Val(Val::Int)), (b("U"), Member::TypeVar(b("U")))])]);
    let mut p = param(b("a"), Kind::PosOrKw);
    p.ann = Some(Ann::Class(b("va.b"), b("L")));
    let h = Func { params: vec![p], doc: doc("takes L"), ..Default::default() };
    install(vec![Mod { package: true, doc: doc("module va"), all: Some(vec![b("f"), b("K"), b("T"), b("gone")]), ..module("va", vec![(b("K"), class("K")), (b("f"), Member::Func(Func { doc: doc("function f"), ..Default::default() })), (b("x"), Member::Val(Val::Int)), (b("T"), Member::TypeVar(b("T"))), (b("g"), Member::From(b("va.b"), b("g"))), (b("L"), Member::From(b("va.b"), b("L"))), (b("h"), Member::Func(h))]) }]);
    let cfg = Config::builder().traverse_submodules(traverse).generate_preludes(preludes).generate_imports(imports).generate_classes(classes).generate_type_vars(type_vars).generate_functions(functions).generate_properties(properties).generate_docs(docs).build();
    let v = bind(cfg, &["va"]);
    well_formed(&v);
    check(v.len() == 1, "something besides the module is generated");
    let m = &get_mod(&v, "va").items;
    let defined = |items: &[Item], w: Want| {
        let have: Vec<Item> = items.iter().filter(|i| !matches!(i, Item::Use(_))).cloned().collect();
        same_definitions(&have, &w);
    };
    let prelude = preludes && (functions || classes || type_vars);
    let mut w = Want::default();
    if traverse { w.module("b"); }
    if prelude { w.module("prelude"); }
    if classes { want_class(&mut w, "K"); }
    if type_vars { w.type_var("T"); }
    if functions { w.func("f"); w.func("h"); }
    if properties { w.value("x"); }
    defined(m, w);
    // re-exports
    let va = [String::from("va")];
    for (n, on, full) in [("g", functions, "va.b.g"), ("L", classes, "va.b.L")] {
        let r = resolve(&v, &va, &segs(n), 8);
        if imports && on && traverse { check(r.len() == 1 && r[0].dotted() == full, "something that is imported from a submodule is not re-exported"); } else { check(r.is_empty(), "something is re-exported that does not exist, or although re-exports are disabled"); }
    }
    let pub_uses = uses(m).iter().map(|u| u.names.len()).sum::<usize>();
    check(pub_uses == if imports && traverse { functions as usize + classes as usize } else { 0 }, "something else is re-exported");
    if prelude {
        let at = [String::from("va"), String::from("prelude")];
        for (n, on) in [("f", functions), ("K", classes), ("T", type_vars), ("gone", false), ("x", false), ("h", false)] { check(resolve(&v, &at, &segs(n), 8).len() == on as usize, "the prelude differs from __all__"); }
    }
    // the submodule
    if traverse {
        let mut w = Want::default();
        if classes { want_class(&mut w, "L"); }
        if type_vars { w.type_var("U"); }
        if functions { w.func("g"); }
        if properties { w.value("y"); }
        let s = &get_mod(&v, "va.b").items;
        check(uses(s).is_empty(), "something is re-exported that does not exist, or although re-exports are disabled");
        defined(s, w);
        if functions { check_call(get_fn(s, "g"), Owner::Function, "va.b", "g", &[]); }
    }
    // what is left works as ever
    if functions {
        check_call(get_fn(m, "f"), Owner::Function, "va", "f", &[]);
        let h = get_fn(m, "h");
        let t = &visible(h)[0].1;
        if classes && traverse { check(t.strip_prefix('&').and_then(|t| class_of(&v, "va", t)).as_deref() == Some("va.b.L"), "a class of the bindings has another type in a function"); }
        else { check(t.starts_with("impl pyo3::IntoPy<pyo3::Py<pyo3::types::PyAny>>"), "the type of a class that is not bound is not an arbitrary object"); }
    }
    if classes { let c = get_class(m, "K"); let f = get_fn(c.tri, "m"); check_call(f, Owner::Instance, "va", "m", &[]); }
    // documentation
    let mut ds = vec![];
    all_docs(&v, &mut ds);
    let has = |t: &str| ds.iter().any(|d| d.contains(t));
    if docs {
        check(has("module va"), "the documentation of a module is missing");
        check(!functions || (has("function f") && has("takes L")), "the documentation of a function is missing");
        check(!classes || (has("class K") && has("method") && has("static") && has("class method") && has("property") && has("call") && has("init")), "the documentation of a class or of its members is missing");
        reach(1);
    } else { check(ds.is_empty(), "there is documentation although it is disabled"); reach(2); }
}
