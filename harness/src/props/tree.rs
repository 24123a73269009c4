//! Trees of modules: nesting, re-exports, preludes, types of other modules.
use super::*;
use crate::resolve::*;

/// packages va (b (c), d) and vb
pub const TREE: [&str; 5] = ["va", "va.b", "va.b.c", "va.d", "vb"];
fn below(a: &str, b: &str) -> bool { a.len() > b.len() && a.starts_with(b) && a.as_bytes()[b.len()] == b'.' }
fn parent(a: &str) -> Option<&str> { a.rfind('.').map(|i| &a[..i]) }
fn package(n: &str) -> bool { TREE.iter().any(|m| below(m, n)) }
fn basic() -> Vec<(S, Member)> { vec![(b("K"), Member::Class(Class { members: vec![(b("m"), func(vec![self_param("self")]))], ..Default::default() })), (b("f"), func(vec![])), (b("x"), Member::Val(Val::Int))] }
fn mk(n: &str, members: Vec<(S, Member)>) -> Mod { Mod { package: package(n), ..module(n, members) } }
/// All five modules with the basic members; `more` goes to module `at`, before (`first`) or after them.
fn install_tree(at: &str, more: Vec<(S, Member)>, all: Option<Vec<S>>) {
    for n in TREE {
        if n == at { continue; }
        install(vec![mk(n, basic())]);
    }
    let mut m = basic();
    m.extend(more);
    install(vec![Mod { all, ..mk(at, m) }]);
}
/// The module is bound: its members, called through its full path.
fn bound_module(v: &[Item], n: &str) {
    let m = get_mod(v, n);
    let f = get_fn(&m.items, "f");
    let V::Extracted(e) = eval(f) else { fail("the result of the call is not returned") };
    let V::Call(e) = *e else { fail("the body is not a call") };
    check(e.recv == V::Module(String::from(n)), "a function is not called through the module it belongs to");
    let V::Extracted(e) = eval(get_fn(&m.items, "x")) else { fail("the value is not returned") };
    check(e == Box::new(V::Getattr(Box::new(V::Module(String::from(n))), String::from("x"))), "a value is not read from the module it belongs to");
    let c = get_class(&m.items, "K");
    get_fn(c.tr, "m");
    check(m.items.iter().filter(|i| matches!(i, Item::Fn(_))).count() == 3 && structs(&m.items).len() == 1, "a module has something that does not belong to it");
}
fn requested(names: &[&str], traverse: bool) {
    install_tree("va", vec![], None);
    let cfg = Config::builder().traverse_submodules(traverse).build();
    let v = bind(cfg, names);
    for n in TREE {
        let full = names.contains(&n) || (traverse && names.iter().any(|r| below(n, r)));
        let exists = full || names.iter().any(|r| below(r, n));
        match find_mod(&v, n) {
            None => check(!exists, "a module has no binding"),
            Some(m) => {
                check(exists, "a module is bound that was not asked for");
                if full { bound_module(&v, n); reach(1); } else { check(m.items.iter().all(|i| matches!(i, Item::Mod(_))), "a package is bound that was not asked for"); reach(2); }
                // nothing but its submodules
                let subs = TREE.iter().filter(|s| parent(s) == Some(n) && find_mod(&v, s).is_some()).count();
                check(mods(&m.items).len() == subs, "a module contains another module");
            }
        }
    }
    check(v.iter().all(|i| matches!(i, Item::Mod(_))) && mods(&v).len() == TREE.iter().filter(|s| parent(s).is_none() && find_mod(&v, s).is_some()).count(), "something besides the modules is generated");
    well_formed(&v);
}
/// any one or two modules of the tree, in any order
pub fn requests() { let t = flag(); let a = one_of(&TREE); if flag() { requested(&[a, one_of(&TREE)], t) } else { requested(&[a], t) } }
pub fn requests_deep() { let t = flag(); requested(&[one_of(&TREE), one_of(&TREE), one_of(&TREE)], t) }
/// any set of modules of the tree, from either end or from the middle, and the first one again or not
pub fn subsets() {
    let mut l: Vec<&str> = vec![];
    for n in TREE { if flag() { l.push(n); } }
    assume(l.len() > 2);
    match pick(4) { 0 => {} 1 => l.reverse(), 2 => l.rotate_left(2), _ => { let f = l[0]; l.push(f); } }
    requested(&l, flag());
    reach(3);
}

/// A function or class of the tree (or of another package) imported into a module of the tree.
pub fn reexports_deep() {
    let m = one_of(&TREE[..4]);
    let o = one_of(&TREE);
    let what = pick(3);
    let alias = flag();
    let imports = flag();
    assume(m != o);
    assume(alias | (what < 2));
    reexported(m, o, &[(what, alias)], imports);
}
/// The same with all kinds at once.
pub fn reexports() {
    let m = one_of(&TREE[..4]);
    let o = one_of(&TREE);
    let imports = pick(3);
    assume(m != o);
    if imports < 2 { reexported(m, o, &[(0, true), (1, true), (2, true)], imports == 1) } else { reexported(m, o, &[(0, false), (1, false)], true) }
}
fn reexported(m: &str, o: &str, l: &[(u8, bool)], imports: bool) {
    // circular imports are the user's problem
    assume(!below(m, o) | (m != "va"));
    let name = |what: u8| match what { 0 => "f", 1 => "K", _ => unraw_last(o) };
    let local = |x: &(u8, bool)| if x.1 { ["other", "Other", "omod"][x.0 as usize] } else { name(x.0) };
    for n in TREE { if n != m { install(vec![mk(n, basic())]); } }
    let mut v: Vec<(S, Member)> = basic().into_iter().filter(|x| !l.iter().any(|y| local(y).as_bytes() == &x.0[..])).collect();
    for x in l { v.push((b(local(x)), match x.0 { 2 => Member::Mod(b(o)), _ => Member::From(b(o), b(name(x.0))) })); }
    install(vec![mk(m, v)]);
    let v = bind(Config::builder().generate_imports(imports).build(), &["va", "vb"]);
    well_formed(&v);
    let at: Vec<String> = m.split('.').map(String::from).collect();
    for x in l {
        let r = resolve(&v, &at, &segs(local(x)), 8);
        if imports && below(o, m) {
            let full = if x.0 == 2 { String::from(o) } else { format!("{o}.{}", name(x.0)) };
            check(r.len() == 1 && r[0].dotted() == full, "something that is imported from a submodule is not re-exported");
            reach(1);
        } else { check(r.is_empty(), "something is re-exported that does not belong to a submodule"); reach(2); }
    }
}
fn unraw_last(o: &str) -> &str { o.rfind('.').map(|i| &o[i + 1..]).unwrap_or(o) }

/// A submodule hidden by what is imported from it under the same name.
pub fn hidden() {
    let class = flag();
    let same = flag();
    let extra = flag();
    let other = pick(3);
    let n = if same { "b" } else { "g" };
    let what = || -> Member { if class { Member::Class(Class { members: vec![(b("m"), func(vec![self_param("self")]))], ..Default::default() }) } else { func(vec![param(b("a"), Kind::PosOrKw)]) } };
    install(vec![module("va.b", vec![(b(n), what()), (b("h"), func(vec![]))])]);
    if extra { install(vec![module("va.c", vec![(b("k"), func(vec![]))])]); }
    let mut l = vec![(b("b"), Member::From(b("va.b"), b(n)))];
    if other == 1 { l.push((b("h"), Member::From(b("va.b"), b("h")))); }
    if other == 2 { l.push((b("k"), func(vec![]))); }
    install(vec![Mod { package: true, ..module("va", l) }]);
    let v = bind(Config::default(), &["va"]);
    well_formed(&v);
    let m = get_mod(&v, "va");
    check(find_mod(&m.items, "b").is_none(), "a submodule is bound although its name means something else");
    if class {
        let c = get_class(&m.items, "b");
        get_fn(c.tr, "m");
        reach(2);
    } else {
        let f = get_fn(&m.items, "b");
        check_call(f, Owner::Function, "va", "b", &[param(b("a"), Kind::PosOrKw)]);
        reach(1);
    }
    check(find_mod(&m.items, "c").is_some() == extra, "another submodule is missing");
    if other == 2 { get_fn(&m.items, "k"); }
}

/// Types of classes anywhere in the tree, seen from anywhere.
pub fn local_types() {
    let m = one_of(&TREE);
    let o = one_of(&TREE);
    let form = pick(5);
    let full = format!("{o}.K");
    let inner = |a: Ann| -> Vec<(S, Member)> {
        let mut p = param(b("a"), Kind::PosOrKw);
        p.ann = Some(a.clone());
        let f = Func { params: vec![p.clone()], ret: Some(a.clone()), ..Default::default() };
        let me = Func { params: vec![self_param("self"), p.clone()], ret: Some(a.clone()), ..Default::default() };
        let mut q = p;
        q.ann = Some(if let Ann::Str(x) = &a { Ann::Str(cat(&[b"list[", x, b"]"])) } else { Ann::Typing("List", vec![a.clone()]) });
        let g = Func { params: vec![q], ..Default::default() };
        let get = Func { params: vec![self_param("self")], ret: Some(a), ..Default::default() };
        vec![(b("t"), Member::Func(f)), (b("u"), Member::Func(g)), (b("C"), Member::Class(Class { members: vec![(b("m"), Member::Func(me)), (b("p"), Member::Prop(Some(get), None))], ..Default::default() }))]
    };
    let mut more = vec![];
    let a = match form {
        0 => Ann::Class(b(o), b("K")),
        1 => Ann::Str(full.clone().into_bytes()),
        2 => { assume(m != o); more.push((b("Alias"), Member::From(b(o), b("K")))); Ann::Str(b("Alias")) }
        3 => { assume(m != o); more.push((b("alias"), Member::Mod(b(o)))); Ann::Str(b("alias.K")) }
        // the module's own K is not meant
        _ => { assume(m != o); more.push((b("Alias"), Member::From(b(o), b("K")))); Ann::Class(b(o), b("K")) }
    };
    more.extend(inner(a));
    install_tree(m, more, None);
    let v = bind(Config::default(), &["va", "vb"]);
    well_formed(&v);
    let md = get_mod(&v, m);
    let same = |t: &str, pre: &str, post: &str| -> bool { match t.strip_prefix(pre).and_then(|t| t.strip_suffix(post)) { Some(t) => class_of(&v, m, t).as_deref() == Some(&full[..]), None => false } };
    let t = get_fn(&md.items, "t");
    check(same(&visible(t)[0].1, "&", "") && same(&t.ret, "pyo3::PyResult<", ">"), "a class of the bindings has another type in a function");
    check(same(&visible(get_fn(&md.items, "u"))[0].1, "&[", "]"), "a class of the bindings has another type in a list");
    let c = get_class(&md.items, "C");
    let f = get_fn(c.tri, "m");
    check(same(&visible(f)[0].1, "&", "") && same(&f.ret, "pyo3::PyResult<", ">"), "a class of the bindings has another type in a method");
    check(same(&get_fn(c.tri, "p").ret, "pyo3::PyResult<", ">"), "a class of the bindings has another type in a property");
    reach(1);
}

/// Modules whose names repeat: paths of up to three segments over two names.
const TWINS: [&str; 14] = ["b", "b.b", "b.b.b", "b.b.c", "b.c", "b.c.b", "b.c.c", "c", "c.b", "c.b.b", "c.b.c", "c.c", "c.c.b", "c.c.c"];
/// (`m` within `b`: the two names are interchangeable)
pub fn twins() { twin(&TWINS[..7]) }
pub fn twins_deep() { twin(&TWINS) }
fn twin(ms: &[&str]) {
    let (m, o) = (one_of(ms), one_of(&TWINS));
    assume(m != o);
    let full = format!("{o}.K");
    let p = |a: Ann| { let mut p = param(b("a"), Kind::PosOrKw); p.ann = Some(a.clone()); Member::Func(Func { params: vec![p], ret: Some(a), ..Default::default() }) };
    let k = || (b("K"), Member::Class(Class::default()));
    let pkg = |n: &str| below(m, n) | below(o, n);
    // parents first, `m` last: it imports from the others
    let mut done: Vec<&str> = vec![];
    for n in TWINS { if (n != m) & (pkg(n) | (n == o)) { done.push(n); install(vec![Mod { package: pkg(n), ..module(n, vec![k()]) }]); } }
    install(vec![Mod { package: pkg(m), ..module(m, vec![k(), (b("t"), p(Ann::Class(b(o), b("K")))), (b("u"), p(Ann::Str(full.clone().into_bytes()))), (b("Other"), Member::From(b(o), b("K"))), (b("w"), p(Ann::Str(b("Other"))))]) }]);
    let (rm, ro) = (&m[..1], &o[..1]);
    let v = if rm == ro { bind(Config::default(), &[rm]) } else { bind(Config::default(), &[rm, ro]) };
    well_formed(&v);
    let md = get_mod(&v, m);
    for f in ["t", "u", "w"] {
        let f = get_fn(&md.items, f);
        let is = |t: Option<&str>| t.is_some_and(|t| class_of(&v, m, t).as_deref() == Some(&full[..]));
        check(is(visible(f)[0].1.strip_prefix('&')), "a class of the bindings has another type as a parameter");
        check(is(f.ret.strip_prefix("pyo3::PyResult<").and_then(|t| t.strip_suffix(">"))), "a class of the bindings has another type as a result");
    }
    let at: Vec<String> = m.split('.').map(String::from).collect();
    let r = resolve(&v, &at, &segs("Other"), 8);
    if below(o, m) { check(r.len() == 1 && r[0].dotted() == full, "something that is imported from a submodule is not re-exported"); reach(1); }
    else { check(r.is_empty(), "something is re-exported that does not belong to a submodule"); reach(2); }
    for n in TWINS { check(find_mod(&v, n).is_some() == (done.contains(&n) | (n == m)), "a module is missing, or bound although it does not exist"); }
}

/// The prelude has what `__all__` lists.
pub fn preludes() {
    let mask = pick(33);
    // (bits: f, K, x and gone, imp, _p)
    let all = |mask: u8| -> Vec<S> { [&["f", "bf"][..], &["K"], &["x", "gone"], &["imp"], &["_p"]].iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).flat_map(|(_, l)| l.iter().map(|n| b(n))).collect() };
    let (enabled, all) = if mask == 32 { (false, all(31)) } else { (true, all(mask)) };
    preluded(&[("va", 0, &all), ("vb", 1, &all), ("vc", 2, &all)], enabled);
}
pub fn preludes_deep() {
    const NAMES: [&str; 7] = ["f", "K", "g", "x", "imp", "gone", "_p"];
    let mask = pick(128);
    let all: Vec<S> = NAMES.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, n)| b(n)).collect();
    preluded(&[("va", pick(3), &all)], true);
}
fn preluded(l: &[(&str, u8, &Vec<S>)], enabled: bool) {
    for (n, taken, all) in l {
        let sub = format!("{n}.b");
        install(vec![module(&sub, vec![(b("imp"), func(vec![]))])]);
        let mut l = vec![(b("K"), Member::Class(Class::default())), (b("f"), func(vec![])), (b("bf"), func(vec![])), (b("g"), func(vec![])), (b("x"), Member::Val(Val::Int)), (b("imp"), Member::From(b(&sub), b("imp"))), (b("_p"), func(vec![]))];
        if *taken > 0 { l.push((b("prelude"), func(vec![]))); }
        if *taken > 1 { l.push((b("prelude1"), Member::Class(Class::default()))); }
        install(vec![Mod { package: true, all: Some((*all).clone()), ..module(n, l) }]);
    }
    let names: Vec<&str> = l.iter().map(|x| x.0).collect();
    let v = bind(Config::builder().generate_preludes(enabled).build(), &names);
    well_formed(&v);
    for (n, taken, all) in l {
        let m = get_mod(&v, n);
        let p = match taken { 0 => "prelude", 1 => "prelude1", _ => "prelude2" };
        let want: Vec<&S> = all.iter().filter(|n| matches!(&n[..], b"f" | b"bf" | b"K" | b"g")).collect();
        let ms: Vec<&ModI> = mods(&m.items).into_iter().filter(|x| x.name != "b").collect();
        if !enabled || want.is_empty() { check(ms.is_empty(), "there is a prelude of nothing"); reach(1); continue; }
        check(ms.len() == 1 && ms[0].name == p, "there is no prelude, or it has another name");
        let us = uses(&ms[0].items);
        let have: Vec<&str> = us.iter().flat_map(|u| u.names.iter().map(|x| unraw(&x.1))).collect();
        check(us.len() == ms[0].items.len() && have.len() == want.len() && want.iter().all(|w| have.contains(&st(w))), "the prelude differs from __all__");
        let at = [String::from(*n), String::from(p)];
        for h in have { let r = resolve(&v, &at, &segs(h), 8); check(r.len() == 1 && r[0].dotted() == format!("{n}.{h}"), "the prelude exports something else"); }
        reach(2);
    }
}

/// The functions that request modules.
pub fn ways() {
    use pyo3::prelude::*;
    let l = |x: &str| vec![(b(x), func(vec![]))];
    install(vec![module("va.b", l("f")), Mod { package: true, ..module("va", l("g")) }, module("vb", l("h"))]);
    let (a, c) = [("va", "vb"), ("vb", "va.b"), ("va.b", "va"), ("va", "va")][pick(4) as usize];
    let (i, j) = (pick(4), pick(4));
    let want = match stream(Config::default(), &[a, c]) { Ok(t) => t, Err(_) => fail("the engine reports an error for an ordinary module") };
    let r = Python::with_gil(|py| -> Result<proc_macro2::TokenStream, String> {
        let add = |g: Codegen, n: &str, how: u8| -> Result<Codegen, String> {
            let m = || py.import_bound(n).map_err(|_| String::from("import"));
            match how { 0 => g.module_name(n), 1 => g.module_names([n]), 2 => g.module(&m()?), _ => g.modules([m()?]) }.map_err(|e| e.to_string())
        };
        let g = Codegen::default();
        let g = if i == j && i == 1 { g.module_names([a, c]).map_err(|e| e.to_string())? } else if i == j && i == 3 { let m = [py.import_bound(a), py.import_bound(c)].map(|m| m.unwrap_or_else(|_| fail("harness: import"))); g.modules(m).map_err(|e| e.to_string())? } else { let g = add(g, a, i)?; add(g, c, j)? };
        g.generate().map_err(|e| e.to_string())
    });
    let Ok(got) = r else { fail("the engine reports an error for an ordinary module") };
    note_stream(&got);
    check(got.to_string() == want.to_string(), "modules requested in another way have other bindings");
    reach(1);
}
