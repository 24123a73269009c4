//! Names: every member is bound under its own name, or the documented replacement if Rust does not
//! allow it; the names of several members never collide.
use super::*;
use crate::props::attrs::{check_get, check_set};
use crate::resolve::*;

fn f(ps: Vec<Param>) -> Func { Func { params: ps, ..Default::default() } }
fn me() -> Vec<Param> { vec![self_param("self")] }
fn cls(members: Vec<(S, Member)>) -> Member { Member::Class(Class { members, ..Default::default() }) }
fn prop() -> Member { Member::Prop(Some(f(me())), Some(f(vec![self_param("self"), param(b("v"), Kind::PosOrKw)]))) }
fn reserved(n: &str) -> bool { ["get_type", "obj", "py", "repr", "str"].contains(&n) }
/// What the item is called in Rust: a keyword has to be written as a raw identifier.
fn called(have: &str, n: &str) { check(have == rs(n) || (have.len() == n.len() + 2 && unraw(have) == n), "a keyword is used as a plain identifier"); }
/// accessor of a special attribute
fn special(n: &str) -> bool { let n = n.strip_prefix("set_").unwrap_or(n); n.len() > 4 && n.starts_with("__") && n.ends_with("__") }
/// What is defined, in a canonical order (the order of submodules is arbitrary).
fn note_sorted(v: &[Item]) { for m in mods(v) { let mut l = inventory(&m.items); l.sort(); note(&l.join("\n")); note_mods(&m.items); } }
fn note_mods(v: &[Item]) { let mut l = mods(v); l.sort_by(|a, b| a.name.cmp(&b.name)); for m in l { let mut l = inventory(&m.items); l.sort(); note(&m.name); note(&l.join("\n")); note_mods(&m.items); } }
/// One member called `n` of every kind, each in a place of its own.
fn everywhere(n: &str, private: bool, noted: bool) {
    let nm = || b(n);
    let sub = cat3("va.s.", n, "");
    install(vec![module("va.f", vec![(nm(), Member::Func(f(vec![])))]), module("va.c", vec![(nm(), cls(vec![(b("m"), Member::Func(f(me()))), (b("t"), Member::Static(f(vec![])))]))]), module("va.v", vec![(nm(), Member::Val(Val::Int))]), module("va.t", vec![(nm(), Member::TypeVar(nm()))])]);
    install(vec![module(&sub, vec![(b("g"), Member::Func(f(vec![])))])]);
    install(vec![Mod { package: true, ..module("va.s", vec![(b("h"), Member::Func(f(vec![])))]) }]);
    install(vec![module("va.k", vec![(b("I"), cls(vec![(nm(), Member::Func(f(me())))])), (b("T"), cls(vec![(nm(), Member::Static(f(vec![])))])), (b("C"), cls(vec![(nm(), Member::ClassM(f(vec![self_param("cls")])))])), (b("P"), cls(vec![(nm(), prop())]))])]);
    install(vec![Mod { package: true, ..module("va", vec![]) }]);
    let v = bind_quiet(Config::builder().include_private(private).build(), &["va"]);
    if noted { note_sorted(&v); }
    well_formed(&v);
    let own = |l: &[Item]| fns(l).into_iter().filter(|g| !special(&g.name)).count();
    let hidden = reserved(n);
    let odd = is_no_raw(n.as_bytes());
    let with = |p: &str| if odd { if n == "_" { cat3(p, "_", "_") } else { cat3(p, "_", n) } } else { String::from(n) };
    // functions
    let m = &get_mod(&v, "va.f").items;
    if hidden { check(own(m) == 0, "a reserved name is used"); } else {
        let g = get_fn(m, &with("f"));
        called(&g.name, &with("f"));
        check_call(g, Owner::Function, "va.f", n, &[]);
        check(own(m) == 1, "a function is bound twice");
    }
    // values
    let m = &get_mod(&v, "va.v").items;
    if hidden { check(own(m) == 0, "a reserved name is used"); } else {
        let g = get_fn(m, &with("get"));
        called(&g.name, &with("get"));
        check_get(g, false, "va.v", n);
        check_set(get_fn(m, &if n == "_" { String::from("set__") } else { cat3("set_", n, "") }), false, "va.v", n);
        check(own(m) == 2, "a value is bound twice");
    }
    // type variables
    let m = &get_mod(&v, "va.t").items;
    if hidden | odd { check(types(m).is_empty(), "a type variable is bound under another name"); } else { check(types(m).len() == 1, "a type variable is not bound once"); called(&types(m)[0].name, n); }
    // classes
    let m = &get_mod(&v, "va.c").items;
    if hidden { check(structs(m).is_empty(), "a reserved name is used"); } else {
        let c = get_class(m, &with("s"));
        called(&c.st.name, &with("s"));
        let V::Extracted(x) = eval(get_fn(c.own, "t")) else { fail("the result of the call is not returned") };
        let V::Call(x) = *x else { fail("the body is not a call") };
        check(dotted(&x.recv) == cat3("va.c.", n, "") && x.method.as_deref() == Some("t"), "a static method is called on another object");
        get_fn(c.tri, "m");
    }
    // submodules
    let m = &get_mod(&v, "va.s").items;
    get_fn(m, "h");
    if hidden | odd { check(mods(m).is_empty(), "a submodule is bound under another name"); } else {
        check(mods(m).len() == 1, "a submodule is not bound once");
        called(&mods(m)[0].name, n);
        check_call(get_fn(&mods(m)[0].items, "g"), Owner::Function, &sub, "g", &[]);
    }
    // members of classes
    let m = &get_mod(&v, "va.k").items;
    for (k, on_self) in [("I", true), ("T", false), ("C", false), ("P", true)] {
        let c = get_class(m, k);
        let l = if on_self { c.tri } else { c.own };
        let other = if on_self { c.own } else { c.tri };
        check(own(other) == 0, "a member of a class is bound twice");
        if hidden { check(own(l) == 0, "a reserved name is used"); continue; }
        let name = with(if k == "P" { "get" } else { "f" });
        let g = get_fn(l, &name);
        called(&g.name, &name);
        if k == "P" {
            check_get(g, true, "va.k", n);
            check_set(get_fn(l, &if n == "_" { String::from("set__") } else { cat3("set_", n, "") }), true, "va.k", n);
            check(own(l) == 2, "a member of a class is bound twice");
            continue;
        }
        check(own(l) == 1, "a member of a class is bound twice");
        let V::Extracted(x) = eval(g) else { fail("the result of the call is not returned") };
        let V::Call(x) = *x else { fail("the body is not a call") };
        check(x.method.as_deref() == Some(n), "another method is called");
        if on_self { check(x.recv == V::This, "the call is not made on self"); } else { check(dotted(&x.recv) == cat3("va.k.", k, ""), "the call is made on another object"); }
    }
    if hidden { reach(1); } else if odd { reach(2); } else if is_keyword(n.as_bytes()) { reach(3); } else { reach(4); }
}
/// every keyword, and the words reserved by the bindings
pub fn keywords() {
    let n = pick(KEYWORDS.len() as u8 + 5) as usize;
    let n = if n < KEYWORDS.len() { KEYWORDS[n] } else { ["get_type", "obj", "py", "repr", "str"][n - KEYWORDS.len()] };
    everywhere(n, n == "_", n != "_");
}
/// every name of two letters
pub fn symbolic() { let n = ident_bytes(2); assume((n[0] >= b'a') & (n[0] <= b'z')); assume((n[1] >= b'a') & (n[1] <= b'z')); everywhere(st(&n), false, false); }
/// names with digits, underscores and capitals (including private ones)
pub fn shapes() { shaped(1 + pick(2) as usize) }
pub fn shapes_deep() { shaped(3) }
fn shaped(len: usize) {
    let mut n = ident_bytes(len);
    for c in &mut n { assume((*c == b'a') | (*c == b'Z') | (*c == b'_') | (*c == b'1')); }
    assume((n[0] != b'_') | (n[n.len() - 1] != b'_') | (n.len() == 1));
    everywhere(st(&n), true, false);
}
/// names that begin or end with words that the bindings use themselves
pub fn affixes() {
    let l = ["get_y", "set_y", "set_set_y", "get_get", "y_get", "new", "new1", "call", "call_y", "p_y", "p_type", "f_type", "s_type", "r_y", "type_", "prelude", "prelude1", "yMethods", "Methods", "pyo3", "std", "va", "p__y", "isy", "pyy"];
    everywhere(one_of(&l), false, false);
    reach(5);
}
/// parameters of every kind, called like a keyword or like something of the bindings themselves
pub fn parameters() {
    let n = one_of(&["const", "crate", "enum", "extern", "fn", "impl", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "Self", "static", "struct", "super", "trait", "type", "unsafe", "use", "where", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "true", "false", "get_type", "obj", "py", "repr", "str", "p_a", "get_a", "set_a", "new", "call", "aA", "A", "a1", "a_", "pyo3", "std", "args", "kwargs", "name", "r", "p", "p_"]);
    let kinds = [Kind::PosOnly, Kind::PosOrKw, Kind::VarPos, Kind::KwOnly, Kind::VarKw];
    let other = |k: Kind| match k { Kind::PosOnly | Kind::PosOrKw | Kind::VarPos => vec![param(b("b"), Kind::KwOnly)], Kind::KwOnly => vec![param(b("b"), Kind::KwOnly), param(b("o"), Kind::VarKw)], Kind::VarKw => vec![] };
    let ps = |k: Kind| { let mut v = vec![param(b("a"), if k == Kind::PosOnly { Kind::PosOnly } else { Kind::PosOrKw }), param(b(n), k)]; v.extend(other(k)); v };
    let fun = |i: usize| format!("fun{i}");
    let fs: Vec<(S, Member)> = kinds.iter().enumerate().map(|(i, k)| (fun(i).into_bytes(), Member::Func(f(ps(*k))))).collect();
    let ms: Vec<(S, Member)> = kinds.iter().enumerate().map(|(i, k)| { let mut p = ps(*k); p.insert(0, self_param("self")); if *k == Kind::PosOnly { p[0].kind = Kind::PosOnly; } (fun(i).into_bytes(), Member::Func(f(p))) }).collect();
    let mut l = vec![(b("Cls"), cls(ms))];
    l.extend(fs);
    install(vec![module("vm", l)]);
    let v = bind(Config::default(), &["vm"]);
    well_formed(&v);
    for (i, k) in kinds.iter().enumerate() {
        check_call(owned_fn(&v, "vm", Owner::Function, &fun(i)), Owner::Function, "vm", &fun(i), &ps(*k));
        check_call(owned_fn(&v, "vm", Owner::Instance, &fun(i)), Owner::Instance, "vm", &fun(i), &ps(*k));
    }
    reach(1);
}

/// Names that are no identifiers (`setattr` and `__dict__` accept any text).
pub fn odd() {
    let n: S = (0..1 + pick(2)).map(|_| { let c = any_u8(); assume((c == b'a') | (c == b'-') | (c == b'.') | (c == b' ') | (c == b'1')); c }).collect();
    let n = if flag() { cat(&[&n, "é".as_bytes()]) } else { n };
    let k = pick(4);
    let m = match k { 0 => Member::Func(f(vec![])), 1 => cls(vec![(b("m"), Member::Func(f(me())))]), 2 => Member::Val(Val::Int), _ => Member::TypeVar(b("T")) };
    install(vec![module("va", vec![(n.clone(), m), (b("stay"), Member::Func(f(vec![])))])]);
    let v = bind_quiet(Config::default(), &["va"]);
    well_formed(&v);
    let m = &get_mod(&v, "va").items;
    check_call(get_fn(m, "stay"), Owner::Function, "va", "stay", &[]);
    // whatever is bound beside it means that member
    for g in fns(m) {
        if g.name == "stay" { continue; }
        note(&g.name);
        match k {
            0 => { check_call(g, Owner::Function, "va", st(&n), &[]); reach(1); }
            2 => if g.name.starts_with("set_") { check_set(g, false, "va", st(&n)); } else { check_get(g, false, "va", st(&n)); reach(2); },
            _ => fail("something that is no function is bound as one"),
        }
    }
    check(structs(m).len() <= (k == 1) as usize && types(m).len() <= (k == 3) as usize, "something that does not exist is bound");
}

// ------------------------------------------------------------------ collisions
const POOL: [&str; 5] = ["Foo", "FooMethods", "FooMethods1", "set_Foo", "get_Foo"];
fn kind(k: u8, n: &str) -> Option<Member> {
    Some(match k {
        0 => Member::Func(f(vec![])),
        1 => cls(vec![(b("m"), Member::Func(f(me())))]),
        2 => Member::Val(Val::Int),
        3 => Member::TypeVar(b(n)),
        4 => Member::From(b("va._b"), b(n)),
        _ => return None,
    })
}
/// Members called `a`, `b` of any kind (4: function of a submodule, 5: class of a submodule, 6: submodule).
fn together(l: &[(u8, &str)]) {
    let mut inner: Vec<(S, Member)> = vec![];
    let mut outer: Vec<(S, Member)> = vec![(b("stay"), Member::Func(f(vec![])))];
    for (k, n) in l {
        match k {
            4 => { inner.push((b(n), kind(0, n).unwrap())); outer.push((b(n), Member::From(b("va.b"), b(n)))); }
            5 => { inner.push((b(n), kind(1, n).unwrap())); outer.push((b(n), Member::From(b("va.b"), b(n)))); }
            6 => install(vec![module(&cat3("va.", n, ""), vec![(b("deep"), Member::Func(f(vec![])))])]),
            k => outer.push((b(n), kind(*k, n).unwrap())),
        }
    }
    install(vec![module("va.b", inner)]);
    install(vec![Mod { package: true, ..module("va", outer) }]);
    let v = bind_quiet(Config::default(), &["va"]);
    note_sorted(&v);
    well_formed(&v);
    let m = &get_mod(&v, "va").items;
    let va = [String::from("va")];
    check_call(get_fn(m, "stay"), Owner::Function, "va", "stay", &[]);
    for (k, n) in l {
        let same = l.iter().filter(|x| x.1 == *n).count() > 1;
        match k {
            0 => check_call(get_fn(m, n), Owner::Function, "va", n, &[]),
            1 => { get_fn(get_class(m, n).tri, "m"); }
            2 => {
                // (a getter gives way, and so does a setter)
                let taken = |x: &str| l.iter().any(|y| y.1 == x);
                check_get(get_fn(m, n), false, "va", n);
                let s = cat3("set_", n, "");
                let l2 = l.iter().any(|y| y.1 == s && y.0 != 3 && y.0 != 6);
                if !taken(&s) { check_set(get_fn(m, &s), false, "va", n); } else if !l2 { if let Some(g) = find_fn(m, &s) { check_set(g, false, "va", n); } }
            }
            3 => check(types(m).iter().filter(|t| t.name == *n).count() == 1, "a type variable is not bound once"),
            4 | 5 => { let r = resolve(&v, &va, &segs(n), 8); check(r.iter().any(|x| x.dotted() == cat3("va.b.", n, "")), "something that is imported from a submodule is not re-exported"); }
            _ => if !same { check_call(get_fn(&get_mod(&v, &cat3("va.", n, "")).items, "deep"), Owner::Function, &cat3("va.", n, ""), "deep", &[]); },
        }
    }
}
/// two members of a package
pub fn pairs() {
    let (k, n) = (pick(7), pick(5) as usize);
    let first = pick(7);
    let a = (first, POOL[0]);
    let c = (k, POOL[n]);
    // (an attribute and a submodule may have the same name)
    assume((n != 0) | ((first == 6) & (k != 6) & (k != 4) & (k != 5)));
    together(&[a, c]);
    if first == 1 && k == 5 { reach(1); }
    if n == 0 { reach(2); }
    if first == 2 && n == 3 { reach(3); }
}
/// three members of a package
pub fn triples() {
    let (i, j) = (1 + pick(4) as usize, 1 + pick(4) as usize);
    assume(i < j);
    together(&[([1u8, 2, 5][pick(3) as usize], POOL[0]), (pick(7), POOL[i]), (pick(7), POOL[j])]);
    reach(1);
}
const IN_CLASS: [&str; 7] = ["x", "get_x", "set_x", "new", "new1", "call", "call1"];
fn member_of(k: u8) -> Member { match k { 0 => Member::Func(f(me())), 1 => Member::Static(f(vec![])), 2 => Member::ClassM(f(vec![self_param("cls")])), 3 => prop(), _ => Member::Val(Val::Int) } }
fn in_class(l: &[(u8, &str)], init: bool, call: bool) {
    let mut ms: Vec<(S, Member)> = l.iter().map(|(k, n)| (b(n), member_of(*k))).collect();
    if init { ms.push((b("__init__"), Member::Func(f(me())))); }
    if call { ms.push((b("__call__"), Member::Func(f(me())))); }
    install(vec![module("va", vec![(b("Cls"), cls(ms))])]);
    let v = bind(Config::default(), &["va"]);
    well_formed(&v);
    let c = get_class(&get_mod(&v, "va").items, "Cls");
    let all = |x: &str| find_fn(c.own, x).is_some() as usize + find_fn(c.tri, x).is_some() as usize;
    for (k, n) in l {
        match k {
            0 => { let g = get_fn(c.tri, n); check_call(g, Owner::Instance, "va", n, &[]); }
            1 => check_call(get_fn(c.own, n), Owner::StaticM, "va", n, &[]),
            2 => check_call(get_fn(c.own, n), Owner::ClassM, "va", n, &[]),
            _ => {}
        }
        check(all(n) <= 1, "a function of a class could be called in two ways");
    }
    // constructor and call have the first free name
    let is_fn = |x: &str| l.iter().any(|(k, n)| *k < 3 && *n == x);
    for (on, name, o) in [(init, "new", Owner::Ctor), (call, "call", Owner::Callable)] {
        if !on { continue; }
        let mut n = String::from(name);
        for i in 1..4u8 { if is_fn(&n) { n = format!("{name}{i}"); } }
        check_call(get_fn(if o == Owner::Ctor { c.own } else { c.tri }, &n), o, "va", "", &[]);
    }
}
/// two members of a class, with or without constructor and call
pub fn class_pairs() {
    let (i, j) = (pick(7) as usize, pick(7) as usize);
    assume(i < j);
    in_class(&[(pick(5), IN_CLASS[i]), (pick(5), IN_CLASS[j])], flag(), flag());
    reach(1);
}
/// the same with fewer kinds of members
pub fn class_some() {
    let (i, j) = (pick(7) as usize, pick(7) as usize);
    assume(i < j);
    let (init, call) = ((i > 2) | (j > 2), (i > 4) | (j > 4));
    in_class(&[([0, 1, 3][pick(3) as usize], IN_CLASS[i]), ([0, 1, 4][pick(3) as usize], IN_CLASS[j])], init, call);
    reach(1);
}
