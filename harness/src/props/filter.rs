//! Filtering: what must not be bound, and nothing else.
use super::*;

const RESERVED: [&[u8]; 5] = [b"get_type", b"obj", b"py", b"repr", b"str"];
const DEFAULT: [&[u8]; 4] = [b"builtins", b"testing", b"tests", b"test"];
fn hidden_name(n: &[u8], blocked: &[S], private: bool) -> bool { RESERVED.contains(&n) || blocked.iter().any(|x| x[..] == *n) || (!private && n[0] == b'_') }
fn hidden_home(m: &[u8], private: bool) -> bool { m.split(|c| *c == b'.').any(|s| s == b"typing" || s == b"__future__" || (!private && s.first() == Some(&b'_'))) }
fn cls(members: Vec<(S, Member)>) -> Member { Member::Class(Class { members, ..Default::default() }) }
fn method() -> Member { func(vec![self_param("self")]) }
fn f0() -> Member { func(vec![]) }
fn prop() -> Member { Member::Prop(Some(Func { params: vec![self_param("self")], ..Default::default() }), None) }
fn smethod() -> Member { Member::Static(Func::default()) }
fn cmethod() -> Member { Member::ClassM(Func { params: vec![self_param("cls")], ..Default::default() }) }
fn is(have: bool, want: bool) { if have { reach(1) } else { reach(2) } check(have || !want, "something that is not to be left out has no binding"); check(!have || want, "something is bound that is to be left out"); }
fn config(blocked: Option<&[S]>, private: bool) -> Config {
    let c = Config::builder().include_private(private);
    match blocked { Some(b) => c.blocklist_names(b.iter().map(|x| String::from(st(x))).collect::<Vec<_>>()).build(), None => c.build() }
}
/// (private members of the interpreter's own making are outside the model)
fn bind_(c: Config, private: bool, names: &[&str]) -> Vec<Item> { if private { bind_quiet(c, names) } else { bind(c, names) } }
fn quiet_fns(v: &[Item], n: &str) -> bool { fns(v).iter().any(|f| unraw(&f.name) == n) }
/// Members of every kind that have the name, next to one that stays.
fn everywhere(n: &S, blocked: Option<&[S]>, private: bool) {
    let t = st(n);
    let stay = || (b("stay"), f0());
    let va = cat(&[b"va.", n]);
    install(vec![Mod { name: va, members: vec![(b("z"), f0())], ..Default::default() }, Mod { package: true, ..module("va", vec![stay()]) }]);
    install(vec![module("vb", vec![(n.clone(), f0()), stay()])]);
    install(vec![module("vc", vec![(n.clone(), cls(vec![(n.clone(), method()), (b("stay"), method())])), (b("C"), cls(vec![(n.clone(), prop()), (b("stay"), method())])), (b("D"), cls(vec![(n.clone(), smethod()), (b("stay"), smethod())])), (b("E"), cls(vec![(n.clone(), cmethod()), (b("stay"), cmethod())]))])]);
    install(vec![module("vd", vec![(n.clone(), Member::Val(Val::Int)), stay()])]);
    install(vec![module("ve", vec![(n.clone(), Member::TypeVar(n.clone())), stay()])]);
    install(vec![module("vf.s", vec![(n.clone(), f0()), stay()]), Mod { package: true, ..module("vf", vec![(n.clone(), Member::From(b("vf.s"), n.clone())), (b("im"), Member::From(b("vf.s"), n.clone())), stay()]) }]);
    let v = bind_(config(blocked, private), private, &["va", "vb", "vc", "vd", "ve", "vf"]);
    let default: Vec<S> = DEFAULT.iter().map(|x| x.to_vec()).collect();
    let want = !hidden_name(n, blocked.unwrap_or(&default), private);
    let m = |p: &str| &get_mod(&v, p).items;
    is(find_mod(m("va"), t).is_some(), want);
    is(quiet_fns(m("vb"), t), want);
    is(quiet_fns(m("vd"), t), want);
    is(quiet_fns(m("vd"), &format!("set_{t}")), want);
    is(types(m("ve")).iter().any(|x| unraw(&x.name) == t), want);
    is(quiet_fns(m("vf.s"), t), want);
    let reexported = |n: &str| uses(m("vf")).iter().any(|u| u.names.iter().any(|x| unraw(&x.1) == n));
    is(reexported(t), want);
    is(reexported("im"), want);
    for p in ["va", "vb", "vd", "ve", "vf", "vf.s"] { is(quiet_fns(m(p), "stay"), true); }
    is(find_class(m("vc"), t).is_some(), want);
    if want { let c = get_class(m("vc"), t); is(quiet_fns(c.tr, t), true); is(quiet_fns(c.tr, "stay"), true); }
    let c = get_class(m("vc"), "C");
    is(quiet_fns(c.tr, t), want);
    is(quiet_fns(c.tr, "stay"), true);
    for k in ["D", "E"] { let c = get_class(m("vc"), k); is(quiet_fns(c.own, t), want); is(quiet_fns(c.own, "stay"), true); }
}
/// any name of two letters, any blocked name
pub fn names() {
    let (c, d, e, f) = (any_u8(), any_u8(), any_u8(), any_u8());
    assume((c == b'a') | (c == b'_') | (c == b'p'));
    assume((d == b'b') | (d == b'_') | (d == b'y'));
    assume((e == b'a') | (e == b'_') | (e == b'p'));
    assume((f == b'b') | (f == b'_') | (f == b'y'));
    everywhere(&vec![c, d], Some(&[vec![e, f]]), flag());
}
pub fn names_deep() {
    let (c, d, e, f) = (any_u8(), any_u8(), any_u8(), any_u8());
    assume(((c >= b'a') & (c <= b'z')) | (c == b'_'));
    assume((d == b'b') | (d == b'_') | (d == b'y') | (d == b's'));
    assume((e >= b'_') & (e <= b'z') & (e != b'`'));
    assume((f >= b'_') & (f <= b'z') & (f != b'`'));
    assume((c == b'_') | (c == b'a') | (c == b'p') | (d == b'b'));
    everywhere(&vec![c, d], Some(&[vec![e, f]]), flag());
}
/// reserved names, default blocklist, and names that only look like them
pub fn listed() {
    // (the last five with private members as well, the first six with a blocklist that replaces the default)
    const L: [&str; 24] = ["builtins", "testing", "tests", "test", "objs", "atest", "get_type", "obj", "py", "repr", "str", "get_typ", "pyx", "xpy", "repr_", "strs", "builtin", "testing1", "testx", "Test", "_test", "__a__", "_a", "a_"];
    let i = pick(35);
    if i < 24 { everywhere(&b(L[i as usize]), None, false) } else if i < 29 { everywhere(&b(L[i as usize - 5]), None, true) } else { everywhere(&b(L[i as usize - 29]), Some(&[b("objs"), b("atest")]), false) }
}
/// Where a member comes from decides as well.
pub fn origins() {
    const L: [&str; 14] = ["vm", "typing", "__future__", "va.typing", "typing.io", "_va", "va._b", "va.__b", "_va.b", "va.b_", "typings", "future", "va.tests", "py"];
    let home = b(one_of(&L));
    let private = flag();
    let f = |mut ps: Vec<Param>| -> Func { ps.push(param(b("a"), Kind::PosOrKw)); Func { params: ps, module: Some(home.clone()), ..Default::default() } };
    let c = Class { module: Some(home.clone()), ..Default::default() };
    install(vec![module("vo", vec![(b("K"), Member::Class(c))])]);
    install(vec![module("vm", vec![
        (b("C"), cls(vec![(b("m"), Member::Func(f(vec![self_param("self")]))), (b("s"), Member::Static(f(vec![]))), (b("c"), Member::ClassM(f(vec![self_param("cls")]))), (b("__init__"), Member::Func(f(vec![self_param("self")]))), (b("__call__"), Member::Func(f(vec![self_param("self")]))), (b("stay"), method())])),
        (b("v"), Member::Val(Val::Instance(b("vo"), b("K")))),
        (b("stay"), f0()),
    ])]);
    let v = bind_(config(None, private), private, &["vm"]);
    let m = &get_mod(&v, "vm").items;
    let want = !hidden_home(&home, private);
    let c = get_class(m, "C");
    is(quiet_fns(c.tr, "m"), want);
    is(quiet_fns(c.own, "s"), want);
    is(quiet_fns(c.own, "c"), want);
    is(quiet_fns(c.own, "new"), true);
    is(quiet_fns(c.tr, "call"), true);
    is(quiet_fns(c.tr, "stay"), true);
    is(quiet_fns(m, "v"), want);
    is(quiet_fns(m, "stay"), true);
}
/// What is imported from a submodule is left out if any part of its path is to be left out.
pub fn paths() {
    const L: [&str; 6] = ["a", "_a", "typing", "py", "test", "zz"];
    let (p, q) = (one_of(&L), one_of(&L));
    let private = flag();
    let what = flag();
    let s = format!("vm.{p}");
    let mem = if what { f0() } else { cls(vec![]) };
    install(vec![module(&s, vec![(b(q), mem)])]);
    install(vec![Mod { package: true, ..module("vm", vec![(b("im"), Member::From(b(&s), b(q))), (b("stay"), f0())]) }]);
    let bl = vec![b("zz"), b("q"), b("test")];
    let v = bind_(config(Some(&bl), private), private, &["vm"]);
    let m = get_mod(&v, "vm");
    let sub = !hidden_name(p.as_bytes(), &bl, private);
    // (the home of a member of that submodule)
    let home = !hidden_home(s.as_bytes(), private);
    is(find_mod(&m.items, p).is_some(), sub);
    let item = home && !hidden_name(q.as_bytes(), &bl, private);
    if let Some(x) = find_mod(&m.items, p) { is(if what { quiet_fns(&x.items, q) } else { find_class(&x.items, q).is_some() }, item); }
    is(uses(&m.items).iter().any(|u| u.names.iter().any(|x| x.1 == "im")), sub && item);
    is(quiet_fns(&m.items, "stay"), true);
}
/// Any part of a long path may be what is to be left out, the package itself included.
pub fn roots() {
    let what = flag();
    let deep = flag();
    let l = one_of(&["vm", "a", "b", "K", "im", "v", "vm.a", "vm.a.b.K", "m"]);
    let mem = if what { f0() } else { cls(vec![]) };
    let im = || (b("im"), Member::From(b("vm.a.b"), b("K")));
    install(vec![module("vm.a.b", vec![(b("K"), mem)])]);
    install(vec![Mod { package: true, ..module("vm.a", if deep { vec![im(), (b("stay"), f0())] } else { vec![(b("stay"), f0())] }) }]);
    install(vec![Mod { package: true, ..module("vm", if deep { vec![(b("stay"), f0())] } else { vec![im(), (b("stay"), f0())] }) }]);
    let v = bind(config(Some(&[b(l)]), false), &["vm"]);
    let m = get_mod(&v, "vm");
    is(quiet_fns(&m.items, "stay"), true);
    let a = find_mod(&m.items, "a");
    is(a.is_some(), l != "a");
    let used = |i: &[Item]| uses(i).iter().any(|u| u.names.iter().any(|x| x.1 == "im"));
    let all = !["vm", "a", "b", "K", "im"].contains(&l);
    if let Some(a) = a {
        is(quiet_fns(&a.items, "stay"), true);
        is(find_mod(&a.items, "b").is_some(), l != "b");
        if let Some(x) = find_mod(&a.items, "b") { is(if what { quiet_fns(&x.items, "K") } else { find_class(&x.items, "K").is_some() }, l != "K"); }
        if deep { is(used(&a.items), all); }
    }
    if !deep { is(used(&m.items), all); }
    reach(1);
    if all { reach(2); }
}
/// A package below another one whose name is private, or that of a module that is always left out.
pub fn homes() {
    const L: [&str; 6] = ["vm", "_vm", "a_", "typing", "__future__", "tests"];
    let (p, q) = (one_of(&L), one_of(&L));
    assume((p != "typing") & (p != "__future__"));
    let private = flag();
    let own = format!("{p}.{q}");
    let low = format!("{own}.b");
    install(vec![module(&low, vec![(b("f"), f0()), (b("x"), Member::Val(Val::Int))])]);
    install(vec![Mod { package: true, ..module(&own, vec![(b("f"), f0()), (b("K"), cls(vec![])), (b("x"), Member::Val(Val::Int))]) }]);
    install(vec![Mod { package: true, ..module(p, vec![]) }]);
    let v = bind_(config(None, private), private, &[&own]);
    let m = get_mod(&v, &own);
    let home = !hidden_home(own.as_bytes(), private);
    is(quiet_fns(&m.items, "f"), home);
    is(find_class(&m.items, "K").is_some(), home);
    is(quiet_fns(&m.items, "x"), true);
    let b = find_mod(&m.items, "b");
    is(b.is_some(), home);
    if let Some(b) = b { is(quiet_fns(&b.items, "f"), home); is(quiet_fns(&b.items, "x"), true); }
}
