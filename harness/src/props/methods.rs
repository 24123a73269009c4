//! Kinds of methods: what they are called on, inheritance, constructors and callable instances.
use super::*;

fn p(n: &str) -> Param { param(b(n), Kind::PosOrKw) }
fn variadic() -> Vec<Param> { vec![param(b("args"), Kind::VarPos), param(b("kwargs"), Kind::VarKw)] }
const KINDS: u8 = 16;
/// A method of each kind, what it has to be called on and the parameters that remain.
fn sample(k: u8) -> (Member, Owner, Vec<Param>) {
    let f = |ps: Vec<Param>| Func { params: ps, ..Default::default() };
    match k {
        0 => (Member::Func(f(vec![p("self"), p("a")])), Owner::Instance, vec![p("a")]),
        1 => {
            let n = ident_bytes(1);
            assume((n[0] != b'a') & (n[0] != b'_'));
            (Member::Func(f(vec![p(st(&n)), p("a")])), Owner::Instance, vec![p("a")])
        }
        2 => (Member::Func(f(vec![])), Owner::StaticM, vec![]),
        3 => (Member::Static(f(vec![])), Owner::StaticM, vec![]),
        4 => (Member::Static(f(vec![p("a"), param(b("c"), Kind::KwOnly)])), Owner::StaticM, vec![p("a"), param(b("c"), Kind::KwOnly)]),
        5 => (Member::ClassM(f(vec![p("cls"), p("a")])), Owner::ClassM, vec![p("a")]),
        6 => (Member::ClassM(f(vec![p("cls")])), Owner::ClassM, vec![]),
        7 => { let mut v = vec![p("self"), p("a")]; v[0].kind = Kind::PosOnly; (Member::Func(f(v)), Owner::Instance, vec![p("a")]) }
        8 => (Member::Static(f(vec![p("self"), p("a")])), Owner::StaticM, variadic()),
        9 => (Member::ClassM(f(vec![p("cls"), p("self")])), Owner::ClassM, variadic()),
        // without a signature every call is forwarded as it is
        10 => (Member::Func(Func { nosig: true, ..f(vec![p("self"), p("a")]) }), Owner::Instance, variadic()),
        11 => (Member::Static(Func { nosig: true, ..f(vec![p("a")]) }), Owner::StaticM, variadic()),
        // the receiver is absorbed by variadic parameters
        13 => { let v = vec![param(b("args"), Kind::VarPos)]; (Member::Func(f(v.clone())), Owner::Instance, v) }
        14 => (Member::Func(f(variadic())), Owner::Instance, variadic()),
        15 => { let v = vec![param(b("args"), Kind::VarPos)]; (Member::ClassM(f(v.clone())), Owner::ClassM, v) }
        _ => (Member::ClassM(Func { nosig: true, ..f(vec![p("cls"), p("a")]) }), Owner::ClassM, variadic()),
    }
}
fn cls(bases: &[(&str, &str)], members: Vec<(S, Member)>) -> Member {
    Member::Class(Class { bases: bases.iter().map(|(m, n)| (b(m), b(n))).collect(), members, ..Default::default() })
}
/// every kind of method, defined in the class, inherited from bases in any place, or overridden
pub fn kinds() {
    let ctx = pick(6);
    let k = pick(KINDS);
    let (m, o, ps) = sample(k);
    let m = vec![(b("fun"), m)];
    let inherited = ctx != 0 && ctx != 4;
    let mods = match ctx {
        0 => vec![module("vm", vec![(b("Cls"), cls(&[], m))])],
        1 => vec![module("vm", vec![(b("Base"), cls(&[], m)), (b("Cls"), cls(&[("vm", "Base")], vec![]))])],
        2 => vec![module("ext", vec![(b("Base"), cls(&[], m))]), module("vm", vec![(b("Cls"), cls(&[("ext", "Base")], vec![]))])],
        3 => vec![module("vm", vec![(b("Root"), cls(&[], m)), (b("Mid"), cls(&[("vm", "Root")], vec![])), (b("Cls"), cls(&[("vm", "Mid")], vec![]))])],
        4 => {
            // overridden by a method of another kind
            let (n, _, _) = sample([0, 3, 5][pick(3) as usize]);
            vec![module("vm", vec![(b("Base"), cls(&[], vec![(b("fun"), n)])), (b("Cls"), cls(&[("vm", "Base")], m))])]
        }
        _ => {
            // the first of two bases wins
            let (n, _, _) = sample([0, 3, 5][pick(3) as usize]);
            vec![module("vm", vec![(b("A"), cls(&[], m)), (b("B"), cls(&[], vec![(b("fun"), n)])), (b("Cls"), cls(&[("vm", "A"), ("vm", "B")], vec![]))])]
        }
    };
    // modules are looked up by name while bases are resolved: everything is in place before
    install_with_bases(mods);
    let out = bind(Config::default(), &["vm"]);
    let items = &get_mod(&out, "vm").items;
    let c = get_class(items, "Cls");
    let on_self = find_fn(c.tri, "fun").is_some();
    let on_class = find_fn(c.own, "fun").is_some();
    check(on_self != on_class, "a method has no binding or several");
    check(on_self == (o == Owner::Instance), "a method is called on an instance instead of the class, or the other way round");
    check_call(owned_fn(&out, "vm", o, "fun"), o, "vm", "fun", &ps);
    reach(1);
    if inherited { reach(2); }
    if (10..13).contains(&k) { reach(3); }
}
fn install_with_bases(mods: Vec<Mod>) { for m in mods { install(vec![m]); } }
const TAKEN: [&str; 4] = ["new", "new1", "call", "call1"];
fn first_free(base: &str, taken: &[&str]) -> String {
    if !taken.contains(&base) { return String::from(base); }
    let mut i = 1;
    loop { let n = format!("{base}{i}"); if !taken.contains(&&n[..]) { return n; } i += 1; }
}
/// constructors and callable instances, own or inherited, next to members called `new`, `call`, ...
pub fn specials() { let (i, c) = [(0, 1), (1, 0), (1, 1), (2, 2)][pick(4) as usize]; special(i, c); }
pub fn specials_deep() { let (i, c) = (pick(3), pick(3)); special(i, c); }
fn special(i: u8, c: u8) {
    let set = pick(16);
    let style = if set == 0 { 0 } else { pick(3) };
    let mut members = vec![];
    let mut base = vec![];
    let f = |n: &str| func(vec![p("self"), p(n)]);
    if i > 0 { (if i == 1 { &mut members } else { &mut base }).push((b("__init__"), f("x"))); }
    if c > 0 { (if c == 1 { &mut members } else { &mut base }).push((b("__call__"), f("y"))); }
    let mut taken = vec![];
    for (j, n) in TAKEN.iter().enumerate() {
        if set >> j & 1 == 1 {
            taken.push(*n);
            members.push((b(n), match style { 0 => f("z"), 1 => Member::Static(Func { params: vec![p("z")], ..Default::default() }), _ => Member::ClassM(Func { params: vec![p("cls"), p("z")], ..Default::default() }) }));
        }
    }
    install_with_bases(vec![module("vm", vec![(b("Base"), cls(&[], base)), (b("Cls"), cls(&[("vm", "Base")], members))])]);
    let out = bind(Config::default(), &["vm"]);
    let cl = get_class(&get_mod(&out, "vm").items, "Cls");
    let (new, call) = (first_free("new", &taken), first_free("call", &taken));
    if i > 0 {
        let f = get_fn(cl.own, &new);
        check_call(f, Owner::Ctor, "vm", "", &[p("x")]);
        check(f.ret == "pyo3::PyResult<pyo3::Bound<'py,Self>>", "the constructor returns something else than the new instance");
        reach(1);
    }
    if c > 0 {
        let f = get_fn(cl.tri, &call);
        check_call(f, Owner::Callable, "vm", "", &[p("y")]);
        let d = get_fn(cl.tr, &call);
        check(d.params == f.params && d.ret == f.ret, "a method differs from its declaration");
        reach(2);
    }
    let o = [Owner::Instance, Owner::StaticM, Owner::ClassM][style as usize];
    for n in &taken { check_call(owned_fn(&out, "vm", o, n), o, "vm", n, &[p("z")]); }
    // nothing else is called new... or call...
    let have = inventory(cl.own).into_iter().chain(inventory(cl.tri)).filter(|x| x.starts_with("fn new") || x.starts_with("fn call")).count();
    check(have == taken.len() + (i > 0) as usize + (c > 0) as usize, "a constructor or call method is defined that should not be there, or one is missing");
    if i > 0 && new == "new2" && c > 0 && call == "call2" { reach(3); }
}
