//! Unusual modules: whatever the attributes look like, the generator does not crash, and what is
//! ordinary is bound as ever.
use super::*;
use crate::resolve::*;

fn f(ps: Vec<Param>) -> Func { Func { params: ps, ..Default::default() } }
fn cls(members: Vec<(S, Member)>) -> Class { Class { members, ..Default::default() } }
/// Module `va` has the function `stay`.
fn still(v: &[Item], m: &str) {
    well_formed(v);
    check_call(get_fn(&get_mod(v, m).items, "stay"), Owner::Function, m, "stay", &[]);
}
fn stay() -> (S, Member) { (b("stay"), Member::Func(f(vec![]))) }
/// text of characters that mean something in paths and descriptions
fn text(max: u8) -> S {
    let n = pick(max + 1) as usize;
    (0..n).map(|_| { let c = any_u8(); assume((c == b'.') | (c == b'a') | (c == b'_') | (c == b'<') | (c == b' ') | (c == b':') | (c == b'1')); c }).collect()
}
/// functions and classes that claim to come from anywhere
pub fn origins() {
    let home = match pick(4) { 0 => cat(&[b"va", &text(2)]), 1 => cat(&[&text(2), b"va"]), 2 => text(2), _ => cat(&[b"va.", &text(1), b"b"]) };
    let m = if flag() { Member::Func(Func { module: Some(home), ..Default::default() }) } else { Member::Class(Class { module: Some(home), ..cls(vec![(b("m"), Member::Func(f(vec![self_param("self")])))]) }) };
    install(vec![module("va.b", vec![stay()])]);
    install(vec![Mod { package: true, ..module("va", vec![(b("it"), m), stay()]) }]);
    let v = bind_quiet(Config::default(), &["va"]);
    still(&v, "va");
    still(&v, "va.b");
    reach(1);
}
/// functions and classes that claim to have another name
pub fn called() {
    let name = match pick(3) { 0 => text(2), 1 => cat(&[b"it", &text(1)]), _ => cat(&[&text(1), b"it"]) };
    let other = [None, Some(b("va.b")), Some(b("vb")), Some(vec![])][pick(4) as usize].clone();
    install(vec![module("va.b", vec![stay(), (b("it"), Member::Func(f(vec![])))])]);
    install(vec![Mod { package: true, ..module("va", vec![(b("it"), Member::Func(Func { module: other, name: Some(name), ..Default::default() })), stay()]) }]);
    let v = bind_quiet(Config::default(), &["va"]);
    still(&v, "va");
    still(&v, "va.b");
    reach(1);
}
/// names that are listed but do not exist, empty names, `__all__` that is no list
pub fn listings() {
    let names = || -> Vec<S> { let mut l = vec![b("stay")]; for _ in 0..pick(3) { l.push([b(""), b("gone"), b("stay"), b("K")][pick(4) as usize].clone()); } l };
    let listing = match pick(3) { 0 => None, 1 => Some(None), _ => Some(Some(names())) };
    let raises = listing == Some(None);
    let k = !matches!(&listing, Some(Some(l)) if !l.contains(&b("K")));
    let unlistable = flag();
    let (all, index) = match pick(4) { 0 => (None, 0), 1 => (Some(vec![b("stay")]), 1), 2 => (Some(vec![b("stay"), b(""), b("gone"), b("stay")]), 0), _ => (Some(vec![b("stay")]), 2) };
    let prelude = all.is_some() && index != 2;
    let same = matches!((&all, &listing), (Some(a), Some(Some(l))) if a.iter().all(|x| l.contains(x) || x.is_empty()) && l.iter().all(|x| a.contains(x) || x.is_empty()));
    install(vec![Mod { all, index, listing, ..module("va", vec![(b("K"), Member::Class(Class { unlistable, ..cls(vec![]) })), stay()]) }]);
    match stream(Config::default(), &["va"]) {
        Err(_) => { check(raises || (unlistable && k), "the engine reports an error for an ordinary module"); reach(2); }
        Ok(t) => {
            check(!(raises || (unlistable && k)), "no error is reported although the attributes cannot be listed");
            note_stream(&t);
            let v = parse(t);
            still(&v, "va");
            let m = &get_mod(&v, "va").items;
            check(fns(m).len() == 1 && structs(m).len() == k as usize, "something that does not exist is bound");
            let r = resolve(&v, &[String::from("va"), String::from("prelude")], &segs("stay"), 8);
            if !same { check(r.len() == prelude as usize, "the prelude differs from __all__"); }
            if prelude && index == 1 { reach(3); }
            reach(1);
        }
    }
}
/// values of classes with unusual names, modules and attributes; functions without a signature
pub fn values() {
    let name = [b("K"), vec![], b("a.b"), b("functools.partial"), b("K<locals>")][pick(5) as usize].clone();
    let home = [None, Some(b("functools")), Some(b("typing")), Some(vec![]), Some(b("a::b")), Some(b("types"))][pick(6) as usize].clone();
    let mut ms = vec![];
    match pick(3) { 0 => {} 1 => ms.push((b("__module__"), Member::Val(Val::Int))), _ => ms.push((b("__name__"), Member::Val(Val::Int))) }
    install(vec![module("vb", vec![(name.clone(), Member::Class(Class { module: home, ..cls(ms) }))])]);
    install(vec![module("va", vec![(b("x"), Member::Val(Val::Instance(b("vb"), name))), stay()])]);
    let v = bind_quiet(Config::default(), &["va"]);
    still(&v, "va");
    reach(1);
}
/// functions and methods without a signature, `functools.partial`
pub fn signatures() {
    let nosig = || Func { nosig: true, ..f(vec![param(b("a"), Kind::PosOrKw)]) };
    let k = pick(6);
    let m = match k {
        0 => Member::Func(nosig()),
        1 => Member::Builtin,
        2 => Member::Partial(f(vec![param(b("a"), Kind::PosOrKw), Param { default: true, ..param(b("k"), Kind::KwOnly) }])),
        3 => Member::Class(cls(vec![(b("m"), Member::Func(nosig())), (b("__init__"), Member::Func(nosig()))])),
        4 => Member::Class(cls(vec![(b("m"), Member::Static(nosig())), (b("c"), Member::ClassM(nosig()))])),
        _ => Member::Class(cls(vec![(b("m"), Member::Partial(f(vec![]))), (b("p"), Member::Prop(Some(nosig()), Some(nosig())))])),
    };
    install(vec![module("va", vec![(b("it"), m), stay()])]);
    let v = bind(Config::default(), &["va"]);
    still(&v, "va");
    let items = &get_mod(&v, "va").items;
    let rest = [param(b("args"), Kind::VarPos), param(b("kwargs"), Kind::VarKw)];
    match k {
        0 | 1 => check_call(get_fn(items, "it"), Owner::Function, "va", "it", &rest),
        2 => check_call(get_fn(items, "it"), Owner::Function, "va", "it", &[param(b("a"), Kind::PosOrKw), param(b("k"), Kind::KwOnly)]),
        _ => { get_class(items, "it"); }
    }
    reach(1);
}
/// packages whose `__path__` is anything that can be iterated
pub fn paths() {
    let (package, sub) = (flag(), flag());
    let p = [Val::List, Val::Numbers, Val::Str, Val::Tuple, Val::Dict][pick(5) as usize].clone();
    if sub { install(vec![module("va.b", vec![stay()])]); }
    install(vec![Mod { package: package || sub, ..module("va", vec![(b("__path__"), Member::Val(p)), stay()]) }]);
    let v = bind(Config::default(), &["va"]);
    still(&v, "va");
    check(v.len() == 1 && !get_mod(&v, "va").items.iter().any(|i| matches!(i, Item::Mod(_))), "something that does not exist is bound");
    reach(1);
}
/// special attributes that are not what they usually are
pub fn dunders() {
    let v = [Val::Int, Val::None, Val::List, Val::Numbers, Val::Str, Val::Tuple, Val::Dict, Val::Bool][pick(8) as usize].clone();
    let k = pick(5);
    let it = |n: &str| vec![(b(n), Member::Val(v.clone()))];
    let (mut of_module, mut of_class) = (vec![], vec![(b("m"), Member::Func(f(vec![self_param("self")])))]);
    match k { 0 => of_module.extend(it("__doc__")), 1 => of_module.extend(it("__all__")), 2 => of_class.extend(it("__doc__")), 3 => of_class.extend(it("__orig_bases__")), _ => of_module.extend(it("__file__")) }
    of_module.push((b("K"), Member::Class(cls(of_class))));
    of_module.push((b("x"), Member::Val(Val::Instance(b("va"), b("K")))));
    of_module.push(stay());
    install(vec![module("va", of_module)]);
    let v = bind(Config::default(), &["va"]);
    still(&v, "va");
    let m = &get_mod(&v, "va").items;
    let c = get_class(m, "K");
    check_call(get_fn(c.tri, "m"), Owner::Instance, "va", "m", &[]);
    check(find_fn(m, "x").is_some(), "a value of a module has no binding");
    reach(1);
}
/// imported modules without a name
pub fn nameless() {
    let v = [Val::Int, Val::None, Val::List, Val::Numbers, Val::Str, Val::Bool][pick(6) as usize].clone();
    let m = if flag() { "vb" } else { "vb.s" };
    if m == "vb.s" { install(vec![Mod { package: true, ..module("vb", vec![]) }]); }
    install(vec![module(m, vec![(b("g"), Member::Func(f(vec![]))), (b("__name__"), Member::Val(v))])]);
    install(vec![module("va", vec![(b("other"), Member::Mod(b(m))), stay()])]);
    let v = bind(Config::builder().generate_dependencies(flag()).build(), &["va"]);
    still(&v, "va");
    reach(1);
}
