//! Bindings of the packages that the requested modules import from.
use super::*;
use crate::resolve::*;

fn class() -> Member { Member::Class(Class { members: vec![(b("m"), func(vec![self_param("self")]))], ..Default::default() }) }
const DEPS: [&str; 4] = ["vb", "vb.c", "vb.c.e", "vd"];
fn below(a: &str, b: &str) -> bool { a.len() > b.len() && a.starts_with(b) && a.as_bytes()[b.len()] == b'.' }
fn others() {
    install(vec![module("vb.c.e", vec![(b("K"), class()), (b("f"), func(vec![]))])]);
    install(vec![Mod { package: true, ..module("vb.c", vec![(b("K"), class()), (b("f"), func(vec![]))]) }]);
    install(vec![Mod { package: true, ..module("vb", vec![(b("K"), class()), (b("f"), func(vec![])), (b("_f"), func(vec![]))]) }]);
    install(vec![module("vd", vec![(b("K"), class()), (b("f"), func(vec![]))])]);
}
fn import(m: &str, what: u8) -> Member { match what { 0 => Member::From(b(m), b("K")), 1 => Member::From(b(m), b("f")), _ => Member::Mod(b(m)) } }
fn full(v: &[Item], n: &str) {
    let m = get_mod(v, n);
    let f = get_fn(&m.items, "f");
    check_call(f, Owner::Function, n, "f", &[]);
    get_fn(get_class(&m.items, "K").tr, "m");
    check(fns(&m.items).len() == 1, "something private of another package is bound");
}
const AT: [&str; 3] = ["va", "va.s", "va.s.t"];
/// imports: module, kind of the member, place
fn depends(l: &[(usize, u8, usize)], deps: bool, traverse: bool, blocked: Option<&str>) {
    others();
    for n in [2, 1, 0] {
        let mut mem = vec![(b("own"), func(vec![]))];
        for (i, (m, w, at)) in l.iter().enumerate() { if *at == n { mem.push((b(["x0", "x1"][i]), import(DEPS[*m], *w))); } }
        install(vec![Mod { package: n < 2, ..module(AT[n], mem) }]);
    }
    let c = Config::builder().generate_dependencies(deps).traverse_submodules(traverse);
    let c = match blocked { Some(x) => c.blocklist_names(vec![String::from(x)]).build(), None => c.build() };
    let v = bind(c, &["va"]);
    well_formed(&v);
    let needed: Vec<&str> = if deps { l.iter().filter(|x| traverse || x.2 == 0).map(|x| DEPS[x.0]).filter(|x| Some(*x) != blocked).collect() } else { vec![] };
    for n in DEPS {
        let want = needed.contains(&n) || (traverse && needed.iter().any(|r| below(n, r)));
        let parent = needed.iter().any(|r| below(r, n));
        match find_mod(&v, n) {
            None => check(!want && !parent, "a package that something is imported from is not bound"),
            Some(m) => {
                check(want || parent, "a package is bound that was not asked for");
                if want { full(&v, n); reach(1); } else { check(m.items.iter().all(|i| matches!(i, Item::Mod(_))), "a package is bound that was not asked for"); reach(2); }
            }
        }
    }
    // the module itself
    for n in AT {
        let Some(m) = find_mod(&v, n) else { check(!traverse && n != "va", "a submodule is missing"); continue };
        check_call(get_fn(&m.items, "own"), Owner::Function, n, "own", &[]);
        check(fns(&m.items).len() == 1 && structs(&m.items).is_empty() && uses(&m.items).is_empty(), "something of another package is bound as if it belonged to the module");
        check(traverse || n == "va", "a submodule is bound that was not asked for");
    }
    if needed.is_empty() { check(mods(&v).len() == 1, "something besides the modules is generated"); reach(3); }
}
/// one import of any kind
pub fn single() { depends(&[(pick(4) as usize, pick(3), pick(3) as usize)], flag(), flag(), None) }
/// two imports, of the same module or of modules on different levels
pub fn two() { depends(&[(pick(4) as usize, pick(3), 0), (pick(4) as usize, 0, pick(3) as usize)], true, true, None) }
/// dependencies that are blocked
pub fn blocked() { depends(&[(pick(4) as usize, pick(3), 0), (3, 0, 0)], true, true, Some(one_of(&["vd", "vz"]))) }
/// Classes of dependencies are used as types.
pub fn typed() {
    let deps = flag();
    let k = pick(4) as usize;
    let imported = pick(3);
    others();
    let mut p = param(b("a"), Kind::PosOrKw);
    p.ann = Some(Ann::Class(b(DEPS[k]), b("K")));
    let mut l = vec![(b("own"), Member::Func(Func { params: vec![p.clone()], ret: p.ann.clone(), ..Default::default() }))];
    if imported > 0 { l.push((b("x0"), import(DEPS[k], imported - 1))); }
    install(vec![module("va", l)]);
    let v = bind(Config::builder().generate_dependencies(deps).build(), &["va"]);
    well_formed(&v);
    let f = get_fn(&get_mod(&v, "va").items, "own");
    let full = format!("{}.K", DEPS[k]);
    let (a, r) = (&visible(f)[0].1, &f.ret);
    if deps && imported > 0 {
        check(a.strip_prefix('&').and_then(|t| class_of(&v, "va", t)).as_deref() == Some(&full[..]), "a class of a dependency is not the type of a parameter");
        check(r.strip_prefix("pyo3::PyResult<").and_then(|t| t.strip_suffix('>')).and_then(|t| class_of(&v, "va", t)).as_deref() == Some(&full[..]), "a class of a dependency is not the type of a result");
        reach(1);
    } else {
        check(a.starts_with("impl pyo3::IntoPy<pyo3::Py<pyo3::types::PyAny>>"), "the type of a class that is not bound is not an arbitrary object");
        reach(2);
    }
}
