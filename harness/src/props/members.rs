//! Completeness: every public member has exactly one binding, nothing else is defined.
use super::*;

fn lower(n: usize) -> S {
    let mut v = vec![];
    for i in 0..n { let c = any_u8(); assume(((c >= b'a') & (c <= b'z')) | ((i > 0) & (c >= b'0') & (c <= b'9')) | ((i > 0) & (c == b'_'))); v.push(c); }
    v
}
fn upper2() -> S {
    let (c, d) = (any_u8(), any_u8());
    assume((c >= b'A') & (c <= b'Z'));
    assume((d >= b'0') & (d <= b'9'));
    vec![c, d]
}
/// Values of every type.
pub const VALS: [Val; 13] = [Val::Int, Val::Str, Val::Float, Val::Bool, Val::None, Val::Bytes, Val::List, Val::Dict, Val::Tuple, Val::Set, Val::FrozenSet, Val::Complex, Val::Slice];
pub const KINDS: u8 = 11;
/// A member of module `vm` of the given kind and what should be defined for it.
pub fn sample(k: u8, n: &S, w: &mut Want, all: bool) -> Member {
    let t = st(n);
    match k {
        0 => { w.func(t); func(vec![param(b("a"), Kind::PosOrKw)]) }
        1 => { w.class(&rs(t), &[], &[]); Member::Class(Class::default()) }
        2 => { w.value(t); Member::Val(VALS[pick(if all { 13 } else { 1 }) as usize].clone()) }
        3 => { w.func(t); Member::Builtin }
        4 => { w.type_var(t); Member::TypeVar(n.clone()) }
        5 => Member::From(b("ext"), b("xf")),
        6 => Member::From(b("ext"), b("XC")),
        7 => Member::Mod(b("ext")),
        8 => { w.value(t); Member::Val(Val::Instance(b("ext"), b("XC"))) }
        9 => Member::Ty(Bt::Int),
        _ => { w.class(&rs(t), &["new"], &["go"]); Member::Class(Class { members: vec![(b("__init__"), func(vec![self_param("self")])), (b("go"), func(vec![self_param("self")]))], ..Default::default() }) }
    }
}
pub fn ext() -> Mod { module("ext", vec![(b("xf"), func(vec![])), (b("XC"), Member::Class(Class::default()))]) }
/// two members of any kinds, the name of the second and (two bytes) of the first symbolic
pub fn pairs() { two(false) }
pub fn pairs_deep() { two(true) }
fn two(all: bool) {
    let (n1, n2) = (lower(1), upper2());
    let mut w = Want::default();
    let (k1, k2) = (pick(KINDS), pick(KINDS));
    
    let m1 = sample(k1, &n1, &mut w, all);
    let m2 = sample(k2, &n2, &mut w, all);
    install(vec![ext(), module("vm", vec![(n1, m1), (n2, m2)])]);
    let out = bind(Config::default(), &["vm"]);
    check(out.len() == 1 && get_mod(&out, "vm").public, "another number of top-level modules");
    same_definitions(&get_mod(&out, "vm").items, &w);
    reach(1);
    if k1 == k2 { reach(2); }
}
/// values of every type
pub fn values() {
    let n = lower(1);
    let mut w = Want::default();
    w.value(st(&n));
    install(vec![module("vm", vec![(n, Member::Val(VALS[pick(13) as usize].clone()))])]);
    let out = bind(Config::default(), &["vm"]);
    same_definitions(&get_mod(&out, "vm").items, &w);
    reach(3);
}
/// a member of any kind with a two-letter lower-case name, keywords included
pub fn keyword_names() {
    let n = lower(2);
    assume(n[..] != b"py"[..]);
    let mut w = Want::default();
    let k = [0, 1, 2, 4][pick(4) as usize];
    let m = if k == 2 { w.value(st(&n)); Member::Val(Val::Int) } else { sample(k, &n, &mut w, false) };
    install(vec![module("vm", vec![(n.clone(), m)])]);
    let out = bind(Config::default(), &["vm"]);
    same_definitions(&get_mod(&out, "vm").items, &w);
    reach(4);
    if is_keyword(&n) { reach(5); }
}
