//! Forwarding of calls.
use super::*;

const OWNERS: [Owner; 6] = [Owner::Function, Owner::Instance, Owner::ClassM, Owner::StaticM, Owner::Ctor, Owner::Callable];
/// A symbolic one-letter name that differs from the earlier ones.
fn letter(v: &[Param]) -> S {
    let l = b"deghijklmnopqstuvwxy";
    let i = v.len() * 2;
    let c = any_u8();
    assume((c == l[i]) | (c == l[i + 1]));
    vec![c]
}
fn shape(po: u8, pk: u8, ko: u8) -> Vec<Param> {
    let mut v = vec![];
    for _ in 0..pick(po + 1) { let n = letter(&v); v.push(param(n, Kind::PosOnly)); }
    for _ in 0..pick(pk + 1) { let n = letter(&v); v.push(param(n, Kind::PosOrKw)); }
    if flag() { let n = letter(&v); v.push(param(n, Kind::VarPos)); }
    for _ in 0..pick(ko + 1) { let n = letter(&v); v.push(param(n, Kind::KwOnly)); }
    if flag() { let n = letter(&v); v.push(param(n, Kind::VarKw)); }
    v
}
fn with_self(o: Owner, ps: &[Param]) -> Vec<Param> {
    let mut v = vec![];
    match o { Owner::Instance | Owner::Ctor | Owner::Callable => v.push(self_param("self")), Owner::ClassM => v.push(self_param("cls")), _ => {} }
    v.extend_from_slice(ps);
    if ps.first().is_some_and(|p| p.kind == Kind::PosOnly) && v.len() > ps.len() { v[0].kind = Kind::PosOnly; }
    v
}
fn fname(o: Owner) -> &'static str { match o { Owner::Ctor => "__init__", Owner::Callable => "__call__", _ => "fun" } }
fn go(o: Owner, ps: &[Param]) {
    let f = Func { params: with_self(o, ps), ..Default::default() };
    install(vec![module("vm", owned(o, fname(o), f))]);
    let out = bind(Config::default(), &["vm"]);
    check_call(owned_fn(&out, "vm", o, fname(o)), o, "vm", fname(o), ps);
}
/// every owner, up to 1 positional-only, 2 ordinary, 2 keyword-only parameters, `*args`, `**kwargs`
pub fn shapes() { let o = OWNERS[pick(6) as usize]; let ps = shape(1, 2, 2); go(o, &ps); reach(1); if ps.is_empty() { reach(2); } if ps.len() == 7 { reach(3); } }
/// wider: functions and instance methods with up to 2+3+3 parameters and both variadics
pub fn shapes_deep() { let o = [Owner::Function, Owner::Instance, Owner::Ctor][pick(3) as usize]; let ps = shape(2, 3, 3); go(o, &ps); reach(1); if ps.len() == 10 { reach(3); } }

/// defaults do not change the forwarding: every ordinary and keyword-only parameter may have one
pub fn defaults() {
    let o = [Owner::Function, Owner::Instance][pick(2) as usize];
    let mut ps = vec![param(b("a"), Kind::PosOrKw), param(b("b"), Kind::PosOrKw), param(b("c"), Kind::KwOnly), param(b("d"), Kind::KwOnly)];
    let k = pick(3);
    ps[1].default = k > 0;
    ps[0].default = k > 1;
    ps[2].default = flag();
    ps[3].default = flag();
    // without and with variadic parameters
    let mut l = vec![];
    for i in 0..4 {
        let mut ps = ps.clone();
        if i & 1 == 1 { ps.insert(2, param(b("rest"), Kind::VarPos)); }
        if i & 2 == 2 { ps.push(param(b("opts"), Kind::VarKw)); }
        l.push(ps);
    }
    let name = |i: usize| format!("fun{i}");
    let ms: Vec<(S, Member)> = l.iter().enumerate().map(|(i, ps)| (name(i).into_bytes(), Member::Func(Func { params: with_self(o, ps), ..Default::default() }))).collect();
    install(vec![module("vm", if o == Owner::Function { ms } else { vec![(b("Cls"), Member::Class(Class { members: ms, ..Default::default() }))] })]);
    let out = bind(Config::default(), &["vm"]);
    for (i, ps) in l.iter().enumerate() { check_call(owned_fn(&out, "vm", o, &name(i)), o, "vm", &name(i), ps); }
    reach(1);
}
/// The variadic forwarding used when the signature is not usable.
fn variadic() -> Vec<Param> { vec![param(b("args"), Kind::VarPos), param(b("kwargs"), Kind::VarKw)] }
/// signatures that need special care: no signature, names `self` and `_` in unusual places
pub fn quirks() {
    let p = |n: &str, k| param(b(n), k);
    match pick(10) {
        0 => {
            // without a signature every call is forwarded as it is
            let o = OWNERS[pick(6) as usize];
            let f = Func { params: with_self(o, &[p("a", Kind::PosOrKw)]), nosig: true, ..Default::default() };
            install(vec![module("vm", owned(o, fname(o), f))]);
            let out = bind(Config::default(), &["vm"]);
            check_call(owned_fn(&out, "vm", o, fname(o)), o, "vm", fname(o), &variadic());
            reach(10);
        }
        1 => {
            // built-in function without a signature
            install(vec![module("vm", vec![(b("fun"), Member::Builtin)])]);
            let out = bind(Config::default(), &["vm"]);
            check_call(owned_fn(&out, "vm", Owner::Function, "fun"), Owner::Function, "vm", "fun", &variadic());
            reach(11);
        }
        2 => {
            // a module-level function whose first parameter is called self
            let k = [Kind::PosOnly, Kind::PosOrKw][pick(2) as usize];
            let ps = vec![p("self", k), p("a", Kind::PosOrKw)];
            install(vec![module("vm", vec![(b("fun"), func(ps))])]);
            let out = bind(Config::default(), &["vm"]);
            let f = owned_fn(&out, "vm", Owner::Function, "fun");
            let mut want = vec![p("__unknown_self__", Kind::PosOrKw), p("a", Kind::PosOrKw)];
            want[0].name = b(unraw(&visible(f)[0].0).strip_prefix("p_").unwrap_or("?"));
            check_call(f, Owner::Function, "vm", "fun", &want);
            reach(12);
        }
        3 => {
            // keyword-only or variadic parameters called self
            let k = [Kind::KwOnly, Kind::VarPos, Kind::VarKw][pick(3) as usize];
            install(vec![module("vm", vec![(b("fun"), func(vec![p("self", k)]))])]);
            let out = bind(Config::default(), &["vm"]);
            check_call(owned_fn(&out, "vm", Owner::Function, "fun"), Owner::Function, "vm", "fun", &variadic());
            reach(13);
        }
        4 => {
            // self is not the first parameter
            let o = [Owner::Function, Owner::Instance, Owner::Ctor][pick(3) as usize];
            let ps = vec![p("a", Kind::PosOrKw), p("self", Kind::PosOrKw)];
            let mut all = vec![];
            if o != Owner::Function { all.push(p("this", Kind::PosOrKw)); }
            all.extend_from_slice(&ps);
            install(vec![module("vm", owned(o, fname(o), Func { params: all, ..Default::default() }))]);
            let out = bind(Config::default(), &["vm"]);
            check_call(owned_fn(&out, "vm", o, fname(o)), o, "vm", fname(o), &variadic());
            reach(14);
        }
        5 => {
            // the receiver of an instance method may have any name
            let o = [Owner::Instance, Owner::Ctor, Owner::Callable][pick(3) as usize];
            let mut ps = vec![p("this", Kind::PosOrKw), p("a", Kind::PosOrKw), p("b", Kind::KwOnly)];
            ps[0].name = ident_bytes(1);
            let c = ps[0].name[0];
            assume((c != b'a') & (c != b'b') & (c != b'_'));
            install(vec![module("vm", owned(o, fname(o), Func { params: ps.clone(), ..Default::default() }))]);
            let out = bind(Config::default(), &["vm"]);
            check_call(owned_fn(&out, "vm", o, fname(o)), o, "vm", fname(o), &ps[1..]);
            reach(15);
        }
        6 => {
            // parameters called _ are parameters like any other
            let o = [Owner::Function, Owner::Instance, Owner::StaticM][pick(3) as usize];
            let at = pick(3);
            let mut ps = vec![p("a", Kind::PosOrKw), p("b", Kind::PosOrKw), p("c", Kind::KwOnly)];
            ps[at as usize].name = b("_");
            go(o, &ps);
            reach(16);
        }
        7 => {
            // the receiver is absorbed by variadic parameters
            let o = [Owner::Instance, Owner::Ctor, Owner::Callable, Owner::ClassM][pick(4) as usize];
            let mut ps = vec![p("rest", Kind::VarPos)];
            if flag() { ps.push(p("k", Kind::KwOnly)); }
            if flag() { ps.push(p("opts", Kind::VarKw)); }
            install(vec![module("vm", owned(o, fname(o), Func { params: ps.clone(), ..Default::default() }))]);
            let out = bind(Config::default(), &["vm"]);
            check_call(owned_fn(&out, "vm", o, fname(o)), o, "vm", fname(o), &ps);
            reach(18);
        }
        8 => {
            // a function in a class that takes no parameter can only be called on the class
            let o = [Owner::Instance, Owner::Ctor, Owner::Callable][pick(3) as usize];
            install(vec![module("vm", owned(o, fname(o), Func::default()))]);
            let out = bind(Config::default(), &["vm"]);
            let o2 = if o == Owner::Instance { Owner::StaticM } else { o };
            check_call(owned_fn(&out, "vm", o2, fname(o)), o2, "vm", fname(o), &[]);
            reach(19);
        }
        _ => {
            // names of the generated code itself as parameter names
            let n = one_of(&["py", "p_a", "args", "kwargs", "__internal__args", "__internal__kwargs", "value", "type", "match", "fn", "cls", "other"]);
            let o = [Owner::Function, Owner::Instance][pick(2) as usize];
            let ps = vec![p("a", Kind::PosOrKw), p(n, Kind::PosOrKw), p("rest", Kind::VarPos), p("c", Kind::KwOnly), p("opts", Kind::VarKw)];
            go(o, &ps);
            reach(17);
        }
    }
}
/// many parameters of one kind: nothing depends on how many there are
pub fn wide() {
    let o = [Owner::Function, Owner::Ctor][pick(2) as usize];
    let n = if o == Owner::Ctor { 2 + 2 * pick(6) } else { 3 + 2 * pick(6) };
    let k = [Kind::PosOnly, Kind::PosOrKw, Kind::KwOnly][pick(3) as usize];
    let (rest, opts) = (flag(), flag());
    let mut ps: Vec<Param> = (0..n).map(|i| param(vec![b'a' + i], k)).collect();
    if rest { let at = if k == Kind::KwOnly { 0 } else { ps.len() }; ps.insert(at, param(b("rest"), Kind::VarPos)); }
    if opts { ps.push(param(b("opts"), Kind::VarKw)); }
    go(o, &ps);
    reach(1);
    if n == 13 { reach(2); }
}
/// parameters whose names differ only in underscores, digits or capitals are different parameters
pub fn alike() {
    let o = [Owner::Function, Owner::Instance][pick(2) as usize];
    let n = |c: u8| -> S { let mut v = vec![]; if flag() { v.push(b'_'); } v.push(c); match pick(3) { 1 => v.push(b'_'), 2 => v.push(b'1'), _ => {} } v };
    let x = if flag() { b'x' } else { b'X' };
    let (a, c) = (n(b'x'), n(x));
    assume(a != c);
    let name = |i: usize| format!("fun{i}");
    let l: Vec<Vec<Param>> = [(Kind::PosOrKw, Kind::KwOnly), (Kind::PosOrKw, Kind::PosOrKw), (Kind::KwOnly, Kind::KwOnly), (Kind::VarPos, Kind::VarKw)].into_iter().map(|(k, l)| vec![param(a.clone(), k), param(c.clone(), l)]).collect();
    let ms: Vec<(S, Member)> = l.iter().enumerate().map(|(i, ps)| (name(i).into_bytes(), Member::Func(Func { params: with_self(o, ps), ..Default::default() }))).collect();
    install(vec![module("vm", if o == Owner::Function { ms } else { vec![(b("Cls"), Member::Class(Class { members: ms, ..Default::default() }))] })]);
    let out = bind(Config::default(), &["vm"]);
    for (i, ps) in l.iter().enumerate() { check_call(owned_fn(&out, "vm", o, &name(i)), o, "vm", &name(i), ps); }
    reach(1);
}
/// annotated parameters are converted as their Rust type demands before they are forwarded
pub fn converted() {
    let o = [Owner::Function, Owner::Instance][pick(2) as usize];
    let a = ann_pool(pick(ANN_POOL));
    let k = [Kind::PosOnly, Kind::PosOrKw, Kind::KwOnly][pick(3) as usize];
    let mut ps = vec![param(b("a"), k)];
    ps[0].ann = Some(a);
    if k == Kind::KwOnly { if flag() { ps.push(param(b("opts"), Kind::VarKw)); } } else if flag() { ps.push(param(b("rest"), Kind::VarPos)); }
    go(o, &ps);
    reach(1);
}
