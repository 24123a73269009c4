//! Harness entry points, grouped by property. Every entry describes some Python modules with symbolic
//! parts, runs the real engine on them and states the property about the generated bindings.
pub use crate::oracle::*;
pub use crate::spec::*;
pub use crate::sym::*;
pub use pyo3_bindgen_engine::{Codegen, Config};
pub mod call;
pub mod members;
pub mod methods;
pub mod attrs;
pub mod types;
pub mod tree;
pub mod filter;
pub mod config;
pub mod quiet;
pub mod embed;
pub mod docs;
pub mod names;
pub mod odd;
pub mod disk;
pub mod cli;
pub mod deps;
pub mod macros;

pub fn stream(cfg: Config, names: &[&str]) -> Result<proc_macro2::TokenStream, String> {
    let mut c = Codegen::new(cfg);
    for n in names { c = c.module_name(n).map_err(|e| e.to_string())?; }
    c.generate().map_err(|e| e.to_string())
}
/// Bindings of the given modules; the engine must succeed.
pub fn bind(cfg: Config, names: &[&str]) -> Vec<Item> {
    match stream(cfg, names) { Ok(t) => { note_stream(&t); parse(t) } Err(_) => fail("the engine reports an error for an ordinary module") }
}
/// The same without recording the bindings (some are outside the model).
pub fn bind_quiet(cfg: Config, names: &[&str]) -> Vec<Item> {
    match stream(cfg, names) { Ok(t) => parse(t), Err(_) => fail("the engine reports an error for an ordinary module") }
}
/// Everything generated except documentation (the model does not have the documentation of built-in types).
pub fn note_stream(t: &proc_macro2::TokenStream) { note(&text(&undoc(t.clone()))); }
fn undoc(t: proc_macro2::TokenStream) -> Vec<proc_macro2::TokenTree> {
    use proc_macro2::{Group, TokenTree};
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        if matches!(&v[i], TokenTree::Punct(p) if p.as_char() == '#') {
            if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                if matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(d)) if d == "doc") { i += 2; continue; }
            }
        }
        o.push(match &v[i] { TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), undoc(g.stream()).into_iter().collect())), x => x.clone() });
        i += 1;
    }
    o
}
pub fn note(s: &str) { note_bytes(s.as_bytes()) }
/// A symbolic identifier of the given length over `[a-zA-Z0-9_]`.
pub fn ident_bytes(len: usize) -> S {
    let mut v = vec![];
    for i in 0..len {
        let c = any_u8();
        assume((c == b'_') | ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((i > 0) & (c >= b'0') & (c <= b'9')));
        v.push(c);
    }
    v
}
pub fn st(x: &[u8]) -> &str { std::str::from_utf8(x).unwrap_or_else(|_| fail("harness: utf8")) }
pub fn pname(x: &[u8]) -> String { let mut s = String::from("p_"); s.push_str(st(x)); s }
pub fn one_of<'a>(l: &[&'a str]) -> &'a str { l[pick(l.len() as u8) as usize] }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Owner { Function, Instance, ClassM, StaticM, Ctor, Callable }
/// Wrap a function into the owner: members of module `vm`.
pub fn owned(o: Owner, name: &str, f: Func) -> Vec<(S, Member)> {
    let m = match o {
        Owner::Function => return vec![(b(name), Member::Func(f))],
        Owner::Instance | Owner::Ctor | Owner::Callable => Member::Func(f),
        Owner::ClassM => Member::ClassM(f),
        Owner::StaticM => Member::Static(f),
    };
    vec![(b("Cls"), Member::Class(Class { members: vec![(b(name), m)], ..Default::default() }))]
}
pub fn self_param(n: &str) -> Param { param(b(n), Kind::PosOrKw) }
/// The binding of that function.
pub fn owned_fn<'a>(items: &'a [Item], module: &str, o: Owner, name: &str) -> &'a FnI {
    let m = get_mod(items, module);
    if o == Owner::Function { return get_fn(&m.items, name); }
    let c = get_class(&m.items, "Cls");
    match o {
        Owner::ClassM | Owner::StaticM => get_fn(c.own, name),
        Owner::Ctor => get_fn(c.own, "new"),
        Owner::Instance | Owner::Callable => {
            let n = if o == Owner::Callable { "call" } else { name };
            let (a, b) = (get_fn(c.tr, n), get_fn(c.tri, n));
            check(a.body.is_none() && a.recv == b.recv && a.params == b.params && a.ret == b.ret, "a method differs from its declaration");
            b
        }
        Owner::Function => unreachable!(),
    }
}
/// Parameters as the caller of the binding sees them.
pub fn visible(f: &FnI) -> &[(String, String)] { if f.params.first().is_some_and(|p| p.0 == "py") { &f.params[1..] } else { &f.params } }
/// The function forwards exactly its parameters `ps` to the callable it stands for.
pub fn check_call(f: &FnI, o: Owner, module: &str, name: &str, ps: &[Param]) {
    let off = if f.params.first().is_some_and(|p| p.0 == "py") { 1 } else { 0 };
    match o {
        Owner::Instance | Owner::Callable => check(f.recv.as_deref() == Some("&'py self") && off == 0, "a method does not take self"),
        _ => check(f.recv.is_none() && off == 1 && f.public, "a function does not take the Python token, or is not public"),
    }
    let vis = visible(f);
    check(vis.len() == ps.len(), "the number of parameters differs");
    for (v, p) in vis.iter().zip(ps) { check(v.0 == pname(&p.name), "a parameter has another name or place"); }
    let V::Extracted(v) = eval(f) else { fail("the result of the call is not returned") };
    let V::Call(ev) = *v else { fail("the body is not a call") };
    let method = match o {
        Owner::Instance => { check(ev.recv == V::This, "the call is not made on self"); Some(name) }
        Owner::Callable => { check(ev.recv == V::This, "the call is not made on self"); None }
        Owner::Function => { check(dotted(&ev.recv) == module, "the call is made on another object"); Some(name) }
        Owner::ClassM | Owner::StaticM => { check(dotted(&ev.recv) == format!("{module}.Cls"), "the call is made on another object"); Some(name) }
        Owner::Ctor => { check(dotted(&ev.recv) == format!("{module}.Cls"), "the call is made on another object"); None }
    };
    check(ev.method.as_deref() == method, "another method is called");
    let mut pos = vec![];
    let mut kw = vec![];
    let mut ss = None;
    for (i, p) in ps.iter().enumerate() {
        match p.kind { Kind::PosOnly | Kind::PosOrKw => pos.push(A::One(i + off)), Kind::VarPos => pos.push(A::Star(i + off)), Kind::KwOnly => kw.push((p.name.clone(), i + off)), Kind::VarKw => ss = Some(i + off) }
    }
    check(ev.pos == pos, "the positional arguments are not the positional parameters in order");
    check(ev.kw.len() == kw.len(), "the number of keyword arguments differs");
    for (a, b) in ev.kw.iter().zip(&kw) { check(a.0.as_bytes() == &b.0[..] && a.1 == b.1, "a keyword argument has another name or value"); }
    check(ev.starstar == ss, "the variadic keyword arguments are not forwarded");
}

/// Everything that is defined, one line per definition (documentation and macro calls excluded).
pub fn inventory(v: &[Item]) -> Vec<String> {
    let mut o = vec![];
    inv(v, "", &mut o);
    o
}
fn inv(v: &[Item], pre: &str, o: &mut Vec<String>) {
    for i in v {
        match i {
            Item::Mod(m) => o.push(cat3(pre, "mod ", unraw(&m.name))),
            Item::Fn(f) => o.push(cat3(pre, "fn ", unraw(&f.name))),
            Item::Struct(f) => o.push(cat3(pre, "struct ", unraw(&f.name))),
            Item::Type(f) => o.push(cat3(pre, "type ", unraw(&f.name))),
            Item::Trait(f) => { o.push(cat3(pre, "trait ", unraw(&f.name))); let p = cat3(pre, unraw(&f.name), "."); inv(&f.items, &p, o); }
            Item::Impl(f) => {
                let mut n = String::from("impl ");
                if let Some(t) = &f.of { n.push_str(unraw(t)); n.push_str(" for "); }
                n.push_str(unraw(&f.ty));
                let p = cat3(pre, &n, ".");
                o.push(cat3(pre, &n, ""));
                inv(&f.items, &p, o);
            }
            Item::Use(u) => for (n, a) in &u.names { o.push(format!("{pre}use {}::{n} as {a}", u.path.join("::"))); },
            Item::Const(c) => o.push(cat3(pre, "const ", c)),
            Item::Macro(..) => {}
        }
    }
}
pub fn cat3(a: &str, b: &str, c: &str) -> String { let mut s = String::with_capacity(a.len() + b.len() + c.len()); s.push_str(a); s.push_str(b); s.push_str(c); s }
/// Expected definitions.
#[derive(Default)]
pub struct Want(pub Vec<String>);
impl Want {
    pub fn func(&mut self, n: &str) { self.0.push(cat3("fn ", n, "")); }
    pub fn value(&mut self, n: &str) { self.func(n); self.0.push(cat3("fn ", "set_", n)); }
    pub fn module(&mut self, n: &str) { self.0.push(cat3("mod ", n, "")); }
    pub fn type_var(&mut self, n: &str) { self.0.push(cat3("type ", n, "")); }
    /// struct name as text (`r#` for keywords), functions called on the class, methods called on instances
    pub fn class(&mut self, n: &str, own: &[&str], methods: &[&str]) {
        let u = unraw(n);
        self.0.push(cat3("struct ", u, ""));
        self.0.push(cat3("impl ", u, ""));
        for f in own { self.0.push(format!("impl {u}.fn {f}")); }
        self.0.push(cat3("trait ", u, "Methods"));
        self.0.push(format!("impl {u}Methods for pyo3::Bound<'_,{n}>"));
        for f in methods { self.0.push(format!("{u}Methods.fn {f}")); self.0.push(format!("impl {u}Methods for pyo3::Bound<'_,{n}>.fn {f}")); }
    }
}
/// Exactly the expected definitions. Accessors of special methods (`__init__`, `__call__`) are not looked at.
pub fn same_definitions(items: &[Item], want: &Want) {
    let have: Vec<String> = inventory(items).into_iter().filter(|x| !x.ends_with("fn __init__") && !x.ends_with("fn __call__")).collect();
    for (i, w) in want.0.iter().enumerate() {
        let n = have.iter().filter(|h| *h == w).count();
        let k = want.0.iter().filter(|h| *h == w).count();
        let _ = i;
        if n < k { note(w); fail("a definition is missing"); }
        if n > k { note(w); fail("a definition appears more than once"); }
    }
    if have.len() != want.0.len() {
        for h in &have { if !want.0.contains(h) { note(h); } }
        fail("something is defined that should not be there");
    }
}
/// The way a name is written as a Rust identifier.
pub fn rs(n: &str) -> String { if is_keyword(n.as_bytes()) { cat3("r#", n, "") } else { String::from(n) } }

/// Words that cannot be used as plain Rust identifiers.
pub const KEYWORDS: [&str; 52] = ["as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct",
    "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield", "_"];
/// Keywords that cannot even be raw identifiers.
pub const NO_RAW: [&str; 5] = ["crate", "self", "Self", "super", "_"];
pub fn is_keyword(n: &[u8]) -> bool { KEYWORDS.iter().any(|k| k.as_bytes() == n) }
pub fn is_no_raw(n: &[u8]) -> bool { NO_RAW.iter().any(|k| k.as_bytes() == n) }

/// A choice of annotations of every conversion class.
pub const ANN_POOL: u8 = 20;
pub fn ann_pool(i: u8) -> Ann {
    let t = Ann::Ty;
    match i {
        0 => t(Bt::Int), 1 => t(Bt::Str), 2 => t(Bt::Bytes), 3 => t(Bt::Float), 4 => t(Bt::List), 5 => t(Bt::Dict), 6 => t(Bt::Set), 7 => t(Bt::Tuple), 8 => t(Bt::Object), 9 => t(Bt::Delta),
        10 => Ann::Typing("Any", vec![]), 11 => Ann::Typing("Optional", vec![t(Bt::Int)]), 12 => Ann::Typing("Optional", vec![t(Bt::Dict)]), 13 => Ann::Typing("Union", vec![t(Bt::Int), t(Bt::Str)]),
        14 => Ann::Typing("Dict", vec![t(Bt::Str), t(Bt::Int)]), 15 => Ann::Typing("Tuple", vec![t(Bt::Int), t(Bt::Str)]), 16 => Ann::Typing("Callable", vec![Ann::Params(vec![t(Bt::Int)]), t(Bt::Str)]),
        17 => Ann::Str(b("Unknown")), 18 => Ann::Typing("Tuple", vec![t(Bt::Int)]), _ => Ann::None,
    }
}
