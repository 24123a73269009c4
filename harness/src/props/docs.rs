//! Documentation: the words of the Python documentation, line by line.
use super::*;

/// Words of every line, without empty lines around them. What would start a code block (repeated
/// backticks) does not count, and slashes at the end neither.
fn lines(t: &str) -> Vec<Vec<String>> {
    let t = t.trim_end_matches(|c: char| c.is_whitespace() || c == '/');
    let mut o: Vec<Vec<String>> = t.split('\n').map(|l| l.split_whitespace().map(|w| {
        let mut r = String::new();
        for c in w.chars() { if !(c == '`' && r.ends_with('`')) { r.push(c); } }
        r
    }).collect()).collect();
    while o.first().is_some_and(|l| l.is_empty()) { o.remove(0); }
    while o.last().is_some_and(|l| l.is_empty()) { o.pop(); }
    o
}
fn documented(docs: &[String], want: Option<&str>, what: &str) {
    let have = docs.join("\n");
    match want {
        None => check(docs.is_empty(), what),
        Some(w) => {
            if lines(&have) != lines(w) { note(what); note(&have); fail("the documentation differs from that of Python"); }
            // nothing in it is taken for code to be compiled
            check(!have.contains("``"), "the documentation contains a code block");
            check(have.split('\n').all(|l| !l.starts_with("    ") && !l.starts_with('\t')), "the documentation contains an indented code block");
        }
    }
}
fn f(d: Option<&S>, p: Vec<Param>) -> Func { Func { doc: d.cloned(), params: p, ..Default::default() } }
fn me() -> Vec<Param> { vec![self_param("self")] }
fn setter(d: Option<&S>) -> Func { f(d, vec![self_param("self"), param(b("v"), Kind::PosOrKw)]) }
/// The documentation of everything there is.
fn everywhere(t: &S, rich: bool) {
    let d = Some(t);
    let mut k = vec![(b("m"), Member::Func(f(d, me()))), (b("p"), Member::Prop(Some(f(d, me())), None))];
    if rich {
        k.push((b("__init__"), Member::Func(f(d, me()))));
        k.push((b("__call__"), Member::Func(f(d, me()))));
        k.push((b("s"), Member::Static(f(d, vec![]))));
        k.push((b("c"), Member::ClassM(f(d, vec![self_param("cls")]))));
        k.push((b("q"), Member::Prop(Some(f(None, me())), Some(setter(d)))));
        k.push((b("r"), Member::Prop(Some(f(d, me())), Some(setter(None)))));
        k.push((b("n"), Member::Func(f(None, me()))));
    }
    let mut v = vec![(b("K"), Member::Class(Class { doc: d.cloned(), members: k, ..Default::default() })), (b("f"), Member::Func(f(d, vec![])))];
    if rich { v.push((b("x"), Member::Val(Val::Int))); v.push((b("g"), Member::Func(f(None, vec![])))); v.push((b("L"), Member::Class(Class::default()))); }
    install(vec![Mod { doc: d.cloned(), ..module("vm", v) }]);
    let v = bind_docs(&["vm"]);
    let t = st(t);
    let want = if t.is_empty() { None } else { Some(t) };
    let m = get_mod(&v, "vm");
    documented(&m.docs, want, "module");
    documented(&get_fn(&m.items, "f").docs, want, "function");
    let c = get_class(&m.items, "K");
    documented(&c.st.docs, want, "class");
    method(&c, "m", want);
    method(&c, "p", want);
    if rich {
        documented(&get_fn(c.own, "new").docs, want, "__init__");
        documented(&get_fn(c.own, "s").docs, want, "static method");
        documented(&get_fn(c.own, "c").docs, want, "class method");
        for n in ["call", "q", "set_q", "r", "set_r"] { method(&c, n, want); }
        method(&c, "n", None);
        documented(&get_fn(&m.items, "x").docs, None, "value");
        documented(&get_fn(&m.items, "g").docs, None, "function");
        documented(&get_class(&m.items, "L").st.docs, None, "class");
    }
}
fn method(c: &ClassV, n: &str, want: Option<&str>) {
    let (a, b) = (&get_fn(c.tri, n).docs, &get_fn(c.tr, n).docs);
    // (with the declaration or with the implementation)
    if !b.is_empty() { documented(b, want, n); }
    if b.is_empty() || !a.is_empty() { documented(a, want, n); }
}
/// bindings with documentation in the record
fn bind_docs(names: &[&str]) -> Vec<Item> {
    match stream(Config::default(), names) {
        Ok(t) => { let v = parse(t.clone()); note_stream(&t); v }
        Err(_) => fail("the engine reports an error for an ordinary module"),
    }
}
fn letters(n: u8) -> S {
    let mut v = vec![];
    for _ in 0..n { let c = any_u8(); assume((c == b'a') | (c == b' ') | (c == b'\n') | (c == b'`') | (c == b'/') | (c == b'\t')); v.push(c); }
    v
}
fn printable() -> S { let c = any_u8(); assume((c >= 32) & (c < 127)); vec![c] }
/// every short text, on its own and at the end or in the middle of another one
pub fn texts() {
    let t = match pick(6) { 0 => letters(pick(3)), 1 => cat(&[b"x", &letters(2), b"y"]), 2 => cat(&[&letters(1), b"a", &letters(1), b"b", &letters(1)]), 3 => letters(3), 4 => { let c = printable(); match pick(3) { 0 => cat(&[b"x ", &c, b" y"]), 1 => cat(&[&c, b"x"]), _ => cat(&[b"x", &c]) } } _ => { let c = letters(1); cat(&[b" x`\n", &c, b"`\n", &c, b"//"]) } };
    everywhere(&t, false);
    reach(1);
}
pub fn texts_deep() { let t = letters(4); everywhere(&t, false); reach(1); }
/// texts that need care, for every kind of owner
pub fn kinds() {
    let t = one_of(&["", "one word", "\"quoted\" 'text' \\ \\n {} {0} #[x] */ /* //", "first\n    indented\n\n\tmore\n", "\n\nleading\n\n\ntrailing\n\n\n", "```python\n>>> f()\n```", "r#\"raw\"#", "\u{e4}\u{2028}\u{1f600} \u{a0}x", "a  b\t\tc \r\n d", "path/to/", "/", "   ", "\n    \n\n    a\n\n    b\n    ", "\na\nb", "none", "None", "None of these"]);
    everywhere(&b(t), true);
    reach(1);
}
/// who documents a property: the getter, or else the setter
pub fn properties() {
    let (g, s) = (flag(), flag());
    let (gt, stx) = (b("getter text"), b("setter text"));
    let only = pick(3);
    let get = if only == 2 { None } else { Some(f(if g { Some(&gt) } else { None }, me())) };
    let set = if only == 1 { None } else { Some(setter(if s { Some(&stx) } else { None })) };
    install(vec![module("vm", vec![(b("K"), Member::Class(Class { doc: Some(b("class text")), members: vec![(b("a"), Member::Func(f(Some(&b("other text")), me()))), (b("p"), Member::Prop(get, set)), (b("x"), Member::Val(Val::Int))], ..Default::default() }))])]);
    let v = bind_docs(&["vm"]);
    let c = get_class(&get_mod(&v, "vm").items, "K");
    let (g, s) = (g && only != 2, s && only != 1);
    let (gw, sw) = (if g { Some("getter text") } else if s { Some("setter text") } else { None }, if s { Some("setter text") } else if g { Some("getter text") } else { None });
    if only == 2 {
        // (a property that cannot be read)
        let f = find_fn(c.tri, "set_p").unwrap_or_else(|| fail("a property has no binding"));
        documented(&f.docs, sw, "set_p");
    } else { method(&c, "p", gw); }
    if only == 0 { method(&c, "set_p", sw); }
    method(&c, "x", None);
    reach(1);
}
