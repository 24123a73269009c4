//! Modules given as source code.
use super::*;
use crate::resolve::well_formed;
use proc_macro2::{TokenStream, TokenTree};

const CODE: &str = "def f(a): pass\nclass K:\n  def m(self): pass\nx = 7\n# ";
fn described(n: &str) -> Mod {
    Mod { source: true, ..module(n, vec![(b("f"), func(vec![param(b("a"), Kind::PosOrKw)])), (b("K"), Member::Class(Class { members: vec![(b("m"), func(vec![self_param("self")]))], ..Default::default() })), (b("x"), Member::Val(Val::Int))]) }
}
/// All string literals of the code.
fn literals(v: &[TokenTree], o: &mut Vec<String>) {
    for t in v {
        match t {
            TokenTree::Literal(l) => { let s = l.to_string(); if s.starts_with('"') { o.push(unquote(&s)); } }
            TokenTree::Group(g) => { let w: Vec<TokenTree> = g.stream().into_iter().collect(); literals(&w, o); }
            _ => {}
        }
    }
}
const EMBED: &str = "pyo3_embed_python_source_code";
/// The function makes exactly this source code importable under exactly this name.
fn embeds(m: &ModI, name: &str, code: &str) {
    let f = get_fn(&m.items, EMBED);
    check(f.public && f.recv.is_none() && f.params.len() == 1 && f.params[0].0 == "py" && f.ret == "pyo3::PyResult<()>", "the function that embeds the source code cannot be called");
    let Some(body) = &f.body else { fail("the function that embeds the source code has no body") };
    let mut l = vec![];
    literals(body, &mut l);
    let n = |t: &str| l.iter().filter(|x| *x == t).count();
    check(n(code) == 1, "the embedded source code differs from the one that was given");
    check(n(name) == 2, "the source code is embedded under another name");
    check(n("sys") == 1 && n("modules") == 1, "the embedded module is not made importable");
}
/// ... and the other items call it under that name.
fn works(m: &ModI, name: &str) {
    check_call(get_fn(&m.items, "f"), Owner::Function, name, "f", &[param(b("a"), Kind::PosOrKw)]);
    let c = get_class(&m.items, "K");
    check_call(get_fn(c.tri, "m"), Owner::Instance, name, "m", &[]);
    check(eval(get_fn(&m.items, "x")) == V::Extracted(Box::new(V::Getattr(Box::new(V::Module(String::from(name))), String::from("x")))), "a value is not read from the module it belongs to");
}
fn gen(mods: &[(&str, Option<&str>)]) -> TokenStream {
    let mut c = Codegen::new(Config::default());
    for (n, code) in mods {
        let r = match code { Some(s) => c.module_from_str(s, n), None => c.module_name(n) };
        c = r.unwrap_or_else(|_| fail("the engine reports an error for an ordinary module"));
    }
    c.generate().unwrap_or_else(|_| fail("the engine reports an error for an ordinary module"))
}
fn quiet_parse(t: TokenStream) -> Vec<Item> { note_stream(&t); parse(t) }
/// any source code: a comment with arbitrary characters in it
pub fn text() {
    let mut c = vec![];
    let n = pick(3);
    for _ in 0..n { let x = any_u8(); assume((x >= 32) & (x < 127)); c.push(x); }
    let src = cat(&[CODE.as_bytes(), &c]);
    let name = "vm";
    install(vec![described(name)]);
    let v = quiet_parse(gen(&[(name, Some(st(&src)))]));
    well_formed(&v);
    let m = get_mod(&v, name);
    embeds(m, name, st(&src));
    works(m, name);
    reach(1);
}
/// source code that needs care
pub fn special() {
    let tail = one_of(&["", "\"\"\"x\"\"\"", "\\", "r\"\\n\"", "{SOURCE} {0}", "\u{e4}\u{2028}\u{1f600}", "x\r\n# y", "\t", "'\\''", "*/ //", "\"#", "x\n\n\n", "\u{7f}\u{1}"]);
    let name = one_of(&["vm", "type", "v_0"]);
    let src = format!("{CODE}{tail}");
    install(vec![described(name)]);
    let v = quiet_parse(gen(&[(name, Some(&src))]));
    well_formed(&v);
    let m = get_mod(&v, name);
    embeds(m, name, &src);
    works(m, name);
    reach(1);
}
/// several modules, given as source code or by name, nested or not, in any order
pub fn several() {
    const NAMES: [&str; 5] = ["va", "vb", "vb.c", "vb.c.d", "type.x"];
    let (i, j) = (pick(5) as usize, pick(5) as usize);
    assume(i != j);
    let plain = pick(3);
    let (a, c) = (NAMES[i], NAMES[j]);
    // (a module that is imported by name lies in no module that exists only as source code)
    let (ca, cc) = (plain != 1, plain != 2);
    assume((plain == 0) | ((plain == 1) & (i < 2)) | ((plain == 2) & (j < 2)));
    let mk = |n: &str, source: bool| Mod { source, ..described(n) };
    install(vec![mk(a, ca), mk(c, cc)]);
    let (sa, sc) = (format!("{CODE}first {a}"), format!("{CODE}second {c}"));
    let t = gen(&[(a, if ca { Some(&sa) } else { None }), (c, if cc { Some(&sc) } else { None })]);
    let v = quiet_parse(t);
    well_formed(&v);
    for (n, is, s) in [(a, ca, &sa), (c, cc, &sc)] {
        let m = get_mod(&v, n);
        if is { embeds(m, n, s); reach(1); } else { check(find_fn(&m.items, EMBED).is_none(), "source code is embedded that was not given"); reach(2); }
        // (Python imports nothing from a package that does not exist)
        let root = n.split('.').next().unwrap_or(n);
        if root == n || root == a || root == c { works(m, n); reach(4); }
    }
    // packages on the way embed nothing
    for n in ["vb", "vb.c", "type"] { if n != a && n != c { if let Some(m) = find_mod(&v, n) { check(find_fn(&m.items, EMBED).is_none(), "source code is embedded that was not given"); reach(3); } } }
}
