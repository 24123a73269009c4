//! The procedural macro.
use super::*;
use proc_macro2::{Literal, TokenStream, TokenTree, Punct, Spacing, Ident, Span};

fn modules() {
    install(vec![
        Mod { package: true, doc: Some(b("Doc.")), ..module("va", vec![(b("f"), func(vec![param(b("x"), Kind::PosOrKw)])), (b("C"), Member::Class(Class { members: vec![(b("m"), Member::Func(Func { params: vec![self_param("self")], ..Default::default() }))], ..Default::default() }))]) },
        module("va.b", vec![(b("g"), func(vec![]))]),
        module("vm", vec![(b("h"), func(vec![]))]),
    ]);
}
/// a string, in any notation, expands to the bindings of the module of that name
pub fn expands() {
    modules();
    let m = one_of(&["va", "va.b", "vm"]);
    let want = match stream(Config::default(), &[m]) { Ok(t) => t, Err(_) => fail("the engine reports an error for an ordinary module") };
    let src = match pick(4) {
        0 => { let mut s = String::from("\""); s.push_str(m); s.push('"'); s }
        1 => { let mut s = String::from("r\""); s.push_str(m); s.push('"'); s }
        2 => { let mut s = String::from("r#\""); s.push_str(m); s.push_str("\"#"); s }
        _ => { let mut s = String::from("\"\\x76"); s.push_str(&m[1..]); s.push('"'); s }
    };
    let Ok(input) = src.parse::<TokenStream>() else { fail("harness: tokens") };
    let got = harness_macros::import_python(input);
    note_stream(&got);
    check(got.to_string() == want.to_string(), "the macro does not expand to the bindings of the module");
    reach(1);
}
/// anything else is an error of the compiler
pub fn rejects() {
    modules();
    let va = || TokenTree::Literal(Literal::string("va"));
    let id = |s: &str| TokenTree::Ident(Ident::new(s, Span::call_site()));
    let p = |c| TokenTree::Punct(Punct::new(c, Spacing::Alone));
    let v = match pick(9) {
        0 => vec![],
        1 => vec![id("va")],
        2 => vec![TokenTree::Literal(Literal::byte_string(b"va"))],
        3 => vec![TokenTree::Literal(Literal::character('v'))],
        4 => vec![TokenTree::Literal(Literal::u8_unsuffixed(7))],
        5 => vec![va(), va()],
        6 => vec![va(), p(','), va()],
        7 => vec![va(), p('.'), id("b")],
        _ => vec![id("r"), p('='), va()],
    };
    let got = harness_macros::import_python(v.into_iter().collect()).to_string();
    check(got.contains("compile_error") && !got.contains("mod va"), "the macro accepts something that is no module name");
    reach(1);
}
