//! The command line tool.
use super::*;
use crate::disk;

/// Run the tool with that command line.
#[cfg(verif_sym)]
fn run(a: &[&str]) -> bool {
    let mut p: Vec<*const u8> = vec![];
    for x in a { let mut s = b(x); s.push(0); p.push(s.leak().as_ptr()); }
    let n = p.len();
    p.push(std::ptr::null());
    unsafe { crate::pymodel::capi::init_args(n as isize, p.leak().as_ptr()); }
    harness_cli::verif_main()
}
#[cfg(not(verif_sym))]
fn run(a: &[&str]) -> bool {
    let now: Vec<String> = std::env::args().collect();
    if now.iter().map(|s| s.as_str()).collect::<Vec<_>>() != a {
        use std::os::unix::process::CommandExt;
        crate::native::cleanup();
        let e = std::env::current_exe().unwrap().canonicalize().unwrap();
        panic!("{}", std::process::Command::new(e).arg0(a[0]).args(&a[1..]).env("VERIF_REPLAY", format!("{} {}", now[1], now[2])).exec());
    }
    harness_cli::verif_main()
}
fn flat(t: proc_macro2::TokenStream, o: &mut String) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Group(g) => { let (a, b) = match g.delimiter() { proc_macro2::Delimiter::Brace => ("{ ", "} "), proc_macro2::Delimiter::Bracket => ("[ ", "] "), proc_macro2::Delimiter::Parenthesis => ("( ", ") "), _ => ("", "") }; o.push_str(a); flat(g.stream(), o); o.push_str(b); }
            proc_macro2::TokenTree::Punct(p) => { if p.as_char() != ',' { o.push(p.as_char()); o.push(' '); } }
            proc_macro2::TokenTree::Literal(l) => match syn::Lit::new(l.clone()) { syn::Lit::Str(s) => { let v = s.value(); o.push('"'); o.push_str(&v); o.push_str("\" "); } _ => { o.push_str(&l.to_string()); o.push(' '); } },
            x => { o.push_str(&x.to_string()); o.push(' '); }
        }
    }
}
/// The tokens except for commas and the notation of strings.
fn tokens(t: proc_macro2::TokenStream) -> String { let mut o = String::new(); flat(t, &mut o); o }
fn modules() {
    install(vec![
        Mod { package: true, doc: Some(b("Doc.")), ..module("va", vec![(b("f"), func(vec![param(b("x"), Kind::PosOrKw)])), (b("C"), Member::Class(Class { members: vec![(b("m"), Member::Func(Func { params: vec![self_param("self")], ..Default::default() }))], ..Default::default() }))]) },
        module("va.b", vec![(b("g"), func(vec![]))]),
        module("vab", vec![(b("h"), func(vec![]))]),
    ]);
}
/// The tool leaves the bindings of exactly these modules in the file, or prints them.
fn check_run(args: &[&str], mods: &[&str], out: Option<&str>, old: Option<Vec<u8>>) {
    modules();
    let want = match stream(Config::default(), mods) { Ok(t) => t, Err(_) => fail("the engine reports an error for an ordinary module") };
    disk::insert(old, vec![], vec![]);
    if let Some(p) = out { disk::place(p); }
    disk::capture();
    let ok = run(args);
    let (so, f) = (disk::stdout(), disk::file());
    check(ok, "the tool fails");
    let got = match out { Some(_) => { check(so.is_empty(), "the tool prints although it writes a file"); f.unwrap_or_else(|| fail("the tool does not write the file")) } None => { check(f.is_none(), "the tool writes a file without being asked to"); so } };
    let Ok(got) = String::from_utf8(got) else { fail("the output of the tool is not UTF-8") };
    let Ok(got) = got.parse::<proc_macro2::TokenStream>() else { fail("the output of the tool is no Rust code") };
    if tokens(got.clone()) != tokens(want.clone()) { note(&tokens(got.clone())); note(&tokens(want.clone())); }
    check(tokens(got) == tokens(want), "the output of the tool is not the generated bindings");
}
/// where the bindings go
pub fn outputs() {
    let out = [None, Some(disk::PATH), Some("/verif-disk/a/out.rs"), Some("/verif-disk/a/b/out.rs")][pick(4) as usize];
    let mut a = vec!["pyo3_bindgen"];
    let eq: String;
    let first = flag();
    if !first { a.extend(["-m", "va"]); }
    if let Some(o) = out {
        match pick(3) {
            0 => a.extend(["-o", o]),
            1 => a.extend(["--output", o]),
            _ => { eq = format!("--output={o}"); a.push(&eq); }
        }
    }
    if first { a.extend(["-m", "va"]); }
    let old = if out == Some(disk::PATH) && flag() { Some(vec![b'x'; 60000]) } else { None };
    check_run(&a, &["va"], out, old);
    reach(if out.is_some() { 1 } else { 2 });
}
/// which modules are asked for, and how
pub fn requests() {
    let mut a = vec!["pyo3_bindgen"];
    let mut mods = vec![];
    for i in 0..1 + pick(2) {
        let m = one_of(&["va", "va.b", "vab"]);
        mods.push(m);
        match pick(if i == 0 { 3 } else { 4 }) {
            0 => a.extend(["-m", m]),
            1 => a.extend(["--module-name", m]),
            2 => a.push(match m { "va" => "--module-name=va", "va.b" => "--module-name=va.b", _ => "--module-name=vab" }),
            _ => { if a.last().is_some_and(|x| x.starts_with("--")) { return; } a.push(m); }
        }
    }
    check_run(&a, &mods, None, None);
    reach(1);
}
