//! Native backend of `spec`: real packages for the real interpreter (replay of counterexamples and
//! validation of the model).
use crate::spec::*;
use pyo3::prelude::*;
use std::fmt::Write;

const HELPER: &str = include_str!("native.py");

fn js(s: &[u8], o: &mut String) {
    o.push('"');
    for c in String::from_utf8_lossy(s).chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
}
fn opt(s: &Option<S>, o: &mut String) { match s { Some(s) => js(s, o), None => o.push_str("null") } }
fn list<T>(v: &[T], o: &mut String, f: impl Fn(&T, &mut String)) {
    o.push('[');
    for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } f(x, o); }
    o.push(']');
}
fn ann(a: &Ann, o: &mut String) {
    match a {
        Ann::Str(s) => { o.push_str("[\"str\","); js(s, o); o.push(']'); }
        Ann::Ty(t) => { let _ = write!(o, "[\"ty\",{}]", *t as u8); }
        Ann::Class(m, n) => { o.push_str("[\"cls\","); js(m, o); o.push(','); js(n, o); o.push(']'); }
        Ann::Typing(n, v) => { let _ = write!(o, "[\"typing\",\"{n}\","); list(v, o, ann); o.push(']'); }
        Ann::Pep585(t, v) => { let _ = write!(o, "[\"p585\",{},", *t as u8); list(v, o, ann); o.push(']'); }
        Ann::Pep604(v) => { o.push_str("[\"p604\","); list(v, o, ann); o.push(']'); }
        Ann::Generic(m, n, v) => { o.push_str("[\"gen\","); js(m, o); o.push(','); js(n, o); o.push(','); list(v, o, ann); o.push(']'); }
        Ann::Params(v) => { o.push_str("[\"params\","); list(v, o, ann); o.push(']'); }
        Ann::None => o.push_str("[\"none\"]"),
        Ann::Ellipsis => o.push_str("[\"ell\"]"),
    }
}
fn func(f: &Func, o: &mut String) {
    o.push_str("{\"params\":");
    list(&f.params, o, |p, o| {
        o.push('[');
        js(&p.name, o);
        let _ = write!(o, ",{},", p.kind as u8);
        match &p.ann { Some(a) => ann(a, o), None => o.push_str("null") }
        let _ = write!(o, ",{}]", p.default as u8);
    });
    o.push_str(",\"ret\":");
    match &f.ret { Some(a) => ann(a, o), None => o.push_str("null") }
    o.push_str(",\"doc\":");
    opt(&f.doc, o);
    o.push_str(",\"module\":");
    opt(&f.module, o);
    o.push_str(",\"name\":");
    opt(&f.name, o);
    let _ = write!(o, ",\"nosig\":{}}}", f.nosig as u8);
}
fn ofunc(f: &Option<Func>, o: &mut String) { match f { Some(f) => func(f, o), None => o.push_str("null") } }
fn members(v: &[(S, Member)], o: &mut String) { list(v, o, |(n, m), o| { o.push('['); js(n, o); o.push(','); member(m, o); o.push(']'); }); }
fn member(m: &Member, o: &mut String) {
    o.push('[');
    match m {
        Member::Func(f) => { o.push_str("\"func\","); func(f, o); }
        Member::Static(f) => { o.push_str("\"static\","); func(f, o); }
        Member::ClassM(f) => { o.push_str("\"classm\","); func(f, o); }
        Member::Deletable(g) => { o.push_str("\"propd\","); func(g, o); }
        Member::Prop(g, s) => { o.push_str("\"prop\","); ofunc(g, o); o.push(','); ofunc(s, o); }
        Member::Class(c) => {
            o.push_str("\"class\",{\"doc\":");
            opt(&c.doc, o);
            o.push_str(",\"module\":");
            opt(&c.module, o);
            o.push_str(",\"bases\":");
            list(&c.bases, o, |(m, n), o| { o.push('['); js(m, o); o.push(','); js(n, o); o.push(']'); });
            let _ = write!(o, ",\"base\":{}", c.base.map(|b| (b as u8).to_string()).unwrap_or(String::from("null")));
            o.push_str(",\"members\":");
            members(&c.members, o);
            let _ = write!(o, ",\"unlistable\":{}}}", c.unlistable as u8);
        }
        Member::Val(v) => match v {
            Val::Instance(m, n) => { o.push_str("\"inst\","); js(m, o); o.push(','); js(n, o); }
            _ => { let _ = write!(o, "\"val\",\"{}\"", match v { Val::Int => "7", Val::Str => "'v'", Val::Float => "1.5", Val::Bool => "True", Val::None => "None", Val::Bytes => "b''", Val::List => "[]", Val::Dict => "{}", Val::Tuple => "()", Val::Set => "set()", Val::FrozenSet => "frozenset()", Val::Complex => "1j", Val::Slice => "slice(1)", Val::Numbers => "[7]", Val::Instance(..) => "" }); }
        },
        Member::Builtin => o.push_str("\"builtin\""),
        Member::From(m, n) => { o.push_str("\"from\","); js(m, o); o.push(','); js(n, o); }
        Member::Mod(m) => { o.push_str("\"mod\","); js(m, o); }
        Member::Partial(f) => { o.push_str("\"partial\","); func(f, o); }
        Member::TypeVar(n) => { o.push_str("\"typevar\","); js(n, o); }
        Member::Ty(t) => { let _ = write!(o, "\"tyv\",{}", *t as u8); }
    }
    o.push(']');
}
fn module(m: &Mod, o: &mut String) {
    o.push_str("{\"name\":");
    js(&m.name, o);
    o.push_str(",\"doc\":");
    opt(&m.doc, o);
    o.push_str(",\"all\":");
    match &m.all { Some(v) => list(v, o, |x, o| js(x, o)), None => o.push_str("null") }
    o.push_str(",\"members\":");
    members(&m.members, o);
    let _ = write!(o, ",\"package\":{},\"prints\":{},\"raises\":{},\"source\":{},\"index\":{},\"listing\":", m.package as u8, m.prints, m.raises as u8, m.source as u8, m.index);
    match &m.listing { None => o.push_str("null"), Some(None) => o.push('0'), Some(Some(v)) => list(v, o, |x, o| js(x, o)) }
    o.push('}');
}
fn helper<'py>(py: Python<'py>) -> Bound<'py, PyModule> {
    match py.import_bound("_verif_native") { Ok(m) => m, Err(_) => PyModule::from_code_bound(py, HELPER, "_verif_native.py", "_verif_native").unwrap() }
}
pub fn install(mods: Vec<Mod>) {
    pyo3::prepare_freethreaded_python();
    let mut o = String::new();
    list(&mods, &mut o, module);
    Python::with_gil(|py| { if let Err(e) = helper(py).getattr("install").and_then(|f| f.call1((o,))) { println!("NATIVE-UNSUPPORTED {e}"); std::process::exit(3); } });
}
pub fn output() -> Vec<u8> { Python::with_gil(|py| helper(py).getattr("output").unwrap().call0().unwrap().extract::<String>().unwrap().into_bytes()) }
pub fn streams_restored() -> bool { Python::with_gil(|py| helper(py).getattr("restored").unwrap().call0().unwrap().extract().unwrap()) }
pub fn cleanup() { Python::with_gil(|py| { let _ = helper(py).getattr("cleanup").and_then(|f| f.call0()); }); }
