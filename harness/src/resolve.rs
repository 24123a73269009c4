//! Names in the generated code: what a path means, and whether everything that is named exists once.
use crate::oracle::*;

/// Where a path leads: modules on the way and the item's name.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct At { pub module: Vec<String>, pub name: String, pub what: What }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What { Mod, Fn, Struct, Trait, Type }
impl At { pub fn dotted(&self) -> String { let mut v: Vec<&str> = self.module.iter().map(|x| &x[..]).collect(); v.push(&self.name); v.join(".") } }

fn content<'a>(root: &'a [Item], at: &[String]) -> Option<&'a [Item]> {
    let mut cur = root;
    for s in at { cur = &mods(cur).into_iter().find(|m| unraw(&m.name) == s)?.items; }
    Some(cur)
}
/// All items that a name means in a module.
fn named(root: &[Item], at: &[String], name: &str, depth: u8) -> Vec<At> {
    let Some(v) = content(root, at) else { return vec![] };
    let mut o = vec![];
    for i in v {
        let (n, what) = match i {
            Item::Mod(m) => (&m.name, What::Mod), Item::Fn(m) => (&m.name, What::Fn), Item::Struct(m) => (&m.name, What::Struct), Item::Trait(m) => (&m.name, What::Trait), Item::Type(m) => (&m.name, What::Type),
            Item::Use(u) => {
                for (n, a) in &u.names { if unraw(a) == name && depth > 0 { let mut p = u.path.clone(); p.push(n.clone()); for x in resolve(root, at, &p, depth - 1) { if !o.contains(&x) { o.push(x); } } } }
                continue;
            }
            _ => continue,
        };
        if unraw(n) == name { o.push(At { module: at.to_vec(), name: String::from(name), what }); }
    }
    o
}
/// What the path means in module `at`.
pub fn resolve(root: &[Item], at: &[String], path: &[String], depth: u8) -> Vec<At> {
    let mut cur: Vec<String> = at.to_vec();
    let mut i = 0;
    while i < path.len() && (path[i] == "self" || path[i] == "super") {
        if path[i] == "super" && cur.pop().is_none() { return vec![]; }
        i += 1;
    }
    if i == path.len() { return match cur.pop() { Some(n) => vec![At { module: cur, name: n, what: What::Mod }], None => vec![] }; }
    loop {
        let found = named(root, &cur, unraw(&path[i]), depth);
        i += 1;
        if i == path.len() { return found; }
        let Some(m) = found.into_iter().find(|x| x.what == What::Mod) else { return vec![] };
        cur = m.module;
        cur.push(m.name);
    }
}
pub fn segs(p: &str) -> Vec<String> { p.split("::").map(String::from).collect() }
/// Class behind `Bound<'py, PATH>`: its full Python path.
pub fn class_of(root: &[Item], module: &str, ty: &str) -> Option<String> {
    let p = ty.strip_prefix("pyo3::Bound<'py,")?.strip_suffix('>')?;
    let at: Vec<String> = module.split('.').map(String::from).collect();
    let r = resolve(root, &at, &segs(p), 8);
    if r.len() == 1 && r[0].what == What::Struct { Some(r[0].dotted()) } else { None }
}
/// Paths of classes inside a type.
fn paths(ty: &str, o: &mut Vec<String>) {
    let mut rest = ty;
    while let Some(i) = rest.find("Bound<'") {
        rest = &rest[i + 7..];
        let Some(c) = rest.find(',') else { return };
        let Some(e) = rest[c..].find('>') else { return };
        o.push(String::from(rest[c + 1..c + e].trim()));
        rest = &rest[c..];
    }
}
/// Everything that is defined has a name of its own, everything that is named exists.
pub fn well_formed(root: &[Item]) { wf(root, root, &mut vec![]) }
fn wf(root: &[Item], v: &[Item], at: &mut Vec<String>) {
    let (mut types, mut values): (Vec<&str>, Vec<&str>) = (vec![], vec![]);
    let mut sigs: Vec<&FnI> = vec![];
    let mut impls: Vec<(&str, &str)> = vec![];
    for i in v {
        match i {
            Item::Mod(m) => { types.push(unraw(&m.name)); check(m.public, "a module is not public"); at.push(String::from(unraw(&m.name))); wf(root, &m.items, at); at.pop(); }
            Item::Fn(f) => { values.push(unraw(&f.name)); check(f.public && f.recv.is_none() && f.body.is_some(), "a function of a module is not public, has a receiver, or no body"); sigs.push(f); }
            // (tuple structs have a constructor)
            Item::Struct(s) => { types.push(unraw(&s.name)); values.push(unraw(&s.name)); check(s.public, "a struct is not public"); native_type(v, s, at); }
            Item::Trait(t) => { types.push(unraw(&t.name)); check(t.public, "a trait is not public"); fns_once(&t.items); for f in fns(&t.items) { check(f.body.is_none() && !f.public, "a trait declares a public function, or one with a body"); sigs.push(f); } }
            Item::Type(t) => { types.push(unraw(&t.name)); check(t.public && (t.ty == "pyo3::types::PyAny" || t.ty == "pyo3::PyAny"), "a type variable is not public, or no arbitrary object"); }
            Item::Impl(m) => {
                let of = m.of.as_deref().unwrap_or("");
                check(!impls.contains(&(of, &m.ty)), "an implementation appears twice");
                impls.push((of, &m.ty));
                let ty = m.ty.strip_prefix("pyo3::Bound<'_,").and_then(|x| x.strip_suffix('>')).unwrap_or(&m.ty);
                check(resolve(root, at, &segs(ty), 8).iter().any(|x| x.what == What::Struct), "an implementation for a type that does not exist");
                fns_once(&m.items);
                if !of.is_empty() {
                    let tr = v.iter().find_map(|i| if let Item::Trait(t) = i { if t.name == of { Some(t) } else { None } } else { None });
                    let Some(tr) = tr else { fail("a trait that does not exist is implemented") };
                    let (a, b) = (fns(&tr.items), fns(&m.items));
                    check(a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| x.name == y.name && x.recv == y.recv && x.params == y.params && x.ret == y.ret)), "the implementation of a trait differs from its declaration");
                }
                for f in fns(&m.items) { check(f.body.is_some() && f.public == of.is_empty(), "a function of an implementation is not (or wrongly) public, or has no body"); sigs.push(f); }
            }
            Item::Use(u) => {
                check(u.public, "a re-export is not public");
                for (n, a) in &u.names {
                    let mut p = u.path.clone();
                    p.push(n.clone());
                    let r = resolve(root, at, &p, 8);
                    if r.is_empty() { crate::props::note(&p.join("::")); fail("a re-export of something that does not exist"); }
                    // (a name may mean a type and a function)
                    if r.iter().any(|x| x.what != What::Fn) { types.push(unraw(a)); }
                    if r.iter().any(|x| matches!(x.what, What::Fn | What::Struct)) { values.push(unraw(a)); }
                }
            }
            Item::Macro(n, a) => { if n.starts_with("pyo3::pyobject_native_type") { let c = a.split(',').next().unwrap_or(""); check(v.iter().any(|i| matches!(i, Item::Struct(s) if s.name == c)), "the traits of a native type are implemented for a type that does not exist"); } }
            Item::Const(..) => {}
        }
    }
    for l in [&types, &values] { for (i, x) in l.iter().enumerate() { if l[..i].contains(x) { crate::props::note(x); fail("a name is defined twice"); } } }
    for f in sigs {
        let py = f.ret.contains("'py") || f.recv.as_ref().is_some_and(|x| x.contains("'py")) || f.params.iter().any(|p| p.1.contains("'py"));
        check(f.generics.contains("'py") || !py, "a lifetime is not declared");
        for (i, p) in f.params.iter().enumerate() { check(!f.params[..i].iter().any(|q| unraw(&q.0) == unraw(&p.0)), "two parameters have the same name"); }
        let mut ps = vec![];
        for p in &f.params { paths(&p.1, &mut ps); }
        paths(&f.ret, &mut ps);
        for p in ps {
            if p.starts_with("pyo3::") || p == "Self" { continue; }
            if !resolve(root, at, &segs(&p), 8).iter().any(|x| matches!(x.what, What::Struct | What::Type)) { crate::props::note(&p); fail("a type that does not exist is named"); }
        }
    }
}
/// The struct of a class is a Python object that pyo3 knows under the path of the class.
fn native_type(v: &[Item], s: &StructI, at: &[String]) {
    check(s.rest == "(pyo3::PyAny)" && s.attrs.iter().any(|a| a == "repr(transparent)"), "the struct of a class is no Python object");
    let (mut named, mut info) = (0, 0);
    for i in v {
        let Item::Macro(n, a) = i else { continue };
        if n == "pyo3::pyobject_native_type_named" && *a == s.name { named += 1; }
        if n == "pyo3::pyobject_native_type_info" {
            let Some(a) = a.strip_prefix(&s.name[..]).and_then(|a| a.strip_prefix(',')) else { continue };
            info += 1;
            let p = a.strip_prefix("pyo3::pyobject_native_static_type_object!(pyo3::ffi::PyBaseObject_Type),").and_then(|a| a.strip_suffix("\")")).and_then(|a| a.split_once("Some(\"")).map_or("", |x| x.1);
            let mut m = at.join(".");
            m.push('.');
            let Some(c) = p.strip_prefix(&m[..]) else { crate::props::note(a); fail("the struct of a class has the path of something else") };
            check(c.trim() == unraw(&s.name) || s.name.starts_with("s_"), "the struct of a class has the path of something else");
        }
    }
    check(named == 1 && info == 1, "a struct does not implement the traits of a native type");
}
fn fns_once(v: &[Item]) {
    let f = fns(v);
    for (i, x) in f.iter().enumerate() { if f[..i].iter().any(|y| unraw(&y.name) == unraw(&x.name)) { crate::props::note(&x.name); fail("a function is defined twice"); } }
}
