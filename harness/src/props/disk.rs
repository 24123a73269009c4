//! Bindings written to a file.
use super::*;
use crate::disk::{self, O, W};

fn opens(n: usize) -> Vec<O> { (0..n).map(|_| [O::Fine, O::Interrupted, O::Missing, O::Denied][pick(4) as usize]).collect() }
/// Outcomes up to the first that cannot be recovered from.
fn writes(n: usize) -> Vec<W> {
    let mut v = vec![];
    for _ in 0..n {
        let w = [W::Full, W::Half, W::One, W::Interrupted, W::Zero, W::Broken][pick(6) as usize];
        v.push(w);
        if matches!(w, W::Zero | W::Broken) { break; }
    }
    v
}
fn before() -> Option<Vec<u8>> { match pick(3) { 0 => None, 1 => Some(b("old")), _ => Some(vec![b'x'; 60000]) } }
fn write(no: usize, nw: usize) {
    install(vec![Mod { package: true, ..module("va", vec![(b("f"), func(vec![param(b("x"), Kind::PosOrKw)]))]) }]);
    let want = match stream(Config::default(), &["va"]) { Ok(t) => t.to_string(), Err(_) => fail("the engine reports an error for an ordinary module") };
    let old = before();
    let (o, w) = (opens(no), writes(nw));
    disk::insert(old.clone(), o, w);
    let c = match Codegen::new(Config::default()).module_name("va") { Ok(c) => c, Err(_) => fail("the engine reports an error for an ordinary module") };
    let r = c.build(disk::PATH);
    let f = disk::file();
    match r {
        Ok(()) => { check(f.as_deref() == Some(want.as_bytes()), "build reports success but the file does not contain the bindings"); reach(1); }
        Err(_) => { check(disk::failed(), "build reports an error although the file can be written"); reach(2); }
    }
    if disk::opened() == 0 { check(f == old, "harness: the file changed"); reach(3); }
}
/// every combination of failures of the first calls of `open` and `write`
pub fn faults() { write(1, 2) }
pub fn faults_deep() { write(2, 4) }
/// bindings that cannot be generated leave the file as it was
pub fn refused() {
    let old = before();
    disk::insert(old.clone(), vec![], vec![]);
    let c = if flag() {
        Codegen::new(Config::default())
    } else {
        install(vec![Mod { package: true, ..module("va", vec![(b("C"), Member::Class(Class { unlistable: true, ..Default::default() }))]) }]);
        match Codegen::new(Config::default()).module_name("va") { Ok(c) => c, Err(_) => { reach(2); return; } }
    };
    check(c.build(disk::PATH).is_err(), "build reports success although no bindings can be generated");
    check(disk::file() == old, "the file changed although no bindings can be generated");
    reach(1);
}
