//! Output of the Python code while it is parsed.
use super::*;

fn leaked(stdout: bool, stderr: bool, printed: u8) {
    let o = output();
    let (a, c) = (o.contains(&b'1'), o.contains(&b'2'));
    check(!(stdout && a), "suppressed output reaches stdout");
    check(!(stderr && c), "suppressed output reaches stderr");
    check(stdout || printed & 1 == 0 || a, "output to stdout is lost although it is not suppressed");
    check(stderr || printed & 2 == 0 || c, "output to stderr is lost although it is not suppressed");
    check(streams_restored(), "sys.stdout or sys.stderr is not restored");
}
fn cfg(stdout: bool, stderr: bool) -> Config { Config::builder().suppress_python_stdout(stdout).suppress_python_stderr(stderr).build() }
/// a package and its submodule print, or raise, while they are imported
pub fn imports() {
    let (so, se) = (flag(), flag());
    let raises = pick(3);
    let (p, q) = (pick(4), pick(2) * 3);
    let sub = |n: &str, q, r| Mod { prints: q, raises: r, ..module(n, vec![(b("g"), func(vec![]))]) };
    install(vec![sub("va.b", q, raises == 2), sub("va.c", 0, false)]);
    install(vec![Mod { package: true, prints: p, raises: raises == 1, ..module("va", vec![(b("f"), func(vec![]))]) }]);
    match stream(cfg(so, se), &["va"]) {
        Ok(t) => {
            check(raises != 1, "no error is reported although the module cannot be imported");
            note_stream(&t);
            let v = parse(t);
            let m = get_mod(&v, "va");
            get_fn(&m.items, "f");
            get_fn(&get_mod(&v, "va.c").items, "g");
            check((find_mod(&v, "va.b").is_some()) == (raises != 2), "a submodule is missing, or bound although it cannot be imported");
            leaked(so, se, p | q);
            reach(1);
        }
        Err(_) => { check(raises == 1, "the engine reports an error for an ordinary module"); leaked(so, se, p); reach(2); }
    }
}
/// the same for source code
pub fn sources() {
    let (so, se) = (flag(), flag());
    let raises = flag();
    let p = pick(4);
    install(vec![Mod { source: true, prints: p, raises, ..module("vm", vec![(b("f"), func(vec![]))]) }]);
    let mut s = String::from("def f(): pass\n");
    if p & 1 != 0 { s.push_str("print('out')\n"); }
    if p & 2 != 0 { s.push_str("__import__('sys').stderr.write('err')\n"); }
    if raises { s.push_str("raise RuntimeError('boom')\n"); }
    let r = match Codegen::new(cfg(so, se)).module_from_str(&s, "vm") { Ok(c) => c.generate(), Err(e) => Err(e) };
    match r {
        Ok(t) => { check(!raises, "no error is reported although the source code raises"); note_stream(&t); get_fn(&get_mod(&parse(t), "vm").items, "f"); reach(1); }
        Err(_) => { check(raises, "the engine reports an error for an ordinary module"); reach(2); }
    }
    leaked(so, se, p);
}
/// a module that does not exist, before or after one that does
pub fn missing() {
    let (so, se) = (flag(), flag());
    let n = one_of(&["vx", "va.x", "vx.y", "va.f"]);
    let first = flag();
    install(vec![Mod { package: true, prints: 3, ..module("va", vec![(b("f"), func(vec![]))]) }]);
    let l = if first { [n, "va"] } else { ["va", n] };
    check(stream(cfg(so, se), &l).is_err(), "no error is reported although a module does not exist");
    leaked(so, se, if first && !n.starts_with("va") { 0 } else { 3 });
    reach(1);
}
