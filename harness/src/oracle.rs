//! Independent reading of the generated Rust code: a small parser for the item tree and an abstract
//! evaluator that tells which Python operation a generated function body performs.
use proc_macro2::{Delimiter, TokenStream, TokenTree};

#[derive(Clone, Debug, Default)]
pub struct ModI { pub name: String, pub public: bool, pub docs: Vec<String>, pub items: Vec<Item> }
#[derive(Clone, Debug)]
pub enum Item { Mod(ModI), Fn(FnI), Struct(StructI), Trait(TraitI), Impl(ImplI), Use(UseI), Type(TypeI), Macro(String, String), Const(String) }
#[derive(Clone, Debug)]
pub struct FnI { pub name: String, pub public: bool, pub generics: String, pub docs: Vec<String>, pub recv: Option<String>, pub params: Vec<(String, String)>, pub ret: String, pub body: Option<Vec<TokenTree>> }
#[derive(Clone, Debug)]
pub struct StructI { pub name: String, pub public: bool, pub docs: Vec<String>, pub rest: String, pub attrs: Vec<String> }
#[derive(Clone, Debug)]
pub struct TraitI { pub name: String, pub public: bool, pub items: Vec<Item> }
#[derive(Clone, Debug)]
pub struct ImplI { pub of: Option<String>, pub ty: String, pub items: Vec<Item> }
#[derive(Clone, Debug)]
pub struct UseI { pub public: bool, pub path: Vec<String>, pub names: Vec<(String, String)> }
#[derive(Clone, Debug)]
pub struct TypeI { pub name: String, pub public: bool, pub ty: String }

/// The generated code does not have a property.
#[inline(never)]
pub fn fail(what: &str) -> ! { panic!("PROPERTY: {what}") }
pub fn check(ok: bool, what: &str) { if !ok { fail(what) } }

fn is_p(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }
fn is_i(t: Option<&TokenTree>, s: &str) -> bool { matches!(t, Some(TokenTree::Ident(i)) if *i == s) }
fn group(t: Option<&TokenTree>, d: Delimiter) -> Option<Vec<TokenTree>> {
    match t { Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g.stream().into_iter().collect()), _ => None }
}
fn ident(t: Option<&TokenTree>) -> String { match t { Some(TokenTree::Ident(i)) => i.to_string(), _ => fail("generated code: identifier expected") } }
/// Tokens as text: blanks only between words.
pub fn text(ts: &[TokenTree]) -> String {
    let mut s = String::new();
    txt(ts, &mut s, &mut false);
    s
}
fn txt(ts: &[TokenTree], s: &mut String, word: &mut bool) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => { if *word { s.push(' '); } s.push_str(&i.to_string()); *word = true; }
            TokenTree::Literal(i) => { if *word { s.push(' '); } s.push_str(&i.to_string()); *word = true; }
            TokenTree::Punct(p) => { if *word && p.as_char() == '\'' { s.push(' '); } s.push(p.as_char()); *word = false; }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                s.push_str(a);
                *word = false;
                let v: Vec<TokenTree> = g.stream().into_iter().collect();
                txt(&v, s, word);
                s.push_str(b);
                *word = false;
            }
        }
    }
}
/// Type text in a canonical form: no leading `::`, no trailing commas.
pub fn ty_text(ts: &[TokenTree]) -> String {
    let s = text(ts);
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let prev_path = match o.last() { None => false, Some(c) => !matches!(*c, b'<' | b'(' | b'[' | b',' | b'&' | b' ' | b'=' | b'>') };
        if b[i] == b':' && i + 1 < b.len() && b[i + 1] == b':' && !prev_path { i += 2; continue; }
        if b[i] == b',' && i + 1 < b.len() && b[i + 1] == b'>' { i += 1; continue; }
        o.push(b[i]);
        i += 1;
    }
    let s = String::from_utf8(o).unwrap_or_default();
    let s = s.replace("impl::", "impl ").replace("dyn::", "dyn ").replace("std::vec::Vec<", "Vec<").replace("std::string::String", "String").replace("std::option::Option<", "Option<").replace("std::result::Result<", "Result<");
    s
}
pub fn unquote(l: &str) -> String {
    let b = l.as_bytes();
    if b.len() < 2 || b[0] != b'"' { return String::from(l); }
    let mut o: Vec<u8> = Vec::with_capacity(b.len());
    let e = b.len() - 1;
    let mut i = 1;
    while i < e {
        if b[i] == b'\\' {
            i += 1;
            match b[i] {
                b'n' => o.push(b'\n'), b't' => o.push(b'\t'), b'r' => o.push(b'\r'), b'0' => o.push(0),
                b'x' => { o.push(hex(&b[i + 1..i + 3]) as u8); i += 2; }
                b'u' => {
                    let mut j = i + 2;
                    while b[j] != b'}' { j += 1; }
                    let c = char::from_u32(hex(&b[i + 2..j])).unwrap_or('?');
                    let mut t = [0; 4];
                    o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                    i = j;
                }
                c => o.push(c),
            }
            i += 1;
        } else { o.push(b[i]); i += 1; }
    }
    String::from_utf8(o).unwrap_or_default()
}
fn hex(b: &[u8]) -> u32 { let mut r = 0; for c in b { r = r * 16 + match *c { c @ b'0'..=b'9' => c - b'0', c @ b'a'..=b'f' => c - b'a' + 10, c @ b'A'..=b'F' => c - b'A' + 10, _ => 0 } as u32; } r }

/// Name without the raw-identifier prefix.
pub fn unraw(s: &str) -> &str { s.strip_prefix("r#").unwrap_or(s) }

pub fn parse(ts: TokenStream) -> Vec<Item> { let v: Vec<TokenTree> = ts.into_iter().collect(); items(&v) }
fn items(v: &[TokenTree]) -> Vec<Item> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let (mut docs, mut attrs) = (vec![], vec![]);
        while is_p(v.get(i), '#') {
            let g = group(v.get(i + 1), Delimiter::Bracket).unwrap_or_else(|| fail("generated code: attribute"));
            if is_i(g.first(), "doc") && is_p(g.get(1), '=') { docs.push(unquote(&g[2].to_string())); } else { attrs.push(text(&g)); }
            i += 2;
        }
        let mut public = false;
        if is_i(v.get(i), "pub") { public = true; i += 1; }
        match v.get(i) {
            None => fail("generated code: attributes without an item"),
            Some(TokenTree::Ident(k)) if *k == "mod" => {
                let g = group(v.get(i + 2), Delimiter::Brace).unwrap_or_else(|| fail("generated code: module body"));
                out.push(Item::Mod(ModI { name: ident(v.get(i + 1)), public, docs, items: items(&g) }));
                i += 3;
            }
            Some(TokenTree::Ident(k)) if *k == "fn" => { let (f, j) = func(v, i, public, docs); out.push(Item::Fn(f)); i = j; }
            Some(TokenTree::Ident(k)) if *k == "struct" => {
                let name = ident(v.get(i + 1));
                let st = i + 2;
                while i < v.len() && !is_p(v.get(i), ';') { i += 1; }
                out.push(Item::Struct(StructI { name, public, docs, rest: ty_text(&v[st..i]), attrs }));
                i += 1;
            }
            Some(TokenTree::Ident(k)) if *k == "trait" => {
                let g = group(v.get(i + 2), Delimiter::Brace).unwrap_or_else(|| fail("generated code: trait body"));
                out.push(Item::Trait(TraitI { name: ident(v.get(i + 1)), public, items: items(&g) }));
                i += 3;
            }
            Some(TokenTree::Ident(k)) if *k == "impl" => {
                let st = i + 1;
                while i < v.len() && group(v.get(i), Delimiter::Brace).is_none() { i += 1; }
                let h = &v[st..i];
                let f = h.iter().position(|t| is_i(Some(t), "for"));
                let (of, ty) = match f { Some(f) => (Some(ty_text(&h[..f])), ty_text(&h[f + 1..])), None => (None, ty_text(h)) };
                let g = group(v.get(i), Delimiter::Brace).unwrap_or_else(|| fail("generated code: impl body"));
                out.push(Item::Impl(ImplI { of, ty, items: items(&g) }));
                i += 1;
            }
            Some(TokenTree::Ident(k)) if *k == "use" => {
                i += 1;
                let mut path = vec![];
                let mut names = vec![];
                loop {
                    if let Some(g) = group(v.get(i), Delimiter::Brace) {
                        let mut j = 0;
                        while j < g.len() { let (n, a, k) = use_name(&g, j); names.push((n, a)); j = k; if is_p(g.get(j), ',') { j += 1; } }
                        i += 1;
                        break;
                    }
                    if is_p(v.get(i), ':') { i += 1; continue; }
                    if is_p(v.get(i + 1), ':') { path.push(ident(v.get(i))); i += 1; continue; }
                    let (n, a, k) = use_name(v, i);
                    names.push((n, a));
                    i = k;
                    break;
                }
                check(is_p(v.get(i), ';'), "generated code: use without ;");
                i += 1;
                out.push(Item::Use(UseI { public, path, names }));
            }
            Some(TokenTree::Ident(k)) if *k == "type" => {
                let name = ident(v.get(i + 1));
                let st = i + 3;
                while i < v.len() && !is_p(v.get(i), ';') { i += 1; }
                out.push(Item::Type(TypeI { name, public, ty: ty_text(&v[st..i]) }));
                i += 1;
            }
            Some(TokenTree::Ident(k)) if *k == "const" => {
                let st = i;
                while i < v.len() && !is_p(v.get(i), ';') { i += 1; }
                out.push(Item::Const(text(&v[st..i])));
                i += 1;
            }
            _ => {
                // macro invocation
                let st = i;
                while i < v.len() && !is_p(v.get(i), '!') { if !(is_p(v.get(i), ':') || matches!(v.get(i), Some(TokenTree::Ident(_)))) { fail("generated code: unexpected token between items"); } i += 1; }
                let name = ty_text(&v[st..i]);
                let args = match v.get(i + 1) { Some(TokenTree::Group(g)) => { let w: Vec<TokenTree> = g.stream().into_iter().collect(); ty_text(&w) } _ => fail("generated code: unexpected tokens between items") };
                out.push(Item::Macro(name, args));
                i += 2;
                if is_p(v.get(i), ';') { i += 1; }
            }
        }
    }
    out
}
fn use_name(v: &[TokenTree], i: usize) -> (String, String, usize) {
    let n = ident(v.get(i));
    if is_i(v.get(i + 1), "as") { let a = ident(v.get(i + 2)); (n, a, i + 3) } else { (n.clone(), n, i + 1) }
}
fn split_commas(g: &[TokenTree]) -> Vec<Vec<TokenTree>> {
    let mut out = vec![];
    let mut cur = vec![];
    let mut depth = 0i32;
    let mut prev_dash = false;
    for t in g {
        if let TokenTree::Punct(p) = t {
            match p.as_char() { '<' => depth += 1, '>' if !prev_dash => depth -= 1, ',' if depth == 0 => { out.push(std::mem::take(&mut cur)); prev_dash = false; continue; } _ => {} }
            prev_dash = p.as_char() == '-';
        } else { prev_dash = false; }
        cur.push(t.clone());
    }
    if !cur.is_empty() { out.push(cur); }
    out
}
fn func(v: &[TokenTree], mut i: usize, public: bool, docs: Vec<String>) -> (FnI, usize) {
    let name = ident(v.get(i + 1));
    i += 2;
    let st = i;
    while group(v.get(i), Delimiter::Parenthesis).is_none() { i += 1; if i >= v.len() { fail("generated code: parameter list expected"); } }
    let generics = ty_text(&v[st..i]);
    let g = group(v.get(i), Delimiter::Parenthesis).unwrap();
    i += 1;
    let (mut recv, mut params) = (None, vec![]);
    for p in split_commas(&g) {
        if params.is_empty() && recv.is_none() && is_i(p.last(), "self") { recv = Some(ty_text(&p)); continue; }
        check(is_p(p.get(1), ':'), "generated code: parameter without a type");
        params.push((ident(p.first()), ty_text(&p[2..])));
    }
    let mut ret = String::new();
    let st = i;
    while i < v.len() && !is_p(v.get(i), ';') && group(v.get(i), Delimiter::Brace).is_none() { i += 1; }
    if i > st + 2 { ret = ty_text(&v[st + 2..i]); }
    let body = group(v.get(i), Delimiter::Brace);
    (FnI { name, public, generics, docs, recv, params, ret, body }, i + 1)
}

// ------------------------------------------------------------------ looking things up
pub fn mods(v: &[Item]) -> Vec<&ModI> { v.iter().filter_map(|i| if let Item::Mod(m) = i { Some(m) } else { None }).collect() }
pub fn fns(v: &[Item]) -> Vec<&FnI> { v.iter().filter_map(|i| if let Item::Fn(m) = i { Some(m) } else { None }).collect() }
pub fn structs(v: &[Item]) -> Vec<&StructI> { v.iter().filter_map(|i| if let Item::Struct(m) = i { Some(m) } else { None }).collect() }
pub fn traits(v: &[Item]) -> Vec<&TraitI> { v.iter().filter_map(|i| if let Item::Trait(m) = i { Some(m) } else { None }).collect() }
pub fn impls(v: &[Item]) -> Vec<&ImplI> { v.iter().filter_map(|i| if let Item::Impl(m) = i { Some(m) } else { None }).collect() }
pub fn uses(v: &[Item]) -> Vec<&UseI> { v.iter().filter_map(|i| if let Item::Use(m) = i { Some(m) } else { None }).collect() }
pub fn types(v: &[Item]) -> Vec<&TypeI> { v.iter().filter_map(|i| if let Item::Type(m) = i { Some(m) } else { None }).collect() }
/// The only module `a.b.c`.
pub fn find_mod<'a>(v: &'a [Item], path: &str) -> Option<&'a ModI> {
    let mut cur = v;
    let mut r = None;
    for seg in path.split('.') {
        let c: Vec<&ModI> = mods(cur).into_iter().filter(|m| unraw(&m.name) == seg).collect();
        if c.len() > 1 { fail("generated code: a module is defined twice"); }
        let m = *c.first()?;
        cur = &m.items;
        r = Some(m);
    }
    r
}
pub fn get_mod<'a>(v: &'a [Item], path: &str) -> &'a ModI { find_mod(v, path).unwrap_or_else(|| fail("a module has no binding")) }
/// The only function of this name.
pub fn find_fn<'a>(v: &'a [Item], name: &str) -> Option<&'a FnI> {
    let mut r = None;
    for f in fns(v) { if unraw(&f.name) == name { if r.is_some() { fail("generated code: a function is defined twice"); } r = Some(f); } }
    r
}
pub fn get_fn<'a>(v: &'a [Item], name: &str) -> &'a FnI { find_fn(v, name).unwrap_or_else(|| fail("a function has no binding")) }
pub struct ClassV<'a> { pub st: &'a StructI, pub own: &'a [Item], pub tr: &'a [Item], pub tri: &'a [Item], pub trait_public: bool }
/// Everything generated for one class.
pub fn find_class<'a>(v: &'a [Item], name: &str) -> Option<ClassV<'a>> {
    let mut st = None;
    for s in structs(v) { if unraw(&s.name) == name { if st.is_some() { fail("generated code: a struct is defined twice"); } st = Some(s); } }
    let st = st?;
    let (mut own, mut tri): (Option<&[Item]>, Option<&[Item]>) = (None, None);
    let mut tr: Option<&TraitI> = None;
    let bound = format!("pyo3::Bound<'_,{}>", st.name);
    for i in impls(v) {
        match &i.of {
            None => if unraw(&i.ty) == name { own = Some(&i.items); },
            Some(n) => if i.ty == bound {
                check(tri.is_none(), "two traits of methods are implemented for a class");
                tri = Some(&i.items);
                for t in traits(v) { if t.name == *n { tr = Some(t); } }
            },
        }
    }
    let Some(tr) = tr else { fail("a class has no trait of methods") };
    let Some(tri) = tri else { fail("the trait of methods is not implemented") };
    Some(ClassV { st, own: own.unwrap_or(&[]), tr: &tr.items, tri, trait_public: tr.public })
}
pub fn get_class<'a>(v: &'a [Item], name: &str) -> ClassV<'a> { find_class(v, name).unwrap_or_else(|| fail("a class has no binding")) }

// ------------------------------------------------------------------ expressions
#[derive(Clone, Debug)]
enum Ex {
    Var(String),
    Path(String),
    Str(String),
    Call(Box<Ex>, Vec<Ex>),
    Method(Box<Ex>, String, Vec<Ex>),
    Macro(String, Vec<Ex>),
    Wrap(Box<Ex>),
    Seq(Vec<Ex>),
    Block(Vec<St>),
    IfLet(String, Box<Ex>, Box<Ex>, Box<Ex>),
    Closure(String, Box<Ex>),
    Num,
}
#[derive(Clone, Debug)]
enum St { Let(String, Ex), Do(Ex), Ret(Ex), Item }
struct Px<'a> { t: &'a [TokenTree], i: usize }
impl Px<'_> {
    fn p(&self, c: char) -> bool { is_p(self.t.get(self.i), c) }
    fn kw(&self, c: &str) -> bool { is_i(self.t.get(self.i), c) }
    fn block(v: &[TokenTree]) -> Vec<St> {
        let mut x = Px { t: v, i: 0 };
        let mut out = vec![];
        while x.i < v.len() {
            if x.p(';') { x.i += 1; continue; }
            if x.kw("let") {
                x.i += 1;
                if x.kw("mut") { x.i += 1; }
                let n = ident(v.get(x.i));
                x.i += 1;
                if x.p(':') { while !x.p('=') { x.i += 1; } }
                check(x.p('='), "generated code: let without a value");
                x.i += 1;
                let e = x.expr();
                check(x.p(';'), "generated code: let without ;");
                x.i += 1;
                out.push(St::Let(n, e));
            } else if x.kw("const") {
                while x.i < v.len() && !x.p(';') { x.i += 1; }
                out.push(St::Item);
            } else {
                let e = x.expr();
                if x.p(';') { x.i += 1; out.push(St::Do(e)); }
                else if x.i >= v.len() { out.push(St::Ret(e)); }
                else if matches!(e, Ex::IfLet(..) | Ex::Block(..)) { out.push(St::Do(e)); }
                else { fail("generated code: statement without ;"); }
            }
        }
        out
    }
    fn args(v: &[TokenTree]) -> Vec<Ex> {
        let mut x = Px { t: v, i: 0 };
        let mut out = vec![];
        while x.i < v.len() { out.push(x.expr()); if x.i < v.len() { check(x.p(','), "generated code: arguments not separated by commas"); x.i += 1; } }
        out
    }
    fn expr(&mut self) -> Ex {
        let mut e = self.primary();
        loop {
            if self.p('?') { self.i += 1; e = Ex::Wrap(Box::new(e)); continue; }
            if self.p('+') { self.i += 1; let _ = self.expr(); return Ex::Num; }
            if self.p('.') {
                let n = ident(self.t.get(self.i + 1));
                self.i += 2;
                if self.p(':') { self.i += 2; self.generics(); }
                let g = group(self.t.get(self.i), Delimiter::Parenthesis).unwrap_or_else(|| fail("generated code: field access"));
                self.i += 1;
                e = Ex::Method(Box::new(e), n, Px::args(&g));
                continue;
            }
            if let Some(g) = group(self.t.get(self.i), Delimiter::Parenthesis) {
                if matches!(e, Ex::Path(_) | Ex::Var(_)) { self.i += 1; e = Ex::Call(Box::new(e), Px::args(&g)); continue; }
            }
            return e;
        }
    }
    fn generics(&mut self) {
        let mut d = 0;
        loop {
            if self.p('<') { d += 1; }
            if self.p('>') { d -= 1; }
            self.i += 1;
            if d == 0 { return; }
            if self.i > self.t.len() { fail("generated code: unbalanced <>"); }
        }
    }
    fn primary(&mut self) -> Ex {
        let t = self.t;
        if self.p('&') { self.i += 1; if self.kw("mut") { self.i += 1; } let e = self.expr(); return Ex::Wrap(Box::new(e)); }
        if self.p('|') {
            let n = ident(t.get(self.i + 1));
            check(is_p(t.get(self.i + 2), '|'), "generated code: closure");
            self.i += 3;
            let e = self.expr();
            return Ex::Closure(n, Box::new(e));
        }
        match t.get(self.i) {
            Some(TokenTree::Literal(l)) => { self.i += 1; let s = l.to_string(); if s.starts_with('"') { Ex::Str(unquote(&s)) } else { Ex::Num } }
            Some(TokenTree::Group(g)) => {
                self.i += 1;
                let v: Vec<TokenTree> = g.stream().into_iter().collect();
                match g.delimiter() {
                    Delimiter::Brace => Ex::Block(Px::block(&v)),
                    Delimiter::Parenthesis | Delimiter::Bracket => Ex::Seq(Px::args(&v)),
                    Delimiter::None => { let mut x = Px { t: &v, i: 0 }; let e = x.expr(); check(x.i == v.len(), "generated code: group"); e }
                }
            }
            Some(TokenTree::Ident(k)) if *k == "if" => {
                check(is_i(t.get(self.i + 1), "let") && is_i(t.get(self.i + 2), "Some"), "generated code: if");
                let n = group(t.get(self.i + 3), Delimiter::Parenthesis).unwrap_or_else(|| fail("generated code: if let"));
                let n = ident(n.first());
                self.i += 5;
                let c = self.expr();
                let a = group(t.get(self.i), Delimiter::Brace).unwrap_or_else(|| fail("generated code: if let"));
                check(is_i(t.get(self.i + 1), "else"), "generated code: if let without else");
                let b = group(t.get(self.i + 2), Delimiter::Brace).unwrap_or_else(|| fail("generated code: else"));
                self.i += 3;
                Ex::IfLet(n, Box::new(c), Box::new(Ex::Block(Px::block(&a))), Box::new(Ex::Block(Px::block(&b))))
            }
            _ => {
                // path
                let mut segs: Vec<String> = vec![];
                let lead = self.p(':');
                if lead { self.i += 2; }
                loop {
                    if self.p('<') { self.generics(); } else { segs.push(ident(t.get(self.i))); self.i += 1; }
                    if self.p(':') && is_p(t.get(self.i + 1), ':') { self.i += 2; } else { break; }
                }
                if self.p('!') {
                    let g = match t.get(self.i + 1) { Some(TokenTree::Group(g)) => g.stream().into_iter().collect::<Vec<_>>(), _ => fail("generated code: macro") };
                    self.i += 2;
                    return Ex::Macro(segs.pop().unwrap_or_default(), Px::args(&g));
                }
                if segs.len() == 1 && !lead { return Ex::Var(segs.pop().unwrap_or_default()); }
                let n = segs.len();
                if n < 2 { fail("generated code: path"); }
                Ex::Path(format!("{}::{}", segs[n - 2], segs[n - 1]))
            }
        }
    }
}

/// What a value is, seen from Python.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Py,
    This,
    /// parameter, converted by `IntoPy::<Py<PyAny>>`-like conversion to the named kind (empty: as is)
    Param(usize, &'static str),
    /// local binding of a closure
    Local,
    Module(String),
    Attr(Box<V>, String),
    Text(String),
    List(Vec<A>),
    Kwargs(Vec<(String, usize)>, Option<usize>),
    Num,
    Unit,
    Call(Box<Ev>),
    Getattr(Box<V>, String),
    Setattr(Box<V>, String, Box<V>),
    Iter(usize),
    Mapped(usize),
    Extracted(Box<V>),
}
/// Positional argument.
#[derive(Clone, Debug, PartialEq)]
pub enum A { One(usize), Star(usize) }
#[derive(Clone, Debug, PartialEq)]
pub struct Ev { pub recv: V, pub method: Option<String>, pub pos: Vec<A>, pub kw: Vec<(String, usize)>, pub starstar: Option<usize> }
struct Env<'a> { f: &'a FnI, vars: Vec<(String, V)>, has_py: bool, kinds: Vec<(usize, &'static str)> }
/// The Python operation performed by the body of a generated function.
pub fn eval(f: &FnI) -> V { eval_kinds(f).0 }
/// ... and the conversions of the parameters that are passed on.
pub fn eval_kinds(f: &FnI) -> (V, Vec<(usize, &'static str)>) {
    let Some(b) = &f.body else { fail("generated code: a function without a body") };
    let mut e = Env { f, vars: vec![], has_py: false, kinds: vec![] };
    for (i, (n, _)) in f.params.iter().enumerate() {
        if i == 0 && n == "py" { e.has_py = true; e.vars.push((n.clone(), V::Py)); } else { e.vars.push((n.clone(), V::Param(i, ""))); }
    }
    if f.recv.is_some() { e.vars.push((String::from("self"), V::This)); }
    let st = Px::block(b);
    let v = e.block(&st);
    (v, e.kinds)
}
impl Env<'_> {
    fn block(&mut self, st: &[St]) -> V {
        let n = self.vars.len();
        let mut r = V::Unit;
        for s in st {
            match s {
                St::Let(v, x) => { let x = self.ev(x); self.vars.push((v.clone(), x)); }
                St::Do(x) => { self.ev(x); }
                St::Ret(x) => r = self.ev(x),
                St::Item => {}
            }
        }
        self.vars.truncate(n);
        r
    }
    fn lookup(&self, n: &str) -> V { for (k, v) in self.vars.iter().rev() { if k == n { return v.clone(); } } fail("generated code: use of an undefined variable") }
    fn root<'b>(x: &'b Ex) -> &'b str { match x { Ex::Var(v) => v, Ex::Wrap(x) => Self::root(x), Ex::Method(x, m, _) if m == "as_any" => Self::root(x), _ => fail("generated code: not a variable") } }
    fn slot(&mut self, x: &Ex) -> usize { let n = Self::root(x); for (i, (k, _)) in self.vars.iter().enumerate().rev() { if k == n { return i; } } fail("generated code: use of an undefined variable") }
    fn text(&mut self, x: &Ex) -> String { match self.ev(x) { V::Text(s) => s, _ => fail("generated code: a name is not a string") } }
    fn positional(&mut self, x: &Ex) -> Vec<A> {
        match self.ev(x) {
            V::List(v) => v,
            V::Unit => vec![],
            V::Param(i, k) => { if !(k == "PyTuple" || (k == "" && self.f.params[i].1.contains("PyTuple"))) { fail("an argument is passed as the tuple of arguments"); } vec![A::Star(i)] }
            _ => fail("generated code: positional arguments"),
        }
    }
    fn kwargs(&mut self, x: &Ex) -> (Vec<(String, usize)>, Option<usize>) {
        match self.ev(x) { V::Kwargs(v, s) => (v, s), V::Param(i, "dict" | "kwdict" | "kwcopy") => (vec![], Some(i)), _ => fail("generated code: keyword arguments") }
    }
    /// the parameter a value stands for, converted as its type demands
    fn param(&mut self, v: V) -> usize {
        let V::Param(i, k) = v else { fail("an argument is not a parameter of the function") };
        let t = &self.f.params[i].1;
        let need = if t.starts_with("impl pyo3::IntoPy<pyo3::Py<pyo3::types::PyAny>>") { "PyAny" } else if t.starts_with("impl pyo3::IntoPy<pyo3::Py<pyo3::types::PyTuple>>") { "PyTuple" }
            else if t.starts_with("impl pyo3::types::IntoPyDict") { "dict" } else if t == "&[u8]" || t == "Option<Vec<u8>>" || t == "Vec<u8>" { if k == "PyByteArray" { k } else { "PyBytes" } } else { "" };
        if need != k { fail("a parameter is not converted as its type demands"); }
        self.kinds.push((i, k));
        i
    }
    fn ev(&mut self, x: &Ex) -> V {
        match x {
            Ex::Var(v) => self.lookup(v),
            Ex::Str(s) => V::Text(s.clone()),
            Ex::Num => V::Num,
            Ex::Wrap(x) => self.ev(x),
            Ex::Path(_) => fail("generated code: path as a value"),
            Ex::Seq(v) => {
                if v.is_empty() { return V::Unit; }
                let mut o = vec![];
                for x in v { let y = self.ev(x); o.push(A::One(self.param(y))); }
                V::List(o)
            }
            Ex::Block(b) => self.block(b),
            Ex::Closure(..) => fail("generated code: closure as a value"),
            Ex::IfLet(n, c, a, b) => {
                let c = self.ev(c);
                self.vars.push((n.clone(), c));
                let a = self.ev(a);
                self.vars.pop();
                match (self.ev(b), a) { (V::Kwargs(v, None), V::Param(i, "dict")) if v.is_empty() => V::Param(i, "kwdict"), _ => fail("generated code: a missing dictionary is not replaced by an empty one") }
            }
            Ex::Macro(m, args) => {
                if m != "intern" || args.len() != 2 { fail("generated code: unknown macro"); }
                check(self.ev(&args[0]) == V::Py, "generated code: intern! without py");
                self.ev(&args[1])
            }
            Ex::Method(r, m, args) => {
                match m.as_str() {
                    "extend" => {
                        let i = self.slot(r);
                        let a = self.ev(&args[0]);
                        let V::List(mut v) = self.vars[i].1.clone() else { fail("generated code: extend") };
                        match a { V::List(w) => v.extend(w), V::Mapped(p) | V::Iter(p) => v.push(A::Star(p)), V::Unit => {} _ => fail("generated code: extend with something else") }
                        self.vars[i].1 = V::List(v);
                        return V::Unit;
                    }
                    "push" => {
                        let i = self.slot(r);
                        let a = self.ev(&args[0]);
                        let p = self.param(a);
                        let V::List(mut v) = self.vars[i].1.clone() else { fail("generated code: push") };
                        v.push(A::One(p));
                        self.vars[i].1 = V::List(v);
                        return V::Unit;
                    }
                    _ => {}
                }
                let v = self.ev(r);
                match (m.as_str(), &v) {
                    ("as_any" | "clone" | "as_ref" | "borrow" | "as_borrowed" | "into_any", _) => v,
                    ("py", V::This) => V::Py,
                    ("copy", V::Param(_, "dict" | "kwdict" | "kwcopy") | V::Kwargs(..)) => copied(v),
                    ("bind", V::Param(..)) => { check(args.len() == 1 && self.ev(&args[0]) == V::Py, "generated code: bind without py"); v }
                    ("import_bound", V::Py) => V::Module(self.text(&args[0])),
                    ("map", V::Param(..)) => {
                        let Some(Ex::Closure(n, b)) = args.first() else { fail("generated code: map") };
                        self.vars.push((n.clone(), v));
                        let r = self.ev(b);
                        self.vars.pop();
                        r
                    }
                    ("map", V::Iter(p)) => {
                        let p = *p;
                        let Some(Ex::Closure(n, b)) = args.first() else { fail("generated code: map") };
                        self.vars.push((n.clone(), V::Local));
                        let r = self.ev(b);
                        self.vars.pop();
                        check(r == V::Local, "the variadic arguments are changed");
                        V::Mapped(p)
                    }
                    ("call_method" | "call_method1" | "call_method0" | "call" | "call1" | "call0" | "getattr" | "setattr", _) => {
                        let mut a = vec![(**r).clone()];
                        a.extend(args.iter().cloned());
                        self.py_any(m, &a)
                    }
                    _ => fail("generated code: unknown method call"),
                }
            }
            Ex::Call(f, args) => match &**f {
                Ex::Var(n) if n == "Some" && args.len() == 1 => self.ev(&args[0]),
                Ex::Var(n) if n == "Ok" && args.len() == 1 => self.ev(&args[0]),
                Ex::Path(p) => {
                    if let Some(m) = p.strip_prefix("PyAnyMethods::") { return self.py_any(m, args); }
                    match p.as_str() {
                        "IntoPy::into_py" => {
                            let v = self.ev(&args[0]);
                            let V::Param(i, "") = v else { fail("generated code: into_py of something else") };
                            let t = &self.f.params[i].1;
                            V::Param(i, if t.contains("PyTuple") { "PyTuple" } else { "PyAny" })
                        }
                        "ToPyObject::to_object" => self.ev(&args[0]),
                        "IntoPyDict::into_py_dict_bound" => { let V::Param(i, "") = self.ev(&args[0]) else { fail("generated code: into_py_dict_bound of something else") }; V::Param(i, "dict") }
                        "PyBytes::new_bound" | "PyByteArray::new_bound" => {
                            check(self.ev(&args[0]) == V::Py, "generated code: conversion without py");
                            let V::Param(i, "") = self.ev(&args[1]) else { fail("generated code: conversion of something else") };
                            V::Param(i, if p == "PyBytes::new_bound" { "PyBytes" } else { "PyByteArray" })
                        }
                        "PyDict::new_bound" => V::Kwargs(vec![], None),
                        "PyTuple::new_bound" => { check(args.len() == 2, "generated code: tuple"); self.ev(&args[1]) }
                        "PyTuple::empty_bound" => V::Unit,
                        "PyTupleMethods::len" => V::Num,
                        "PyTupleMethods::iter" => { let V::Param(i, "PyTuple") = self.ev(&args[0]) else { fail("generated code: iteration over something else") }; V::Iter(i) }
                        "Vec::with_capacity" | "Vec::new" => V::List(vec![]),
                        "PyDictMethods::copy" => { let v = self.ev(&args[0]); copied(v) }
                        "PyDictMethods::set_item" => {
                            let i = self.slot(&args[0]);
                            let k = self.text(&args[1]);
                            let v = self.ev(&args[2]);
                            let v = self.param(v);
                            let (mut kw, ss) = match self.vars[i].1.clone() { V::Kwargs(a, b) => (a, b), V::Param(p, "kwcopy") => (vec![], Some(p)), V::Param(_, "dict" | "kwdict") => fail("the dictionary of the caller is changed"), _ => fail("generated code: set_item") };
                            kw.push((k, v));
                            self.vars[i].1 = V::Kwargs(kw, ss);
                            V::Unit
                        }
                        _ => fail("generated code: unknown function call"),
                    }
                }
                _ => fail("generated code: unknown call"),
            },
        }
    }
    fn py_any(&mut self, m: &str, args: &[Ex]) -> V {
        match m {
            "extract" => V::Extracted(Box::new(self.ev(&args[0]))),
            "getattr" => { let r = self.ev(&args[0]); let n = self.text(&args[1]); V::Getattr(Box::new(r), n) }
            "setattr" => { let r = self.ev(&args[0]); let n = self.text(&args[1]); let v = self.ev(&args[2]); let i = self.param(v); V::Setattr(Box::new(r), n, Box::new(V::Param(i, ""))) }
            "call_method" | "call_method1" | "call_method0" | "call" | "call1" | "call0" => {
                let recv = self.ev(&args[0]);
                let mut i = 1;
                let method = if m.starts_with("call_method") { i += 1; Some(self.text(&args[1])) } else { None };
                let (mut pos, mut kw, mut ss) = (vec![], vec![], None);
                if !m.ends_with('0') { pos = self.positional(&args[i]); i += 1; }
                if !m.ends_with('0') && !m.ends_with('1') { let (a, b) = self.kwargs(&args[i]); kw = a; ss = b; i += 1; }
                check(args.len() == i, "generated code: wrong number of arguments to a call");
                V::Call(Box::new(Ev { recv, method, pos, kw, starstar: ss }))
            }
            _ => fail("generated code: unknown Python operation"),
        }
    }
}
/// A copy of a dictionary.
fn copied(v: V) -> V { match v { V::Param(i, "dict" | "kwdict" | "kwcopy") => V::Param(i, "kwcopy"), V::Kwargs(a, b) => V::Kwargs(a, b), _ => fail("generated code: copy of something else") } }
/// `a.b.c` of nested attribute lookups that start at an imported module.
pub fn dotted(v: &V) -> String {
    match v { V::Module(m) => m.clone(), V::Getattr(r, n) => format!("{}.{n}", dotted(r)), _ => fail("the receiver of a call is not a Python path") }
}
