//! Evaluator for the subset of Python expressions the engine passes to `eval`.
use super::capi;
use super::obj::*;

pub enum Expr {
    Const(P),
    Name(Str),
    Attr(Box<Expr>, Str),
    Call(Box<Expr>, Vec<Expr>),
    Index(Box<Expr>, Box<Expr>),
    Tuple(Vec<Expr>),
    List(Vec<Expr>),
    Dict(Vec<(Expr, Expr)>),
    Lambda(Vec<Str>, bool, Box<Expr>),
    Not(Box<Expr>),
    And(Box<Expr>, Box<Expr>),
    Or(Box<Expr>, Box<Expr>),
    /// 0 ==, 1 !=, 2 is, 3 is not, 4 in, 5 not in
    Cmp(u8, Box<Expr>, Box<Expr>),
    If(Box<Expr>, Box<Expr>, Box<Expr>),
}

struct Ps { b: Str, i: usize }
type R<T> = Option<T>;
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' }
impl Ps {
    fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\t') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.b.len() { self.b[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn word(&mut self) -> Str { self.ws(); let a = self.i; while self.i < self.b.len() && idc(self.b[self.i]) { self.i += 1; } &self.b[a..self.i] }
    fn kw(&mut self, k: &[u8]) -> bool { self.ws(); let a = self.i; if self.word() == k { true } else { self.i = a; false } }
    fn expr(&mut self) -> R<Expr> {
        if self.kw(b"lambda") {
            let mut ps = vec![];
            let mut star = false;
            while !self.eat(b':') {
                while self.eat(b'*') { star = true; }
                let w = self.word();
                if w.is_empty() { return None; }
                ps.push(w);
                self.eat(b',');
            }
            return Some(Expr::Lambda(ps, star, Box::new(self.expr()?)));
        }
        let a = self.or()?;
        if self.kw(b"if") { let c = self.or()?; if !self.kw(b"else") { return None; } let e = self.expr()?; return Some(Expr::If(Box::new(c), Box::new(a), Box::new(e))); }
        Some(a)
    }
    fn or(&mut self) -> R<Expr> { let mut a = self.and()?; while self.kw(b"or") { a = Expr::Or(Box::new(a), Box::new(self.and()?)); } Some(a) }
    fn and(&mut self) -> R<Expr> { let mut a = self.not()?; while self.kw(b"and") { a = Expr::And(Box::new(a), Box::new(self.not()?)); } Some(a) }
    fn not(&mut self) -> R<Expr> { if self.kw(b"not") { Some(Expr::Not(Box::new(self.not()?))) } else { self.cmp() } }
    fn cmp(&mut self) -> R<Expr> {
        let a = self.post()?;
        self.ws();
        let rest = &self.b[self.i..];
        let op = if rest.starts_with(b"==") { self.i += 2; 0 } else if rest.starts_with(b"!=") { self.i += 2; 1 }
            else if self.kw(b"is") { if self.kw(b"not") { 3 } else { 2 } } else if self.kw(b"in") { 4 } else if self.kw(b"not") { if !self.kw(b"in") { return None; } 5 } else { return Some(a) };
        Some(Expr::Cmp(op, Box::new(a), Box::new(self.post()?)))
    }
    fn list(&mut self, end: u8) -> R<(Vec<Expr>, bool)> {
        let mut v = vec![];
        let mut comma = false;
        while !self.eat(end) { v.push(self.expr()?); comma = self.eat(b','); if !comma && self.peek() != end { return None; } }
        Some((v, comma))
    }
    fn post(&mut self) -> R<Expr> {
        let mut a = self.atom()?;
        loop {
            if self.eat(b'.') { a = Expr::Attr(Box::new(a), self.word()); }
            else if self.eat(b'(') { a = Expr::Call(Box::new(a), self.list(b')')?.0); }
            else if self.eat(b'[') { let i = self.expr()?; if !self.eat(b']') { return None; } a = Expr::Index(Box::new(a), Box::new(i)); }
            else { return Some(a); }
        }
    }
    fn atom(&mut self) -> R<Expr> {
        match self.peek() {
            b'(' => { self.i += 1; let (mut v, c) = self.list(b')')?; if v.len() == 1 && !c { v.pop() } else { Some(Expr::Tuple(v)) } }
            b'[' => { self.i += 1; Some(Expr::List(self.list(b']')?.0)) }
            b'{' => { self.i += 1; let mut v = vec![]; while !self.eat(b'}') { let k = self.expr()?; if !self.eat(b':') { return None; } let e = self.expr()?; v.push((k, e)); self.eat(b','); } Some(Expr::Dict(v)) }
            q @ (b'\'' | b'"') => { self.i += 1; let a = self.i; while *self.b.get(self.i)? != q { if self.b[self.i] == b'\\' { return None; } self.i += 1; } self.i += 1; Some(Expr::Const(s(&self.b[a..self.i - 1]))) }
            c if c.is_ascii_digit() => { let w = self.word(); let mut n = 0i64; for d in w { n = n * 10 + (*d as i64 - 48); } Some(Expr::Const(int(n))) }
            c if idc(c) => { let w = self.word(); Some(match w { b"None" => Expr::Const(none()), b"True" => Expr::Const(boolean(true)), b"False" => Expr::Const(boolean(false)), _ => Expr::Name(w) }) }
            _ => None,
        }
    }
}
pub fn parse(src: Str) -> Option<&'static Expr> {
    let mut p = Ps { b: src, i: 0 };
    let e = p.expr()?;
    if p.peek() != 0 { return None; }
    Some(Box::leak(Box::new(e)))
}
pub type Env<'a> = &'a [*mut Vec<(Str, P)>];
pub fn eval(e: &'static Expr, env: Env) -> P {
    unsafe {
        macro_rules! ev { ($e:expr) => {{ let x = eval($e, env); if x.is_null() { return x; } x }} }
        match e {
            Expr::Const(p) => *p,
            Expr::Name(n) => {
                for t in env { if let Some(x) = find(&**t, n) { return x; } }
                let b = capi::import(b"builtins");
                match find(&(*b).attrs, n) { Some(x) => x, None => raise(std::ptr::addr_of_mut!(ExcName), cat(&[b"name '", n, b"' is not defined"])) }
            }
            Expr::Attr(a, n) => { let a = ev!(a); capi::PyObject_GetAttr(a, s(n)) }
            Expr::Call(f, a) => { let f = ev!(f); let mut v = vec![]; for x in a { v.push(ev!(x)); } capi::call(f, &v) }
            Expr::Index(a, i) => { let a = ev!(a); let i = ev!(i); capi::PyObject_GetItem(a, i) }
            Expr::Tuple(v) => { let mut o = vec![]; for x in v { o.push(ev!(x)); } tuple(&o) }
            Expr::List(v) => { let mut o = vec![]; for x in v { o.push(ev!(x)); } list(o) }
            Expr::Dict(v) => { let d = capi::PyDict_New(); for (k, x) in v { let k = ev!(k); let x = ev!(x); set(capi::dict_of(d), text(k), x); } d }
            Expr::Lambda(..) => {
                let f = super::install::func(b"<lambda>", b"__main__");
                (*f).code = Some(e);
                // globals for the body
                (*f).i = env[env.len() - 1] as i64;
                f
            }
            Expr::Not(a) => { let a = ev!(a); boolean(!capi::truthy(a)) }
            Expr::And(a, b) => { let a = ev!(a); if capi::truthy(a) { eval(b, env) } else { a } }
            Expr::Or(a, b) => { let a = ev!(a); if capi::truthy(a) { a } else { eval(b, env) } }
            Expr::If(c, a, b) => { let c = ev!(c); if capi::truthy(c) { eval(a, env) } else { eval(b, env) } }
            Expr::Cmp(op, a, b) => {
                let a = ev!(a); let b = ev!(b);
                boolean(match op { 0 => capi::equal(a, b), 1 => !capi::equal(a, b), 2 => a == b, 3 => a != b, 4 => capi::PySequence_Contains(b, a) == 1, _ => capi::PySequence_Contains(b, a) != 1 })
            }
        }
    }
}
pub fn call_lambda(e: &'static Expr, f: P, a: &[P]) -> P {
    unsafe {
        let Expr::Lambda(ps, star, body) = e else { unsupported("call of non-lambda code") };
        if !*star && ps.len() != a.len() { return raise(std::ptr::addr_of_mut!(ExcType), b"<lambda>() takes a different number of arguments"); }
        let mut loc: Vec<(Str, P)> = vec![];
        for (i, p) in ps.iter().enumerate() { loc.push((p, if i < a.len() { a[i] } else { none() })); }
        let g = (*f).i as *mut Vec<(Str, P)>;
        eval(body, &[&mut loc as *mut _, g])
    }
}
