//! Hash-consed bit-vector expressions over 8-bit input variables.
use crate::fx::{FxHashMap, FxHashSet};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),            // 8-bit input variable
    Not(E),
    Neg(E),
    Bin(Bin, E, E),
    Ite(E, E, E),
    Extract(E, u8),      // low bit offset; width is the node width
    Concat(E, E),        // hi, lo
    ZExt(E),
    SExt(E),
}

/// Support of an expression: at most one variable is tracked precisely.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sup {
    None,
    One(u32),
    Many,
}

#[derive(Clone, Copy)]
struct Info {
    node: Node,
    w: u8,
    sup: Sup,
}

/// A scalar: either concrete or a symbolic expression.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sv {
    C(u128),
    S(E),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub type Dom = [u64; 4];

pub struct Pool {
    n: Vec<Info>,
    map: FxHashMap<(Node, u8), E>,
    tables: FxHashMap<E, std::rc::Rc<Vec<u128>>>,
    ttab: FxHashMap<E, Dom>,
    pub nvars: u32,
}

impl Pool {
    pub fn new() -> Self {
        Pool { n: vec![], map: Default::default(), tables: Default::default(), ttab: Default::default(), nvars: 0 }
    }
    pub fn len(&self) -> usize { self.n.len() }
    pub fn node(&self, e: E) -> Node { self.n[e as usize].node }
    pub fn w(&self, e: E) -> u32 { self.n[e as usize].w as u32 }
    pub fn sup(&self, e: E) -> Sup { self.n[e as usize].sup }

    fn mk(&mut self, node: Node, w: u32) -> E {
        let k = (node, w as u8);
        if let Some(e) = self.map.get(&k) { return *e; }
        let s = |p: &Pool, e: E| p.n[e as usize].sup;
        fn join(a: Sup, b: Sup) -> Sup {
            match (a, b) {
                (Sup::None, x) | (x, Sup::None) => x,
                (Sup::One(a), Sup::One(b)) if a == b => Sup::One(a),
                _ => Sup::Many,
            }
        }
        let sup = match node {
            Node::Const(_) => Sup::None,
            Node::Var(v) => Sup::One(v),
            Node::Not(a) | Node::Neg(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => s(self, a),
            Node::Bin(_, a, b) | Node::Concat(a, b) => join(s(self, a), s(self, b)),
            Node::Ite(a, b, c) => join(s(self, a), join(s(self, b), s(self, c))),
        };
        let e = self.n.len() as E;
        self.n.push(Info { node, w: w as u8, sup });
        self.map.insert(k, e);
        e
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E { self.mk(Node::Const(v & mask(w)), w) }
    pub fn var(&mut self, v: u32) -> E { if v >= self.nvars { self.nvars = v + 1; } self.mk(Node::Var(v), 8) }
    pub fn e(&mut self, s: Sv, w: u32) -> E {
        match s { Sv::C(v) => self.cst(v, w), Sv::S(e) => { debug_assert_eq!(self.w(e), w); e } }
    }
    pub fn as_const(&self, e: E) -> Option<u128> { if let Node::Const(c) = self.node(e) { Some(c) } else { None } }
    fn sv(&self, e: E) -> Sv { match self.node(e) { Node::Const(c) => Sv::C(c), _ => Sv::S(e) } }

    pub fn bin(&mut self, op: Bin, a: Sv, b: Sv, w: u32) -> Sv {
        if let (Sv::C(x), Sv::C(y)) = (a, b) {
            return Sv::C(cbin(op, x, y, w));
        }
        // identities
        let m = mask(w);
        match (op, a, b) {
            (Bin::Add | Bin::Or | Bin::Xor | Bin::Shl | Bin::LShr | Bin::AShr | Bin::Sub, _, Sv::C(0)) => return a,
            (Bin::Add | Bin::Or | Bin::Xor, Sv::C(0), _) => return b,
            (Bin::And | Bin::Mul, _, Sv::C(0)) | (Bin::And | Bin::Mul, Sv::C(0), _) => return Sv::C(0),
            (Bin::And, _, Sv::C(c)) if c & m == m => return a,
            (Bin::And, Sv::C(c), _) if c & m == m => return b,
            (Bin::Or, _, Sv::C(c)) | (Bin::Or, Sv::C(c), _) if c & m == m => return Sv::C(m),
            (Bin::Mul | Bin::UDiv, _, Sv::C(1)) => return a,
            (Bin::Mul, Sv::C(1), _) => return b,
            (Bin::Eq | Bin::Ule | Bin::Sle, _, _) if a == b => return Sv::C(1),
            (Bin::Ult | Bin::Slt | Bin::Sub | Bin::Xor, _, _) if a == b => return Sv::C(0),
            (Bin::And | Bin::Or, _, _) if a == b => return a,
            (Bin::Ult, _, Sv::C(0)) => return Sv::C(0),
            (Bin::Ule, Sv::C(0), _) => return Sv::C(1),
            _ => {}
        }
        // 1-bit equality
        if op == Bin::Eq && w == 1 {
            match (a, b) {
                (x, Sv::C(1)) | (Sv::C(1), x) => return x,
                (x, Sv::C(0)) | (Sv::C(0), x) => return self.not(x, 1),
                _ => {}
            }
        }
        if op == Bin::Xor && w == 1 {
            match (a, b) { (x, Sv::C(1)) | (Sv::C(1), x) => return self.not(x, 1), _ => {} }
        }
        // comparisons of a zero-extended value / ite against a constant
        if matches!(op, Bin::Eq | Bin::Ult | Bin::Ule) {
            if let (Sv::S(x), Sv::C(c)) = (a, b) {
                match self.node(x) {
                    Node::ZExt(i) => {
                        let wi = self.w(i);
                        if c > mask(wi) { return Sv::C(if op == Bin::Eq { 0 } else { 1 }); }
                        return self.bin(op, Sv::S(i), Sv::C(c), wi);
                    }
                    Node::Ite(g, t, f) if op == Bin::Eq => {
                        let (t, f) = (self.sv(t), self.sv(f));
                        if matches!(t, Sv::C(_)) || matches!(f, Sv::C(_)) {
                            let t2 = self.bin(op, t, b, w);
                            let f2 = self.bin(op, f, b, w);
                            return self.ite(Sv::S(g), t2, f2, 1);
                        }
                    }
                    Node::Concat(h, l) if op == Bin::Eq => {
                        let wl = self.w(l);
                        let wh = self.w(h);
                        let p = { let h = self.sv(h); self.bin(Bin::Eq, h, Sv::C(c >> wl), wh) };
                        let q = { let l = self.sv(l); self.bin(Bin::Eq, l, Sv::C(c & mask(wl)), wl) };
                        return self.bin(Bin::And, p, q, 1);
                    }
                    _ => {}
                }
            }
            if let (Sv::C(c), Sv::S(x)) = (a, b) {
                if op == Bin::Eq { return self.bin(op, b, a, w); }
                if let Node::ZExt(i) = self.node(x) {
                    let wi = self.w(i);
                    if c > mask(wi) { return Sv::C(0); }
                    return self.bin(op, Sv::C(c), Sv::S(i), wi);
                }
            }
            if let (Sv::S(x), Sv::S(y)) = (a, b) {
                if let (Node::ZExt(i), Node::ZExt(j)) = (self.node(x), self.node(y)) {
                    if self.w(i) == self.w(j) { let wi = self.w(i); return self.bin(op, Sv::S(i), Sv::S(j), wi); }
                }
            }
        }
        let (mut x, mut y) = (self.e(a, w), self.e(b, w));
        if matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor | Bin::Eq) && x > y { std::mem::swap(&mut x, &mut y); }
        // canonical: constant second
        let rw = if matches!(op, Bin::Eq | Bin::Ult | Bin::Ule | Bin::Slt | Bin::Sle) { 1 } else { w };
        let e = self.mk(Node::Bin(op, x, y), rw);
        Sv::S(e)
    }
    /// Conditions (1 bit each, with their value) which together say that `c` is `val`.
    pub fn conjuncts(&self, c: E, val: bool) -> Vec<(E, bool)> {
        let mut out = vec![];
        let mut todo = vec![(c, val)];
        while let Some((c, val)) = todo.pop() {
            if self.w(c) != 1 { out.push((c, val)); continue; }
            match self.node(c) {
                Node::Not(i) => todo.push((i, !val)),
                Node::Bin(Bin::And, a, b) if val && self.sup(c) == Sup::Many => { todo.push((b, val)); todo.push((a, val)) }
                Node::Bin(Bin::Or, a, b) if !val && self.sup(c) == Sup::Many => { todo.push((b, val)); todo.push((a, val)) }
                Node::Const(_) => {}
                _ => out.push((c, val)),
            }
        }
        out
    }
    pub fn not(&mut self, a: Sv, w: u32) -> Sv {
        match a {
            Sv::C(v) => Sv::C(!v & mask(w)),
            Sv::S(e) => match self.node(e) {
                Node::Not(i) => self.sv(i),
                _ => Sv::S(self.mk(Node::Not(e), w)),
            },
        }
    }
    pub fn neg(&mut self, a: Sv, w: u32) -> Sv {
        match a { Sv::C(v) => Sv::C(v.wrapping_neg() & mask(w)), Sv::S(e) => Sv::S(self.mk(Node::Neg(e), w)) }
    }
    pub fn ite(&mut self, c: Sv, t: Sv, f: Sv, w: u32) -> Sv {
        match c {
            Sv::C(v) => if v & 1 == 1 { t } else { f },
            Sv::S(c) => {
                if t == f { return t; }
                if w == 1 {
                    match (t, f) {
                        (Sv::C(1), Sv::C(0)) => return Sv::S(c),
                        (Sv::C(0), Sv::C(1)) => return self.not(Sv::S(c), 1),
                        (Sv::C(1), x) => return self.bin(Bin::Or, Sv::S(c), x, 1),
                        (x, Sv::C(0)) => return self.bin(Bin::And, Sv::S(c), x, 1),
                        (Sv::C(0), x) => { let n = self.not(Sv::S(c), 1); return self.bin(Bin::And, n, x, 1); }
                        (x, Sv::C(1)) => { let n = self.not(Sv::S(c), 1); return self.bin(Bin::Or, n, x, 1); }
                        _ => {}
                    }
                }
                let (t, f) = (self.e(t, w), self.e(f, w));
                Sv::S(self.mk(Node::Ite(c, t, f), w))
            }
        }
    }
    pub fn zext(&mut self, a: Sv, from: u32, to: u32) -> Sv {
        if from == to { return a; }
        match a {
            Sv::C(v) => Sv::C(v & mask(from)),
            Sv::S(e) => match self.node(e) { Node::ZExt(i) => Sv::S(self.mk(Node::ZExt(i), to)), _ => Sv::S(self.mk(Node::ZExt(e), to)) },
        }
    }
    pub fn sextend(&mut self, a: Sv, from: u32, to: u32) -> Sv {
        if from == to { return a; }
        match a {
            Sv::C(v) => Sv::C(sext(v, from) as u128 & mask(to)),
            Sv::S(e) => match self.node(e) { Node::ZExt(i) => Sv::S(self.mk(Node::ZExt(i), to)), _ => Sv::S(self.mk(Node::SExt(e), to)) },
        }
    }
    /// bits [lo, lo+w)
    pub fn extract(&mut self, a: Sv, from: u32, lo: u32, w: u32) -> Sv {
        if lo == 0 && w == from { return a; }
        match a {
            Sv::C(v) => Sv::C((v >> lo) & mask(w)),
            Sv::S(e) => {
                match self.node(e) {
                    Node::ZExt(i) => {
                        let wi = self.w(i);
                        if lo >= wi { return Sv::C(0); }
                        if lo + w <= wi { return self.extract(Sv::S(i), wi, lo, w); }
                        let p = self.extract(Sv::S(i), wi, lo, wi - lo);
                        return self.zext(p, wi - lo, w);
                    }
                    Node::Concat(h, l) => {
                        let (wh, wl) = (self.w(h), self.w(l));
                        if lo >= wl { let h = self.sv(h); return self.extract(h, wh, lo - wl, w); }
                        if lo + w <= wl { let l = self.sv(l); return self.extract(l, wl, lo, w); }
                    }
                    Node::Extract(i, l2) => { let wi = self.w(i); return self.extract(Sv::S(i), wi, lo + l2 as u32, w); }
                    Node::Ite(c, t, f) => {
                        let (t, f) = (self.sv(t), self.sv(f));
                        if matches!(t, Sv::C(_)) || matches!(f, Sv::C(_)) {
                            let t = self.extract(t, from, lo, w);
                            let f = self.extract(f, from, lo, w);
                            return self.ite(Sv::S(c), t, f, w);
                        }
                    }
                    Node::Bin(op @ (Bin::And | Bin::Or | Bin::Xor), x, y) => {
                        let (x, y) = (self.sv(x), self.sv(y));
                        let x = self.extract(x, from, lo, w);
                        let y = self.extract(y, from, lo, w);
                        return self.bin(op, x, y, w);
                    }
                    _ => {}
                }
                Sv::S(self.mk(Node::Extract(e, lo as u8), w))
            }
        }
    }
    pub fn concat(&mut self, hi: Sv, lo: Sv, wh: u32, wl: u32) -> Sv {
        if let (Sv::C(h), Sv::C(l)) = (hi, lo) { return Sv::C((h << wl) | l); }
        if hi == Sv::C(0) { return self.zext(lo, wl, wh + wl); }
        if let (Sv::S(h), Sv::S(l)) = (hi, lo) {
            if let (Node::Extract(a, la), Node::Extract(b, lb)) = (self.node(h), self.node(l)) {
                if a == b && lb as u32 + wl == la as u32 { let wa = self.w(a); return self.extract(Sv::S(a), wa, lb as u32, wh + wl); }
            }
        }
        let (h, l) = (self.e(hi, wh), self.e(lo, wl));
        Sv::S(self.mk(Node::Concat(h, l), wh + wl))
    }

    pub fn eval(&self, e: E, asg: &[u8], memo: &mut FxHashMap<E, u128>) -> u128 {
        if let Node::Const(c) = self.node(e) { return c; }
        if let Some(v) = memo.get(&e) { return *v; }
        let w = self.w(e);
        let r = match self.node(e) {
            Node::Const(c) => c,
            Node::Var(v) => *asg.get(v as usize).unwrap_or(&0) as u128,
            Node::Not(a) => !self.eval(a, asg, memo) & mask(w),
            Node::Neg(a) => self.eval(a, asg, memo).wrapping_neg() & mask(w),
            Node::Bin(op, a, b) => { let x = self.eval(a, asg, memo); let y = self.eval(b, asg, memo); cbin(op, x, y, self.w(a)) }
            Node::Ite(c, t, f) => if self.eval(c, asg, memo) & 1 == 1 { self.eval(t, asg, memo) } else { self.eval(f, asg, memo) },
            Node::Extract(a, lo) => (self.eval(a, asg, memo) >> lo) & mask(w),
            Node::Concat(h, l) => (self.eval(h, asg, memo) << self.w(l)) | self.eval(l, asg, memo),
            Node::ZExt(a) => self.eval(a, asg, memo),
            Node::SExt(a) => sext(self.eval(a, asg, memo), self.w(a)) as u128 & mask(w),
        };
        memo.insert(e, r);
        r
    }
    /// Value table of an expression of a single variable.
    pub fn table(&mut self, e: E) -> Option<std::rc::Rc<Vec<u128>>> {
        let Sup::One(v) = self.sup(e) else { return None };
        if let Some(t) = self.tables.get(&e) { return Some(t.clone()); }
        let mut asg = vec![0u8; v as usize + 1];
        let mut out = Vec::with_capacity(256);
        let mut memo = FxHashMap::default();
        for x in 0..256u32 {
            asg[v as usize] = x as u8;
            memo.clear();
            out.push(self.eval(e, &asg, &mut memo));
        }
        let t = std::rc::Rc::new(out);
        if self.tables.len() > 20000 { self.tables.clear(); }
        self.tables.insert(e, t.clone());
        Some(t)
    }
    /// Truth table of a boolean expression of one variable.
    pub fn truth(&mut self, e: E) -> Option<(u32, Dom)> {
        let Sup::One(v) = self.sup(e) else { return None };
        if let Some(t) = self.ttab.get(&e) { return Some((v, *t)); }
        let t = self.table(e)?;
        let mut d = [0u64; 4];
        for x in 0..256 { if t[x] & 1 == 1 { d[x / 64] |= 1 << (x % 64); } }
        self.ttab.insert(e, d);
        Some((v, d))
    }
    pub fn vars(&self, e: E, out: &mut std::collections::BTreeSet<u32>, seen: &mut FxHashSet<E>) {
        match self.sup(e) { Sup::None => return, Sup::One(v) => { out.insert(v); return; } _ => {} }
        if !seen.insert(e) { return; }
        match self.node(e) {
            Node::Const(_) | Node::Var(_) => {}
            Node::Not(a) | Node::Neg(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => self.vars(a, out, seen),
            Node::Bin(_, a, b) | Node::Concat(a, b) => { self.vars(a, out, seen); self.vars(b, out, seen); }
            Node::Ite(a, b, c) => { self.vars(a, out, seen); self.vars(b, out, seen); self.vars(c, out, seen); }
        }
    }
}

pub fn cbin(op: Bin, x: u128, y: u128, w: u32) -> u128 {
    let m = mask(w);
    let (sx, sy) = (sext(x, w), sext(y, w));
    match op {
        Bin::Add => x.wrapping_add(y) & m,
        Bin::Sub => x.wrapping_sub(y) & m,
        Bin::Mul => x.wrapping_mul(y) & m,
        Bin::UDiv => if y == 0 { m } else { x / y },
        Bin::URem => if y == 0 { x } else { x % y },
        Bin::SDiv => if sy == 0 { if sx < 0 { 1 } else { m } } else { sx.wrapping_div(sy) as u128 & m },
        Bin::SRem => if sy == 0 { x } else { sx.wrapping_rem(sy) as u128 & m },
        Bin::And => x & y,
        Bin::Or => x | y,
        Bin::Xor => x ^ y,
        Bin::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Bin::LShr => if y >= w as u128 { 0 } else { x >> y },
        Bin::AShr => if y >= w as u128 { if sx < 0 { m } else { 0 } } else { (sx >> y) as u128 & m },
        Bin::Eq => (x == y) as u128,
        Bin::Ult => (x < y) as u128,
        Bin::Ule => (x <= y) as u128,
        Bin::Slt => (sx < sy) as u128,
        Bin::Sle => (sx <= sy) as u128,
    }
}
