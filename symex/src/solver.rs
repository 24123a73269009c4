//! Thin Z3 binding: decides conjunctions of path constraints.
use crate::expr::*;
use crate::fx::{FxHashMap, FxHashSet};
use std::collections::BTreeSet;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvneg(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
}

pub struct Solver {
    c: P,
    s: P,
    bv: FxHashMap<E, P>,
    bl: FxHashMap<E, P>,
    cache: FxHashMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    varsof: FxHashMap<E, std::rc::Rc<Vec<u32>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub time: std::time::Duration,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, c"model".as_ptr(), c"true".as_ptr());
            let c = Z3_mk_context_rc(cfg);
            let s = Z3_mk_simple_solver(c);
            let _ = Z3_mk_solver as usize;
            Z3_solver_inc_ref(c, s);
            Solver { c, s, bv: Default::default(), bl: Default::default(), cache: Default::default(), varsof: Default::default(),
                queries: 0, sat: 0, unsat: 0, cache_hits: 0, time: Default::default() }
        }
    }
    fn sort(&self, w: u32) -> P { self.keep(unsafe { Z3_mk_bv_sort(self.c, w) }) }
    fn keep(&self, a: P) -> P { unsafe { Z3_inc_ref(self.c, a) }; a }
    fn boolean(&mut self, p: &Pool, e: E) -> P {
        if let Some(a) = self.bl.get(&e) { return *a; }
        debug_assert_eq!(p.w(e), 1);
        let c = self.c;
        let a = unsafe {
            match p.node(e) {
                Node::Const(v) => if v & 1 == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Node::Not(a) => { let a = self.boolean(p, a); Z3_mk_not(c, a) }
                Node::Bin(op @ (Bin::Eq | Bin::Ult | Bin::Ule | Bin::Slt | Bin::Sle), x, y) => {
                    if p.w(x) == 1 && op == Bin::Eq {
                        let (x, y) = (self.boolean(p, x), self.boolean(p, y));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.vec(p, x), self.vec(p, y));
                        match op { Bin::Eq => Z3_mk_eq(c, x, y), Bin::Ult => Z3_mk_bvult(c, x, y), Bin::Ule => Z3_mk_bvule(c, x, y),
                            Bin::Slt => Z3_mk_bvslt(c, x, y), _ => Z3_mk_bvsle(c, x, y) }
                    }
                }
                Node::Bin(Bin::And, x, y) => { let v = [self.boolean(p, x), self.boolean(p, y)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Node::Bin(Bin::Or, x, y) => { let v = [self.boolean(p, x), self.boolean(p, y)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Node::Ite(g, x, y) => { let (g, x, y) = (self.boolean(p, g), self.boolean(p, x), self.boolean(p, y)); Z3_mk_ite(c, g, x, y) }
                _ => {
                    let v = self.vec(p, e);
                    let one = Z3_mk_numeral(c, c"1".as_ptr(), self.sort(1));
                    self.keep(one);
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        self.keep(a);
        self.bl.insert(e, a);
        a
    }
    fn vec(&mut self, p: &Pool, e: E) -> P {
        if let Some(a) = self.bv.get(&e) { return *a; }
        let c = self.c;
        let w = p.w(e);
        let a = unsafe {
            match p.node(e) {
                Node::Const(v) => {
                    let s = std::ffi::CString::new(v.to_string()).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), self.sort(w))
                }
                Node::Var(v) => {
                    let s = std::ffi::CString::new(format!("v{v}")).unwrap();
                    { let so = self.sort(8); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), so) }
                }
                Node::Not(a) => { let a = self.vec(p, a); Z3_mk_bvnot(c, a) }
                Node::Neg(a) => { let a = self.vec(p, a); Z3_mk_bvneg(c, a) }
                Node::Bin(Bin::Eq | Bin::Ult | Bin::Ule | Bin::Slt | Bin::Sle, ..) => {
                    let b = self.boolean(p, e);
                    let so = self.sort(1);
                    let (x, y) = (self.keep(Z3_mk_numeral(c, c"1".as_ptr(), so)), self.keep(Z3_mk_numeral(c, c"0".as_ptr(), so)));
                    Z3_mk_ite(c, b, x, y)
                }
                Node::Bin(op, x, y) => {
                    let (x, y) = (self.vec(p, x), self.vec(p, y));
                    match op {
                        Bin::Add => Z3_mk_bvadd(c, x, y), Bin::Sub => Z3_mk_bvsub(c, x, y), Bin::Mul => Z3_mk_bvmul(c, x, y),
                        Bin::UDiv => Z3_mk_bvudiv(c, x, y), Bin::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Bin::URem => Z3_mk_bvurem(c, x, y), Bin::SRem => Z3_mk_bvsrem(c, x, y),
                        Bin::And => Z3_mk_bvand(c, x, y), Bin::Or => Z3_mk_bvor(c, x, y), Bin::Xor => Z3_mk_bvxor(c, x, y),
                        Bin::Shl => Z3_mk_bvshl(c, x, y), Bin::LShr => Z3_mk_bvlshr(c, x, y), Bin::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!(),
                    }
                }
                Node::Ite(g, x, y) => { let g = self.boolean(p, g); let (x, y) = (self.vec(p, x), self.vec(p, y)); Z3_mk_ite(c, g, x, y) }
                Node::Extract(a, lo) => { let a = self.vec(p, a); Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, a) }
                Node::Concat(h, l) => { let (h, l) = (self.vec(p, h), self.vec(p, l)); Z3_mk_concat(c, h, l) }
                Node::ZExt(a) => { let k = w - p.w(a); let a = self.vec(p, a); Z3_mk_zero_ext(c, k, a) }
                Node::SExt(a) => { let k = w - p.w(a); let a = self.vec(p, a); Z3_mk_sign_ext(c, k, a) }
            }
        };
        self.keep(a);
        self.bv.insert(e, a);
        a
    }
    pub fn vars(&mut self, p: &Pool, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.varsof.get(&e) { return v.clone(); }
        let mut o = BTreeSet::new();
        p.vars(e, &mut o, &mut FxHashSet::default());
        let r = std::rc::Rc::new(o.into_iter().collect::<Vec<_>>());
        self.varsof.insert(e, r.clone());
        r
    }
    /// The constraints of `pc` that (transitively) share variables with `extra`.
    pub fn slice(&mut self, p: &Pool, pc: &[E], extra: E) -> Vec<E> {
        let mut vs: BTreeSet<u32> = self.vars(p, extra).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let cv = self.vars(p, *c);
                if cv.iter().any(|v| vs.contains(v)) { used[i] = true; ch = true; vs.extend(cv.iter().copied()); }
            }
            if !ch { break; }
        }
        let mut r: Vec<E> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect();
        r.push(extra);
        r.sort_unstable();
        r.dedup();
        r
    }
    /// Sat check of a conjunction; returns values for the variables involved.
    pub fn check(&mut self, p: &Pool, cs: &[E]) -> Option<Vec<(u32, u8)>> {
        if let Some(r) = self.cache.get(cs) { self.cache_hits += 1; return r.clone(); }
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let mut vs = BTreeSet::new();
        for c in cs { vs.extend(self.vars(p, *c).iter().copied()); }
        let asts: Vec<P> = cs.iter().map(|c| self.boolean(p, *c)).collect();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for a in &asts { Z3_solver_assert(self.c, self.s, *a); }
            let r = Z3_solver_check(self.c, self.s);
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for v in &vs {
                    let s = std::ffi::CString::new(format!("v{v}")).unwrap();
                    let k = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), self.sort(8));
                    Z3_inc_ref(self.c, k);
                    let mut o = std::ptr::null_mut();
                    assert!(Z3_model_eval(self.c, m, k, true, &mut o));
                    Z3_inc_ref(self.c, o);
                    let mut u = 0u64;
                    assert!(Z3_get_numeral_uint64(self.c, o, &mut u));
                    out.push((*v, u as u8));
                }
                Z3_model_dec_ref(self.c, m);
                Some(out)
            } else if r == -1 {
                None
            } else {
                panic!("z3 returned unknown");
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        if r.is_some() { self.sat += 1 } else { self.unsat += 1 }
        self.time += t0.elapsed();
        self.cache.insert(cs.to_vec(), r.clone());
        r
    }
}
