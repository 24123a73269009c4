//! The symbolic interpreter.
use crate::expr::*;
use crate::fx::{FxHashMap, FxHashSet};
use crate::lower::*;
use crate::mem::*;
use crate::solver::Solver;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, ConstAllocation};
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, TyCtxt};
use std::rc::Rc;

pub type FnId = u32;

pub enum Glob<'tcx> {
    Pending,
    Lazy(ConstAllocation<'tcx>),
    Ready(Rc<Alloc>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hook {
    AnyU8, Assume, Note, Reach, Concretize, IsSym,
    Panic, Abort,
    ZeroHash, Unit, False, RandomKeys, One,
    Alloc, AllocZeroed, Dealloc, Realloc,
    Strlen, Memcmp, Memcpy, Memmove, Memset, Memchr, Memrchr,
    Utf8, NoneBool, Malloc, Calloc, AlignedAlloc, PosixMemalign, Free, CRealloc,
}

#[derive(Clone, Copy)]
pub enum FnKind {
    Unknown,
    Body(&'static Body),
    Intr(&'static Intr),
    Virtual(usize),
    Hook(Hook),
    Redirect(FnId),
    DropDyn,
}

pub struct Intr {
    pub name: String,
    pub t0: Option<Dst>,
    pub t1size: u64,
    pub fallback: Option<FnId>,
    pub cval: Option<u128>,
    pub signed: bool,
    pub sel: Option<(FnId, Vec<u64>)>,
    pub atomic_size: u64,
}

pub struct FnInfo<'tcx> {
    pub inst: Instance<'tcx>,
    pub name: String,
    pub kind: FnKind,
    pub merge: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub body: &'static Body,
    pub bb: u32,
    pub idx: u32,
    pub mem: Rc<Alloc>,
    pub ret_addr: u64,
    pub ret_size: u32,
    pub ret_bb: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Heap,
    pub globs: Rc<FxHashMap<u32, Rc<Alloc>>>,
    pub pc: Vec<E>,
    pub known: FxHashMap<E, bool>,
    pub dom: Vec<Dom>,
    pub multi: Vec<bool>,
    pub model: Vec<u8>,
    pub nvars: u32,
    pub steps: u64,
    pub notes: Vec<(Vec<u8>, Vec<(u32, E)>)>,
    pub reached: Vec<u32>,
    pub forks: u32,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Kill,
    Panic(String),
    Err(String),
    MergeRet,
    /// work appeared while distributing: give the state back
    Yield,
    Park,
}
pub type X<T> = Result<T, Stop>;
pub fn err<T>(s: impl Into<String>) -> X<T> { Err(Stop::Err(s.into())) }

pub struct Interp<'tcx> {
    pub yield_on_fork: bool,
    pub park_at: u64,
    pub tcx: TyCtxt<'tcx>,
    pub env: ty::TypingEnv<'tcx>,
    pub pool: Pool,
    pub solver: Solver,
    pub fns: Vec<FnInfo<'tcx>>,
    pub inst_map: FxHashMap<Instance<'tcx>, FnId>,
    pub globs: Vec<Glob<'tcx>>,
    pub alloc_map: FxHashMap<AllocId, u64>,
    pub static_map: FxHashMap<DefId, u64>,
    pub externs: FxHashMap<String, DefId>,
    pub redirects: FxHashMap<String, DefId>,
    pub hooks: FxHashMap<String, Hook>,
    pub merges: FxHashSet<String>,
    pub work: Vec<State>,
    pub stats: Stats,
    pub step_limit: u64,
    pub trace: bool,
    pub merge_depth: Option<usize>,
    pub unresolved: FxHashSet<String>,
    pub fork_sites: FxHashMap<String, u64>,
    pub profile: Option<FxHashMap<FnId, u64>>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub forks: u64,
    pub decided_by_domain: u64,
    pub merges: u64,
    pub merge_paths: u64,
}

pub fn stack_addr(depth: usize, off: u32) -> u64 { ((STACK + depth as u32) as u64) << 32 | off as u64 }

impl State {
    pub fn new() -> Self {
        State { frames: vec![], heap: Heap::new(), globs: Default::default(), pc: vec![], known: Default::default(), dom: vec![], multi: vec![],
            model: vec![], nvars: 0, steps: 0, notes: vec![], reached: vec![], forks: 0 }
    }
}

enum MRef { Heap(u32), Stack(usize), Glob(u32) }

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Interp { yield_on_fork: false, park_at: 0,
            tcx, env: ty::TypingEnv::fully_monomorphized(), pool: Pool::new(), solver: Solver::new(), fns: vec![], inst_map: Default::default(),
            globs: vec![], alloc_map: Default::default(), static_map: Default::default(), externs: Default::default(), redirects: Default::default(), hooks: Default::default(),
            merges: Default::default(), work: vec![], stats: Default::default(), step_limit: 2_000_000_000, trace: false, merge_depth: None,
            unresolved: Default::default(), fork_sites: Default::default(), profile: None,
        }
    }
    pub fn path_of(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    pub fn fn_id(&mut self, inst: Instance<'tcx>) -> FnId {
        if let Some(f) = self.inst_map.get(&inst) { return *f; }
        let id = self.fns.len() as FnId;
        let mut name = self.path_of(inst.def_id());
        match inst.def { InstanceKind::Shim(s) => { name = format!("<shim {}> {name}", match s { ShimKind::DropGlue(_, t) => format!("drop {t:?}"), _ => format!("{s:?}").split('(').next().unwrap().to_string() }); } _ => {} }
        let merge = self.merges.contains(&name);
        self.fns.push(FnInfo { inst, name, kind: FnKind::Unknown, merge });
        self.inst_map.insert(inst, id);
        id
    }
    pub fn fn_addr(&mut self, inst: Instance<'tcx>) -> u64 { let f = self.fn_id(inst); ((FUNC + f) as u64) << 32 }

    pub fn fn_kind(&mut self, f: FnId) -> X<FnKind> {
        let k = self.fns[f as usize].kind;
        if !matches!(k, FnKind::Unknown) { return Ok(k); }
        let inst = self.fns[f as usize].inst;
        let k = match inst.def {
            InstanceKind::Virtual(_, i) => FnKind::Virtual(i),
            InstanceKind::Intrinsic(d) => {
                let name = self.tcx.item_name(d).to_string();
                let intr = crate::intrin::prepare(self, inst, d, name)?;
                FnKind::Intr(Box::leak(Box::new(intr)))
            }
            InstanceKind::LlvmIntrinsic(d) => return err(format!("llvm intrinsic {d:?}")),
            InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) if matches!(t.kind(), ty::Dynamic(..)) => FnKind::DropDyn,
            InstanceKind::Shim(ShimKind::ThreadLocal(d)) => {
                let a = self.static_addr(d);
                FnKind::Intr(Box::leak(Box::new(Intr { name: "<const>".into(), t0: None, t1size: 0, fallback: None, cval: Some(a as u128), signed: false, sel: None, atomic_size: 0 })))
            }
            InstanceKind::Item(d) => {
                let path = self.path_of(d);
                if let Some(h) = self.hooks.get(&path) { FnKind::Hook(*h) }
                else if let Some(x) = self.redirects.get(&path) { let i = Instance::mono(self.tcx, *x); FnKind::Redirect(self.fn_id(i)) }
                else if let Some(h) = self.hasher_cut(d) { FnKind::Hook(h) }
                else if self.tcx.is_constructor(d) { self.body_kind(f)? }
                else if self.tcx.is_foreign_item(d) || (!self.tcx.is_mir_available(d)) {
                    let n = self.extern_name(d);
                    if let Some(h) = self.hooks.get(&n) { FnKind::Hook(*h) }
                    else if let Some(x) = self.externs.get(&n) {
                        let i = Instance::mono(self.tcx, *x);
                        FnKind::Redirect(self.fn_id(i))
                    } else if n.starts_with("rust_") || n.starts_with("__rust") || n.contains("panic") {
                        return err(format!("unresolved extern fn {n} ({path})"));
                    } else { return err(format!("unresolved extern fn {n} ({path})")); }
                } else { self.body_kind(f)? }
            }
            _ => self.body_kind(f)?,
        };
        self.fns[f as usize].kind = k;
        Ok(k)
    }
    /// Every implementation of `core::hash::Hasher` is replaced by one that hashes everything to 0:
    /// results of hash tables do not depend on the hash values, except for iteration order.
    fn hasher_cut(&self, d: DefId) -> Option<Hook> {
        let tcx = self.tcx;
        let p = tcx.opt_parent(d)?;
        if !matches!(tcx.def_kind(p), rustc_hir::def::DefKind::Impl { of_trait: true }) { return None; }
        let t = tcx.impl_trait_id(p);
        if self.path_of(t) != "core::hash::Hasher" { return None; }
        let n = tcx.item_name(d);
        if n.as_str() == "finish" { Some(Hook::ZeroHash) } else { Some(Hook::Unit) }
    }
    pub fn body_kind(&mut self, f: FnId) -> X<FnKind> {
        match self.lower_body(f) {
            Ok(b) => Ok(FnKind::Body(Box::leak(Box::new(b)))),
            Err(e) => err(format!("lowering {}: {e}", self.fns[f as usize].name)),
        }
    }

    // ---------------------------------------------------------------- memory
    fn mref(&self, st: &State, a: u64) -> X<MRef> {
        let id = (a >> 32) as u32;
        if id == 0 { return err(format!("null/dangling access {a:#x}")); }
        if id < STACK { return Ok(MRef::Heap(id)); }
        if id < GLOB { let d = (id - STACK) as usize; if d < st.frames.len() { return Ok(MRef::Stack(d)); } return err("dangling stack access"); }
        if id < FUNC { return Ok(MRef::Glob(id - GLOB)); }
        err(format!("data access to code/tagged address {a:#x}"))
    }
    pub fn with_mem<T>(&mut self, st: &State, a: u64, n: u64, f: impl FnOnce(&mut Pool, &Alloc, usize) -> T) -> X<T> {
        let off = (a & 0xffff_ffff) as usize;
        match self.mref(st, a)? {
            MRef::Heap(id) => {
                let al = st.heap.get(id).ok_or_else(|| Stop::Err(format!("use after free at {a:#x}")))?;
                if off + n as usize > al.bytes.len() { return err(format!("heap out-of-bounds read off {off} n {n} size {}", al.bytes.len())); }
                Ok(f(&mut self.pool, al, off))
            }
            MRef::Stack(d) => {
                let al = &st.frames[d].mem;
                if off + n as usize > al.bytes.len() { return err("stack out-of-bounds read"); }
                Ok(f(&mut self.pool, al, off))
            }
            MRef::Glob(g) => {
                let al = match st.globs.get(&g) { Some(a) => a.clone(), None => self.glob(g) };
                if off + n as usize > al.bytes.len() { return err(format!("global out-of-bounds read off {off} n {n} size {}", al.bytes.len())); }
                Ok(f(&mut self.pool, &al, off))
            }
        }
    }
    pub fn with_mem_mut<T>(&mut self, st: &mut State, a: u64, n: u64, f: impl FnOnce(&mut Pool, &mut Alloc, usize) -> T) -> X<T> {
        let off = (a & 0xffff_ffff) as usize;
        match self.mref(st, a)? {
            MRef::Heap(id) => {
                let al = st.heap.get_mut(id).ok_or_else(|| Stop::Err(format!("use after free at {a:#x}")))?;
                if off + n as usize > al.bytes.len() { return err(format!("heap out-of-bounds write off {off} n {n} size {}", al.bytes.len())); }
                Ok(f(&mut self.pool, al, off))
            }
            MRef::Stack(d) => {
                let al = Rc::make_mut(&mut st.frames[d].mem);
                if off + n as usize > al.bytes.len() { return err("stack out-of-bounds write"); }
                Ok(f(&mut self.pool, al, off))
            }
            MRef::Glob(g) => {
                if !st.globs.contains_key(&g) { let a = self.glob(g); Rc::make_mut(&mut st.globs).insert(g, a); }
                let al = Rc::make_mut(Rc::make_mut(&mut st.globs).get_mut(&g).unwrap());
                if off + n as usize > al.bytes.len() { return err("global out-of-bounds write"); }
                Ok(f(&mut self.pool, al, off))
            }
        }
    }
    pub fn load_c(&mut self, st: &State, a: u64, n: u32) -> X<Sv> {
        if n == 0 { return Ok(Sv::C(0)); }
        self.with_mem(st, a, n as u64, |p, al, o| al.read(p, o, n as usize))
    }
    pub fn store_c(&mut self, st: &mut State, a: u64, n: u32, v: Sv) -> X<()> {
        if n == 0 { return Ok(()); }
        self.with_mem_mut(st, a, n as u64, |p, al, o| al.write(p, o, n as usize, v))
    }
    pub fn load(&mut self, st: &mut State, a: Sv, n: u32) -> X<Sv> {
        let e = match a { Sv::C(a) => return self.load_c(st, a as u64, n), Sv::S(e) => e };
        if let Sup::One(v) = self.pool.sup(e) {
            let t = self.pool.table(e).unwrap();
            let d = st.dom[v as usize];
            // runs of equal loaded value over the domain of v
            let mut runs: Vec<(u8, Sv)> = vec![]; // (last value of run, loaded)
            let mut cache: FxHashMap<u128, Sv> = Default::default();
            for x in 0..256usize {
                if d[x / 64] >> (x % 64) & 1 == 0 { continue; }
                let lv = match cache.get(&t[x]) { Some(v) => *v, None => { 
                    // a domain over-approximates what constraints over several variables leave of it
                    let lv = match self.load_c(st, t[x] as u64, n) {
                        Err(_) if st.multi[v as usize] && !self.may_be(st, v, x as u8) => continue,
                        r => r?,
                    };
                    cache.insert(t[x], lv); lv } };
                match runs.last_mut() { Some(r) if r.1 == lv => r.0 = x as u8, _ => runs.push((x as u8, lv)) }
            }
            let vv = Sv::S(self.pool.var(v));
            let mut acc = runs.last().ok_or(Stop::Kill)?.1;
            for (hi, lv) in runs.iter().rev().skip(1) {
                let c = self.pool.bin(Bin::Ule, vv, Sv::C(*hi as u128), 8);
                acc = self.pool.ite(c, *lv, acc, n * 8);
            }
            return Ok(acc);
        }
        let a = self.concretize(st, a, 64)?;
        self.load_c(st, a as u64, n)
    }
    pub fn store(&mut self, st: &mut State, a: Sv, n: u32, v: Sv) -> X<()> {
        let a = self.concretize(st, a, 64)? as u64;
        self.store_c(st, a, n, v)
    }
    pub fn snapshot(&mut self, st: &mut State, a: u64, n: u64) -> X<(Vec<u8>, Vec<(u32, E)>)> {
        if n == 0 { return Ok((vec![], vec![])); }
        self.with_mem(st, a, n, |_, al, o| al.snapshot(o, n as usize))
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 || dst == src { return Ok(()); }
        if n <= 16 && (n.is_power_of_two()) { let v = self.load_c(st, src, n as u32)?; return self.store_c(st, dst, n as u32, v); }
        let (b, s) = self.snapshot(st, src, n)?;
        self.with_mem_mut(st, dst, n, |_, al, o| al.put(o, &b, &s))
    }

    // ------------------------------------------------------------- decisions
    pub fn new_var(&mut self, st: &mut State) -> E {
        let v = st.nvars;
        st.nvars += 1;
        st.dom.push([u64::MAX; 4]);
        st.multi.push(false);
        st.model.push(0);
        self.pool.var(v)
    }
    fn and_dom(a: Dom, b: Dom) -> Dom { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
    fn not_dom(a: Dom) -> Dom { [!a[0], !a[1], !a[2], !a[3]] }
    fn empty(a: Dom) -> bool { a == [0; 4] }
    fn pick(a: Dom) -> u8 { for i in 0..4 { if a[i] != 0 { return (i * 64) as u8 + a[i].trailing_zeros() as u8; } } 0 }

    fn eval_model(&self, st: &State, c: E) -> u128 {
        let mut memo = FxHashMap::default();
        self.pool.eval(c, &st.model, &mut memo)
    }
    /// Can `c` take value `val` under the path condition? Returns an updated model if so.
    fn feasible(&mut self, st: &State, c: E, val: bool) -> Option<Vec<u8>> {
        if (self.eval_model(st, c) & 1 == 1) == val { return Some(st.model.clone()); }
        if let Some((v, t)) = self.pool.truth(c) {
            let d = Self::and_dom(st.dom[v as usize], if val { t } else { Self::not_dom(t) });
            if Self::empty(d) { self.stats.decided_by_domain += 1; return None; }
            if !st.multi[v as usize] {
                self.stats.decided_by_domain += 1;
                let mut m = st.model.clone();
                m[v as usize] = Self::pick(d);
                return Some(m);
            }
        }
        let lit = match self.pool.not(Sv::S(c), 1) { _ if val => c, Sv::S(e) => e, Sv::C(_) => unreachable!() };
        let cs = self.solver.slice(&self.pool, &st.pc, lit);
        let r = self.solver.check(&self.pool, &cs)?;
        let mut m = st.model.clone();
        for (v, x) in r { m[v as usize] = x; }
        Some(m)
    }
    fn may_be(&mut self, st: &State, v: u32, x: u8) -> bool {
        let vv = Sv::S(self.pool.var(v));
        match self.pool.bin(Bin::Eq, vv, Sv::C(x as u128), 8) { Sv::C(b) => b & 1 == 1, Sv::S(e) => self.feasible(st, e, true).is_some() }
    }
    fn constrain(&mut self, st: &mut State, c: E, val: bool, model: Vec<u8>) {
        st.model = model;
        // conjunctions are taken apart: what concerns one variable only narrows its domain
        for (c, val) in self.pool.conjuncts(c, val) { self.constrain1(st, c, val); }
        st.known.insert(c, val);
    }
    fn constrain1(&mut self, st: &mut State, c: E, val: bool) {
        let lit = if val { c } else { match self.pool.not(Sv::S(c), 1) { Sv::S(e) => e, _ => unreachable!() } };
        st.pc.push(lit);
        st.known.insert(c, val);
        if let Some((v, t)) = self.pool.truth(c) {
            st.dom[v as usize] = Self::and_dom(st.dom[v as usize], if val { t } else { Self::not_dom(t) });
        } else {
            for v in self.solver.vars(&self.pool, c).iter() { st.multi[*v as usize] = true; }
        }
    }
    pub fn decide(&mut self, st: &mut State, c: Sv) -> X<bool> {
        let c = match c { Sv::C(v) => return Ok(v & 1 == 1), Sv::S(e) => e };
        if let Some(b) = st.known.get(&c) { return Ok(*b); }
        let p = self.eval_model(st, c) & 1 == 1;
        match self.feasible(st, c, !p) {
            None => { st.known.insert(c, p); Ok(p) }
            Some(m2) => {
                self.stats.forks += 1;
                if self.trace || std::env::var_os("SYMEX_FORKS").is_some() {
                    let s = self.where_(st);
                    *self.fork_sites.entry(s).or_default() += 1;
                }
                let mut o = st.clone();
                o.forks += 1;
                st.forks += 1;
                self.constrain(&mut o, c, !p, m2);
                self.work.push(o);
                let m = st.model.clone();
                self.constrain(st, c, p, m);
                Ok(p)
            }
        }
    }
    pub fn assume(&mut self, st: &mut State, c: Sv) -> X<()> {
        let c = match c { Sv::C(v) => return if v & 1 == 1 { Ok(()) } else { Err(Stop::Kill) }, Sv::S(e) => e };
        if let Some(b) = st.known.get(&c) { return if *b { Ok(()) } else { Err(Stop::Kill) }; }
        match self.feasible(st, c, true) {
            None => Err(Stop::Kill),
            Some(m) => { self.constrain(st, c, true, m); Ok(()) }
        }
    }
    pub fn concretize(&mut self, st: &mut State, v: Sv, w: u32) -> X<u128> {
        let e = match v { Sv::C(v) => return Ok(v), Sv::S(e) => e };
        loop {
            let x = self.eval_model(st, e);
            let c = self.pool.bin(Bin::Eq, Sv::S(e), Sv::C(x), w);
            // decide() picks the polarity of the current model: equality holds
            if self.decide(st, c)? { return Ok(x); }
        }
    }
    pub fn where_(&self, st: &State) -> String {
        let mut parts = vec![];
        for f in st.frames.iter().rev() {
            let n = &self.fns[f.body.fid as usize].name;
            let sp = span_str(self.tcx, f.body.blocks[f.bb as usize].span);
            parts.push(format!("{n} ({sp})"));
            if parts.len() >= 6 { break; }
        }
        parts.join(" < ")
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| {
            let n = &self.fns[f.body.fid as usize].name;
            format!("{n} ({})", span_str(self.tcx, f.body.blocks[f.bb as usize].span))
        }).collect()
    }

    // ---------------------------------------------------------------- places
    #[inline]
    fn depth(st: &State) -> usize { st.frames.len() - 1 }
    fn local_load(&mut self, st: &State, off: u32, n: u32) -> Sv {
        let al = &st.frames.last().unwrap().mem;
        al.read(&mut self.pool, off as usize, n as usize)
    }
    fn place(&mut self, st: &mut State, p: &Place) -> X<(Sv, Sv)> {
        let mut a = Sv::C(stack_addr(Self::depth(st), p.off) as u128);
        let mut meta = Sv::C(0);
        for pr in p.proj.iter() {
            match pr {
                Proj::Off(o) => a = self.pool.bin(Bin::Add, a, Sv::C(*o as u128), 64),
                Proj::Deref { fat } => {
                    let p = self.load(st, a, 8)?;
                    if *fat { let b = self.pool.bin(Bin::Add, a, Sv::C(8), 64); meta = self.load(st, b, 8)?; }
                    a = p;
                }
                Proj::DynOff { off, align } => {
                    let vt = self.concretize(st, meta, 64)? as u64;
                    let al = match self.load_c(st, vt + 16, 8)? { Sv::C(v) => v as u64, _ => return err("symbolic vtable") }.max(*align);
                    let o = (off + al - 1) / al * al;
                    a = self.pool.bin(Bin::Add, a, Sv::C(o as u128), 64);
                }
                Proj::Index { local, elem } => {
                    let i = self.local_load(st, *local, 8);
                    let o = self.pool.bin(Bin::Mul, i, Sv::C(*elem as u128), 64);
                    a = self.pool.bin(Bin::Add, a, o, 64);
                }
                Proj::ConstIdx { off, elem, from_end, len } => {
                    if !*from_end { a = self.pool.bin(Bin::Add, a, Sv::C((off * elem) as u128), 64); }
                    else {
                        let n = match len { Some(n) => *n as u128, None => self.concretize(st, meta, 64)? };
                        a = self.pool.bin(Bin::Add, a, Sv::C((n - *off as u128) * *elem as u128), 64);
                    }
                }
                Proj::Sub { from, to, from_end, elem, len } => {
                    if len.is_none() {
                        let n = self.concretize(st, meta, 64)?;
                        meta = Sv::C(if *from_end { n - *to as u128 - *from as u128 } else { (*to - *from) as u128 });
                    }
                    a = self.pool.bin(Bin::Add, a, Sv::C((from * elem) as u128), 64);
                }
            }
        }
        Ok((a, meta))
    }
    pub fn scalar(&mut self, st: &mut State, op: &Op, n: u32) -> X<Sv> {
        match op {
            Op::Place(p) => {
                if p.proj.is_empty() { return Ok(self.local_load(st, p.off, n)); }
                let (a, _) = self.place(st, p)?;
                self.load(st, a, n)
            }
            Op::Imm(v) => Ok(Sv::C(*v)),
            Op::Pair(x, y) => Ok(Sv::C(*x as u128 | (*y as u128) << 64)),
            Op::Mem(a) => self.load_c(st, *a, n),
            Op::AddrOf(_) => err("scalar of unsized"),
        }
    }
    /// copy an operand of `n` bytes to a concrete address
    fn op_to(&mut self, st: &mut State, op: &Op, dst: u64, n: u64) -> X<()> {
        match op {
            Op::Place(p) => {
                let (a, _) = self.place(st, p)?;
                match a {
                    Sv::C(a) => self.copy(st, dst, a as u64, n),
                    Sv::S(_) => {
                        if n <= 16 { let v = self.load(st, a, n as u32)?; return self.store_c(st, dst, n as u32, v); }
                        let a = self.concretize(st, a, 64)?;
                        self.copy(st, dst, a as u64, n)
                    }
                }
            }
            Op::Imm(v) => {
                if n <= 16 { self.store_c(st, dst, n as u32, Sv::C(*v)) } else { err("big imm") }
            }
            Op::Pair(x, y) => { self.store_c(st, dst, 8, Sv::C(*x as u128))?; if n > 8 { self.store_c(st, dst + 8, 8, Sv::C(*y as u128))?; } Ok(()) }
            Op::Mem(a) => self.copy(st, dst, *a, n),
            Op::AddrOf(_) => err("copy of unsized"),
        }
    }

    // ------------------------------------------------------------ statements
    fn exec_st(&mut self, st: &mut State, s: &St) -> X<()> {
        match s {
            St::Assign { dst, size, rv } => {
                let da = if dst.proj.is_empty() { stack_addr(Self::depth(st), dst.off) } else {
                    let (a, _) = self.place(st, dst)?;
                    self.concretize(st, a, 64)? as u64
                };
                self.assign(st, da, *size, rv)
            }
            St::SetDiscr { dst, off, size, tag } => {
                let (a, _) = self.place(st, dst)?;
                let a = self.concretize(st, a, 64)? as u64;
                self.store_c(st, a + off, *size, Sv::C(*tag))
            }
            St::CopyNonOverlapping { src, dst, n, elem } => {
                let n = self.scalar(st, n, 8)?; let n = self.concretize(st, n, 64)? as u64;
                let s = self.scalar(st, src, 8)?; let s = self.concretize(st, s, 64)? as u64;
                let d = self.scalar(st, dst, 8)?; let d = self.concretize(st, d, 64)? as u64;
                self.copy(st, d, s, n * elem)
            }
        }
    }
    fn read_vt(&mut self, st: &State, a: u64) -> X<u64> { match self.load_c(st, a, 8)? { Sv::C(v) => Ok(v as u64), _ => err("symbolic vtable") } }

    fn assign(&mut self, st: &mut State, da: u64, size: u64, rv: &Rv) -> X<()> {
        match rv {
            Rv::Use(op) => self.op_to(st, op, da, size),
            Rv::Ref(p) => {
                let (a, m) = self.place(st, p)?;
                self.store_c(st, da, 8, a)?;
                if size == 16 { self.store_c(st, da + 8, 8, m)?; }
                Ok(())
            }
            Rv::Bin { k, a, b, w, bw, signed, bsigned, ovf_off } => {
                let x = self.scalar(st, a, w / 8)?;
                let y = self.scalar(st, b, bw / 8)?;
                let w = *w;
                let r = match k {
                    BK::Plain(op) => {
                        if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) && y == Sv::C(0) { return err("division by zero UB"); }
                        // bool operands: keep 1-bit logic
                        self.binop(*op, x, y, w)
                    }
                    BK::Ne => { let r = self.pool.bin(Bin::Eq, x, y, w); self.pool.not(r, 1) }
                    BK::Gt => self.pool.bin(Bin::Ult, y, x, w),
                    BK::Ge => self.pool.bin(Bin::Ule, y, x, w),
                    BK::SGt => self.pool.bin(Bin::Slt, y, x, w),
                    BK::SGe => self.pool.bin(Bin::Sle, y, x, w),
                    BK::ShlW | BK::ShrW | BK::AShrW => {
                        let y = if *bw > w { self.pool.extract(y, *bw, 0, w) } else { self.pool.zext(y, *bw, w) };
                        let y = self.pool.bin(Bin::And, y, Sv::C(w as u128 - 1), w);
                        self.pool.bin(match k { BK::ShlW => Bin::Shl, BK::ShrW => Bin::LShr, _ => Bin::AShr }, x, y, w)
                    }
                    BK::OvfAdd | BK::OvfSub | BK::OvfMul => {
                        let (r, o) = self.ovf(st, k, x, y, w, *signed)?;
                        self.store_c(st, da, w / 8, r)?;
                        let o = self.pool.zext(o, 1, 8);
                        return self.store_c(st, da + *ovf_off as u64, 1, o);
                    }
                    BK::Cmp => {
                        let lt = self.pool.bin(if *signed { Bin::Slt } else { Bin::Ult }, x, y, w);
                        let eq = self.pool.bin(Bin::Eq, x, y, w);
                        let r = self.pool.ite(eq, Sv::C(0), Sv::C(1), 8);
                        self.pool.ite(lt, Sv::C(0xff), r, 8)
                    }
                    BK::Offset(sz) => {
                        let _ = bsigned;
                        let o = self.pool.bin(Bin::Mul, y, Sv::C(*sz as u128), 64);
                        self.pool.bin(Bin::Add, x, o, 64)
                    }
                    BK::Float(op) => {
                        let x = self.concretize(st, x, w)?;
                        let y = self.concretize(st, y, w)?;
                        float_bin(*op, x, y, w).ok_or_else(|| Stop::Err("float op".into()))?
                    }
                };
                let is_cmp = matches!(k, BK::Plain(Bin::Eq | Bin::Ult | Bin::Ule | Bin::Slt | Bin::Sle) | BK::Ne | BK::Gt | BK::Ge | BK::SGt | BK::SGe);
                let r = if is_cmp { self.pool.zext(r, 1, 8) } else { r };
                self.store_c(st, da, size as u32, r)
            }
            Rv::Not(op) => { let v = self.scalar(st, op, size as u32)?; let r = self.pool.not(v, size as u32 * 8); self.store_c(st, da, size as u32, r) }
            Rv::NotBool(op) => {
                let v = self.scalar(st, op, 1)?;
                let b = self.pool.extract(v, 8, 0, 1);
                let r = self.pool.not(b, 1);
                let r = self.pool.zext(r, 1, 8);
                self.store_c(st, da, 1, r)
            }
            Rv::Neg(op) => { let v = self.scalar(st, op, size as u32)?; let r = self.pool.neg(v, size as u32 * 8); self.store_c(st, da, size as u32, r) }
            Rv::FNeg(op) => {
                let v = self.scalar(st, op, size as u32)?;
                let r = self.pool.bin(Bin::Xor, v, Sv::C(1u128 << (size * 8 - 1)), size as u32 * 8);
                self.store_c(st, da, size as u32, r)
            }
            Rv::Meta(op) => {
                let v = self.scalar(st, op, 16)?;
                let r = self.pool.extract(v, 128, 64, 64);
                self.store_c(st, da, 8, r)
            }
            Rv::IntCast { op, from, to, signed } => {
                let v = self.scalar(st, op, from / 8)?;
                let r = if to <= from { self.pool.extract(v, *from, 0, *to) } else if *signed { self.pool.sextend(v, *from, *to) } else { self.pool.zext(v, *from, *to) };
                self.store_c(st, da, to / 8, r)
            }
            Rv::IntToFloat { op, from, signed, to } => {
                let v = self.scalar(st, op, from / 8)?;
                let v = self.concretize(st, v, *from)?;
                let f = if *signed { sext(v, *from) as f64 } else { v as f64 };
                let f32v = if *signed { sext(v, *from) as f32 } else { v as f32 };
                let r = match to { 64 => f.to_bits() as u128, 32 => f32v.to_bits() as u128, _ => return err("float width") };
                self.store_c(st, da, to / 8, Sv::C(r))
            }
            Rv::FloatToInt { op, from, to, signed } => {
                let v = self.scalar(st, op, from / 8)?;
                let v = self.concretize(st, v, *from)?;
                let f = match from { 64 => f64::from_bits(v as u64), 32 => f32::from_bits(v as u32) as f64, _ => return err("float width") };
                let r = if *signed {
                    let (lo, hi) = (-(2f64.powi(*to as i32 - 1)), 2f64.powi(*to as i32 - 1));
                    if f.is_nan() { 0 } else if f <= lo { (1u128 << (to - 1)) & mask(*to) } else if f >= hi { mask(*to) >> 1 } else { f as i128 as u128 & mask(*to) }
                } else if f.is_nan() || f <= 0.0 { 0 } else if f >= 2f64.powi(*to as i32) { mask(*to) } else { f as u128 };
                self.store_c(st, da, to / 8, Sv::C(r))
            }
            Rv::FloatToFloat { op, from, to } => {
                let v = self.scalar(st, op, from / 8)?;
                let v = self.concretize(st, v, *from)?;
                let f = match from { 64 => f64::from_bits(v as u64), 32 => f32::from_bits(v as u32) as f64, _ => return err("float width") };
                let r = match to { 64 => f.to_bits() as u128, 32 => (f as f32).to_bits() as u128, _ => return err("float width") };
                self.store_c(st, da, to / 8, Sv::C(r))
            }
            Rv::Unsize { op, meta } => {
                let v = self.scalar(st, op, 8)?;
                self.store_c(st, da, 8, v)?;
                self.store_c(st, da + 8, 8, Sv::C(*meta as u128))
            }
            Rv::Upcast { op, slot } => {
                let v = self.scalar(st, op, 16)?;
                let p = self.pool.extract(v, 128, 0, 64);
                let m = self.pool.extract(v, 128, 64, 64);
                let m = self.concretize(st, m, 64)? as u64;
                let m = match slot { Some(s) => self.read_vt(st, m + 8 * s)?, None => m };
                self.store_c(st, da, 8, p)?;
                self.store_c(st, da + 8, 8, Sv::C(m as u128))
            }
            Rv::UnsizeStruct { op, parts } => {
                let src = match op {
                    Op::Place(p) => { let (a, _) = self.place(st, p)?; self.concretize(st, a, 64)? as u64 }
                    Op::Mem(a) => *a,
                    Op::Imm(v) if parts.len() == 1 => {
                        if let UPart::Ptr { from: 0, to, meta } = &parts[0] {
                            self.store_c(st, da + to, 8, Sv::C(*v))?;
                            return self.store_c(st, da + to + 8, 8, Sv::C(*meta as u128));
                        }
                        return err("unsize imm");
                    }
                    _ => return err("unsize struct operand"),
                };
                for p in parts.iter() {
                    match p {
                        UPart::Copy { from, to, n } => self.copy(st, da + to, src + from, *n)?,
                        UPart::Ptr { from, to, meta } => {
                            let v = self.load_c(st, src + from, 8)?;
                            self.store_c(st, da + to, 8, v)?;
                            self.store_c(st, da + to + 8, 8, Sv::C(*meta as u128))?;
                        }
                        UPart::Up { from, to, slot } => {
                            let v = self.load_c(st, src + from, 8)?;
                            let m = self.read_vt(st, src + from + 8)?;
                            let m = match slot { Some(s) => self.read_vt(st, m + 8 * s)?, None => m };
                            self.store_c(st, da + to, 8, v)?;
                            self.store_c(st, da + to + 8, 8, Sv::C(m as u128))?;
                        }
                    }
                }
                Ok(())
            }
            Rv::Discr(p, d) => {
                let r = match &d.kind {
                    DK::Const(v) => Sv::C(*v),
                    _ => { let (a, _) = self.place(st, p)?; self.discr(st, a, d)? }
                };
                self.store_c(st, da, d.dsize, r)
            }
            Rv::Agg { parts, tag, .. } => {
                for (o, n, op) in parts.iter() { self.op_to(st, op, da + *o as u64, *n as u64)?; }
                if let Some((o, n, v)) = tag { self.store_c(st, da + o, *n, Sv::C(*v))?; }
                Ok(())
            }
            Rv::Repeat { op, esize, n } => {
                if *n == 0 || *esize == 0 { return Ok(()); }
                if let Op::Imm(v) = op {
                    let esize = *esize as usize; let n = *n as usize; let v = *v;
                    return self.with_mem_mut(st, da, (esize * n) as u64, |_, al, o| {
                        al.clear_sym(o, esize * n);
                        if v == 0 { al.bytes[o..o + esize * n].fill(0); } else { for i in 0..n { al.write_c(o + i * esize, esize, v); } }
                    });
                }
                self.op_to(st, op, da, *esize)?;
                for i in 1..*n { self.copy(st, da + i * esize, da, *esize)?; }
                Ok(())
            }
        }
    }
    fn binop(&mut self, op: Bin, x: Sv, y: Sv, w: u32) -> Sv { self.pool.bin(op, x, y, w) }
    pub fn ovf(&mut self, st: &mut State, k: &BK, x: Sv, y: Sv, w: u32, signed: bool) -> X<(Sv, Sv)> {
        let p = &mut self.pool;
        Ok(match (k, signed) {
            (BK::OvfAdd, false) => { let r = p.bin(Bin::Add, x, y, w); (r, p.bin(Bin::Ult, r, x, w)) }
            (BK::OvfSub, false) => { let r = p.bin(Bin::Sub, x, y, w); (r, p.bin(Bin::Ult, x, y, w)) }
            (BK::OvfAdd, true) => {
                let r = p.bin(Bin::Add, x, y, w);
                let a = p.bin(Bin::Xor, x, r, w); let b = p.bin(Bin::Xor, y, r, w); let c = p.bin(Bin::And, a, b, w);
                (r, p.bin(Bin::Slt, c, Sv::C(0), w))
            }
            (BK::OvfSub, true) => {
                let r = p.bin(Bin::Sub, x, y, w);
                let a = p.bin(Bin::Xor, x, y, w); let b = p.bin(Bin::Xor, x, r, w); let c = p.bin(Bin::And, a, b, w);
                (r, p.bin(Bin::Slt, c, Sv::C(0), w))
            }
            _ => {
                if w <= 64 {
                    let (a, b) = if signed { (p.sextend(x, w, 2 * w), p.sextend(y, w, 2 * w)) } else { (p.zext(x, w, 2 * w), p.zext(y, w, 2 * w)) };
                    let m = p.bin(Bin::Mul, a, b, 2 * w);
                    let r = p.extract(m, 2 * w, 0, w);
                    let back = if signed { p.sextend(r, w, 2 * w) } else { p.zext(r, w, 2 * w) };
                    let eq = p.bin(Bin::Eq, m, back, 2 * w);
                    (r, p.not(eq, 1))
                } else {
                    let a = self.concretize(st, x, w)?; let b = self.concretize(st, y, w)?;
                    if signed { let (r, o) = (a as i128).overflowing_mul(b as i128); (Sv::C(r as u128), Sv::C(o as u128)) }
                    else { let (r, o) = a.overflowing_mul(b); (Sv::C(r), Sv::C(o as u128)) }
                }
            }
        })
    }
    pub fn discr(&mut self, st: &mut State, a: Sv, d: &Discr) -> X<Sv> {
        let dw = d.dsize * 8;
        Ok(match &d.kind {
            DK::Const(v) => Sv::C(*v),
            DK::Direct { off, size, signed } => {
                let a = self.pool.bin(Bin::Add, a, Sv::C(*off as u128), 64);
                let t = self.load(st, a, *size)?;
                let w = size * 8;
                if dw <= w { self.pool.extract(t, w, 0, dw) } else if *signed { self.pool.sextend(t, w, dw) } else { self.pool.zext(t, w, dw) }
            }
            DK::Niche { off, size, start, vstart, vend, untagged, map } => {
                let a = self.pool.bin(Bin::Add, a, Sv::C(*off as u128), 64);
                let t = self.load(st, a, *size)?;
                let w = size * 8;
                if w > 64 && matches!(t, Sv::S(_)) { return err("wide symbolic niche"); }
                let rel = self.pool.bin(Bin::Sub, t, Sv::C(*start & mask(w)), w);
                let n = (*vend - *vstart) as u128;
                let inr = self.pool.bin(Bin::Ule, rel, Sv::C(n), w);
                let mp = |v: u128| map.as_ref().map(|m| m[v as usize]).unwrap_or(v);
                match rel {
                    Sv::C(r) => Sv::C(if r <= n { mp(r + *vstart as u128) } else { mp(*untagged as u128) }),
                    _ => {
                        let un = Sv::C(mp(*untagged as u128));
                        if map.is_some() {
                            let mut acc = un;
                            for i in 0..=n { let c = self.pool.bin(Bin::Eq, rel, Sv::C(i), w); acc = self.pool.ite(c, Sv::C(mp(i + *vstart as u128)), acc, dw); }
                            acc
                        } else {
                            let r = if dw <= w { self.pool.extract(rel, w, 0, dw) } else { self.pool.zext(rel, w, dw) };
                            let r = self.pool.bin(Bin::Add, r, Sv::C(*vstart as u128), dw);
                            self.pool.ite(inr, r, un, dw)
                        }
                    }
                }
            }
        })
    }

    // ----------------------------------------------------------- terminators
    pub fn push_frame(&mut self, st: &mut State, body: &'static Body, args: &[ArgVal], ret_addr: u64, ret_size: u32, ret_bb: Option<u32>) -> X<()> {
        if st.frames.len() > 3000 { return Err(Stop::Panic("stack overflow (recursion depth)".into())); }
        let mut mem = Alloc { bytes: vec![0; body.frame as usize], sym: None, dead: false };
        let mut nslots = 0;
        for a in &body.args { nslots += match a { ArgSlot::Local(..) => 1, ArgSlot::Spread(_, v) => v.len() }; }
        let mut it = args.iter();
        let mut first = true;
        let skip = body.skip_self && args.len() + 1 == nslots;
        if args.len() != nslots && !skip {
            return err(format!("arg count mismatch calling {}: {} vs {}", self.fns[body.fid as usize].name, args.len(), nslots));
        }
        for a in &body.args {
            match a {
                ArgSlot::Local(o, n) => {
                    if first && skip { first = false; continue; }
                    first = false;
                    let v = it.next().unwrap();
                    v.put(&mut self.pool, &mut mem, *o, *n)?;
                }
                ArgSlot::Spread(_, v) => for (o, n) in v.iter() { let x = it.next().unwrap(); x.put(&mut self.pool, &mut mem, *o, *n)?; },
            }
        }
        st.frames.push(Frame { body, bb: 0, idx: 0, mem: Rc::new(mem), ret_addr, ret_size, ret_bb });
        Ok(())
    }
    fn arg(&mut self, st: &mut State, a: &Arg) -> X<ArgVal> {
        if a.unsized_self {
            let Op::AddrOf(p) = &a.op else { return err("unsized arg") };
            let (x, m) = self.place(st, p)?;
            let x = self.concretize(st, x, 64)?; let m = self.concretize(st, m, 64)?;
            return Ok(ArgVal::S(Sv::C(x | m << 64), 16));
        }
        if a.size <= 16 && (a.size.is_power_of_two() || a.size == 0) { let v = if a.size == 0 { Sv::C(0) } else { self.scalar(st, &a.op, a.size as u32)? }; return Ok(ArgVal::S(v, a.size as u32)); }
        let src = match &a.op {
            Op::Place(p) => { let (x, _) = self.place(st, p)?; self.concretize(st, x, 64)? as u64 }
            Op::Mem(x) => *x,
            Op::Imm(v) => return Ok(ArgVal::S(Sv::C(*v), a.size as u32)),
            Op::Pair(x, y) => return Ok(ArgVal::S(Sv::C(*x as u128 | (*y as u128) << 64), 16)),
            _ => return err("arg"),
        };
        let (b, s) = self.snapshot(st, src, a.size)?;
        Ok(ArgVal::M(b, s))
    }
    fn goto(&mut self, st: &mut State, bb: u32) { let f = st.frames.last_mut().unwrap(); f.bb = bb; f.idx = 0; }

    pub fn call(&mut self, st: &mut State, f: FnId, mut args: Vec<ArgVal>, dst: u64, dsize: u64, target: Option<u32>) -> X<()> {
        let mut f = f;
        let kind = loop {
            match self.fn_kind(f)? { FnKind::Redirect(g) => {
                f = g;
                // a variadic function: the model takes six words
                if self.fns[g as usize].name.ends_with("::syscall") {
                    for a in args.iter_mut() { if let ArgVal::S(v, n) = a { if *n < 8 { let (v, n) = (*v, *n); let c = self.concretize(st, v, 8 * n)?; *a = ArgVal::S(Sv::C(c), 8); } } }
                    args.resize(7, ArgVal::S(Sv::C(0), 8));
                }
            } k => break k }
        };
        match kind {
            FnKind::Body(b) => {
                if self.fns[f as usize].merge && self.merge_depth.is_none() && self.args_symbolic(st, &args) {
                    if self.try_merge(st, b, &args, dst, dsize)? {
                        if let Some(t) = target { self.goto(st, t); }
                        return Ok(());
                    }
                }
                self.push_frame(st, b, &args, dst, dsize as u32, target)
            }
            FnKind::Virtual(i) => {
                let (x, m) = match &args[0] {
                    ArgVal::S(v, 16) => { let v = *v; (self.pool.extract(v, 128, 0, 64), self.pool.extract(v, 128, 64, 64)) }
                    ArgVal::M(..) => return err("virtual receiver"),
                    ArgVal::S(_, n) => return err(format!("virtual receiver size {n}")),
                };
                let m = self.concretize(st, m, 64)? as u64;
                let fp = self.read_vt(st, m + 8 * i as u64)?;
                args[0] = ArgVal::S(x, 8);
                let id = (fp >> 32) as u32;
                if id < FUNC { return err("bad vtable entry"); }
                self.call(st, id - FUNC, args, dst, dsize, target)
            }
            FnKind::DropDyn => {
                let ArgVal::S(v, 16) = args[0] else { return err("dropdyn arg") };
                let x = self.pool.extract(v, 128, 0, 64);
                let m = self.pool.extract(v, 128, 64, 64);
                let m = self.concretize(st, m, 64)? as u64;
                let fp = self.read_vt(st, m)?;
                if fp == 0 { if let Some(t) = target { self.goto(st, t); } return Ok(()); }
                self.call(st, (fp >> 32) as u32 - FUNC, vec![ArgVal::S(x, 8)], dst, 0, target)
            }
            FnKind::Intr(i) => crate::intrin::exec(self, st, i, args, dst, dsize, target),
            FnKind::Hook(h) => crate::intrin::hook(self, st, f, h, args, dst, dsize, target),
            FnKind::Redirect(_) | FnKind::Unknown => unreachable!(),
        }
    }
    fn args_symbolic(&mut self, st: &mut State, args: &[ArgVal]) -> bool {
        for a in args {
            match a {
                ArgVal::S(Sv::S(_), _) => return true,
                ArgVal::M(_, s) if !s.is_empty() => return true,
                // fat pointer to bytes: look behind it
                ArgVal::S(Sv::C(v), 16) => {
                    let (p, n) = (*v as u64, (*v >> 64) as u64);
                    if n > 0 && n < 4096 {
                        if let Ok(true) = self.with_mem(st, p, n, |_, al, o| al.has_sym(o, n as usize)) { return true; }
                    }
                }
                ArgVal::S(Sv::C(v), 8) => {
                    let p = *v as u64;
                    let id = (p >> 32) as u32;
                    if id != 0 && id < FUNC { if let Ok(true) = self.with_mem(st, p, 4, |_, al, o| al.has_sym(o, 4)) { return true; } }
                }
                _ => {}
            }
        }
        false
    }
    /// Run a pure function on all its paths and merge the results into ITE values.
    fn try_merge(&mut self, st: &mut State, b: &'static Body, args: &[ArgVal], dst: u64, dsize: u64) -> X<bool> {
        let mut s2 = st.clone();
        let base = st.pc.len();
        let depth = st.frames.len();
        // result goes to a scratch heap cell of the clone
        let cell = s2.heap.alloc(dsize.max(1) as usize);
        let caddr = (cell as u64) << 32;
        self.push_frame(&mut s2, b, args, caddr, dsize as u32, None)?;
        let saved = std::mem::take(&mut self.work);
        self.work.push(s2);
        self.merge_depth = Some(depth);
        let mut outs: Vec<(Vec<E>, Vec<Sv>)> = vec![];
        let mut ok = true;
        while let Some(mut s) = self.work.pop() {
            match self.run(&mut s) {
                Stop::MergeRet => {
                    let mut vals = vec![];
                    let mut o = 0;
                    while o < dsize { let n = (dsize - o).min(8); let n = if n >= 8 { 8 } else if n >= 4 { 4 } else if n >= 2 { 2 } else { 1 };
                        vals.push(self.load_c(&s, caddr + o, n as u32)?); o += n; }
                    outs.push((s.pc[base..].to_vec(), vals));
                }
                Stop::Kill => {}
                _ => { ok = false; break; }
            }
            if outs.len() > 3000 { ok = false; break; }
        }
        self.merge_depth = None;
        self.work = saved;
        if !ok || outs.is_empty() { return Ok(false); }
        self.stats.merges += 1;
        self.stats.merge_paths += outs.len() as u64;
        let k = outs[0].1.len();
        let mut acc: Vec<Sv> = outs.last().unwrap().1.clone();
        let mut o = 0;
        let mut sizes = vec![];
        while o < dsize { let n = (dsize - o).min(8); let n = if n >= 8 { 8 } else if n >= 4 { 4 } else if n >= 2 { 2 } else { 1 }; sizes.push(n); o += n; }
        for (pc, vals) in outs.iter().rev().skip(1) {
            let mut c = Sv::C(1);
            for e in pc { c = self.pool.bin(Bin::And, c, Sv::S(*e), 1); }
            for i in 0..k { acc[i] = self.pool.ite(c, vals[i], acc[i], sizes[i] as u32 * 8); }
        }
        // single-variable results: compress to range form
        for i in 0..k { acc[i] = self.compress(st, acc[i], sizes[i] as u32 * 8); }
        let mut o = 0;
        for i in 0..k { self.store_c(st, dst + o, sizes[i] as u32, acc[i])?; o += sizes[i]; }
        Ok(true)
    }
    /// Rewrite an expression of one variable as a chain of range tests over its current domain.
    pub fn compress(&mut self, st: &State, v: Sv, w: u32) -> Sv {
        let Sv::S(e) = v else { return v };
        let Sup::One(x) = self.pool.sup(e) else { return v };
        let t = self.pool.table(e).unwrap();
        let d = st.dom[x as usize];
        let mut runs: Vec<(u8, u128)> = vec![];
        for k in 0..256usize {
            if d[k / 64] >> (k % 64) & 1 == 0 { continue; }
            match runs.last_mut() { Some(r) if r.1 == t[k] => r.0 = k as u8, _ => runs.push((k as u8, t[k])) }
        }
        if runs.is_empty() || runs.len() > 24 { return v; }
        let vv = Sv::S(self.pool.var(x));
        let mut acc = Sv::C(runs.last().unwrap().1);
        for (hi, val) in runs.iter().rev().skip(1) {
            let c = self.pool.bin(Bin::Ule, vv, Sv::C(*hi as u128), 8);
            acc = self.pool.ite(c, Sv::C(*val), acc, w);
        }
        acc
    }

    pub fn do_return(&mut self, st: &mut State) -> X<()> {
        let f = st.frames.pop().unwrap();
        let (ro, rs) = f.body.ret;
        let n = rs.min(f.ret_size);
        if n > 0 {
            let (b, s) = f.mem.snapshot(ro as usize, n as usize);
            self.with_mem_mut(st, f.ret_addr, n as u64, |_, al, o| al.put(o, &b, &s))?;
        }
        if let Some(d) = self.merge_depth { if st.frames.len() == d { return Err(Stop::MergeRet); } }
        if st.frames.is_empty() { return Err(Stop::Done); }
        match f.ret_bb { Some(b) => { self.goto(st, b); Ok(()) } None => err("return from diverging call") }
    }

    fn exec_term(&mut self, st: &mut State, t: &'static Term) -> X<()> {
        match t {
            Term::Goto(b) => { self.goto(st, *b); Ok(()) }
            Term::Switch { op, w, targets, otherwise } => {
                let v = self.scalar(st, op, w / 8)?;
                match v {
                    Sv::C(v) => {
                        let b = targets.iter().find(|t| t.0 == v).map(|t| t.1).unwrap_or(*otherwise);
                        self.goto(st, b);
                    }
                    Sv::S(_) => {
                        for (val, b) in targets.iter() {
                            let c = self.pool.bin(Bin::Eq, v, Sv::C(*val), *w);
                            if self.decide(st, c)? { self.goto(st, *b); return Ok(()); }
                        }
                        self.goto(st, *otherwise);
                    }
                }
                Ok(())
            }
            Term::Return => self.do_return(st),
            Term::Unreachable => err("reached unreachable"),
            Term::Resume => err("unwinding"),
            Term::Drop { place, f, fat, target } => {
                let (a, m) = self.place(st, place)?;
                let a = self.concretize(st, a, 64)?; let m = self.concretize(st, m, 64)?;
                let arg = if *fat { ArgVal::S(Sv::C(a | m << 64), 16) } else { ArgVal::S(Sv::C(a), 8) };
                let d = stack_addr(Self::depth(st), 0);
                self.call(st, *f, vec![arg], d, 0, Some(*target))
            }
            Term::DropDyn { place, target } => {
                let (a, m) = self.place(st, place)?;
                let m = self.concretize(st, m, 64)? as u64;
                let fp = self.read_vt(st, m)?;
                if fp == 0 { self.goto(st, *target); return Ok(()); }
                let d = stack_addr(Self::depth(st), 0);
                self.call(st, (fp >> 32) as u32 - FUNC, vec![ArgVal::S(a, 8)], d, 0, Some(*target))
            }
            Term::Call { callee, args, dst, dsize, target } => {
                let mut av = Vec::with_capacity(args.len());
                for a in args.iter() { av.push(self.arg(st, a)?); }
                let da = if dst.proj.is_empty() { stack_addr(Self::depth(st), dst.off) } else { let (a, _) = self.place(st, dst)?; self.concretize(st, a, 64)? as u64 };
                let f = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Ptr(op) => {
                        let p = self.scalar(st, op, 8)?;
                        let p = self.concretize(st, p, 64)? as u64;
                        let id = (p >> 32) as u32;
                        if id < FUNC || (id - FUNC) as usize >= self.fns.len() { return err(format!("bad fn pointer {p:#x}")); }
                        id - FUNC
                    }
                };
                self.call(st, f, av, da, *dsize, *target)
            }
            Term::Assert { cond, expected, target, msg } => {
                let v = self.scalar(st, cond, 1)?;
                let b = self.pool.extract(v, 8, 0, 1);
                if self.decide(st, b)? == *expected { self.goto(st, *target); Ok(()) } else { Err(Stop::Panic(msg.to_string())) }
            }
            Term::Unsupported(s) => err(format!("unsupported terminator {s}")),
        }
    }
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            let f = st.frames.last_mut().unwrap();
            let body: &'static Body = f.body;
            let blk = &body.blocks[f.bb as usize];
            st.steps += 1;
            self.stats.steps += 1;
            if let Some(p) = &mut self.profile { *p.entry(body.fid).or_default() += 1; }
            if st.steps > self.step_limit { return Stop::Err("step limit".into()); }
            let i = f.idx as usize;
            let r = if i < blk.sts.len() {
                let r = self.exec_st(st, &blk.sts[i]);
                if r.is_ok() { st.frames.last_mut().unwrap().idx += 1; }
                r
            } else { self.exec_term(st, &blk.term) };
            if let Err(s) = r { return s; }
            if self.yield_on_fork && self.merge_depth.is_none() {
                if !self.work.is_empty() { return Stop::Yield; }
                if self.stats.steps > self.park_at { return Stop::Park; }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum ArgVal { S(Sv, u32), M(Vec<u8>, Vec<(u32, E)>) }
impl ArgVal {
    fn put(&self, p: &mut Pool, mem: &mut Alloc, o: u32, n: u32) -> X<()> {
        match self {
            ArgVal::S(v, k) => {
                if n == 0 { return Ok(()); }
                if *k == n { mem.write(p, o as usize, n as usize, *v); return Ok(()); }
                // unsized self passed by pointer: thin receiver
                if *k == 16 && n == 8 { let v = p.extract(*v, 128, 0, 64); mem.write(p, o as usize, 8, v); return Ok(()); }
                err(format!("arg size mismatch {k} vs {n}"))
            }
            ArgVal::M(b, s) => {
                if b.len() != n as usize { return err(format!("arg size mismatch {} vs {n}", b.len())); }
                mem.put(o as usize, b, s);
                Ok(())
            }
        }
    }
}

fn float_bin(op: BinOp, x: u128, y: u128, w: u32) -> Option<Sv> {
    macro_rules! go { ($t:ty, $b:ty) => {{
        let (a, b) = (<$t>::from_bits(x as $b), <$t>::from_bits(y as $b));
        let f = |v: $t| Sv::C(v.to_bits() as u128);
        let c = |v: bool| Sv::C(v as u128);
        Some(match op {
            BinOp::Add => f(a + b), BinOp::Sub => f(a - b), BinOp::Mul => f(a * b), BinOp::Div => f(a / b), BinOp::Rem => f(a % b),
            BinOp::Eq => c(a == b), BinOp::Ne => c(a != b), BinOp::Lt => c(a < b), BinOp::Le => c(a <= b), BinOp::Gt => c(a > b), BinOp::Ge => c(a >= b),
            _ => return None,
        })
    }} }
    match w { 64 => go!(f64, u64), 32 => go!(f32, u32), _ => None }
}
