//! MIR -> compact executable IR.
use crate::exec::*;
use crate::expr::*;
use crate::mem::*;
use rustc_abi::{FieldIdx, TagEncoding, VariantIdx, Variants};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, ConstAllocation, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, BinOp, CastKind, ConstValue, Operand, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, LayoutOf, TyAndLayout};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty};
use rustc_span::{Span, DUMMY_SP};

#[derive(Clone, Debug)]
pub enum Proj {
    Off(u64),
    /// field whose offset depends on the dynamic alignment of a dyn tail
    DynOff { off: u64, align: u64 },
    Deref { fat: bool },
    Index { local: u32, elem: u64 },
    ConstIdx { off: u64, elem: u64, from_end: bool, len: Option<u64> },
    Sub { from: u64, to: u64, from_end: bool, elem: u64, len: Option<u64> },
}

#[derive(Clone, Debug)]
pub struct Place {
    pub off: u32,
    pub proj: Box<[Proj]>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Place(Place),
    Imm(u128),
    /// two 8-byte words
    Pair(u64, u64),
    /// constant living in (global) memory
    Mem(u64),
    /// address of an unsized place (passed by pointer)
    AddrOf(Place),
}

#[derive(Clone, Debug)]
pub enum BK {
    Plain(Bin),
    Ne, Gt, Ge, SGt, SGe,
    ShlW, ShrW, AShrW,
    OvfAdd, OvfSub, OvfMul,
    Cmp,
    Offset(u64),
    Float(BinOp),
}

#[derive(Clone, Debug)]
pub struct Discr {
    pub kind: DK,
    pub dsize: u32,
}
#[derive(Clone, Debug)]
pub enum DK {
    Const(u128),
    Direct { off: u64, size: u32, signed: bool },
    Niche { off: u64, size: u32, start: u128, vstart: u32, vend: u32, untagged: u32, map: Option<Box<[u128]>> },
}

#[derive(Clone, Debug)]
pub enum Rv {
    Use(Op),
    Bin { k: BK, a: Op, b: Op, w: u32, bw: u32, signed: bool, bsigned: bool, ovf_off: u32 },
    Not(Op),
    NotBool(Op),
    Neg(Op),
    FNeg(Op),
    Meta(Op),
    Ref(Place),
    IntCast { op: Op, from: u32, to: u32, signed: bool },
    IntToFloat { op: Op, from: u32, signed: bool, to: u32 },
    FloatToInt { op: Op, from: u32, to: u32, signed: bool },
    FloatToFloat { op: Op, from: u32, to: u32 },
    /// thin ptr -> fat ptr with constant metadata
    Unsize { op: Op, meta: u64 },
    /// dyn -> dyn upcast via vtable slot
    Upcast { op: Op, slot: Option<u64> },
    /// struct unsizing: copies then one embedded pointer
    UnsizeStruct { op: Op, parts: Box<[UPart]> },
    Discr(Place, Discr),
    Agg { parts: Box<[(u32, u32, Op)]>, tag: Option<(u64, u32, u128)>, zero: bool },
    Repeat { op: Op, esize: u64, n: u64 },
}
#[derive(Clone, Debug)]
pub enum UPart { Copy { from: u64, to: u64, n: u64 }, Ptr { from: u64, to: u64, meta: u64 }, Up { from: u64, to: u64, slot: Option<u64> } }

#[derive(Clone, Debug)]
pub enum St {
    Assign { dst: Place, size: u64, rv: Rv },
    SetDiscr { dst: Place, off: u64, size: u32, tag: u128 },
    CopyNonOverlapping { src: Op, dst: Op, n: Op, elem: u64 },
}

#[derive(Clone, Debug)]
pub enum Callee { Fn(FnId), Ptr(Op) }

#[derive(Clone, Debug)]
pub struct Arg { pub op: Op, pub size: u64, pub unsized_self: bool }

#[derive(Clone, Debug)]
pub enum Term {
    Goto(u32),
    Switch { op: Op, w: u32, targets: Box<[(u128, u32)]>, otherwise: u32 },
    Return,
    Unreachable,
    Resume,
    Drop { place: Place, f: FnId, fat: bool, target: u32 },
    DropDyn { place: Place, target: u32 },
    Call { callee: Callee, args: Box<[Arg]>, dst: Place, dsize: u64, target: Option<u32> },
    Assert { cond: Op, expected: bool, target: u32, msg: Box<str> },
    Unsupported(Box<str>),
}

pub struct Block {
    pub sts: Vec<St>,
    pub term: Term,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub enum ArgSlot { Local(u32, u32), Spread(u32, Box<[(u32, u32)]>) }

pub struct Body {
    pub fid: FnId,
    pub blocks: Vec<Block>,
    pub frame: u32,
    pub ret: (u32, u32),
    pub args: Vec<ArgSlot>,
    pub skip_self: bool,
}

/// Dynamic size computation for possibly unsized types.
#[derive(Clone, Debug)]
pub enum Dst {
    Sized(u64, u64),
    Slice { prefix: u64, elem: u64, align: u64 },
    Dyn { prefix: u64, align: u64 },
}

pub struct Lower<'a, 'tcx> {
    pub it: &'a mut Interp<'tcx>,
    pub inst: Instance<'tcx>,
    pub body: &'tcx mir::Body<'tcx>,
    pub locals: Vec<(u32, TyAndLayout<'tcx>)>,
}

type R<T> = Result<T, String>;

impl<'tcx> Interp<'tcx> {
    pub fn cx(&self) -> LayoutCx<'tcx> { LayoutCx::new(self.tcx, self.env) }
    pub fn layout(&self, ty: Ty<'tcx>) -> R<TyAndLayout<'tcx>> {
        self.cx().layout_of(ty).map_err(|e| format!("layout of {ty}: {e}"))
    }
    pub fn dst_of(&self, l: TyAndLayout<'tcx>) -> Dst {
        if l.is_sized() { return Dst::Sized(l.size.bytes(), l.align.abi.bytes()); }
        match l.ty.kind() {
            ty::Slice(e) => { let e = self.layout(*e).unwrap(); Dst::Slice { prefix: 0, elem: e.size.bytes(), align: e.align.abi.bytes() } }
            ty::Str => Dst::Slice { prefix: 0, elem: 1, align: 1 },
            ty::Dynamic(..) => Dst::Dyn { prefix: 0, align: 1 },
            _ => {
                let n = l.fields.count();
                let f = l.field(&self.cx(), n - 1);
                let off = l.fields.offset(n - 1).bytes();
                let al = l.align.abi.bytes();
                match self.dst_of(f) {
                    Dst::Sized(..) => unreachable!("unsized ty {} with sized tail", l.ty),
                    Dst::Slice { prefix, elem, align } => Dst::Slice { prefix: prefix + off, elem, align: align.max(al) },
                    Dst::Dyn { prefix, align } => Dst::Dyn { prefix: prefix + off, align: align.max(al) },
                }
            }
        }
    }
    pub fn is_fat(&self, pointee: Ty<'tcx>) -> bool {
        let t = self.tcx.struct_tail_for_codegen(pointee, self.env);
        matches!(t.kind(), ty::Slice(_) | ty::Str | ty::Dynamic(..))
    }
    pub fn vtable(&mut self, ty: Ty<'tcx>, d: &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>) -> u64 {
        let p = d.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
        let id = self.tcx.vtable_allocation((ty, p));
        self.alloc_addr(id, 0)
    }
    pub fn alloc_addr(&mut self, id: AllocId, off: u64) -> u64 {
        if let Some(b) = self.alloc_map.get(&id) { return b.wrapping_add(off); }
        let base = match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => self.fn_addr(instance),
            GlobalAlloc::VTable(ty, d) => self.vtable(ty, d),
            GlobalAlloc::Static(d) => self.static_addr(d),
            GlobalAlloc::Memory(m) => self.new_glob(m),
            GlobalAlloc::TypeId { .. } => 0,
        };
        self.alloc_map.insert(id, base);
        base.wrapping_add(off)
    }
    pub fn static_addr(&mut self, d: DefId) -> u64 {
        if let Some(b) = self.static_map.get(&d) { return *b; }
        let mut real = d;
        if self.tcx.is_foreign_item(d) {
            let name = self.extern_name(d);
            match self.externs.get(&name) {
                Some(x) => real = *x,
                None => {
                    eprintln!("symex: unresolved extern static {name}");
                    let a = self.new_glob_raw(Alloc { bytes: vec![0; 8], sym: None, dead: false });
                    self.static_map.insert(d, a);
                    return a;
                }
            }
            if let Some(b) = self.static_map.get(&real) { return *b; }
        }
        // reserve first: initialisers may be cyclic
        let idx = self.globs.len() as u32;
        self.globs.push(Glob::Pending);
        let a = ((GLOB + idx) as u64) << 32;
        self.static_map.insert(d, a);
        self.static_map.insert(real, a);
        match self.tcx.eval_static_initializer(real) {
            Ok(m) => self.globs[idx as usize] = Glob::Lazy(m),
            Err(_) => panic!("static initializer failed: {:?}", real),
        }
        a
    }
    pub fn new_glob(&mut self, m: ConstAllocation<'tcx>) -> u64 {
        let idx = self.globs.len() as u32;
        self.globs.push(Glob::Lazy(m));
        ((GLOB + idx) as u64) << 32
    }
    pub fn new_glob_raw(&mut self, a: Alloc) -> u64 {
        let idx = self.globs.len() as u32;
        self.globs.push(Glob::Ready(std::rc::Rc::new(a)));
        ((GLOB + idx) as u64) << 32
    }
    pub fn glob(&mut self, idx: u32) -> std::rc::Rc<Alloc> {
        let m = match &self.globs[idx as usize] {
            Glob::Ready(a) => return a.clone(),
            Glob::Lazy(m) => *m,
            Glob::Pending => panic!("pending global"),
        };
        let inner = m.inner();
        let mut bytes = inner.inspect_with_uninit_and_ptr_outside_interpreter(0..inner.len()).to_vec();
        for (o, prov) in inner.provenance().ptrs().iter() {
            let o = o.bytes() as usize;
            let add = u64::from_le_bytes(bytes[o..o + 8].try_into().unwrap());
            let v = self.alloc_addr(prov.alloc_id(), add);
            bytes[o..o + 8].copy_from_slice(&v.to_le_bytes());
        }
        let a = std::rc::Rc::new(Alloc { bytes, sym: None, dead: false });
        self.globs[idx as usize] = Glob::Ready(a.clone());
        a
    }
    pub fn extern_name(&self, d: DefId) -> String {
        let attrs = self.tcx.codegen_fn_attrs(d);
        attrs.symbol_name.unwrap_or_else(|| self.tcx.item_name(d)).to_string()
    }
    pub fn lower_body(&mut self, fid: FnId) -> R<Body> {
        let inst = self.fns[fid as usize].inst;
        if let InstanceKind::Item(d) = inst.def {
            if self.tcx.is_constructor(d) { return self.lower_ctor(fid, inst); }
            if !self.tcx.is_mir_available(d) {
                return Err(format!("no MIR for {}", self.fns[fid as usize].name));
            }
        }
        let body = self.tcx.instance_mir(inst.def);
        let mut l = Lower { it: self, inst, body, locals: vec![] };
        l.run(fid)
    }
    /// A tuple struct / variant constructor used as a function.
    fn lower_ctor(&mut self, fid: FnId, inst: Instance<'tcx>) -> R<Body> {
        let sig = inst.ty(self.tcx, self.env).fn_sig(self.tcx);
        let sig = self.tcx.normalize_erasing_late_bound_regions(self.env, sig);
        let cx = self.cx();
        let dl = self.layout(sig.output())?;
        let ty::Adt(adt, _) = dl.ty.kind() else { return Err("ctor of non-adt".into()) };
        let v = if adt.is_enum() { adt.variant_index_with_ctor_id(inst.def_id()) } else { VariantIdx::from_u32(0) };
        let mut off = (dl.size.bytes() + 15) / 16 * 16;
        let vl = dl.for_variant(&cx, v);
        let (mut args, mut parts) = (vec![], vec![]);
        for (i, t) in sig.inputs().iter().enumerate() {
            let l = self.layout(*t)?;
            args.push(ArgSlot::Local(off as u32, l.size.bytes() as u32));
            if l.size.bytes() > 0 {
                parts.push((vl.fields.offset(i).bytes() as u32, l.size.bytes() as u32, Op::Place(Place { off: off as u32, proj: Box::new([]) })));
            }
            off += (l.size.bytes() + 15) / 16 * 16;
        }
        let tag = self.tag_of(dl, v);
        let size = dl.size.bytes();
        let mut sts = vec![];
        if size > 0 { sts.push(St::Assign { dst: Place { off: 0, proj: Box::new([]) }, size, rv: Rv::Agg { parts: parts.into(), tag, zero: false } }); }
        let blocks = vec![Block { sts, term: Term::Return, span: rustc_span::DUMMY_SP }];
        Ok(Body { fid, blocks, frame: off as u32, ret: (0, size as u32), args, skip_self: false })
    }
    pub fn scalar_addr(&mut self, s: Scalar) -> u128 {
        match s {
            Scalar::Int(i) => i.to_bits(i.size()),
            Scalar::Ptr(p, _) => { let (prov, off) = p.prov_and_relative_offset(); self.alloc_addr(prov.alloc_id(), off.bytes()) as u128 }
        }
    }
    /// constant unsizing metadata from pointee a to pointee b
    fn unsize_meta(&mut self, a: Ty<'tcx>, b: Ty<'tcx>) -> R<UPart> {
        let (a, b) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.env);
        match (a.kind(), b.kind()) {
            (ty::Array(_, n), ty::Slice(_)) => Ok(UPart::Ptr { from: 0, to: 0, meta: n.try_to_target_usize(self.tcx).ok_or("array len")? }),
            (ty::Dynamic(da, _), ty::Dynamic(db, _)) => {
                if da == db { return Ok(UPart::Up { from: 0, to: 0, slot: None }); }
                let slot = self.tcx.supertrait_vtable_slot((a, b)).map(|s| s as u64);
                Ok(UPart::Up { from: 0, to: 0, slot })
            }
            (_, ty::Dynamic(d, _)) => { let v = self.vtable(a, d); Ok(UPart::Ptr { from: 0, to: 0, meta: v }) }
            _ => Err(format!("unsize {a} -> {b}")),
        }
    }
    fn unsize_parts(&mut self, s: TyAndLayout<'tcx>, d: TyAndLayout<'tcx>, so: u64, d_o: u64, out: &mut Vec<UPart>) -> R<()> {
        let cx = self.cx();
        match (s.ty.kind(), d.ty.kind()) {
            (ty::Ref(_, a, _) | ty::RawPtr(a, _), ty::Ref(_, b, _) | ty::RawPtr(b, _)) => {
                out.push(match self.unsize_meta(*a, *b)? {
                    UPart::Ptr { meta, .. } => UPart::Ptr { from: so, to: d_o, meta },
                    UPart::Up { slot, .. } => UPart::Up { from: so, to: d_o, slot },
                    x => x,
                });
                Ok(())
            }
            (ty::Pat(a, _), ty::Pat(b, _)) => { let (a, b) = (self.layout(*a)?, self.layout(*b)?); self.unsize_parts(a, b, so, d_o, out) }
            (ty::Adt(..), ty::Adt(..)) => {
                for i in 0..s.fields.count() {
                    let (sf, df) = (s.field(&cx, i), d.field(&cx, i));
                    let (fo, to) = (so + s.fields.offset(i).bytes(), d_o + d.fields.offset(i).bytes());
                    if sf.is_1zst() && df.is_1zst() { continue; }
                    if sf.ty == df.ty { out.push(UPart::Copy { from: fo, to, n: sf.size.bytes() }); }
                    else { self.unsize_parts(sf, df, fo, to, out)?; }
                }
                Ok(())
            }
            _ => Err(format!("unsize struct {} -> {}", s.ty, d.ty)),
        }
    }
    pub fn discr_of(&self, l: TyAndLayout<'tcx>) -> R<Discr> {
        let dty = l.ty.discriminant_ty(self.tcx);
        let dsize = self.layout(dty)?.size.bytes() as u32;
        let m = mask(dsize * 8);
        let val = |v: VariantIdx| l.ty.discriminant_for_variant(self.tcx, v).map(|d| d.val & m).unwrap_or(v.as_u32() as u128);
        let kind = match &l.variants {
            Variants::Empty => DK::Const(0),
            Variants::Single { index } => DK::Const(val(*index)),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes();
                let size = tag.size(&self.tcx).bytes() as u32;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let signed = matches!(tag.primitive(), rustc_abi::Primitive::Int(_, true));
                        DK::Direct { off, size, signed }
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let n = l.ty.ty_adt_def().map(|a| a.variants().len()).unwrap_or(0);
                        let mp: Vec<u128> = (0..n).map(|i| val(VariantIdx::from_usize(i))).collect();
                        let ident = mp.iter().enumerate().all(|(i, v)| i as u128 == *v);
                        DK::Niche { off, size, start: *niche_start, vstart: niche_variants.start.as_u32(), vend: niche_variants.last.as_u32(),
                            untagged: untagged_variant.as_u32(), map: if ident { None } else { Some(mp.into()) } }
                    }
                }
            }
        };
        Ok(Discr { kind, dsize })
    }
    /// (tag offset, tag size, tag value) to write for a variant
    pub fn tag_of(&self, l: TyAndLayout<'tcx>, v: VariantIdx) -> Option<(u64, u32, u128)> {
        match &l.variants {
            Variants::Empty | Variants::Single { .. } => None,
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes();
                let size = tag.size(&self.tcx).bytes() as u32;
                let m = mask(size * 8);
                match tag_encoding {
                    TagEncoding::Direct => {
                        let d = l.ty.discriminant_for_variant(self.tcx, v).map(|d| d.val).unwrap_or(v.as_u32() as u128);
                        Some((off, size, d & m))
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v == *untagged_variant { None }
                        else {
                            let rel = (v.as_u32() - niche_variants.start.as_u32()) as u128;
                            Some((off, size, niche_start.wrapping_add(rel) & m))
                        }
                    }
                }
            }
        }
    }
}

impl<'a, 'tcx> Lower<'a, 'tcx> {
    fn mono<T: ty::TypeFoldable<ty::TyCtxt<'tcx>> + Clone>(&self, t: T) -> T {
        self.inst.instantiate_mir_and_normalize_erasing_regions(self.it.tcx, self.it.env, EarlyBinder::bind(self.it.tcx, t))
    }
    fn run(&mut self, fid: FnId) -> R<Body> {
        let mut off = 0u64;
        for d in self.body.local_decls.iter() {
            let ty = self.mono(d.ty);
            let l = self.it.layout(ty)?;
            if !l.is_sized() { return Err(format!("unsized local {ty}")); }
            let al = l.align.abi.bytes().max(8);
            off = (off + al - 1) / al * al;
            self.locals.push((off as u32, l));
            off += l.size.bytes();
        }
        let frame = off as u32;
        let ret = (self.locals[0].0, self.locals[0].1.size.bytes() as u32);
        let mut args = vec![];
        for a in self.body.args_iter() {
            let (o, l) = self.locals[a.as_usize()];
            if Some(a) == self.body.spread_arg {
                let mut v = vec![];
                for i in 0..l.fields.count() {
                    let f = l.field(&self.it.cx(), i);
                    v.push((o + l.fields.offset(i).bytes() as u32, f.size.bytes() as u32));
                }
                args.push(ArgSlot::Spread(o, v.into()));
            } else {
                args.push(ArgSlot::Local(o, l.size.bytes() as u32));
            }
        }
        let did = self.inst.def_id();
        let skip_self = (matches!(self.inst.def, InstanceKind::Shim(ShimKind::ClosureOnce { .. })) || self.it.tcx.is_closure_like(did))
            && self.body.arg_count > 0 && { let l = self.locals[1].1; matches!(l.ty.kind(), ty::Closure(_, a) if a.as_closure().upvar_tys().is_empty()) };
        let mut blocks = vec![];
        for bb in self.body.basic_blocks.iter() {
            let term = bb.terminator();
            if bb.is_cleanup {
                blocks.push(Block { sts: vec![], term: Term::Resume, span: term.source_info.span });
                continue;
            }
            let mut sts = vec![];
            for s in &bb.statements { self.stmt(s, &mut sts).map_err(|e| format!("{e} in {:?}", s.source_info.span))?; }
            let t = self.term(term).map_err(|e| format!("{e} at {:?}", term.source_info.span))?;
            blocks.push(Block { sts, term: t, span: term.source_info.span });
        }
        Ok(Body { fid, blocks, frame, ret, args, skip_self })
    }
    fn place(&mut self, p: mir::Place<'tcx>) -> R<(Place, TyAndLayout<'tcx>)> {
        let (base, mut cur) = self.locals[p.local.as_usize()];
        let mut base = base as u64;
        let mut proj: Vec<Proj> = vec![];
        let cx = self.it.cx();
        fn add(base: &mut u64, proj: &mut Vec<Proj>, o: u64) {
            if o == 0 { return; }
            if proj.is_empty() { *base += o; return; }
            if let Some(Proj::Off(x)) = proj.last_mut() { *x += o; return; }
            proj.push(Proj::Off(o));
        }
        for el in p.projection.iter() {
            match el {
                mir::ProjectionElem::Deref => {
                    let t = cur.ty.builtin_deref(true).ok_or_else(|| format!("deref of {}", cur.ty))?;
                    let l = self.it.layout(t)?;
                    let fat = self.it.is_fat(t);
                    proj.push(Proj::Deref { fat });
                    cur = l;
                }
                mir::ProjectionElem::Field(f, _) => {
                    let fl = cur.field(&cx, f.as_usize());
                    let o = cur.fields.offset(f.as_usize()).bytes();
                    if fl.is_sized() { add(&mut base, &mut proj, o); }
                    else {
                        match self.it.dst_of(fl) {
                            Dst::Dyn { align, .. } => proj.push(Proj::DynOff { off: o, align }),
                            _ => add(&mut base, &mut proj, o),
                        }
                    }
                    cur = fl;
                }
                mir::ProjectionElem::Downcast(_, v) => cur = cur.for_variant(&cx, v),
                mir::ProjectionElem::Index(l) => {
                    let e = cur.field(&cx, 0);
                    proj.push(Proj::Index { local: self.locals[l.as_usize()].0, elem: e.size.bytes() });
                    cur = e;
                }
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let e = cur.field(&cx, 0);
                    let len = if let ty::Array(..) = cur.ty.kind() { Some(cur.fields.count() as u64) } else { None };
                    proj.push(Proj::ConstIdx { off: offset, elem: e.size.bytes(), from_end, len });
                    cur = e;
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let e = cur.field(&cx, 0);
                    let len = if let ty::Array(..) = cur.ty.kind() { Some(cur.fields.count() as u64) } else { None };
                    proj.push(Proj::Sub { from, to, from_end, elem: e.size.bytes(), len });
                    if let Some(n) = len {
                        let k = if from_end { n - to - from } else { to - from };
                        cur = self.it.layout(Ty::new_array(self.it.tcx, e.ty, k))?;
                    }
                }
                mir::ProjectionElem::OpaqueCast(t) | mir::ProjectionElem::UnwrapUnsafeBinder(t) => { let t = self.mono(t); cur = self.it.layout(t)?; }
                #[allow(unreachable_patterns)]
                _ => return Err(format!("projection {el:?}")),
            }
        }
        Ok((Place { off: base as u32, proj: proj.into() }, cur))
    }
    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> R<(Op, TyAndLayout<'tcx>)> {
        let k = self.mono(c.const_);
        let ty = k.ty();
        let l = self.it.layout(ty)?;
        if l.is_zst() {
            // still force evaluation (may be a failing const assertion)
            return Ok((Op::Imm(0), l));
        }
        let v = k.eval(self.it.tcx, self.it.env, c.span).map_err(|e| format!("const eval failed: {e:?}"))?;
        let op = match v {
            ConstValue::ZeroSized => Op::Imm(0),
            ConstValue::Scalar(s) => Op::Imm(self.it.scalar_addr(s)),
            ConstValue::Slice { alloc_id, meta } => Op::Pair(self.it.alloc_addr(alloc_id, 0), meta),
            ConstValue::Indirect { alloc_id, offset } => Op::Mem(self.it.alloc_addr(alloc_id, offset.bytes())),
        };
        Ok((op, l))
    }
    fn op(&mut self, o: &Operand<'tcx>) -> R<(Op, TyAndLayout<'tcx>)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let (p, l) = self.place(*p)?;
                if !l.is_sized() { return Ok((Op::AddrOf(p), l)); }
                Ok((Op::Place(p), l))
            }
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(k) => {
                let l = self.it.layout(self.it.tcx.types.bool)?;
                let v = match k { mir::RuntimeChecks::OverflowChecks => 1, _ => 0 };
                Ok((Op::Imm(v), l))
            }
        }
    }
    fn stmt(&mut self, s: &mir::Statement<'tcx>, out: &mut Vec<St>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (p, rv) = &**b;
                let (dst, dl) = self.place(*p)?;
                let size = dl.size.bytes();
                if size == 0 { return Ok(()); }
                let rv = self.rv(rv, dl)?;
                out.push(St::Assign { dst, size, rv });
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let (dst, l) = self.place(**place)?;
                if let Some((off, size, tag)) = self.it.tag_of(l, *variant_index) { out.push(St::SetDiscr { dst, off, size, tag }); }
            }
            StatementKind::Intrinsic(b) => match &**b {
                mir::NonDivergingIntrinsic::Assume(_) => {}
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let (src, sl) = self.op(&c.src)?;
                    let (dst, _) = self.op(&c.dst)?;
                    let (n, _) = self.op(&c.count)?;
                    let t = sl.ty.builtin_deref(true).unwrap();
                    let elem = self.it.layout(t)?.size.bytes();
                    out.push(St::CopyNonOverlapping { src, dst, n, elem });
                }
            },
            _ => {}
        }
        Ok(())
    }
    fn signed(&self, ty: Ty<'tcx>) -> bool { matches!(ty.kind(), ty::Int(_)) }
    fn rv(&mut self, rv: &Rvalue<'tcx>, dl: TyAndLayout<'tcx>) -> R<Rv> {
        Ok(match rv {
            Rvalue::Use(o, _) => Rv::Use(self.op(o)?.0),
            Rvalue::CopyForDeref(p) => Rv::Use(Op::Place(self.place(*p)?.0)),
            Rvalue::Reborrow(_, _, p) => Rv::Use(Op::Place(self.place(*p)?.0)),
            Rvalue::WrapUnsafeBinder(o, _) => Rv::Use(self.op(o)?.0),
            Rvalue::Repeat(o, n) => {
                let n = self.mono(*n).try_to_target_usize(self.it.tcx).ok_or("repeat len")?;
                let (op, l) = self.op(o)?;
                Rv::Repeat { op, esize: l.size.bytes(), n }
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => Rv::Ref(self.place(*p)?.0),
            Rvalue::ThreadLocalRef(d) => { let a = self.it.static_addr(*d); Rv::Use(Op::Imm(a as u128)) }
            Rvalue::Discriminant(p) => { let (p, l) = self.place(*p)?; let d = self.it.discr_of(l)?; Rv::Discr(p, d) }
            Rvalue::UnaryOp(u, o) => {
                let (op, l) = self.op(o)?;
                match u {
                    UnOp::Not => if l.ty.is_bool() { Rv::NotBool(op) } else { Rv::Not(op) },
                    UnOp::Neg => if l.ty.is_floating_point() { Rv::FNeg(op) } else { Rv::Neg(op) },
                    UnOp::PtrMetadata => Rv::Meta(op),
                }
            }
            Rvalue::BinaryOp(b, ops) => {
                let (a, al) = self.op(&ops.0)?;
                let (bb, bl) = self.op(&ops.1)?;
                let w = al.size.bits() as u32;
                let bw = bl.size.bits() as u32;
                let s = self.signed(al.ty);
                let bs = self.signed(bl.ty);
                if al.ty.is_floating_point() {
                    return Ok(Rv::Bin { k: BK::Float(*b), a, b: bb, w, bw, signed: s, bsigned: bs, ovf_off: 0 });
                }
                let mut ovf_off = 0;
                let k = match b {
                    BinOp::Add | BinOp::AddUnchecked => BK::Plain(Bin::Add),
                    BinOp::Sub | BinOp::SubUnchecked => BK::Plain(Bin::Sub),
                    BinOp::Mul | BinOp::MulUnchecked => BK::Plain(Bin::Mul),
                    BinOp::Div => BK::Plain(if s { Bin::SDiv } else { Bin::UDiv }),
                    BinOp::Rem => BK::Plain(if s { Bin::SRem } else { Bin::URem }),
                    BinOp::BitXor => BK::Plain(Bin::Xor),
                    BinOp::BitAnd => BK::Plain(Bin::And),
                    BinOp::BitOr => BK::Plain(Bin::Or),
                    BinOp::Shl | BinOp::ShlUnchecked => BK::ShlW,
                    BinOp::Shr | BinOp::ShrUnchecked => if s { BK::AShrW } else { BK::ShrW },
                    BinOp::Eq => BK::Plain(Bin::Eq),
                    BinOp::Ne => BK::Ne,
                    BinOp::Lt => BK::Plain(if s { Bin::Slt } else { Bin::Ult }),
                    BinOp::Le => BK::Plain(if s { Bin::Sle } else { Bin::Ule }),
                    BinOp::Gt => if s { BK::SGt } else { BK::Gt },
                    BinOp::Ge => if s { BK::SGe } else { BK::Ge },
                    BinOp::Cmp => BK::Cmp,
                    BinOp::Offset => {
                        let t = al.ty.builtin_deref(true).ok_or("offset ty")?;
                        BK::Offset(self.it.layout(t)?.size.bytes())
                    }
                    BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => {
                        ovf_off = dl.fields.offset(1).bytes() as u32;
                        match b { BinOp::AddWithOverflow => BK::OvfAdd, BinOp::SubWithOverflow => BK::OvfSub, _ => BK::OvfMul }
                    }
                };
                Rv::Bin { k, a, b: bb, w, bw, signed: s, bsigned: bs, ovf_off }
            }
            Rvalue::Cast(k, o, t) => {
                let t = self.mono(*t);
                let (op, sl) = self.op(o)?;
                let tl = self.it.layout(t)?;
                match k {
                    CastKind::IntToInt => Rv::IntCast { op, from: sl.size.bits() as u32, to: tl.size.bits() as u32, signed: self.signed(sl.ty) },
                    CastKind::IntToFloat => Rv::IntToFloat { op, from: sl.size.bits() as u32, signed: self.signed(sl.ty), to: tl.size.bits() as u32 },
                    CastKind::FloatToInt => Rv::FloatToInt { op, from: sl.size.bits() as u32, to: tl.size.bits() as u32, signed: self.signed(tl.ty) },
                    CastKind::FloatToFloat => Rv::FloatToFloat { op, from: sl.size.bits() as u32, to: tl.size.bits() as u32 },
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::PointerExposeProvenance | CastKind::PointerWithExposedProvenance
                    | CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => Rv::Use(op),
                    CastKind::PointerCoercion(c, _) => match c {
                        PointerCoercion::ReifyFnPointer(_) => {
                            let ty::FnDef(d, a) = *sl.ty.kind() else { return Err("reify".into()) };
                            let inst = Instance::resolve_for_fn_ptr(self.it.tcx, self.it.env, d, a.no_bound_vars().unwrap()).ok_or("resolve_for_fn_ptr")?;
                            Rv::Use(Op::Imm(self.it.fn_addr(inst) as u128))
                        }
                        PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer => Rv::Use(op),
                        PointerCoercion::ClosureFnPointer(_) => {
                            let ty::Closure(d, a) = *sl.ty.kind() else { return Err("closure reify".into()) };
                            let inst = Instance::resolve_closure(self.it.tcx, d, a, ty::ClosureKind::FnOnce);
                            Rv::Use(Op::Imm(self.it.fn_addr(inst) as u128))
                        }
                        PointerCoercion::Unsize => {
                            let mut parts = vec![];
                            self.it.unsize_parts(sl, tl, 0, 0, &mut parts)?;
                            match &parts[..] {
                                [UPart::Ptr { from: 0, to: 0, meta }] if sl.size.bytes() == 8 => Rv::Unsize { op, meta: *meta },
                                [UPart::Up { from: 0, to: 0, slot }] if sl.size.bytes() == 16 => Rv::Upcast { op, slot: *slot },
                                _ => Rv::UnsizeStruct { op, parts: parts.into() },
                            }
                        }
                    },
                }
            }
            Rvalue::Aggregate(k, fs) => {
                if let mir::AggregateKind::RawPtr(..) = **k {
                    let (a, _) = self.op(&fs[FieldIdx::from_u32(0)])?;
                    let (m, ml) = self.op(&fs[FieldIdx::from_u32(1)])?;
                    let mut parts = vec![(0u32, 8u32, a)];
                    if ml.size.bytes() > 0 { parts.push((8, ml.size.bytes() as u32, m)); }
                    return Ok(Rv::Agg { parts: parts.into(), tag: None, zero: false });
                }
                let (v, active) = match **k {
                    mir::AggregateKind::Adt(_, v, _, _, a) => (v, a),
                    _ => (VariantIdx::from_u32(0), None),
                };
                let is_adt = matches!(**k, mir::AggregateKind::Adt(..));
                let is_arr = matches!(**k, mir::AggregateKind::Array(..));
                let vl = if is_adt { dl.for_variant(&self.it.cx(), v) } else { dl };
                let esz = if is_arr { dl.field(&self.it.cx(), 0).size.bytes() } else { 0 };
                let mut parts = vec![];
                for (i, o) in fs.iter_enumerated() {
                    let i = active.unwrap_or(i).as_usize();
                    let (op, ol) = self.op(o)?;
                    if ol.size.bytes() == 0 { continue; }
                    let off = if is_arr { esz * i as u64 } else { vl.fields.offset(i).bytes() };
                    parts.push((off as u32, ol.size.bytes() as u32, op));
                }
                let tag = if is_adt { self.it.tag_of(dl, v) } else if matches!(**k, mir::AggregateKind::Coroutine(..)) { return Err("coroutine aggregate".into()) } else { None };
                Rv::Agg { parts: parts.into(), tag, zero: false }
            }
        })
    }
    fn term(&mut self, t: &mir::Terminator<'tcx>) -> R<Term> {
        Ok(match &t.kind {
            TerminatorKind::Goto { target, .. } => Term::Goto(target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let (op, l) = self.op(discr)?;
                Term::Switch { op, w: l.size.bits() as u32, targets: targets.iter().map(|(v, b)| (v, b.as_u32())).collect(), otherwise: targets.otherwise().as_u32() }
            }
            TerminatorKind::Return => Term::Return,
            TerminatorKind::Unreachable => Term::Unreachable,
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => Term::Resume,
            TerminatorKind::Drop { place, target, .. } => {
                let (p, l) = self.place(*place)?;
                let inst = Instance::resolve_drop_glue(self.it.tcx, l.ty);
                match inst.def {
                    InstanceKind::Shim(ShimKind::DropGlue(_, None)) => Term::Goto(target.as_u32()),
                    _ if matches!(l.ty.kind(), ty::Dynamic(..)) => Term::DropDyn { place: p, target: target.as_u32() },
                    _ => { let fat = self.it.is_fat(l.ty); let f = self.it.fn_id(inst); Term::Drop { place: p, f, fat, target: target.as_u32() } }
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.mono(func.ty(&self.body.local_decls, self.it.tcx));
                let (dst, dl) = self.place(*destination)?;
                let sig = self.it.tcx.normalize_erasing_late_bound_regions(self.it.env, fty.fn_sig(self.it.tcx));
                let mut av: Vec<Arg> = vec![];
                let n = args.len();
                for (i, a) in args.iter().enumerate() {
                    let (op, l) = self.op(&a.node)?;
                    if sig.abi() == rustc_abi::ExternAbi::RustCall && i + 1 == n {
                        // untuple
                        if !matches!(l.ty.kind(), ty::Tuple(_)) { return Err(format!("untuple of {}", l.ty)); }
                        for j in 0..l.fields.count() {
                            let f = l.field(&self.it.cx(), j);
                            let o = l.fields.offset(j).bytes();
                            let fop = if f.size.bytes() == 0 { Op::Imm(0) } else { match &op {
                                Op::Place(p) => {
                                    let mut p = p.clone();
                                    if p.proj.is_empty() { p.off += o as u32; } else { let mut v = p.proj.to_vec(); v.push(Proj::Off(o)); p.proj = v.into(); }
                                    Op::Place(p)
                                }
                                Op::Mem(x) => Op::Mem(x + o),
                                Op::Imm(v) => Op::Imm((v >> (8 * o)) & mask(f.size.bits() as u32)),
                                Op::Pair(x, y) => Op::Imm(if o == 0 { *x as u128 } else { *y as u128 }),
                                Op::AddrOf(_) => return Err("untuple unsized".into()),
                            } };
                            av.push(Arg { op: fop, size: f.size.bytes(), unsized_self: false });
                        }
                    } else {
                        let us = !l.is_sized();
                        av.push(Arg { op, size: if us { 16 } else { l.size.bytes() }, unsized_self: us });
                    }
                }
                let callee = match *fty.kind() {
                    ty::FnDef(d, a) => {
                        let a = a.no_bound_vars().unwrap();
                        let inst = Instance::try_resolve(self.it.tcx, self.it.env, d, a).ok().flatten().ok_or_else(|| format!("resolve {d:?}"))?;
                        if let InstanceKind::Shim(ShimKind::DropGlue(_, None)) = inst.def {
                            return Ok(match target { Some(t) => Term::Goto(t.as_u32()), None => Term::Unreachable });
                        }
                        Callee::Fn(self.it.fn_id(inst))
                    }
                    ty::FnPtr(..) => Callee::Ptr(self.op(func)?.0),
                    _ => return Err(format!("call of {fty}")),
                };
                Term::Call { callee, args: av.into(), dst, dsize: dl.size.bytes(), target: target.map(|t| t.as_u32()) }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (op, _) = self.op(cond)?;
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                    mir::AssertKind::Overflow(b, ..) => format!("arithmetic overflow ({b:?})"),
                    mir::AssertKind::OverflowNeg(_) => "negation overflow".to_string(),
                    mir::AssertKind::DivisionByZero(_) => "division by zero".to_string(),
                    mir::AssertKind::RemainderByZero(_) => "remainder by zero".to_string(),
                    _ => "assertion".to_string(),
                };
                Term::Assert { cond: op, expected: *expected, target: target.as_u32(), msg: m.into() }
            }
            k => Term::Unsupported(format!("{k:?}").into()),
        })
    }
}

pub fn span_str(tcx: ty::TyCtxt<'_>, s: Span) -> String {
    if s == DUMMY_SP { return String::new(); }
    let sm = tcx.sess.source_map();
    let loc = sm.lookup_char_pos(s.source_callsite().lo());
    format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line)
}
