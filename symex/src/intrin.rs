//! Compiler intrinsics and environment hooks.
use crate::exec::*;
use crate::expr::*;
use crate::lower::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, InstanceKind};

pub fn prepare<'tcx>(it: &mut Interp<'tcx>, inst: Instance<'tcx>, d: DefId, name: String) -> X<Intr> {
    let tcx = it.tcx;
    let targ = |i: usize| inst.args.types().nth(i);
    let mut r = Intr { name: name.clone(), t0: None, t1size: 0, fallback: None, cval: None, signed: false, sel: None, atomic_size: 0 };
    if let Some(t) = targ(0) {
        if let Ok(l) = it.layout(t) { r.t0 = Some(it.dst_of(l)); r.atomic_size = if l.is_sized() { l.size.bytes() } else { 0 }; }
        r.signed = matches!(t.kind(), ty::Int(_));
    }
    match name.as_str() {
        "size_of" => r.cval = Some(match r.t0 { Some(Dst::Sized(s, _)) => s as u128, _ => return err("size_of unsized") }),
        "align_of" | "min_align_of" | "pref_align_of" => r.cval = Some(match r.t0 { Some(Dst::Sized(_, a)) => a as u128, _ => return err("align_of unsized") }),
        "needs_drop" => r.cval = Some(targ(0).unwrap().needs_drop(tcx, it.env) as u128),
        "type_id" => r.cval = Some(tcx.type_id_hash(targ(0).unwrap()).as_u128()),
        "variant_count" => r.cval = Some(targ(0).unwrap().ty_adt_def().map(|a| a.variants().len()).unwrap_or(0) as u128),
        "type_name" => {
            let s = targ(0).unwrap().to_string();
            let n = s.len() as u128;
            let a = it.new_glob_raw(crate::mem::Alloc { bytes: s.into_bytes(), sym: None, dead: false });
            r.cval = Some(a as u128 | n << 64);
        }
        "const_eval_select" => {
            // <ARG, F, G, RET>: run the runtime function G on the spread tuple
            let arg = targ(0).unwrap();
            let g = targ(2).unwrap();
            let ty::FnDef(gd, ga) = *g.kind() else { return err("const_eval_select on non-fndef") };
            let gi = Instance::try_resolve(tcx, it.env, gd, ga.no_bound_vars().unwrap()).ok().flatten().ok_or_else(|| Stop::Err("resolve".into()))?;
            let l = it.layout(arg).map_err(Stop::Err)?;
            let mut offs = vec![];
            for i in 0..l.fields.count() { offs.push(l.fields.offset(i).bytes()); offs.push(l.field(&it.cx(), i).size.bytes()); }
            r.sel = Some((it.fn_id(gi), offs));
        }
        "size_of_val" | "align_of_val" | "min_align_of_val" => {}
        _ => {
            let known = KNOWN.contains(&name.as_str()) || name.starts_with("atomic_");
            if !known {
                let i = tcx.intrinsic(d);
                if i.map(|i| !i.must_be_overridden).unwrap_or(false) && tcx.is_mir_available(d) {
                    let fi = Instance { def: InstanceKind::Item(d), args: inst.args };
                    r.fallback = Some(it.fn_id(fi));
                }
            }
        }
    }
    Ok(r)
}

const KNOWN: &[&str] = &[
    "copy", "copy_nonoverlapping", "write_bytes", "volatile_load", "volatile_store", "ptr_offset_from", "ptr_offset_from_unsigned",
    "arith_offset", "ptr_mask", "ctpop", "ctlz", "ctlz_nonzero", "cttz", "cttz_nonzero", "bswap", "bitreverse", "saturating_add", "saturating_sub",
    "rotate_left", "rotate_right", "exact_div", "likely", "unlikely", "cold_path", "black_box", "assert_inhabited", "assert_zero_valid",
    "assert_mem_uninitialized_valid", "abort", "unreachable", "assume", "caller_location", "compare_bytes", "raw_eq", "vtable_size", "vtable_align",
    "is_val_statically_known", "select_unpredictable", "catch_unwind", "ub_checks", "overflow_checks", "contract_checks", "const_allocate", "const_deallocate",
    "offset", "transmute", "read_via_copy", "write_via_move", "add_with_overflow", "sub_with_overflow", "mul_with_overflow",
    "wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul", "unchecked_div", "unchecked_rem", "unchecked_shl", "unchecked_shr",
    "discriminant_value", "unaligned_volatile_load", "unaligned_volatile_store", "fabsf64", "volatile_copy_memory", "typed_swap_nonoverlapping_",
    "breakpoint", "forget", "ptr_metadata", "aggregate_raw_ptr",
];

fn sarg(a: &ArgVal) -> X<Sv> { match a { ArgVal::S(v, _) => Ok(*v), ArgVal::M(..) => err("scalar arg expected") } }

fn dst_size_align<'tcx>(it: &mut Interp<'tcx>, st: &mut State, d: &Dst, meta: Sv) -> X<(Sv, u64)> {
    Ok(match d {
        Dst::Sized(s, a) => (Sv::C(*s as u128), *a),
        Dst::Slice { prefix, elem, align } => {
            let n = it.concretize(st, meta, 64)? as u64;
            let s = prefix + n * elem;
            (Sv::C(((s + align - 1) / align * align) as u128), *align)
        }
        Dst::Dyn { prefix, align } => {
            let vt = it.concretize(st, meta, 64)? as u64;
            let Sv::C(s) = it.load_c(st, vt + 8, 8)? else { return err("vt") };
            let Sv::C(a) = it.load_c(st, vt + 16, 8)? else { return err("vt") };
            let al = (*align).max(a as u64);
            let off = (prefix + a as u64 - 1) / a as u64 * a as u64;
            let s = off + s as u64;
            (Sv::C(((s + al - 1) / al * al) as u128), al)
        }
    })
}

fn conc<'tcx>(it: &mut Interp<'tcx>, st: &mut State, a: &ArgVal) -> X<u64> { let v = sarg(a)?; Ok(it.concretize(st, v, 64)? as u64) }

pub fn bytes_at<'tcx>(it: &mut Interp<'tcx>, st: &mut State, a: u64, n: u64) -> X<Vec<Sv>> {
    let (b, s) = it.snapshot(st, a, n)?;
    let mut v: Vec<Sv> = b.into_iter().map(|x| Sv::C(x as u128)).collect();
    for (o, e) in s { v[o as usize] = Sv::S(e); }
    Ok(v)
}

fn mem_eq<'tcx>(it: &mut Interp<'tcx>, st: &mut State, a: u64, b: u64, n: u64) -> X<Sv> {
    let x = bytes_at(it, st, a, n)?;
    let y = bytes_at(it, st, b, n)?;
    let mut acc = Sv::C(1);
    // concrete mismatch first
    for i in 0..n as usize { if let (Sv::C(p), Sv::C(q)) = (x[i], y[i]) { if p != q { return Ok(Sv::C(0)); } } }
    for i in 0..n as usize {
        let e = it.pool.bin(Bin::Eq, x[i], y[i], 8);
        // prune by domain
        if let Sv::S(c) = e { if let Some(b) = dom_const(it, st, c) { if !b { return Ok(Sv::C(0)); } continue; } }
        acc = it.pool.bin(Bin::And, acc, e, 1);
    }
    Ok(acc)
}
/// Is a one-variable condition already decided by the variable's domain?
pub fn dom_const<'tcx>(it: &mut Interp<'tcx>, st: &State, c: E) -> Option<bool> {
    let (v, t) = it.pool.truth(c)?;
    let d = st.dom[v as usize];
    let (mut any_t, mut any_f) = (false, false);
    for i in 0..4 { any_t |= d[i] & t[i] != 0; any_f |= d[i] & !t[i] != 0; }
    if any_t && !any_f { Some(true) } else if any_f && !any_t { Some(false) } else { None }
}

fn mem_cmp<'tcx>(it: &mut Interp<'tcx>, st: &mut State, a: u64, b: u64, n: u64) -> X<Sv> {
    let x = bytes_at(it, st, a, n)?;
    let y = bytes_at(it, st, b, n)?;
    let mut r = Sv::C(0);
    for i in (0..n as usize).rev() {
        let e = it.pool.bin(Bin::Eq, x[i], y[i], 8);
        let l = it.pool.bin(Bin::Ult, x[i], y[i], 8);
        let ne = it.pool.ite(l, Sv::C(0xffff_ffff), Sv::C(1), 32);
        let e = match e { Sv::S(c) => match dom_const(it, st, c) { Some(b) => Sv::C(b as u128), None => e }, e => e };
        r = it.pool.ite(e, r, ne, 32);
    }
    Ok(r)
}

pub fn exec<'tcx>(it: &mut Interp<'tcx>, st: &mut State, i: &'static Intr, args: Vec<ArgVal>, dst: u64, dsize: u64, target: Option<u32>) -> X<()> {
    let done = |st: &mut State| -> X<()> { match target { Some(t) => { let f = st.frames.last_mut().unwrap(); f.bb = t; f.idx = 0; Ok(()) } None => err("diverging intrinsic returned") } };
    if let Some(c) = i.cval { it.store_c(st, dst, dsize as u32, Sv::C(c))?; return done(st); }
    if let Some(f) = i.fallback { return it.call(st, f, args, dst, dsize, target); }
    if let Some((f, offs)) = &i.sel {
        // args: (tuple, const_fn, rt_fn)
        let mut av = vec![];
        for ch in offs.chunks(2) {
            let (o, n) = (ch[0], ch[1]);
            av.push(match &args[0] {
                ArgVal::S(v, k) => ArgVal::S(if n == 0 { Sv::C(0) } else { it.pool.extract(*v, k * 8, o as u32 * 8, n as u32 * 8) }, n as u32),
                ArgVal::M(b, s) => {
                    let bb = b[o as usize..(o + n) as usize].to_vec();
                    let ss: Vec<(u32, E)> = s.iter().filter(|(k, _)| (*k as u64) >= o && (*k as u64) < o + n).map(|(k, e)| (k - o as u32, *e)).collect();
                    ArgVal::M(bb, ss)
                }
            });
        }
        return it.call(st, *f, av, dst, dsize, target);
    }
    let tsize = match &i.t0 { Some(Dst::Sized(s, _)) => *s, _ => 0 };
    let w = tsize as u32 * 8;
    let ret = |it: &mut Interp<'tcx>, st: &mut State, v: Sv| -> X<()> { it.store_c(st, dst, dsize as u32, v) };
    let name = i.name.as_str();
    match name {
        "size_of_val" | "align_of_val" | "min_align_of_val" => {
            let v = sarg(&args[0])?;
            let meta = if matches!(i.t0, Some(Dst::Sized(..))) { Sv::C(0) } else { it.pool.extract(v, 128, 64, 64) };
            let (s, a) = dst_size_align(it, st, i.t0.as_ref().unwrap(), meta)?;
            ret(it, st, if name == "size_of_val" { s } else { Sv::C(a as u128) })?;
        }
        "copy" | "copy_nonoverlapping" | "volatile_copy_memory" => {
            let s = conc(it, st, &args[0])?; let d = conc(it, st, &args[1])?; let n = conc(it, st, &args[2])?;
            let (s, d) = if name == "volatile_copy_memory" { (d, s) } else { (s, d) };
            it.copy(st, d, s, n * tsize)?;
        }
        "write_bytes" => {
            let d = conc(it, st, &args[0])?; let v = sarg(&args[1])?; let n = conc(it, st, &args[2])?;
            set_bytes(it, st, d, v, n * tsize)?;
        }
        "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => { let s = conc(it, st, &args[0])?; it.copy(st, dst, s, tsize)?; }
        "volatile_store" | "unaligned_volatile_store" | "write_via_move" => {
            let d = conc(it, st, &args[0])?;
            match &args[1] { ArgVal::S(v, n) => it.store_c(st, d, *n, *v)?, ArgVal::M(b, s) => it.with_mem_mut(st, d, b.len() as u64, |_, al, o| al.put(o, b, s))? }
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let (a, b) = (sarg(&args[0])?, sarg(&args[1])?);
            let d = it.pool.bin(Bin::Sub, a, b, 64);
            let r = if tsize == 1 { d } else { it.pool.bin(Bin::SDiv, d, Sv::C(tsize as u128), 64) };
            ret(it, st, r)?;
        }
        "arith_offset" | "offset" => {
            // offset<Ptr, Delta>: t0 is the pointer type; arith_offset<T>: t0 is the pointee
            if name == "offset" { return err("offset intrinsic"); }
            let (a, b) = (sarg(&args[0])?, sarg(&args[1])?);
            let o = it.pool.bin(Bin::Mul, b, Sv::C(tsize as u128), 64);
            let r = it.pool.bin(Bin::Add, a, o, 64);
            ret(it, st, r)?;
        }
        "ptr_mask" => { let (a, b) = (sarg(&args[0])?, sarg(&args[1])?); let r = it.pool.bin(Bin::And, a, b, 64); ret(it, st, r)?; }
        "ctpop" | "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" | "bswap" | "bitreverse" => {
            let v = sarg(&args[0])?;
            let r = match v {
                Sv::C(v) => Sv::C(bitop(name, v, w)),
                Sv::S(e) => {
                    let rw = dsize as u32 * 8;
                    if let Sup::One(x) = it.pool.sup(e) {
                        let t = it.pool.table(e).unwrap();
                        let d = st.dom[x as usize];
                        let mut acc: Option<Sv> = None;
                        let vv = Sv::S(it.pool.var(x));
                        let mut runs: Vec<(u8, u128)> = vec![];
                        for k in 0..256usize { if d[k / 64] >> (k % 64) & 1 == 0 { continue; } let r = bitop(name, t[k], w) & mask(rw); match runs.last_mut() { Some(q) if q.1 == r => q.0 = k as u8, _ => runs.push((k as u8, r)) } }
                        for (hi, val) in runs.iter().rev() {
                            acc = Some(match acc { None => Sv::C(*val), Some(a) => { let c = it.pool.bin(Bin::Ule, vv, Sv::C(*hi as u128), 8); it.pool.ite(c, Sv::C(*val), a, rw) } });
                        }
                        acc.ok_or(Stop::Kill)?
                    } else if name.starts_with("cttz") {
                        // lowest set bit
                        let mut acc = Sv::C(w as u128);
                        for k in (0..w).rev() { let b = it.pool.extract(v, w, k, 1); acc = it.pool.ite(b, Sv::C(k as u128), acc, rw); }
                        acc
                    } else if name.starts_with("ctlz") {
                        let mut acc = Sv::C(w as u128);
                        for k in 0..w { let b = it.pool.extract(v, w, k, 1); acc = it.pool.ite(b, Sv::C((w - 1 - k) as u128), acc, rw); }
                        acc
                    } else { let c = it.concretize(st, v, w)?; Sv::C(bitop(name, c, w)) }
                }
            };
            ret(it, st, r)?;
        }
        "saturating_add" | "saturating_sub" => {
            let (a, b) = (sarg(&args[0])?, sarg(&args[1])?);
            let k = if name == "saturating_add" { BK::OvfAdd } else { BK::OvfSub };
            let (r, o) = it.ovf(st, &k, a, b, w, i.signed)?;
            let r = if !i.signed {
                let sat = if name == "saturating_add" { mask(w) } else { 0 };
                it.pool.ite(o, Sv::C(sat), r, w)
            } else {
                let neg = it.pool.bin(Bin::Slt, a, Sv::C(0), w);
                let lim = it.pool.ite(neg, Sv::C(1u128 << (w - 1)), Sv::C(mask(w) >> 1), w);
                it.pool.ite(o, lim, r, w)
            };
            ret(it, st, r)?;
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let (a, b) = (sarg(&args[0])?, sarg(&args[1])?);
            let k = match name { "add_with_overflow" => BK::OvfAdd, "sub_with_overflow" => BK::OvfSub, _ => BK::OvfMul };
            let (r, o) = it.ovf(st, &k, a, b, w, i.signed)?;
            it.store_c(st, dst, tsize as u32, r)?;
            let o = it.pool.zext(o, 1, 8);
            it.store_c(st, dst + tsize, 1, o)?;
        }
        "wrapping_add" | "unchecked_add" | "wrapping_sub" | "unchecked_sub" | "wrapping_mul" | "unchecked_mul" | "unchecked_div" | "exact_div" | "unchecked_rem" => {
            let (a, b) = (sarg(&args[0])?, sarg(&args[1])?);
            let op = match name { "wrapping_add" | "unchecked_add" => Bin::Add, "wrapping_sub" | "unchecked_sub" => Bin::Sub, "wrapping_mul" | "unchecked_mul" => Bin::Mul,
                "unchecked_rem" => if i.signed { Bin::SRem } else { Bin::URem }, _ => if i.signed { Bin::SDiv } else { Bin::UDiv } };
            let r = it.pool.bin(op, a, b, w);
            ret(it, st, r)?;
        }
        "rotate_left" | "rotate_right" => {
            let (a, b) = (sarg(&args[0])?, sarg(&args[1])?);
            let n = it.concretize(st, b, 32)? as u32 % w;
            let n = if name == "rotate_left" { n } else { (w - n) % w };
            let r = if n == 0 { a } else {
                let hi = it.pool.extract(a, w, 0, w - n);
                let lo = it.pool.extract(a, w, w - n, n);
                it.pool.concat(hi, lo, w - n, n)
            };
            ret(it, st, r)?;
        }
        "likely" | "unlikely" | "black_box" => {
            match &args[0] { ArgVal::S(v, n) => it.store_c(st, dst, *n, *v)?, ArgVal::M(b, s) => it.with_mem_mut(st, dst, b.len() as u64, |_, al, o| al.put(o, b, s))? }
        }
        "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "assume" | "forget" | "breakpoint" => {}
        "abort" => return Err(Stop::Panic("abort".into())),
        "unreachable" => return err("unreachable intrinsic"),
        "caller_location" => {
            let a = dummy_loc(it);
            ret(it, st, Sv::C(a as u128))?;
        }
        "compare_bytes" => {
            let a = conc(it, st, &args[0])?; let b = conc(it, st, &args[1])?; let n = conc(it, st, &args[2])?;
            let r = mem_cmp(it, st, a, b, n)?;
            ret(it, st, r)?;
        }
        "raw_eq" => {
            let a = conc(it, st, &args[0])?; let b = conc(it, st, &args[1])?;
            let r = mem_eq(it, st, a, b, tsize)?;
            let r = it.pool.zext(r, 1, 8);
            ret(it, st, r)?;
        }
        "vtable_size" | "vtable_align" => {
            let v = conc(it, st, &args[0])?;
            let r = it.load_c(st, v + if name == "vtable_size" { 8 } else { 16 }, 8)?;
            ret(it, st, r)?;
        }
        "is_val_statically_known" | "ub_checks" | "contract_checks" => ret(it, st, Sv::C(0))?,
        "overflow_checks" => ret(it, st, Sv::C(1))?,
        "const_allocate" | "const_deallocate" => ret(it, st, Sv::C(0))?,
        "select_unpredictable" => {
            let c = sarg(&args[0])?;
            let c = it.pool.extract(c, 8, 0, 1);
            let b = it.decide(st, c)?;
            match &args[if b { 1 } else { 2 }] { ArgVal::S(v, n) => it.store_c(st, dst, *n, *v)?, ArgVal::M(b, s) => it.with_mem_mut(st, dst, b.len() as u64, |_, al, o| al.put(o, b, s))? }
        }
        "catch_unwind" => {
            // catch_unwind(try_fn, data, catch_fn) -> i32 : panics end the path, so just call
            let f = conc(it, st, &args[0])?;
            it.store_c(st, dst, dsize as u32, Sv::C(0))?;
            return it.call(st, (f >> 32) as u32 - crate::mem::FUNC, vec![args[1].clone()], dst, 0, target);
        }
        "discriminant_value" => return err("discriminant_value"),
        "fabsf64" => { let v = sarg(&args[0])?; let r = it.pool.bin(Bin::And, v, Sv::C(mask(63)), 64); ret(it, st, r)?; }
        _ if name.starts_with("atomic_") => {
            let op = &name[7..];
            let p = if op.starts_with("fence") || op.starts_with("singlethreadfence") { return done(st) } else { conc(it, st, &args[0])? };
            let n = tsize as u32;
            if op.starts_with("load") { let v = it.load_c(st, p, n)?; ret(it, st, v)?; }
            else if op.starts_with("store") { let v = sarg(&args[1])?; it.store_c(st, p, n, v)?; }
            else if op.starts_with("cxchg") {
                let old = it.load_c(st, p, n)?;
                let (e, new) = (sarg(&args[1])?, sarg(&args[2])?);
                let c = it.pool.bin(Bin::Eq, old, e, w);
                let b = it.decide(st, c)?;
                if b { it.store_c(st, p, n, new)?; }
                it.store_c(st, dst, n, old)?;
                it.store_c(st, dst + tsize, 1, Sv::C(b as u128))?;
            } else {
                let old = it.load_c(st, p, n)?;
                let v = sarg(&args[1])?;
                let new = if op.starts_with("xchg") { v }
                    else if op.starts_with("xadd") { it.pool.bin(Bin::Add, old, v, w) }
                    else if op.starts_with("xsub") { it.pool.bin(Bin::Sub, old, v, w) }
                    else if op.starts_with("and") { it.pool.bin(Bin::And, old, v, w) }
                    else if op.starts_with("nand") { let x = it.pool.bin(Bin::And, old, v, w); it.pool.not(x, w) }
                    else if op.starts_with("or") { it.pool.bin(Bin::Or, old, v, w) }
                    else if op.starts_with("xor") { it.pool.bin(Bin::Xor, old, v, w) }
                    else if op.starts_with("umax") { let c = it.pool.bin(Bin::Ult, old, v, w); it.pool.ite(c, v, old, w) }
                    else if op.starts_with("umin") { let c = it.pool.bin(Bin::Ult, old, v, w); it.pool.ite(c, old, v, w) }
                    else { return err(format!("atomic {op}")) };
                it.store_c(st, p, n, new)?;
                ret(it, st, old)?;
            }
        }
        _ => return err(format!("intrinsic {name}")),
    }
    done(st)
}

fn bitop(name: &str, v: u128, w: u32) -> u128 {
    let v = v & mask(w);
    match name {
        "ctpop" => v.count_ones() as u128,
        "ctlz" | "ctlz_nonzero" => (v.leading_zeros() - (128 - w)) as u128,
        "cttz" | "cttz_nonzero" => if v == 0 { w as u128 } else { v.trailing_zeros() as u128 },
        "bswap" => v.swap_bytes() >> (128 - w),
        _ => v.reverse_bits() >> (128 - w),
    }
}

fn set_bytes<'tcx>(it: &mut Interp<'tcx>, st: &mut State, d: u64, v: Sv, n: u64) -> X<()> {
    if n == 0 { return Ok(()); }
    it.with_mem_mut(st, d, n, |_, al, o| {
        match v {
            Sv::C(c) => { al.clear_sym(o, n as usize); al.bytes[o..o + n as usize].fill(c as u8); }
            s => for k in 0..n as usize { al.write_byte(o + k, s); },
        }
    })
}

pub fn dummy_loc<'tcx>(it: &mut Interp<'tcx>) -> u64 {
    if let Some(a) = it.static_map.get(&rustc_hir::def_id::CRATE_DEF_ID.to_def_id()) { return *a; }
    let f = it.new_glob_raw(crate::mem::Alloc { bytes: b"?\0".to_vec(), sym: None, dead: false });
    let mut b = vec![];
    b.extend(f.to_le_bytes());
    b.extend(2u64.to_le_bytes());
    b.extend([0u8; 16]);
    let a = it.new_glob_raw(crate::mem::Alloc { bytes: b, sym: None, dead: false });
    it.static_map.insert(rustc_hir::def_id::CRATE_DEF_ID.to_def_id(), a);
    a
}

pub fn hook_table() -> Vec<(&'static str, Hook)> {
    use Hook::*;
    vec![
        ("harness::sym::any_u8", AnyU8),
        ("harness::sym::assume", Assume),
        ("harness::sym::note_bytes", Note),
        ("harness::sym::reach", Reach),
        ("harness::sym::concretize", Concretize),
        ("harness::sym::is_symbolic", IsSym), ("harness::oracle::fail", Panic),
        ("core::panicking::panic_fmt", Panic),
        ("core::panicking::panic_nounwind_fmt", Panic),
        ("core::panicking::panic_nounwind", Panic),
        ("core::panicking::panic", Panic),
        ("core::panicking::panic_display", Panic),
        ("core::panicking::assert_failed_inner", Panic),
        ("std::panicking::rust_panic_with_hook", Panic),
        ("std::panicking::begin_panic", Panic),
        ("core::option::unwrap_failed", Panic),
        ("core::option::expect_failed", Panic),
        ("core::result::unwrap_failed", Panic),
        ("alloc::alloc::handle_alloc_error", Panic),
        ("std::process::abort", Abort),
        ("std::sys::random::hashmap_random_keys", RandomKeys),
        ("std::sys::random::linux::hashmap_random_keys", RandomKeys),
        ("core::str::pattern::simd_contains", NoneBool),
        ("miri_promise_symbolic_alignment", Unit), ("std::io::stdio::_eprint", Unit), ("std::io::stdio::_print", Unit),
        ("malloc", Malloc), ("calloc", Calloc), ("free", Free), ("realloc", CRealloc), ("aligned_alloc", AlignedAlloc), ("posix_memalign", PosixMemalign),
        ("proc_macro2::detection::inside_proc_macro", False),
        ("std::sys::thread_local::guard::enable", Unit), ("std::sys::thread_local::guard::key::enable", Unit), ("std::sys::thread_local::destructors::linux_like::register", Unit), ("std::sys::thread_local::destructors::list::register", Unit),
        ("__rust_alloc", Alloc),
        ("__rust_alloc_zeroed", AllocZeroed),
        ("__rust_dealloc", Dealloc),
        ("__rust_realloc", Realloc),
        ("__rust_no_alloc_shim_is_unstable_v2", Unit),
        ("strlen", Strlen), ("memcmp", Memcmp), ("memcpy", Memcpy), ("memmove", Memmove), ("memset", Memset), ("memchr", Memchr), ("memrchr", Memrchr),
        ("core::slice::memchr::memchr", Memchr),
        ("core::slice::memchr::memchr_aligned", Memchr),
    ]
}

pub fn hook<'tcx>(it: &mut Interp<'tcx>, st: &mut State, f: FnId, h: Hook, args: Vec<ArgVal>, dst: u64, dsize: u64, target: Option<u32>) -> X<()> {
    let done = |st: &mut State| -> X<()> { match target { Some(t) => { let f = st.frames.last_mut().unwrap(); f.bb = t; f.idx = 0; Ok(()) } None => err("diverging hook returned") } };
    match h {
        Hook::AnyU8 => { let v = it.new_var(st); it.store_c(st, dst, 1, Sv::S(v))?; }
        Hook::Assume => { let v = sarg(&args[0])?; let b = it.pool.extract(v, 8, 0, 1); it.assume(st, b)?; }
        Hook::Note => {
            let v = sarg(&args[0])?;
            let p = it.pool.extract(v, 128, 0, 64); let n = it.pool.extract(v, 128, 64, 64);
            let p = it.concretize(st, p, 64)? as u64; let n = it.concretize(st, n, 64)? as u64;
            let s = it.snapshot(st, p, n)?;
            st.notes.push(s);
        }
        Hook::Reach => { let v = sarg(&args[0])?; let v = it.concretize(st, v, 32)? as u32; st.reached.push(v); }
        Hook::Concretize => { let v = sarg(&args[0])?; let c = it.concretize(st, v, 8)?; it.store_c(st, dst, 1, Sv::C(c))?; }
        Hook::IsSym => { let v = sarg(&args[0])?; it.store_c(st, dst, 1, Sv::C(matches!(v, Sv::S(_)) as u128))?; }
        Hook::Panic => {
            let n = it.fns[f as usize].name.clone();
            let mut m = n.clone();
            if n.ends_with("::panic") || n.ends_with("panic_nounwind") || n.ends_with("expect_failed") || n.ends_with("result::unwrap_failed") || n.ends_with("panic_display") || n.ends_with("oracle::fail") {
                if let Some(ArgVal::S(Sv::C(v), 16)) = args.first() {
                    let (p, l) = (*v as u64, (*v >> 64) as u64);
                    if l < 4096 { if let Ok((b, _)) = it.snapshot(st, p, l) { m = if n.ends_with("oracle::fail") { format!("PROPERTY: {}", String::from_utf8_lossy(&b)) } else { format!("{n}: {}", String::from_utf8_lossy(&b)) }; } }
                }
            } else if n.ends_with("panic_fmt") {
                if let Ok(s) = fmt_args(it, st, &args[0]) { m = format!("panic: {s}"); }
            }
            return Err(Stop::Panic(m));
        }
        Hook::Abort => return Err(Stop::Panic("process abort".into())),
        Hook::ZeroHash => it.store_c(st, dst, dsize as u32, Sv::C(0))?,
        Hook::Unit => {}
        Hook::False => it.store_c(st, dst, 1, Sv::C(0))?,
        Hook::RandomKeys => it.store_c(st, dst, 16, Sv::C(1 | 2u128 << 64))?,
        Hook::Alloc | Hook::AllocZeroed => {
            let n = conc(it, st, &args[0])?;
            if n > 1 << 28 { return err(format!("huge allocation {n}")); }
            let id = st.heap.alloc(n as usize);
            it.store_c(st, dst, 8, Sv::C((id as u128) << 32))?;
        }
        Hook::One => it.store_c(st, dst, dsize as u32, Sv::C(1))?,
        Hook::NoneBool => it.store_c(st, dst, 1, Sv::C(2))?,
        Hook::Malloc | Hook::Calloc | Hook::AlignedAlloc => {
            let mut n = conc(it, st, &args[0])?;
            if h == Hook::Calloc { n *= conc(it, st, &args[1])?; }
            if h == Hook::AlignedAlloc { n = conc(it, st, &args[1])?; }
            if n > 1 << 28 { return err(format!("huge allocation {n}")); }
            let id = st.heap.alloc(n as usize);
            it.store_c(st, dst, 8, Sv::C((id as u128) << 32))?;
        }
        Hook::PosixMemalign => {
            let p = conc(it, st, &args[0])?; let n = conc(it, st, &args[2])?;
            let id = st.heap.alloc(n as usize);
            it.store_c(st, p, 8, Sv::C((id as u128) << 32))?;
            it.store_c(st, dst, 4, Sv::C(0))?;
        }
        Hook::Free => { let p = conc(it, st, &args[0])?; if p != 0 { st.heap.dealloc((p >> 32) as u32); } }
        Hook::CRealloc => {
            let p = conc(it, st, &args[0])?; let n = conc(it, st, &args[1])?;
            let id = st.heap.alloc(n as usize);
            if p != 0 {
                let old = st.heap.get((p >> 32) as u32).map(|a| a.bytes.len() as u64).unwrap_or(0);
                it.copy(st, (id as u64) << 32, p, old.min(n))?;
                st.heap.dealloc((p >> 32) as u32);
            }
            it.store_c(st, dst, 8, Sv::C((id as u128) << 32))?;
        }
        Hook::Dealloc => {
            let p = conc(it, st, &args[0])?;
            if p & 0xffff_ffff != 0 || !st.heap.dealloc((p >> 32) as u32) { return err(format!("bad free {p:#x}")); }
        }
        Hook::Realloc => {
            let p = conc(it, st, &args[0])?; let old = conc(it, st, &args[1])?; let n = conc(it, st, &args[3])?;
            let id = st.heap.alloc(n as usize);
            it.copy(st, (id as u64) << 32, p, old.min(n))?;
            st.heap.dealloc((p >> 32) as u32);
            it.store_c(st, dst, 8, Sv::C((id as u128) << 32))?;
        }
        Hook::Strlen => {
            let p = conc(it, st, &args[0])?;
            let mut n = 0u64;
            loop {
                let b = it.load_c(st, p + n, 1)?;
                let c = it.pool.bin(Bin::Eq, b, Sv::C(0), 8);
                if it.decide(st, c)? { break; }
                n += 1;
            }
            it.store_c(st, dst, 8, Sv::C(n as u128))?;
        }
        Hook::Memcmp => {
            let a = conc(it, st, &args[0])?; let b = conc(it, st, &args[1])?; let n = conc(it, st, &args[2])?;
            let r = mem_cmp(it, st, a, b, n)?;
            it.store_c(st, dst, 4, r)?;
        }
        Hook::Memcpy | Hook::Memmove => {
            let d = conc(it, st, &args[0])?; let s = conc(it, st, &args[1])?; let n = conc(it, st, &args[2])?;
            it.copy(st, d, s, n)?;
            it.store_c(st, dst, 8, Sv::C(d as u128))?;
        }
        Hook::Memset => {
            let d = conc(it, st, &args[0])?; let v = sarg(&args[1])?; let v = it.pool.extract(v, 32, 0, 8); let n = conc(it, st, &args[2])?;
            set_bytes(it, st, d, v, n)?;
            it.store_c(st, dst, 8, Sv::C(d as u128))?;
        }
        Hook::Memchr | Hook::Memrchr => {
            let name = it.fns[f as usize].name.clone();
            if name.starts_with("core::") {
                // fn memchr(x: u8, text: &[u8]) -> Option<usize>
                let x = sarg(&args[0])?;
                let v = sarg(&args[1])?;
                let p = it.pool.extract(v, 128, 0, 64); let n = it.pool.extract(v, 128, 64, 64);
                let p = it.concretize(st, p, 64)? as u64; let n = it.concretize(st, n, 64)? as u64;
                let bs = bytes_at(it, st, p, n)?;
                let mut found = None;
                for (k, b) in bs.iter().enumerate() {
                    let c = it.pool.bin(Bin::Eq, *b, x, 8);
                    if it.decide(st, c)? { found = Some(k as u64); break; }
                }
                it.store_c(st, dst, 8, Sv::C(found.is_some() as u128))?;
                it.store_c(st, dst + 8, 8, Sv::C(found.unwrap_or(0) as u128))?;
            } else {
                let p = conc(it, st, &args[0])?; let x = sarg(&args[1])?; let x = it.pool.extract(x, 32, 0, 8); let n = conc(it, st, &args[2])?;
                let bs = bytes_at(it, st, p, n)?;
                let mut r = 0u64;
                let idx: Vec<usize> = if h == Hook::Memchr { (0..bs.len()).collect() } else { (0..bs.len()).rev().collect() };
                for k in idx {
                    let c = it.pool.bin(Bin::Eq, bs[k], x, 8);
                    if it.decide(st, c)? { r = p + k as u64; break; }
                }
                it.store_c(st, dst, 8, Sv::C(r as u128))?;
            }
        }
        Hook::Utf8 => return err("utf8 hook"),
    }
    done(st)
}

/// Best effort rendering of the constant pieces of `fmt::Arguments`.
fn fmt_args<'tcx>(it: &mut Interp<'tcx>, st: &mut State, a: &ArgVal) -> X<String> {
    // Arguments { template: NonNull<u8>, args: NonNull<..> }: either a tagged static str or a template
    let ArgVal::S(v, 16) = a else { return err("fmt") };
    let p = it.pool.extract(*v, 128, 0, 64);
    let q = it.pool.extract(*v, 128, 64, 64);
    let p = it.concretize(st, p, 64)? as u64;
    let q = it.concretize(st, q, 64)? as u64;
    if q & 1 == 1 {
        let n = q >> 1;
        let (b, s) = it.snapshot(st, p, n)?;
        let mut b = b;
        for (o, e) in s { let mut memo = Default::default(); b[o as usize] = it.pool.eval(e, &st.model, &mut memo) as u8; }
        return Ok(String::from_utf8_lossy(&b).into_owned());
    }
    let mut out = String::new();
    let mut k = p;
    for _ in 0..64 {
        let Sv::C(t) = it.load_c(st, k, 1)? else { break };
        let t = t as u64;
        k += 1;
        if t == 0 { break; }
        if t < 0x80 {
            let (b, _) = it.snapshot(st, k, t)?;
            out.push_str(&String::from_utf8_lossy(&b));
            k += t;
        } else if t == 0x80 {
            let Sv::C(n) = it.load_c(st, k, 2)? else { break };
            k += 2;
            let (b, _) = it.snapshot(st, k, n as u64)?;
            out.push_str(&String::from_utf8_lossy(&b));
            k += n as u64;
        } else {
            out.push_str("{..}");
            // placeholder with optional spec bytes
            if t & 1 != 0 { k += 4; } if t & 2 != 0 { k += 2; } if t & 4 != 0 { k += 2; } if t & 8 != 0 { k += 2; }
        }
    }
    Ok(out)
}
