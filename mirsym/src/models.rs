//! Native models: compiler intrinsics, allocator, panics, host storage, hashing, harness API,
//! and a few dependency kernels (wide multiplication/division) given directly as terms.
use crate::big::{Z, ZERO};
use crate::exec::*;
use crate::hash;
use crate::mem::*;
use crate::solver::Res;
use crate::term::*;
use crate::ir::BinK;
use rustc_data_structures::fx::FxHashMap;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty};
use std::rc::Rc;

pub type Handler = for<'a, 'tcx> fn(&mut Exec<'tcx>, &Cx<'a>) -> R<bool>;
pub enum Look {
    Handler(Handler),
    Redirect(u32),
}

fn ty0<'tcx>(ex: &Exec<'tcx>, cx: &Cx) -> Ty<'tcx> {
    ex.lo.insts[cx.id as usize].inst.args.type_at(0)
}
fn ret(ex: &mut Exec, cx: &Cx, v: V) -> R<bool> {
    if cx.dsize > 0 {
        ex.store(cx.dst, cx.dsize as u8, v)?;
    }
    Ok(false)
}
fn arg(ex: &Exec, cx: &Cx, i: usize) -> R<V> {
    ex.argv(&cx.args[i])
}
fn carg(ex: &Exec, cx: &Cx, i: usize) -> R<u128> {
    let v = ex.argv(&cx.args[i])?;
    ex.cv(v)
}
/// (ptr, len) of a fat argument
fn fat(ex: &Exec, cx: &Cx, i: usize) -> R<(u64, u64)> {
    match cx.args[i].0 {
        ArgV::At(p) => {
            let a = ex.load(p, 8)?;
            let b = ex.load(p + 8, 8)?;
            Ok((ex.cv(a)? as u64, ex.cv(b)? as u64))
        }
        ArgV::Imm(v) => Ok((v as u64, (v >> 64) as u64)),
        ArgV::Val(v) => {
            let v = ex.cv(v)?;
            Ok((v as u64, (v >> 64) as u64))
        }
    }
}
fn bytes_arg(ex: &Exec, cx: &Cx, i: usize) -> R<Vec<u8>> {
    let (p, n) = fat(ex, cx, i)?;
    if n == 0 {
        return Ok(vec![]);
    }
    ex.bytes(p, n)
}
fn str_arg(ex: &Exec, cx: &Cx, i: usize) -> R<Rc<str>> {
    Ok(String::from_utf8_lossy(&bytes_arg(ex, cx, i)?).into_owned().into())
}
fn noop(_: &mut Exec, _: &Cx) -> R<bool> {
    Ok(false)
}
fn is_int(t: Ty) -> Option<(u8, bool)> {
    match t.kind() {
        ty::Uint(u) => Some((u.bit_width().unwrap_or(64) as u8 / 8, false)),
        ty::Int(u) => Some((u.bit_width().unwrap_or(64) as u8 / 8, true)),
        _ => None,
    }
}

/// `Compact<u128>` is encoded and decoded as a plain `u128`: the length of the real encoding
/// depends on the value, so a symbolic amount would make every later offset symbolic. Encoding
/// and decoding change together, so nothing but the bytes themselves can tell the difference.
fn compact<'tcx>(ex: &Exec<'tcx>, inst: Instance<'tcx>) -> Option<Instance<'tcx>> {
    let tcx = ex.lo.tcx;
    let d = inst.def_id();
    let ai = tcx.opt_associated_item(d)?;
    let tm = ai.trait_item_def_id()?;
    let imp = tcx.impl_of_assoc(d)?;
    let own = tcx.generics_of(d).parent_count;
    let me = tcx.type_of(imp).instantiate(tcx, inst.args).skip_norm_wip();
    let ty::Adt(def, args) = me.kind() else { return None };
    let name = tcx.item_name(def.did());
    if args.types().next()? != tcx.types.u128 {
        return None;
    }
    let tr = tcx.item_name(tcx.parent(tm));
    let to = match (name.as_str(), tr.as_str()) {
        ("CompactRef", "Encode") => Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, tcx.types.u128),
        ("Compact", "Decode") => tcx.types.u128,
        _ => return None,
    };
    let mut a: Vec<ty::GenericArg<'tcx>> = vec![to.into()];
    a.extend(inst.args.iter().skip(own));
    Instance::try_resolve(tcx, ex.lo.env, tm, tcx.mk_args(&a)).ok().flatten()
}

pub fn lookup<'tcx>(ex: &mut Exec<'tcx>, id: u32) -> Option<Look> {
    let inst = ex.lo.insts[id as usize].inst;
    let tcx = ex.lo.tcx;
    if let InstanceKind::Intrinsic(d) = inst.def {
        let name = tcx.item_name(d);
        let n = name.as_str();
        if KNOWN_INTRINSICS.contains(&n) || n.starts_with("atomic_") {
            ex.lo.insts[id as usize].name = n.into();
            return Some(Look::Handler(intrinsic));
        }
        let has_body = tcx.intrinsic(d).map(|i| !i.must_be_overridden).unwrap_or(false);
        if has_body {
            let i2 = Instance::new_raw(d, inst.args);
            return Some(Look::Redirect(ex.lo.inst_id(i2)));
        }
        return None;
    }
    if !matches!(inst.def, InstanceKind::Item(_)) {
        return None;
    }
    let name = ex.lo.insts[id as usize].name.clone();
    let n: &str = &name;
    if let Some(d) = ex.lo.redirects.get(n).copied() {
        let i2 = Instance::new_raw(d, inst.args);
        return Some(Look::Redirect(ex.lo.inst_id(i2)));
    }
    let last = n.rsplit("::").next().unwrap();
    let krate = n.split("::").next().unwrap();
    if krate == "parity_scale_codec" {
        if let Some(i2) = compact(ex, inst) {
            return Some(Look::Redirect(ex.lo.inst_id(i2)));
        }
    }
    let h: Handler = match krate {
        "symrt" => match last {
            "any" => s_any,
            "choice" => s_choice,
            "assume" => s_assume,
            "check" => s_check,
            "reach" => s_reach,
            "observe" => s_observe,
            "end" => s_end,
            "st_len" => st_len,
            "st_read" => st_read,
            "st_set" => st_set,
            "st_clear" => st_clear,
            "st_next" => st_next,
            "tx_start" => tx_start,
            "tx_rollback" => tx_rollback,
            "tx_commit" => tx_commit,
            "dbg" => s_dbg,
            "is_symbolic" => s_issym,
            "conc" => s_conc,
            _ => return None,
        },
        "core" => {
            if n.starts_with("core::panicking::") || n == "core::option::unwrap_failed" {
                panic_any
            } else if n == "core::option::expect_failed" || n == "core::result::unwrap_failed" {
                panic_str
            } else if n == "core::cmp::Ord::min" && is_int(inst.args.type_at(0)).is_some() {
                int_min
            } else if n == "core::cmp::Ord::max" && is_int(inst.args.type_at(0)).is_some() {
                int_max
            } else if n.starts_with("core::intrinsics::integer_min") {
                int_min
            } else if n.starts_with("core::intrinsics::integer_max") {
                int_max
            } else if n.starts_with("core::intrinsics::miri_promise_symbolic_alignment") {
                noop
            } else if n == "core::hint::black_box" {
                return None;
            } else {
                return None;
            }
        }
        "alloc" => match last {
            "__rust_alloc" | "__rust_alloc_zeroed" => rust_alloc,
            "__rust_dealloc" => rust_dealloc,
            "__rust_realloc" => rust_realloc,
            "__rust_no_alloc_shim_is_unstable" | "__rust_no_alloc_shim_is_unstable_v2" => noop,
            "handle_alloc_error" | "capacity_overflow" => panic_any,
            _ => {
                if n == "alloc::fmt::format" {
                    fmt_format
                } else {
                    return None;
                }
            }
        },
        "frame_system" if last == "deposit_event_indexed" => noop,
        "sp_crypto_hashing" | "sp_io" if last.starts_with("twox_") || last.starts_with("blake2_") => match last {
            "twox_64" => h_twox64,
            "twox_128" => h_twox128,
            "twox_256" => h_twox256,
            "blake2_128" => h_b128,
            "blake2_256" => h_b256,
            "blake2_512" => h_b512,
            _ => return None,
        },
        "integer_sqrt" => match last {
            "integer_sqrt" => int_sqrt,
            _ => return None,
        },
        "sp_arithmetic" => match last {
            "multiply_by_rational_with_rounding" => mul_rational,
            _ => return None,
        },
        _ => return None,
    };
    Some(Look::Handler(h))
}

const KNOWN_INTRINSICS: &[&str] = &[
    "size_of", "align_of", "min_align_of", "pref_align_of", "size_of_val", "align_of_val", "min_align_of_val",
    "needs_drop", "type_id", "type_id_eq", "type_name", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid",
    "black_box", "write_bytes", "copy", "copy_nonoverlapping", "volatile_load", "volatile_store", "arith_offset",
    "ptr_offset_from", "ptr_offset_from_unsigned", "saturating_add", "saturating_sub", "exact_div", "rotate_left",
    "rotate_right", "ctpop", "ctlz", "ctlz_nonzero", "cttz", "cttz_nonzero", "bswap", "bitreverse", "compare_bytes",
    "raw_eq", "caller_location", "abort", "unreachable", "forget", "const_eval_select", "ptr_mask", "vtable_size", "vtable_align",
    "is_val_statically_known", "likely", "unlikely", "assume", "cold_path", "discriminant_value", "read_via_copy",
    "write_via_move", "variant_count", "unaligned_volatile_load", "ptr_guaranteed_cmp", "contract_checks", "typed_swap_nonoverlapping",
    "add_with_overflow", "sub_with_overflow", "mul_with_overflow", "wrapping_add", "wrapping_sub", "wrapping_mul", "offset_of",
    "size_of_type_id", "type_id_vtable", "three_way_compare", "transmute", "transmute_unchecked", "select_unpredictable",
];

fn size_align_val<'tcx>(ex: &Exec<'tcx>, t: Ty<'tcx>, meta: u64) -> R<(u64, u64)> {
    let l = ex.lo.layout(t);
    if l.is_sized() {
        return Ok((l.size.bytes(), l.align.abi.bytes()));
    }
    match t.kind() {
        ty::Slice(e) => {
            let le = ex.lo.layout(*e);
            Ok((le.size.bytes() * meta, le.align.abi.bytes()))
        }
        ty::Str => Ok((meta, 1)),
        ty::Dynamic(..) => {
            let s = ex.load(meta + 8, 8)?;
            let a = ex.load(meta + 16, 8)?;
            Ok((ex.cv(s)? as u64, ex.cv(a)? as u64))
        }
        _ => {
            // struct with unsized tail
            let cx = ex.lo.cx();
            let n = l.fields.count();
            let o = l.fields.offset(n - 1).bytes();
            let ft = l.field(&cx, n - 1).ty;
            let (s, a) = size_align_val(ex, ft, meta)?;
            let al = a.max(l.align.abi.bytes());
            let o = o.div_ceil(a) * a;
            Ok(((o + s).div_ceil(al) * al, al))
        }
    }
}

fn big_endian(ex: &Exec, p: u64, n: u64) -> R<Vec<(u32, u8, V)>> {
    // list of (offset, len, value) cells covering the range
    let m = ex.slice(p, n as u32)?;
    let mut out = vec![];
    let mut pos = 0u32;
    for (o, s, t) in &m.ov {
        while pos < *o {
            let k = (*o - pos).min(16) as u8;
            out.push((pos, k, m.read(pos, k)));
            pos += k as u32;
        }
        let v = match ex.s.conc.get(t) {
            Some(c) => V::C(*c),
            None => V::S(*t),
        };
        out.push((*o, *s, v));
        pos = o + *s as u32;
    }
    while pos < n as u32 {
        let k = (n as u32 - pos).min(16) as u8;
        out.push((pos, k, m.read(pos, k)));
        pos += k as u32;
    }
    Ok(out)
}

/// conjunction: the two ranges are bytewise equal
fn mem_eq(ex: &Exec, a: u64, b: u64, n: u64) -> R<T> {
    let (ma, mb) = (ex.slice(a, n as u32)?, ex.slice(b, n as u32)?);
    if ma.ov.is_empty() && mb.ov.is_empty() {
        return Ok(if ma.bytes == mb.bytes { TRUE } else { FALSE });
    }
    // common refinement of cell boundaries
    let mut cuts: Vec<u32> = vec![0, n as u32];
    for m in [&ma, &mb] {
        for (o, s, _) in &m.ov {
            cuts.push(*o);
            cuts.push(*o + *s as u32);
        }
    }
    cuts.sort();
    cuts.dedup();
    let tm = tt();
    let mut r = TRUE;
    let mut i = 0;
    while i + 1 < cuts.len() {
        // maximal cell-aligned chunk: merge while neither side has a boundary inside a cell
        let s = cuts[i];
        let mut j = i + 1;
        // grow until both sides are at cell boundaries
        loop {
            let e = cuts[j];
            let inside = [&ma, &mb].iter().any(|m| m.ov.iter().any(|(o, l, _)| *o < e && o + *l as u32 > e));
            if !inside {
                break;
            }
            j += 1;
        }
        let e = cuts[j];
        let sym = [&ma, &mb].iter().any(|m| m.ov.iter().any(|(o, _, _)| *o >= s && *o < e));
        if !sym {
            if ma.bytes[s as usize..e as usize] != mb.bytes[s as usize..e as usize] {
                return Ok(FALSE);
            }
        } else {
            let mut p = s;
            while p < e {
                let k = (e - p).min(16) as u8;
                let x = ma.read(p, k).term();
                let y = mb.read(p, k).term();
                let c = tm.eq(x, y);
                r = tm.and(r, c);
                p += k as u32;
            }
        }
        i = j;
    }
    Ok(r)
}

fn intrinsic<'tcx>(ex: &mut Exec<'tcx>, cx: &Cx) -> R<bool> {
    let name = ex.lo.insts[cx.id as usize].name.clone();
    let n: &str = &name;
    let tm = tt();
    match n {
        "size_of" => {
            let t = ty0(ex, cx);
            let v = ex.lo.size_of(t);
            ret(ex, cx, V::C(v as u128))
        }
        "align_of" | "min_align_of" | "pref_align_of" => {
            let t = ty0(ex, cx);
            let v = ex.lo.layout(t).align.abi.bytes();
            ret(ex, cx, V::C(v as u128))
        }
        "size_of_val" | "align_of_val" | "min_align_of_val" => {
            let t = ty0(ex, cx);
            let meta = if cx.args[0].1 == 16 { fat(ex, cx, 0)?.1 } else { 0 };
            let (s, a) = size_align_val(ex, t, meta)?;
            ret(ex, cx, V::C(if n == "size_of_val" { s } else { a } as u128))
        }
        "needs_drop" => {
            let t = ty0(ex, cx);
            let v = t.needs_drop(ex.lo.tcx, ex.lo.env);
            ret(ex, cx, V::C(v as u128))
        }
        "type_id" => {
            let t = ty0(ex, cx);
            let h = ex.lo.tcx.type_id_hash(t).as_u128();
            ret(ex, cx, V::C(h))
        }
        "type_id_eq" => {
            let (a, b) = (carg(ex, cx, 0)?, carg(ex, cx, 1)?);
            ret(ex, cx, V::C((a == b) as u128))
        }
        "type_name" => {
            let t = ty0(ex, cx);
            let s = format!("{t}");
            let mut m = Mem::new(s.len());
            m.bytes.copy_from_slice(s.as_bytes());
            let a = ex.lo.new_global(m);
            ex.store(cx.dst, 8, V::C(a as u128))?;
            ex.store(cx.dst + 8, 8, V::C(s.len() as u128))?;
            Ok(false)
        }
        "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "assume" | "cold_path" | "forget" => {
            Ok(false)
        }
        "black_box" | "likely" | "unlikely" | "transmute" | "transmute_unchecked" => {
            if cx.dsize == 0 {
                return Ok(false);
            }
            match cx.args[0].0 {
                ArgV::At(a) => ex.memcpy(cx.dst, a, cx.dsize)?,
                _ => {
                    let v = arg(ex, cx, 0)?;
                    ex.store(cx.dst, cx.dsize as u8, v)?;
                }
            }
            Ok(false)
        }
        "write_bytes" => {
            let t = ty0(ex, cx);
            let (d, c) = (carg(ex, cx, 0)? as u64, carg(ex, cx, 2)? as u64);
            let v = carg(ex, cx, 1)? as u8;
            let n = c * ex.lo.size_of(t);
            if n > 0 {
                let (m, o) = ex.mem_mut(d)?;
                if o as usize + n as usize > m.bytes.len() {
                    return Err(Stop::Unsupported("write_bytes oob".into()));
                }
                m.clear_ov(o, n as u32);
                m.bytes[o as usize..o as usize + n as usize].fill(v);
            }
            Ok(false)
        }
        "copy" | "copy_nonoverlapping" => {
            let t = ty0(ex, cx);
            let (s, d, c) = (carg(ex, cx, 0)? as u64, carg(ex, cx, 1)? as u64, carg(ex, cx, 2)? as u64);
            let n = c * ex.lo.size_of(t);
            ex.memcpy(d, s, n as u32)?;
            Ok(false)
        }
        "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => {
            let s = carg(ex, cx, 0)? as u64;
            if cx.dsize > 0 {
                ex.memcpy(cx.dst, s, cx.dsize)?;
            }
            Ok(false)
        }
        "volatile_store" | "write_via_move" => {
            let d = carg(ex, cx, 0)? as u64;
            let sz = cx.args[1].1;
            if sz > 0 {
                match cx.args[1].0 {
                    ArgV::At(a) => ex.memcpy(d, a, sz)?,
                    _ => {
                        let v = arg(ex, cx, 1)?;
                        ex.store(d, sz as u8, v)?
                    }
                }
            }
            Ok(false)
        }
        "arith_offset" => {
            let t = ty0(ex, cx);
            let st = ex.lo.size_of(t);
            let v = ex.bin(BinK::Offset(st), arg(ex, cx, 0)?, arg(ex, cx, 1)?, 8, false, 8, true)?;
            ret(ex, cx, v)
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let t = ty0(ex, cx);
            let st = ex.lo.size_of(t) as i128;
            let (a, b) = (carg(ex, cx, 0)? as i128, carg(ex, cx, 1)? as i128);
            ret(ex, cx, V::C(mask(((a - b) / st) as u128, 8)))
        }
        "ptr_mask" => {
            let (a, b) = (carg(ex, cx, 0)?, carg(ex, cx, 1)?);
            ret(ex, cx, V::C(a & b))
        }
        "ptr_guaranteed_cmp" => ret(ex, cx, V::C(2)),
        "saturating_add" | "saturating_sub" => {
            let t = ty0(ex, cx);
            let (sz, signed) = is_int(t).unwrap();
            let (a, b) = (arg(ex, cx, 0)?, arg(ex, cx, 1)?);
            let w = sz as u32 * 8;
            let k = if n == "saturating_add" { BinK::Add } else { BinK::Sub };
            if let (V::C(x), V::C(y)) = (a, b) {
                let (r, o) = ex.bin_ovf(k, V::C(x), V::C(y), sz, signed)?;
                let o = ex.cv(o)? != 0;
                let v = if !o {
                    ex.cv(r)?
                } else if !signed {
                    if k == BinK::Add {
                        mask(u128::MAX, sz)
                    } else {
                        0
                    }
                } else if sx(x, sz) < 0 {
                    1u128 << (w - 1)
                } else {
                    (1u128 << (w - 1)) - 1
                };
                return ret(ex, cx, V::C(v));
            }
            let (mut x, mut y) = (a.term(), b.term());
            if signed {
                x = tm.signed(x, w);
                y = tm.signed(y, w);
            }
            let s = if k == BinK::Add { tm.add(x, y) } else { tm.sub(x, y) };
            let (lo, hi) = if signed {
                (Z::pow2(w - 1).neg(), Z::pow2(w - 1).sub(Z::u(1)))
            } else {
                (ZERO, Z::pow2(w).sub(Z::u(1)))
            };
            let (lt, ht) = (tm.konst(lo), tm.konst(hi));
            // s < lo ? lo : (s > hi ? hi : s)
            let chi = tm.le(s, ht);
            let r = tm.ite(chi, s, ht);
            let clo = tm.le(lt, s);
            let r = tm.ite(clo, r, lt);
            let r = if signed { tm.wrap(r, w) } else { r };
            ret(ex, cx, V::from_term(r))
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let t = ty0(ex, cx);
            let (sz, signed) = is_int(t).unwrap();
            let k = match n {
                "add_with_overflow" => BinK::Add,
                "sub_with_overflow" => BinK::Sub,
                _ => BinK::Mul,
            };
            let (r, o) = ex.bin_ovf(k, arg(ex, cx, 0)?, arg(ex, cx, 1)?, sz, signed)?;
            ex.store(cx.dst, sz, r)?;
            ex.store(cx.dst + sz as u64, 1, o)?;
            Ok(false)
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "exact_div" => {
            let t = ty0(ex, cx);
            let (sz, signed) = is_int(t).unwrap();
            let k = match n {
                "wrapping_add" => BinK::Add,
                "wrapping_sub" => BinK::Sub,
                "wrapping_mul" => BinK::Mul,
                _ => BinK::Div,
            };
            let v = ex.bin(k, arg(ex, cx, 0)?, arg(ex, cx, 1)?, sz, signed, sz, signed)?;
            ret(ex, cx, v)
        }
        "rotate_left" | "rotate_right" => {
            let t = ty0(ex, cx);
            let (sz, _) = is_int(t).unwrap();
            let w = sz as u32 * 8;
            let v = carg(ex, cx, 0)?;
            let s = (carg(ex, cx, 1)? as u32) % w;
            let s = if n == "rotate_left" { s } else { (w - s) % w };
            let r = if s == 0 { v } else { mask(v << s, sz) | (v >> (w - s)) };
            ret(ex, cx, V::C(r))
        }
        "ctpop" | "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" | "bswap" | "bitreverse" => {
            let t = ty0(ex, cx);
            let (sz, _) = is_int(t).unwrap();
            let w = sz as u32 * 8;
            if n == "bswap" {
                if let V::S(t) = arg(ex, cx, 0)? {
                    // bytes reversed
                    let mut r = tm.ku(0);
                    for i in 0..sz {
                        let b = tm.ext(t, i, 1);
                        let b = tm.scale(b, Z::pow2(8 * (sz - 1 - i) as u32));
                        r = tm.add(r, b);
                    }
                    return ret(ex, cx, V::from_term(r));
                }
            }
            if n.starts_with("ctlz") {
                if let V::S(t) = arg(ex, cx, 0)? {
                    // number of leading zeros as a sum of comparisons
                    let mut r = tm.ku(0);
                    for i in 0..w {
                        let k = tm.konst(Z::pow2(i));
                        let c = tm.lt(t, k);
                        let c = tm.b2i(c);
                        r = tm.add(r, c);
                    }
                    return ret(ex, cx, V::from_term(r));
                }
            }
            let v = carg(ex, cx, 0)?;
            let r = match n {
                "ctpop" => v.count_ones() as u128,
                "ctlz" | "ctlz_nonzero" => (v.leading_zeros() - (128 - w)) as u128,
                "cttz" | "cttz_nonzero" => v.trailing_zeros().min(w) as u128,
                "bswap" => v.swap_bytes() >> (128 - w),
                _ => v.reverse_bits() >> (128 - w),
            };
            ret(ex, cx, V::C(r))
        }
        "compare_bytes" => {
            let (a, b, c) = (carg(ex, cx, 0)? as u64, carg(ex, cx, 1)? as u64, carg(ex, cx, 2)? as u64);
            if c == 0 {
                return ret(ex, cx, V::C(0));
            }
            let (ma, mb) = (ex.slice(a, c as u32)?, ex.slice(b, c as u32)?);
            if ma.ov.is_empty() && mb.ov.is_empty() {
                let o = ma.bytes.cmp(&mb.bytes) as i32;
                return ret(ex, cx, V::C(o as u32 as u128));
            }
            let _ = big_endian;
            let eq = mem_eq(ex, a, b, c)?;
            if eq == TRUE {
                return ret(ex, cx, V::C(0));
            }
            // lexicographic order, byte by byte from the end
            let mut lt = FALSE;
            for i in (0..c as u32).rev() {
                let x = ma.read(i, 1).term();
                let y = mb.read(i, 1).term();
                let l = tm.lt(x, y);
                let e = tm.eq(x, y);
                let n = tm.and(e, lt);
                lt = tm.or(l, n);
            }
            let (z, o, m) = (tm.ku(0), tm.ku(1), tm.ku(0xffff_ffff));
            let r = tm.ite(lt, m, o);
            let r = tm.ite(eq, z, r);
            ret(ex, cx, V::from_term(r))
        }
        "raw_eq" => {
            let t = ty0(ex, cx);
            let c = ex.lo.size_of(t);
            let (a, b) = (carg(ex, cx, 0)? as u64, carg(ex, cx, 1)? as u64);
            let e = if c == 0 { TRUE } else { mem_eq(ex, a, b, c)? };
            let e = tm.b2i(e);
            ret(ex, cx, V::from_term(e))
        }
        "caller_location" => {
            let z = ex.zero_addr;
            ret(ex, cx, V::C(z as u128))
        }
        "abort" => Err(Stop::Panic("abort".into())),
        "unreachable" => Err(Stop::Unsupported("unreachable intrinsic".into())),
        "const_eval_select" => {
            // (args tuple, const fn, runtime fn)
            let inst = ex.lo.insts[cx.id as usize].inst;
            let at = inst.args.type_at(0);
            let gt = inst.args.type_at(2);
            let (d, ga) = match gt.kind() {
                ty::FnDef(d, ga) => (*d, ga.no_bound_vars().unwrap()),
                _ => return Err(Stop::Unsupported("const_eval_select".into())),
            };
            let i2 = Instance::expect_resolve(ex.lo.tcx, ex.lo.env, d, ga, rustc_span::DUMMY_SP);
            let id = ex.lo.inst_id(i2);
            let lay = ex.lo.layout(at);
            let lcx = ex.lo.cx();
            let mut args = vec![];
            for j in 0..lay.fields.count() {
                let o = lay.fields.offset(j).bytes();
                let s = lay.field(&lcx, j).size.bytes() as u32;
                let a = match cx.args[0].0 {
                    ArgV::At(p) => ArgV::At(p + o),
                    ArgV::Imm(v) => ArgV::Imm(if o >= 16 { 0 } else { v >> (8 * o) }),
                    ArgV::Val(v) => ArgV::Val(v),
                };
                args.push((a, s));
            }
            ex.invoke(id, &args, cx.dst, cx.dsize, cx.next)?;
            Ok(true)
        }
        "vtable_size" | "vtable_align" => {
            let p = carg(ex, cx, 0)? as u64;
            let v = ex.load(p + if n == "vtable_size" { 8 } else { 16 }, 8)?;
            ret(ex, cx, v)
        }
        "is_val_statically_known" | "contract_checks" => ret(ex, cx, V::C(0)),
        "discriminant_value" => {
            let t = ty0(ex, cx);
            let a = carg(ex, cx, 0)? as u64;
            let d = crate::lower::FnLower::discr_of(&ex.lo, t);
            let v = ex.discr_at(a, &d, cx.dsize as u8)?;
            ret(ex, cx, v)
        }
        "variant_count" => {
            let t = ty0(ex, cx);
            let v = t.ty_adt_def().map(|a| a.variants().len()).unwrap_or(0);
            ret(ex, cx, V::C(v as u128))
        }
        "typed_swap_nonoverlapping" => {
            let t = ty0(ex, cx);
            let s = ex.lo.size_of(t);
            let (a, b) = (carg(ex, cx, 0)? as u64, carg(ex, cx, 1)? as u64);
            if s > 0 {
                let ma = ex.slice(a, s as u32)?;
                let mb = ex.slice(b, s as u32)?;
                ex.put_slice(a, &mb)?;
                ex.put_slice(b, &ma)?;
            }
            Ok(false)
        }
        "three_way_compare" => {
            let t = ty0(ex, cx);
            let (sz, signed) = is_int(t).unwrap_or((4, false));
            let v = ex.bin(BinK::Cmp, arg(ex, cx, 0)?, arg(ex, cx, 1)?, sz, signed, sz, signed)?;
            ret(ex, cx, v)
        }
        "select_unpredictable" => {
            let c = arg(ex, cx, 0)?;
            let sz = cx.dsize;
            if sz == 0 {
                return Ok(false);
            }
            let c = ex.cv(c)?;
            let k = if c != 0 { 1 } else { 2 };
            match cx.args[k].0 {
                ArgV::At(a) => ex.memcpy(cx.dst, a, sz)?,
                _ => {
                    let v = arg(ex, cx, k)?;
                    ex.store(cx.dst, sz as u8, v)?
                }
            }
            Ok(false)
        }
        _ if n.starts_with("atomic_") => atomic(ex, cx, n),
        _ => Err(Stop::Unsupported(format!("intrinsic {n}"))),
    }
}

fn atomic(ex: &mut Exec, cx: &Cx, n: &str) -> R<bool> {
    let base = n.trim_start_matches("atomic_");
    let op = base.split('_').next().unwrap();
    match op {
        "fence" | "singlethreadfence" => Ok(false),
        "load" => {
            let a = carg(ex, cx, 0)? as u64;
            ex.memcpy(cx.dst, a, cx.dsize)?;
            Ok(false)
        }
        "store" => {
            let a = carg(ex, cx, 0)? as u64;
            let v = arg(ex, cx, 1)?;
            ex.store(a, cx.args[1].1 as u8, v)?;
            Ok(false)
        }
        "xchg" | "xadd" | "xsub" | "and" | "or" | "xor" | "max" | "min" | "umax" | "umin" => {
            let a = carg(ex, cx, 0)? as u64;
            let sz = cx.dsize as u8;
            let old = ex.load(a, sz)?;
            let v = arg(ex, cx, 1)?;
            let new = match op {
                "xchg" => v,
                "xadd" => ex.bin(BinK::Add, old, v, sz, false, sz, false)?,
                "xsub" => ex.bin(BinK::Sub, old, v, sz, false, sz, false)?,
                "and" => ex.bin(BinK::And, old, v, sz, false, sz, false)?,
                "or" => ex.bin(BinK::Or, old, v, sz, false, sz, false)?,
                "xor" => ex.bin(BinK::Xor, old, v, sz, false, sz, false)?,
                _ => return Err(Stop::Unsupported(n.to_string())),
            };
            ex.store(a, sz, new)?;
            ret(ex, cx, old)
        }
        "cxchg" | "cxchgweak" => {
            let a = carg(ex, cx, 0)? as u64;
            let sz = cx.args[1].1 as u8;
            let old = ex.load(a, sz)?;
            let old = ex.cv(old)?;
            let exp = carg(ex, cx, 1)?;
            let v = arg(ex, cx, 2)?;
            if old == exp {
                ex.store(a, sz, v)?;
            }
            ex.store(cx.dst, sz, V::C(old))?;
            ex.store(cx.dst + sz as u64, 1, V::C((old == exp) as u128))?;
            Ok(false)
        }
        _ => Err(Stop::Unsupported(n.to_string())),
    }
}

// ---------- allocator ----------
fn rust_alloc(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let n = carg(ex, cx, 0)? as u64;
    if n > 1 << 28 {
        return Err(Stop::Unsupported(format!("allocation of {n} bytes")));
    }
    let a = ex.alloc(n);
    ret(ex, cx, V::C(a as u128))
}
fn rust_dealloc(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let a = carg(ex, cx, 0)? as u64;
    ex.dealloc(a);
    Ok(false)
}
fn rust_realloc(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let (p, old, new) = (carg(ex, cx, 0)? as u64, carg(ex, cx, 1)? as u64, carg(ex, cx, 3)? as u64);
    let a = ex.alloc(new);
    ex.memcpy(a, p, old.min(new) as u32)?;
    ex.dealloc(p);
    ret(ex, cx, V::C(a as u128))
}
fn fmt_format(ex: &mut Exec, cx: &Cx) -> R<bool> {
    // formatting is stubbed: an empty String { cap: 0, ptr: dangling, len: 0 } in any field order
    // String is 3 words; zero cap and zero len with a dangling non-null pointer in every non-cap word is not
    // layout independent, so locate the words through the layout.
    let _ = ex;
    let _ = cx;
    ex.store(cx.dst, 8, V::C(0))?;
    ex.store(cx.dst + 8, 8, V::C(1))?;
    ex.store(cx.dst + 16, 8, V::C(0))?;
    Ok(false)
}

// ---------- panics ----------
fn panic_any(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let name = ex.lo.insts[cx.id as usize].name.clone();
    let short = name.rsplit("::").next().unwrap_or("panic").to_string();
    if short == "panic" || short == "panic_nounwind" || short == "panic_str_2015" || short == "panic_str" {
        if let Ok(s) = str_arg(ex, cx, 0) {
            return Err(Stop::Panic(s.to_string()));
        }
    }
    Err(Stop::Panic(short))
}
fn panic_str(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let s = str_arg(ex, cx, 0).map(|s| s.to_string()).unwrap_or_default();
    Err(Stop::Panic(s))
}

// ---------- integers ----------
fn int_minmax(ex: &mut Exec, cx: &Cx, max: bool) -> R<bool> {
    let t = ty0(ex, cx);
    let (sz, signed) = is_int(t).unwrap();
    let (a, b) = (arg(ex, cx, 0)?, arg(ex, cx, 1)?);
    let le = ex.bin(BinK::Le, a, b, sz, signed, sz, signed)?;
    let r = match le {
        V::C(c) => {
            if (c != 0) != max {
                a
            } else {
                b
            }
        }
        V::S(t) => {
            let c = ex.as_bool(t);
            let (x, y) = (a.term(), b.term());
            V::from_term(if max { tt().ite(c, y, x) } else { tt().ite(c, x, y) })
        }
    };
    ret(ex, cx, r)
}
fn int_min(ex: &mut Exec, cx: &Cx) -> R<bool> {
    int_minmax(ex, cx, false)
}
fn int_max(ex: &mut Exec, cx: &Cx) -> R<bool> {
    int_minmax(ex, cx, true)
}

/// sp_arithmetic::helpers_128bit::multiply_by_rational_with_rounding(a, b, c, r) -> Option<u128>
/// = a*b/c rounded (None when c == 0 or the result does not fit)
fn mul_rational(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let tm = tt();
    let (a, b, c) = (arg(ex, cx, 0)?, arg(ex, cx, 1)?, arg(ex, cx, 2)?);
    let r = carg(ex, cx, 3)?;
    let (a, b, c) = (a.term(), b.term(), c.term());
    // c == 0 must be decided first
    if tm.lo(c).is_zero() {
        let z = tm.eq0(c);
        if z != FALSE {
            let i = tm.b2i(z);
            let d = ex.cv(V::from_term(i))?;
            if d == 1 {
                return option_u128(ex, cx, None);
            }
        }
    }
    let p = tm.mul(a, b);
    // Rounding enum: Up = 0, Down = 1, NearestPrefUp = 2, NearestPrefDown = 3
    let q = match r {
        1 => tm.div(p, c),
        0 => {
            let s = tm.add(p, c);
            let s = tm.addk(s, Z::i(-1));
            tm.div(s, c)
        }
        2 => {
            // (2p + c) / 2c
            let s = tm.scale(p, Z::u(2));
            let s = tm.add(s, c);
            let d = tm.scale(c, Z::u(2));
            tm.div(s, d)
        }
        _ => {
            // ceil((2p - c) / 2c) = floor((2p - c + 2c - 1) / 2c) = (2p + c - 1)/2c
            let s = tm.scale(p, Z::u(2));
            let s = tm.add(s, c);
            let s = tm.addk(s, Z::i(-1));
            let d = tm.scale(c, Z::u(2));
            tm.div(s, d)
        }
    };
    let lim = tm.konst(Z::pow2(128));
    let fits = tm.lt(q, lim);
    let f = if fits == TRUE {
        1
    } else {
        let i = tm.b2i(fits);
        ex.cv(V::from_term(i))?
    };
    if f == 0 {
        return option_u128(ex, cx, None);
    }
    // the value may have an interval above 2^128 although it fits on this path
    let q = tm.wrap(q, 128);
    option_u128(ex, cx, Some(V::from_term(q)))
}
fn option_u128(ex: &mut Exec, cx: &Cx, v: Option<V>) -> R<bool> {
    // Option<u128>: 16-byte aligned, tag first
    match v {
        None => ex.store(cx.dst, 16, V::C(0))?,
        Some(v) => {
            ex.store(cx.dst, 16, V::C(1))?;
            ex.store(cx.dst + 16, 16, v)?;
        }
    }
    Ok(false)
}

/// IntegerSquareRoot::integer_sqrt(&self): the r with r*r <= n < (r+1)*(r+1), as a fresh constrained variable
fn int_sqrt(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let tm = tt();
    let t = ty0(ex, cx);
    let (sz, signed) = match is_int(t) {
        Some(x) => x,
        None => return Err(Stop::Unsupported("integer_sqrt type".into())),
    };
    if signed {
        return Err(Stop::Unsupported("integer_sqrt of signed".into()));
    }
    let p = carg(ex, cx, 0)? as u64;
    let n = match ex.load(p, sz)? {
        V::C(c) => return ret(ex, cx, V::C(isqrt(c))),
        V::S(t) => t,
    };
    let (lo, hi) = (tm.lo(n), tm.hi(n));
    let lo = isqrt(lo.to_u128().unwrap_or(0));
    let hi = isqrt(hi.to_u128().unwrap_or(u128::MAX));
    let (r, c) = match ex.isqrt_memo.get(&n) {
        Some(x) => *x,
        None => {
            let r = tm.fresh("isqrt", Z::u(lo), Z::u(hi));
            let sq = tm.mul(r, r);
            let c1 = tm.le(sq, n);
            let r2 = tm.scale(r, Z::u(2));
            let up = tm.add(sq, r2);
            let c2 = tm.le(n, up);
            let c = tm.and(c1, c2);
            ex.isqrt_memo.insert(n, (r, c));
            (r, c)
        }
    };
    if !ex.s.path.contains(&c) && c != TRUE {
        ex.s.path.push(c);
        if let (Some(m), K::Var(i)) = (ex.s.model.clone(), tm.k(r)) {
            let mut memo = FxHashMap::default();
            let v = tm.eval(n, &m, &mut memo).and_then(|z| z.to_u128());
            ex.s.model = v.map(|v| {
                let mut m2 = (*m).clone();
                m2.insert(*i, Z::u(isqrt(v)));
                Rc::new(m2)
            });
        }
    }
    ret(ex, cx, V::from_term(r))
}
fn isqrt(n: u128) -> u128 {
    if n == 0 {
        return 0;
    }
    let mut r: u128 = 1 << ((128 - n.leading_zeros()) / 2 + 1).min(64);
    if r > u64::MAX as u128 {
        r = u64::MAX as u128 + 1;
    }
    loop {
        let q = (r + n / r) / 2;
        if q >= r {
            return r;
        }
        r = q;
    }
}

// ---------- hashing ----------
fn put_bytes(ex: &mut Exec, cx: &Cx, b: Vec<u8>) -> R<bool> {
    let m = Mem { bytes: b, ov: vec![] };
    ex.put_slice(cx.dst, &m)?;
    Ok(false)
}
fn h_twox64(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let d = bytes_arg(ex, cx, 0)?;
    put_bytes(ex, cx, hash::twox(&d, 8))
}
fn h_twox128(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let d = bytes_arg(ex, cx, 0)?;
    put_bytes(ex, cx, hash::twox(&d, 16))
}
fn h_twox256(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let d = bytes_arg(ex, cx, 0)?;
    put_bytes(ex, cx, hash::twox(&d, 32))
}
fn h_b128(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let d = bytes_arg(ex, cx, 0)?;
    put_bytes(ex, cx, hash::blake2b(&d, 16))
}
fn h_b256(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let d = bytes_arg(ex, cx, 0)?;
    put_bytes(ex, cx, hash::blake2b(&d, 32))
}
fn h_b512(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let d = bytes_arg(ex, cx, 0)?;
    put_bytes(ex, cx, hash::blake2b(&d, 64))
}

// ---------- harness API ----------
fn s_any(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let name = str_arg(ex, cx, 0)?;
    let (lo, hi) = (carg(ex, cx, 1)?, carg(ex, cx, 2)?);
    let t = tt().fresh(&name, Z::u(lo), Z::u(hi));
    Rc::make_mut(&mut ex.s.inputs).push(Input { name, t });
    ret(ex, cx, V::from_term(t))
}
fn s_choice(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let name = str_arg(ex, cx, 0)?;
    let n = carg(ex, cx, 1)?;
    if n <= 1 {
        let t = tt().ku(0);
        Rc::make_mut(&mut ex.s.inputs).push(Input { name, t });
        return ret(ex, cx, V::C(0));
    }
    let next = cx.next.unwrap();
    ex.s.nchoice += 1;
    let mix = ex.s.mix * n as u64;
    let vals: Vec<u128> = match ex.shard {
        Some((i, k, d)) if ex.s.nchoice == d => (0..n).filter(|v| (mix + *v as u64) % k == i).collect(),
        _ => (0..n).collect(),
    };
    if vals.is_empty() {
        return Err(Stop::Cut);
    }
    let base = ex.s.clone();
    for &v in vals[1..].iter().rev() {
        let t = tt().ku(v);
        let mut s2 = base.clone();
        s2.mix = mix + v as u64;
        Rc::make_mut(&mut s2.inputs).push(Input { name: name.clone(), t });
        std::mem::swap(&mut ex.s, &mut s2);
        let r = ret(ex, cx, V::C(v));
        std::mem::swap(&mut ex.s, &mut s2);
        r?;
        let f = s2.frames.last_mut().unwrap();
        f.blk = next;
        f.st = 0;
        ex.work.push(s2);
        ex.stats.forks += 1;
    }
    ex.s.mix = mix + vals[0] as u64;
    let t = tt().ku(vals[0]);
    Rc::make_mut(&mut ex.s.inputs).push(Input { name, t });
    ret(ex, cx, V::C(vals[0]))
}
/// a check tagged `X01: ...` belongs to property X01 only
fn other_prop(ex: &Exec, msg: &str) -> bool {
    let b = msg.as_bytes();
    !ex.prop.is_empty() && b.len() > 4 && b[0].is_ascii_uppercase() && b[1].is_ascii_digit() && !msg.split(':').next().unwrap_or("").split('+').any(|x| x == ex.prop)
}
fn bool_arg(ex: &Exec, cx: &Cx, i: usize) -> R<T> {
    Ok(match arg(ex, cx, i)? {
        V::C(0) => FALSE,
        V::C(_) => TRUE,
        V::S(t) => ex.as_bool(t),
    })
}
fn s_assume(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let b = bool_arg(ex, cx, 0)?;
    if b == TRUE {
        return Ok(false);
    }
    let (ok, m) = ex.feasible(b);
    if !ok {
        return Err(Stop::Cut);
    }
    ex.s.path.push(b);
    ex.s.unknown |= m.is_none();
    ex.s.model = m;
    Ok(false)
}
fn s_check(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let b = bool_arg(ex, cx, 0)?;
    let msg = str_arg(ex, cx, 1)?;
    if other_prop(ex, &msg) {
        return Ok(false);
    }
    ex.stats.checks += 1;
    let e = ex.checks_seen.entry(msg.clone()).or_insert((0, 0));
    e.0 += 1;
    if b == TRUE {
        return Ok(false);
    }
    let nb = tt().not(b);
    if b != FALSE {
        ex.stats.check_queries += 1;
    }
    let path = ex.s.path.clone();
    match ex.solver.check(&path, nb) {
        Res::Unsat => Ok(false),
        Res::Sat(m) => {
            ex.violation(msg.to_string(), &m);
            // go on under the assumption that it holds
            if b == FALSE {
                return Err(Stop::Cut);
            }
            let (ok, m) = ex.feasible(b);
            if !ok {
                return Err(Stop::Cut);
            }
            ex.s.path.push(b);
            ex.s.model = m;
            Ok(false)
        }
        Res::Unknown => {
            ex.stats.unknown_checks += 1;
            ex.checks_seen.get_mut(&msg).unwrap().1 += 1;
            Ok(false)
        }
    }
}
fn s_reach(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let name = str_arg(ex, cx, 0)?;
    *ex.reach.entry(name.clone()).or_insert(0) += 1;
    if !ex.witness.contains_key(&name) {
        if let Some(m) = ex.s.model.clone() {
            let w = ex.inputs_under(&m);
            ex.witness.insert(name, w);
        }
    }
    Ok(false)
}
fn s_observe(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let name = str_arg(ex, cx, 0)?;
    let v = arg(ex, cx, 1)?;
    Rc::make_mut(&mut ex.s.obs).push((name, v));
    Ok(false)
}
fn s_end(_: &mut Exec, _: &Cx) -> R<bool> {
    Err(Stop::End)
}
fn s_dbg(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let name = str_arg(ex, cx, 0)?;
    let v = arg(ex, cx, 1)?;
    match v {
        V::C(c) => eprintln!("dbg {name} = {c}"),
        V::S(t) => eprintln!("dbg {name} = {:?} [{}, {}]", tt().k(t), tt().lo(t), tt().hi(t)),
    }
    Ok(false)
}
fn s_issym(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let v = arg(ex, cx, 0)?;
    ret(ex, cx, V::C(matches!(v, V::S(_)) as u128))
}
fn s_conc(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let v = carg(ex, cx, 0)?;
    ret(ex, cx, V::C(v))
}

// ---------- host storage ----------
fn st_len(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let k = bytes_arg(ex, cx, 0)?;
    let n = match ex.s.storage.get(&k) {
        Some(m) => m.bytes.len() as u64,
        None => u64::MAX,
    };
    ret(ex, cx, V::C(n as u128))
}
/// st_read(key, dst: *mut u8, off, n)
fn st_read(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let k = bytes_arg(ex, cx, 0)?;
    let (d, off, n) = (carg(ex, cx, 1)? as u64, carg(ex, cx, 2)? as u32, carg(ex, cx, 3)? as u32);
    let m = ex.s.storage.get(&k).cloned().unwrap();
    let s = m.slice(off, n);
    ex.put_slice(d, &s)?;
    Ok(false)
}
fn st_set(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let k = bytes_arg(ex, cx, 0)?;
    let (p, n) = fat(ex, cx, 1)?;
    let m = ex.slice(p, n as u32)?;
    Rc::make_mut(&mut ex.s.storage).insert(k, Rc::new(m));
    Ok(false)
}
fn st_clear(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let k = bytes_arg(ex, cx, 0)?;
    Rc::make_mut(&mut ex.s.storage).remove(&k);
    Ok(false)
}
/// st_next(key, out: *mut u8 (cap 256)) -> len or MAX
fn st_next(ex: &mut Exec, cx: &Cx) -> R<bool> {
    let k = bytes_arg(ex, cx, 0)?;
    let d = carg(ex, cx, 1)? as u64;
    let nx = ex
        .s
        .storage
        .range::<Vec<u8>, _>((std::ops::Bound::Excluded(&k), std::ops::Bound::Unbounded))
        .next()
        .map(|x| x.0.clone());
    match nx {
        None => ret(ex, cx, V::C(u64::MAX as u128)),
        Some(b) => {
            let n = b.len();
            ex.put_slice(d, &Mem { bytes: b, ov: vec![] })?;
            ret(ex, cx, V::C(n as u128))
        }
    }
}
fn tx_start(ex: &mut Exec, _: &Cx) -> R<bool> {
    let s = ex.s.storage.clone();
    ex.s.txs.push(s);
    Ok(false)
}
fn tx_rollback(ex: &mut Exec, _: &Cx) -> R<bool> {
    if let Some(s) = ex.s.txs.pop() {
        ex.s.storage = s;
    }
    Ok(false)
}
fn tx_commit(ex: &mut Exec, _: &Cx) -> R<bool> {
    ex.s.txs.pop();
    Ok(false)
}

#[allow(unused)]
fn _u() -> FxHashMap<u8, u8> {
    Default::default()
}
