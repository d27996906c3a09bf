//! MIR -> IR lowering (monomorphic instances), constants and statics -> global memory.
use crate::ir::*;
use crate::mem::*;
use rustc_abi::{FieldIdx, TagEncoding, VariantIdx, Variants, FIRST_VARIANT};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use std::rc::Rc;

pub struct InstEntry<'tcx> {
    pub inst: Instance<'tcx>,
    pub func: Option<Rc<Func>>,
    pub handler: Option<crate::models::Handler>,
    pub resolved: bool,
    pub name: Rc<str>,
}

pub struct Lower<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: ty::TypingEnv<'tcx>,
    pub insts: Vec<InstEntry<'tcx>>,
    pub inst_map: FxHashMap<Instance<'tcx>, u32>,
    pub globals: Vec<Rc<Mem>>,
    pub alloc_map: FxHashMap<AllocId, u64>,
    pub static_map: FxHashMap<DefId, u64>,
    pub type_ids: FxHashMap<u64, Ty<'tcx>>,
    pub redirects: FxHashMap<String, DefId>,
}

impl<'tcx> Lower<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Lower {
            tcx,
            env: ty::TypingEnv::fully_monomorphized(),
            insts: vec![],
            inst_map: Default::default(),
            globals: vec![],
            alloc_map: Default::default(),
            static_map: Default::default(),
            type_ids: Default::default(),
            redirects: Default::default(),
        }
    }
    pub fn cx(&self) -> LayoutCx<'tcx> {
        LayoutCx::new(self.tcx, self.env)
    }
    pub fn layout(&self, ty: Ty<'tcx>) -> TyAndLayout<'tcx> {
        self.tcx.layout_of(self.env.as_query_input(ty)).unwrap_or_else(|e| panic!("layout of {ty}: {e:?}"))
    }
    pub fn size_of(&self, ty: Ty<'tcx>) -> u64 {
        self.layout(ty).size.bytes()
    }
    pub fn def_name(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    pub fn inst_id(&mut self, inst: Instance<'tcx>) -> u32 {
        if let Some(&i) = self.inst_map.get(&inst) {
            return i;
        }
        let i = self.insts.len() as u32;
        let name: Rc<str> = self.def_name(inst.def_id()).into();
        self.insts.push(InstEntry { inst, func: None, handler: None, resolved: false, name });
        self.inst_map.insert(inst, i);
        i
    }
    pub fn fn_addr(&mut self, inst: Instance<'tcx>) -> u64 {
        let i = self.inst_id(inst);
        FN_BASE + (i as u64) * 16
    }
    pub fn new_global(&mut self, m: Mem) -> u64 {
        let i = self.globals.len() as u64;
        self.globals.push(Rc::new(m));
        GLOBAL_BASE + (i << 32)
    }
    pub fn alloc_addr(&mut self, id: AllocId) -> u64 {
        if let Some(&a) = self.alloc_map.get(&id) {
            return a;
        }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => {
                let a = self.fn_addr(instance);
                self.alloc_map.insert(id, a);
                a
            }
            GlobalAlloc::VTable(ty, preds) => {
                let a = self.vtable(ty, preds.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p)));
                self.alloc_map.insert(id, a);
                a
            }
            GlobalAlloc::Static(d) => {
                let a = self.static_addr(d);
                self.alloc_map.insert(id, a);
                a
            }
            GlobalAlloc::Memory(m) => {
                let a = self.new_global(Mem::new(0));
                self.alloc_map.insert(id, a);
                self.fill(a, m.inner());
                a
            }
            GlobalAlloc::TypeId { ty } => {
                // only the identity matters: hand out one address per type
                let h = self.tcx.type_id_hash(ty).as_u128();
                let _ = h;
                0
            }
        }
    }
    pub fn vtable(&mut self, ty: Ty<'tcx>, tr: Option<ty::ExistentialTraitRef<'tcx>>) -> u64 {
        let id = self.tcx.vtable_allocation((ty, tr));
        self.alloc_addr(id)
    }
    pub fn static_addr(&mut self, d: DefId) -> u64 {
        if let Some(&a) = self.static_map.get(&d) {
            return a;
        }
        let a = self.new_global(Mem::new(0));
        self.static_map.insert(d, a);
        if self.tcx.is_foreign_item(d) {
            let ty = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let n = self.size_of(ty);
            let i = ((a - GLOBAL_BASE) >> 32) as usize;
            self.globals[i] = Rc::new(Mem::new(n as usize));
            return a;
        }
        let al = self.tcx.eval_static_initializer(d).expect("static init");
        self.fill(a, al.inner());
        a
    }
    fn fill(&mut self, a: u64, al: &mir::interpret::Allocation) {
        let n = al.len();
        let mut m = Mem::new(n);
        let bytes = al.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
        m.bytes.copy_from_slice(bytes);
        let relocs: Vec<_> = al.provenance().ptrs().iter().map(|(o, p)| (o.bytes() as usize, *p)).collect();
        let i = ((a - GLOBAL_BASE) >> 32) as usize;
        self.globals[i] = Rc::new(m);
        for (o, p) in relocs {
            let id = p.alloc_id();
            if let GlobalAlloc::TypeId { ty } = self.tcx.global_alloc(id) {
                // the stored offset already is the hash segment
                let _ = ty;
                continue;
            }
            let base = self.alloc_addr(id);
            let m = Rc::get_mut(&mut self.globals[i]).unwrap();
            let cur = u64::from_le_bytes(m.bytes[o..o + 8].try_into().unwrap());
            m.bytes[o..o + 8].copy_from_slice(&(base.wrapping_add(cur)).to_le_bytes());
        }
    }
    fn scalar_bits(&mut self, s: Scalar) -> u128 {
        match s {
            Scalar::Int(i) => i.to_bits(i.size()),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                if let GlobalAlloc::TypeId { .. } = self.tcx.global_alloc(id) {
                    return off.bytes() as u128;
                }
                self.alloc_addr(id).wrapping_add(off.bytes()) as u128
            }
        }
    }
    pub fn const_opd(&mut self, c: &mir::Const<'tcx>, span: rustc_span::Span) -> Opd {
        let ty = c.ty();
        let val = match c.eval(self.tcx, self.env, span) {
            Ok(v) => v,
            Err(e) => panic!("const eval failed {c:?} {e:?}"),
        };
        self.const_val(val, ty)
    }
    pub fn const_val(&mut self, val: mir::ConstValue, ty: Ty<'tcx>) -> Opd {
        match val {
            mir::ConstValue::Scalar(s) => Opd::Imm(self.scalar_bits(s)),
            mir::ConstValue::ZeroSized => Opd::Imm(0),
            mir::ConstValue::Slice { alloc_id, meta } => {
                let a = self.alloc_addr(alloc_id);
                Opd::Imm(a as u128 | (meta as u128) << 64)
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let _ = ty;
                let a = self.alloc_addr(alloc_id);
                Opd::Glob(a + offset.bytes())
            }
        }
    }

    pub fn lower_fn(&mut self, id: u32) -> Result<Rc<Func>, String> {
        let inst = self.insts[id as usize].inst;
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if tcx.is_foreign_item(d) || (!tcx.is_mir_available(d) && !matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Ctor(..))) {
                    return Err(format!("no MIR for {}", self.def_name(d)));
                }
            }
            InstanceKind::Intrinsic(d) | InstanceKind::LlvmIntrinsic(d) => {
                return Err(format!("intrinsic {}", self.def_name(d)));
            }
            _ => {}
        }
        let body = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, body.clone()),
        );
        let mut fl = FnLower { lo: self, body: &body, offs: vec![], tmp: 0 };
        let f = fl.run(inst)?;
        let f = Rc::new(f);
        self.insts[id as usize].func = Some(f.clone());
        Ok(f)
    }
}

pub struct FnLower<'a, 'tcx> {
    pub lo: &'a mut Lower<'tcx>,
    body: &'a mir::Body<'tcx>,
    offs: Vec<u32>,
    tmp: u32,
}

fn off(mut p: Pl, o: u64) -> Pl {
    if o == 0 {
        return p;
    }
    if p.pj.is_empty() {
        p.base += o as u32;
        return p;
    }
    if let Some(Pj::Off(x)) = p.pj.last_mut() {
        *x += o;
        return p;
    }
    p.pj.push(Pj::Off(o));
    p
}

fn opd_off(o: &Opd, k: u64, size: u64) -> Opd {
    match o {
        Opd::Pl(p) => Opd::Pl(off(p.clone(), k)),
        Opd::Glob(a) => Opd::Glob(a + k),
        Opd::Imm(v) => {
            let s = if k >= 16 { 0 } else { v >> (8 * k) };
            Opd::Imm(if size >= 16 { s } else { s & ((1u128 << (8 * size)) - 1) })
        }
    }
}

impl<'a, 'tcx> FnLower<'a, 'tcx> {
    fn run(&mut self, inst: Instance<'tcx>) -> Result<Func, String> {
        let mut o: u64 = 0;
        for l in self.body.local_decls.iter() {
            let lay = self.lo.layout(l.ty);
            if lay.is_unsized() {
                return Err(format!("unsized local {}", l.ty));
            }
            let al = lay.align.abi.bytes().max(1);
            o = o.div_ceil(al) * al;
            self.offs.push(o as u32);
            o += lay.size.bytes();
        }
        // scratch words for lowering
        self.tmp = (o.div_ceil(16) * 16) as u32;
        let frame = self.tmp + 64;
        let mut blocks = vec![];
        let sm = self.lo.tcx.sess.source_map();
        for (_, bb) in self.body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            let mut slines = vec![];
            if bb.is_cleanup {
                blocks.push(Blk { st, tm: Tm::Abort("cleanup".into()), tline: 0, slines });
                continue;
            }
            for s in &bb.statements {
                let n0 = st.len();
                self.stmt(s, &mut st);
                let line = sm.lookup_char_pos(s.source_info.span.lo()).line as u32;
                for _ in n0..st.len() {
                    slines.push(line);
                }
            }
            let t = bb.terminator();
            let n0 = st.len();
            let tm = self.term(t, &mut st);
            let tline = sm.lookup_char_pos(t.source_info.span.lo()).line as u32;
            for _ in n0..st.len() {
                slines.push(tline);
            }
            blocks.push(Blk { st, tm, tline, slines });
        }
        let args: Vec<_> = (1..=self.body.arg_count)
            .map(|i| (self.offs[i], self.lo.size_of(self.body.local_decls[mir::Local::from_usize(i)].ty) as u32))
            .collect();
        let spread = self.body.spread_arg.map(|l| {
            let lay = self.lo.layout(self.body.local_decls[l].ty);
            let n = lay.fields.count();
            let cx = self.lo.cx();
            let f = (0..n)
                .map(|i| (lay.fields.offset(i).bytes() as u32, lay.field(&cx, i).size.bytes() as u32))
                .collect();
            (l.as_usize() - 1, f)
        });
        let span = self.lo.tcx.def_span(inst.def_id());
        let lo = sm.lookup_char_pos(span.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        Ok(Func {
            name: self.lo.tcx.def_path_str_with_args(inst.def_id(), inst.args),
            file,
            frame,
            ret: self.offs[0],
            rsize: self.lo.size_of(self.body.local_decls[mir::RETURN_PLACE].ty) as u32,
            args,
            spread,
            blocks,
        })
    }
    fn pty(&self, p: mir::Place<'tcx>) -> Ty<'tcx> {
        p.ty(&self.body.local_decls, self.lo.tcx).ty
    }
    fn oty(&self, o: &mir::Operand<'tcx>) -> Ty<'tcx> {
        o.ty(&self.body.local_decls, self.lo.tcx)
    }
    fn is_fat_ptr(&self, ty: Ty<'tcx>) -> bool {
        // pointer-like type: size 16 and the pointee is unsized
        self.lo.size_of(ty) == 16
    }
    fn place(&mut self, p: mir::Place<'tcx>) -> Pl {
        let tcx = self.lo.tcx;
        let mut r = Pl { base: self.offs[p.local.as_usize()], pj: vec![] };
        let mut pt = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                mir::ProjectionElem::Deref => {
                    if self.is_fat_ptr(pt.ty) {
                        r.pj.push(Pj::DerefFat);
                    } else {
                        r.pj.push(Pj::Deref);
                    }
                }
                mir::ProjectionElem::Field(f, _) => {
                    let cx = self.lo.cx();
                    let mut lay = self.lo.layout(pt.ty);
                    if let Some(v) = pt.variant_index {
                        lay = lay.for_variant(&cx, v);
                    }
                    let o = lay.fields.offset(f.as_usize()).bytes();
                    let fl = lay.field(&cx, f.as_usize());
                    if fl.is_unsized() && o > 0 && matches!(tcx.struct_tail_for_codegen(fl.ty, self.lo.env).kind(), ty::Dynamic(..)) {
                        r.pj.push(Pj::DynOff(o));
                    } else {
                        r = off(r, o);
                    }
                }
                mir::ProjectionElem::Index(l) => {
                    let es = pt.ty.builtin_index().unwrap();
                    let stride = self.lo.size_of(es);
                    r.pj.push(Pj::Index { local: self.offs[l.as_usize()], stride });
                }
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let es = pt.ty.builtin_index().unwrap();
                    let stride = self.lo.size_of(es);
                    match pt.ty.kind() {
                        ty::Array(_, n) => {
                            let n = n.try_to_target_usize(tcx).unwrap();
                            let i = if from_end { n - offset } else { offset };
                            r = off(r, i * stride);
                        }
                        _ => {
                            if from_end {
                                r.pj.push(Pj::FromEnd { off: offset, stride });
                            } else {
                                r = off(r, offset * stride);
                            }
                        }
                    }
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let es = pt.ty.builtin_index().unwrap();
                    let stride = self.lo.size_of(es);
                    match pt.ty.kind() {
                        ty::Array(..) => {
                            r = off(r, from * stride);
                        }
                        _ => {
                            assert!(from_end);
                            r.pj.push(Pj::Sub { from, to, stride });
                        }
                    }
                }
                mir::ProjectionElem::Downcast(..)
                | mir::ProjectionElem::OpaqueCast(_)
                | mir::ProjectionElem::PhantomDeref
                | mir::ProjectionElem::UnwrapUnsafeBinder(_) => {}
            }
            pt = pt.projection_ty(tcx, e);
        }
        r
    }
    fn opd(&mut self, o: &mir::Operand<'tcx>) -> Opd {
        match o {
            mir::Operand::Copy(p) | mir::Operand::Move(p) => Opd::Pl(self.place(*p)),
            mir::Operand::Constant(c) => self.lo.const_opd(&c.const_, c.span),
            mir::Operand::RuntimeChecks(k) => Opd::Imm(match k {
                mir::RuntimeChecks::OverflowChecks => 1,
                _ => 0,
            }),
        }
    }
    fn copy(&self, st: &mut Vec<St>, dst: Pl, src: Opd, size: u64) {
        if size == 0 {
            return;
        }
        if let Opd::Imm(v) = src {
            if size > 16 {
                st.push(St::Unsupported("imm > 16 bytes".into()));
                return;
            }
            if matches!(size, 1 | 2 | 4 | 8 | 16) {
                st.push(St::Store { dst, size: size as u8, e: Ex::Use(Opd::Imm(v)) });
            } else {
                for i in 0..size {
                    st.push(St::Store { dst: off(dst.clone(), i), size: 1, e: Ex::Use(Opd::Imm((v >> (8 * i)) & 255)) });
                }
            }
            return;
        }
        st.push(St::Copy { dst, src, size: size as u32 });
    }
    fn int_info(&self, ty: Ty<'tcx>) -> (u8, bool) {
        let l = self.lo.layout(ty);
        (l.size.bytes() as u8, matches!(ty.kind(), ty::Int(_)))
    }
    fn set_discr(&mut self, st: &mut Vec<St>, dst: Pl, ty: Ty<'tcx>, v: VariantIdx) {
        let lay = self.lo.layout(ty);
        match &lay.variants {
            Variants::Single { .. } | Variants::Empty => {}
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let o = lay.fields.offset(tag_field.as_usize()).bytes();
                let sz = tag.size(&self.lo.tcx).bytes() as u8;
                let mask = if sz == 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                match tag_encoding {
                    TagEncoding::Direct => {
                        let d = ty.discriminant_for_variant(self.lo.tcx, v).unwrap().val & mask;
                        st.push(St::Store { dst: off(dst, o), size: sz, e: Ex::Use(Opd::Imm(d)) });
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v != *untagged_variant {
                            let rel = (v.as_u32() - niche_variants.start.as_u32()) as u128;
                            let d = niche_start.wrapping_add(rel) & mask;
                            st.push(St::Store { dst: off(dst, o), size: sz, e: Ex::Use(Opd::Imm(d)) });
                        }
                    }
                }
            }
        }
    }
    pub fn discr_of(lo: &Lower<'tcx>, ty: Ty<'tcx>) -> Discr {
        let lay = lo.layout(ty);
        match &lay.variants {
            Variants::Empty => Discr::Const(0),
            Variants::Single { index } => {
                let v = match ty.discriminant_for_variant(lo.tcx, *index) {
                    Some(d) => d.val,
                    None => 0,
                };
                Discr::Const(v)
            }
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let o = lay.fields.offset(tag_field.as_usize()).bytes() as u32;
                let tsize = tag.size(&lo.tcx).bytes() as u8;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let sext = matches!(ty.discriminant_ty(lo.tcx).kind(), ty::Int(_));
                        Discr::Direct { off: o, tsize, sext }
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => Discr::Niche {
                        off: o,
                        tsize,
                        niche_start: *niche_start,
                        lo: niche_variants.start.as_u32(),
                        n: niche_variants.last.as_u32() - niche_variants.start.as_u32() + 1,
                        untagged: untagged_variant.as_u32(),
                    },
                }
            }
        }
    }
    fn binop_kind(&self, op: mir::BinOp, lty: Ty<'tcx>) -> (BinK, bool) {
        use mir::BinOp::*;
        match op {
            Add | AddUnchecked => (BinK::Add, false),
            AddWithOverflow => (BinK::Add, true),
            Sub | SubUnchecked => (BinK::Sub, false),
            SubWithOverflow => (BinK::Sub, true),
            Mul | MulUnchecked => (BinK::Mul, false),
            MulWithOverflow => (BinK::Mul, true),
            Div => (BinK::Div, false),
            Rem => (BinK::Rem, false),
            BitXor => (BinK::Xor, false),
            BitAnd => (BinK::And, false),
            BitOr => (BinK::Or, false),
            Shl | ShlUnchecked => (BinK::Shl, false),
            Shr | ShrUnchecked => (BinK::Shr, false),
            Eq => (BinK::Eq, false),
            Lt => (BinK::Lt, false),
            Le => (BinK::Le, false),
            Ne => (BinK::Ne, false),
            Ge => (BinK::Ge, false),
            Gt => (BinK::Gt, false),
            Cmp => (BinK::Cmp, false),
            Offset => {
                let pt = lty.builtin_deref(true).unwrap();
                (BinK::Offset(self.lo.size_of(pt)), false)
            }
        }
    }
    fn stmt(&mut self, s: &mir::Statement<'tcx>, st: &mut Vec<St>) {
        use mir::StatementKind as SK;
        match &s.kind {
            SK::Assign(b) => {
                let (p, rv) = &**b;
                self.assign(*p, rv, st)
            }
            SK::SetDiscriminant { place, variant_index } => {
                let ty = self.pty(**place);
                let p = self.place(**place);
                self.set_discr(st, p, ty, *variant_index);
            }
            SK::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(o) => {
                    let o = self.opd(o);
                    st.push(St::Assume(o));
                }
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let pt = self.oty(&c.src).builtin_deref(true).unwrap();
                    let size = self.lo.size_of(pt);
                    let (src, dst, count) = (self.opd(&c.src), self.opd(&c.dst), self.opd(&c.count));
                    st.push(St::CopyNonOverlapping { src, dst, count, size });
                }
            },
            _ => {}
        }
    }
    fn assign(&mut self, p: mir::Place<'tcx>, rv: &mir::Rvalue<'tcx>, st: &mut Vec<St>) {
        use mir::Rvalue as R;
        let dty = self.pty(p);
        let dst = self.place(p);
        let dlay = self.lo.layout(dty);
        let dsize = dlay.size.bytes();
        match rv {
            R::Use(o, ..) => {
                let s = self.opd(o);
                self.copy(st, dst, s, dsize);
            }
            R::CopyForDeref(q) => {
                let s = Opd::Pl(self.place(*q));
                self.copy(st, dst, s, dsize);
            }
            R::Reborrow(_, _, q) => {
                let s = Opd::Pl(self.place(*q));
                self.copy(st, dst, s, dsize);
            }
            R::WrapUnsafeBinder(o, _) => {
                let s = self.opd(o);
                self.copy(st, dst, s, dsize);
            }
            R::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.lo.tcx).unwrap();
                let es = self.lo.size_of(self.oty(o));
                let s = self.opd(o);
                if es > 0 && n > 0 {
                    st.push(St::Repeat { dst, src: s, size: es as u32, count: n });
                }
            }
            R::Ref(_, _, q) | R::RawPtr(_, q) => {
                let q2 = self.place(*q);
                if dsize == 16 {
                    // the place is unsized
                    st.push(St::RefFat { dst, p: q2 });
                } else {
                    st.push(St::Store { dst, size: 8, e: Ex::AddrOf(q2) });
                }
            }
            R::ThreadLocalRef(d) => {
                let a = self.lo.static_addr(*d);
                st.push(St::Store { dst, size: 8, e: Ex::Use(Opd::Imm(a as u128)) });
            }
            R::Discriminant(q) => {
                let ty = self.pty(*q);
                let pl = self.place(*q);
                let d = FnLower::discr_of(self.lo, ty);
                st.push(St::Store { dst, size: dsize as u8, e: Ex::Discr { p: pl, d } });
            }
            R::UnaryOp(op, o) => {
                let ty = self.oty(o);
                let a = self.opd(o);
                match op {
                    mir::UnOp::Not => {
                        st.push(St::Store { dst, size: dsize as u8, e: Ex::Not { a, is_bool: ty.is_bool() } })
                    }
                    mir::UnOp::Neg => {
                        if ty.is_floating_point() {
                            st.push(St::Unsupported("float neg".into()));
                        } else {
                            st.push(St::Store { dst, size: dsize as u8, e: Ex::Neg { a } })
                        }
                    }
                    mir::UnOp::PtrMetadata => {
                        if dsize > 0 {
                            let m = opd_off(&a, 8, 8);
                            self.copy(st, dst, m, 8);
                        }
                    }
                }
            }
            R::BinaryOp(op, ab) => {
                let (a, b) = &**ab;
                let (lty, rty) = (self.oty(a), self.oty(b));
                let (k, ovf) = self.binop_kind(*op, lty);
                if lty.is_floating_point() {
                    st.push(St::Unsupported("float op".into()));
                    return;
                }
                let (sz, signed) = self.int_info(lty);
                let (bsz, bsigned) = self.int_info(rty);
                let (a, b) = (self.opd(a), self.opd(b));
                if sz == 0 {
                    // comparison of unit values
                    let v = matches!(k, BinK::Eq | BinK::Le | BinK::Ge) as u128;
                    st.push(St::Store { dst, size: dsize as u8, e: Ex::Use(Opd::Imm(v)) });
                    return;
                }
                if ovf {
                    let flag = dlay.fields.offset(1).bytes() as u32;
                    st.push(St::BinOvf { dst, k, a, b, sz, signed, bsz, flag });
                } else {
                    st.push(St::Store { dst, size: dsize as u8, e: Ex::Bin { k, a, b, sz, signed, bsz, bsigned } });
                }
            }
            R::Aggregate(kind, ops) => {
                let cx = self.lo.cx();
                match &**kind {
                    mir::AggregateKind::Array(_) => {
                        let mut o = 0;
                        for x in ops.iter() {
                            let s = self.lo.size_of(self.oty(x));
                            let v = self.opd(x);
                            self.copy(st, off(dst.clone(), o), v, s);
                            o += s;
                        }
                    }
                    mir::AggregateKind::RawPtr(..) => {
                        let a = self.opd(&ops[FieldIdx::from_usize(0)]);
                        let mo = &ops[FieldIdx::from_usize(1)];
                        let m = self.opd(mo);
                        let ms = self.lo.size_of(self.oty(mo));
                        self.copy(st, dst.clone(), a, 8);
                        self.copy(st, off(dst, 8), m, ms);
                    }
                    k => {
                        let (vlay, variant, active) = match k {
                            mir::AggregateKind::Adt(_, v, _, _, active) => (dlay.for_variant(&cx, *v), Some(*v), *active),
                            _ => (dlay, None, None),
                        };
                        for (i, x) in ops.iter_enumerated() {
                            let i = active.unwrap_or(i).as_usize();
                            let fo = vlay.fields.offset(i).bytes();
                            let fs = self.lo.size_of(self.oty(x));
                            let v = self.opd(x);
                            self.copy(st, off(dst.clone(), fo), v, fs);
                        }
                        if let Some(v) = variant {
                            if dty.is_enum() {
                                self.set_discr(st, dst, dty, v);
                            }
                        }
                    }
                }
            }
            R::Cast(kind, o, to) => {
                let from = self.oty(o);
                use mir::CastKind as C;
                match kind {
                    C::PointerExposeProvenance | C::PointerWithExposedProvenance | C::FnPtrToPtr => {
                        let a = self.opd(o);
                        self.copy(st, dst, a, dsize.min(8));
                    }
                    C::PtrToPtr => {
                        let fs = self.lo.size_of(from);
                        let a = self.opd(o);
                        let a = if fs > dsize { opd_off(&a, 0, dsize) } else { a };
                        self.copy(st, dst, a, dsize);
                    }
                    C::Transmute | C::Subtype | C::BoxDerefTransmute => {
                        let a = self.opd(o);
                        self.copy(st, dst, a, dsize);
                    }
                    C::IntToInt => {
                        let fl = self.lo.layout(from);
                        let signed = match from.kind() {
                            ty::Int(_) => true,
                            ty::Adt(..) => matches!(from.discriminant_ty(self.lo.tcx).kind(), ty::Int(_)),
                            _ => false,
                        };
                        let a = self.opd(o);
                        st.push(St::Store {
                            dst,
                            size: dsize as u8,
                            e: Ex::Cast { a, from: fl.size.bytes() as u8, signed },
                        });
                    }
                    C::FloatToInt | C::FloatToFloat | C::IntToFloat => {
                        st.push(St::Unsupported("float cast".into()));
                    }
                    C::PointerCoercion(pc, _) => {
                        use ty::adjustment::PointerCoercion as PC;
                        match pc {
                            PC::ReifyFnPointer(..) => {
                                if let ty::FnDef(d, args) = from.kind() {
                                    let args = args.no_bound_vars().unwrap();
                                    let inst =
                                        Instance::resolve_for_fn_ptr(self.lo.tcx, self.lo.env, *d, args).unwrap();
                                    let a = self.lo.fn_addr(inst);
                                    self.copy(st, dst, Opd::Imm(a as u128), 8);
                                } else {
                                    st.push(St::Unsupported("reify".into()));
                                }
                            }
                            PC::ClosureFnPointer(..) => {
                                if let ty::Closure(d, args) = from.kind() {
                                    let inst =
                                        Instance::resolve_closure(self.lo.tcx, *d, args, ty::ClosureKind::FnOnce);
                                    let a = self.lo.fn_addr(inst);
                                    self.copy(st, dst, Opd::Imm(a as u128), 8);
                                } else {
                                    st.push(St::Unsupported("closure ptr".into()));
                                }
                            }
                            PC::UnsafeFnPointer | PC::MutToConstPointer | PC::ArrayToPointer => {
                                let a = self.opd(o);
                                self.copy(st, dst, a, dsize);
                            }
                            PC::Unsize => {
                                let a = self.opd(o);
                                self.unsize(st, a, from, dst, *to);
                            }
                        }
                    }
                }
            }
        }
    }
    fn unsize(&mut self, st: &mut Vec<St>, src: Opd, from: Ty<'tcx>, dst: Pl, to: Ty<'tcx>) {
        let tcx = self.lo.tcx;
        if let (Some(a), Some(b)) = (from.builtin_deref(true), to.builtin_deref(true)) {
            let both_ptr = (from.is_ref() || from.is_raw_ptr()) && (to.is_ref() || to.is_raw_ptr());
            if both_ptr {
                let (sa, sb) = tcx.struct_lockstep_tails_for_codegen(a, b, self.lo.env);
                match (sa.kind(), sb.kind()) {
                    (ty::Array(_, n), ty::Slice(_)) => {
                        let n = n.try_to_target_usize(tcx).unwrap();
                        self.copy(st, dst.clone(), src, 8);
                        self.copy(st, off(dst, 8), Opd::Imm(n as u128), 8);
                    }
                    (ty::Dynamic(da, ..), ty::Dynamic(db, ..)) => {
                        let (pa, pb) = (da.principal_def_id(), db.principal_def_id());
                        if pa == pb || pb.is_none() {
                            self.copy(st, dst, src, 16);
                        } else {
                            let slot = tcx.supertrait_vtable_slot((sa, sb));
                            match slot {
                                Some(s) => st.push(St::Upcast { dst, src, slot: s as u32 }),
                                None => self.copy(st, dst, src, 16),
                            }
                        }
                    }
                    (_, ty::Dynamic(db, ..)) => {
                        let tr = db.principal().map(|p| tcx.instantiate_bound_regions_with_erased(p));
                        let v = self.lo.vtable(sa, tr);
                        self.copy(st, dst.clone(), src, 8);
                        self.copy(st, off(dst, 8), Opd::Imm(v as u128), 8);
                    }
                    _ => {
                        st.push(St::Unsupported(format!("unsize {from} -> {to}")));
                    }
                }
                return;
            }
        }
        match (from.kind(), to.kind()) {
            (ty::Pat(a, _), ty::Pat(b, _)) => {
                let (a, b) = (*a, *b);
                self.unsize(st, src, a, dst, b)
            }
            (ty::Adt(..), ty::Adt(..)) => {
                let cx = self.lo.cx();
                let (la, lb) = (self.lo.layout(from), self.lo.layout(to));
                let n = la.fields.count();
                for i in 0..n {
                    let (fa, fb) = (la.field(&cx, i), lb.field(&cx, i));
                    if fa.is_zst() {
                        continue;
                    }
                    let s = opd_off(&src, la.fields.offset(i).bytes(), fa.size.bytes());
                    let d = off(dst.clone(), lb.fields.offset(i).bytes());
                    if fa.ty == fb.ty {
                        self.copy(st, d, s, fa.size.bytes());
                    } else {
                        self.unsize(st, s, fa.ty, d, fb.ty);
                    }
                }
            }
            _ => st.push(St::Unsupported(format!("unsize {from} -> {to}"))),
        }
    }
    fn term(&mut self, t: &mir::Terminator<'tcx>, st: &mut Vec<St>) -> Tm {
        use mir::TerminatorKind as TK;
        let tcx = self.lo.tcx;
        match &t.kind {
            TK::Goto { target, .. } => Tm::Goto(target.as_u32()),
            TK::SwitchInt { discr, targets } => {
                let sz = self.lo.size_of(self.oty(discr)) as u8;
                let a = self.opd(discr);
                Tm::Switch {
                    a,
                    sz,
                    targets: targets.iter().map(|(v, b)| (v, b.as_u32())).collect(),
                    otherwise: targets.otherwise().as_u32(),
                }
            }
            TK::Return => Tm::Return,
            TK::Unreachable => Tm::Unreachable,
            TK::UnwindResume | TK::UnwindTerminate(_) => Tm::Abort("unwind".into()),
            TK::FalseEdge { real_target, .. } => Tm::Goto(real_target.as_u32()),
            TK::FalseUnwind { real_target, .. } => Tm::Goto(real_target.as_u32()),
            TK::Assert { cond, expected, msg, target, .. } => {
                let a = self.opd(cond);
                Tm::Assert { a, expected: *expected, msg: assert_msg(msg), next: target.as_u32() }
            }
            TK::Drop { place, target, .. } => {
                let ty = self.pty(*place);
                if !ty.needs_drop(tcx, self.lo.env) {
                    return Tm::Goto(target.as_u32());
                }
                let p = self.place(*place);
                if let ty::Dynamic(..) = ty.kind() {
                    return Tm::DropDyn { p, next: target.as_u32() };
                }
                let inst = Instance::resolve_drop_glue(tcx, ty);
                let f = self.lo.inst_id(inst);
                let fat = self.lo.layout(ty).is_unsized();
                Tm::DropCall { f, p, fat, next: target.as_u32() }
            }
            TK::Call { func, args, destination, target, .. } => {
                let fty = self.oty(func);
                let rust_call = fty.fn_sig(tcx).abi() == rustc_abi::ExternAbi::RustCall;
                let mut out = vec![];
                let n = args.len();
                for (i, a) in args.iter().enumerate() {
                    let aty = self.oty(&a.node);
                    let lay = self.lo.layout(aty);
                    if lay.is_unsized() {
                        if let mir::Operand::Copy(p) | mir::Operand::Move(p) = &a.node {
                            let p = self.place(*p);
                            out.push(Arg::UnsizedPlace(p));
                        }
                        continue;
                    }
                    let v = self.opd(&a.node);
                    if rust_call && i + 1 == n {
                        let cx = self.lo.cx();
                        for j in 0..lay.fields.count() {
                            let fo = lay.fields.offset(j).bytes();
                            let fs = lay.field(&cx, j).size.bytes();
                            out.push(Arg::Val(opd_off(&v, fo, fs), fs as u32));
                        }
                    } else {
                        out.push(Arg::Val(v, lay.size.bytes() as u32));
                    }
                }
                let dst = self.place(*destination);
                let dsize = self.lo.size_of(self.pty(*destination)) as u32;
                let next = target.map(|b| b.as_u32());
                let f = match fty.kind() {
                    ty::FnDef(d, ga) => {
                        let ga = ga.no_bound_vars().unwrap();
                        match Instance::try_resolve(tcx, self.lo.env, *d, ga) {
                            Ok(Some(inst)) => match inst.def {
                                InstanceKind::Virtual(_, slot) => Callee::Virtual(slot as u32),
                                InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) => {
                                    return Tm::Goto(next.unwrap());
                                }
                                _ => Callee::Inst(self.lo.inst_id(inst)),
                            },
                            _ => {
                                return Tm::Abort(format!("unresolved {}", tcx.def_path_str_with_args(*d, ga)));
                            }
                        }
                    }
                    _ => Callee::Ptr(self.opd(func)),
                };
                let _ = st;
                Tm::Call { f, args: out, dst, dsize, next }
            }
            TK::TailCall { .. } => Tm::Abort("tail call".into()),
            _ => Tm::Abort("unsupported terminator".into()),
        }
    }
}

fn assert_msg<'tcx>(m: &mir::AssertKind<mir::Operand<'tcx>>) -> String {
    use mir::AssertKind::*;
    match m {
        BoundsCheck { .. } => "index out of bounds".into(),
        Overflow(op, ..) => format!("arithmetic overflow ({op:?})"),
        OverflowNeg(_) => "negation overflow".into(),
        DivisionByZero(_) => "division by zero".into(),
        RemainderByZero(_) => "remainder by zero".into(),
        _ => "assertion".into(),
    }
}

pub fn _unused() -> VariantIdx {
    FIRST_VARIANT
}
#[allow(unused)]
fn _u<'tcx>(t: Ty<'tcx>) -> bool {
    t.has_param()
}
