//! The path-forking symbolic interpreter.
use crate::big::{Z, ZERO};
use crate::ir::*;
use crate::lower::Lower;
use crate::mem::*;
use crate::models::{self, Handler};
use crate::solver::*;
use crate::term::*;
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Stop {
    /// need a concrete value for this term: fork over its feasible values
    Conc(T),
    Panic(String),
    Unsupported(String),
    /// path ends silently (assumption violated)
    Cut,
    /// harness finished early on this path
    End,
}
pub type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub id: u32,
    pub blk: u32,
    pub st: u32,
    pub dst: u64,
    pub dsize: u32,
    pub next: Option<u32>,
}

#[derive(Clone, Debug)]
pub struct Input {
    pub name: Rc<str>,
    pub t: T,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub stack: Vec<Rc<Mem>>,
    pub heap: Vec<Option<Rc<Mem>>>,
    pub free: Vec<u32>,
    pub gw: FxHashMap<u32, Rc<Mem>>,
    pub path: Vec<T>,
    pub model: Option<Rc<Model>>,
    pub conc: Rc<FxHashMap<T, u128>>,
    pub storage: Rc<BTreeMap<Vec<u8>, Rc<Mem>>>,
    pub txs: Vec<Rc<BTreeMap<Vec<u8>, Rc<Mem>>>>,
    pub inputs: Rc<Vec<Input>>,
    pub obs: Rc<Vec<(Rc<str>, V)>>,
    pub steps: u64,
    pub unknown: bool,
    pub nchoice: u32,
    pub mix: u64,
    pub may_panic: u32,
}

#[derive(Default, Debug)]
pub struct RunStats {
    pub paths: u64,
    pub cut: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub check_queries: u64,
    pub unknown_branches: u64,
    pub unknown_checks: u64,
    pub max_depth: usize,
}

pub struct Violation {
    pub msg: String,
    pub inputs: Vec<(String, String)>,
    pub trace: Vec<String>,
}

pub struct Exec<'tcx> {
    pub lo: Lower<'tcx>,
    pub solver: Solver,
    pub work: Vec<State>,
    pub s: State,
    pub stats: RunStats,
    pub funcs_run: FxHashSet<u32>,
    pub checks_seen: FxHashMap<Rc<str>, (u64, u64)>,
    pub reach: FxHashMap<Rc<str>, u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<(Vec<(String, String)>, Vec<(String, String)>)>,
    pub want_samples: usize,
    pub max_steps: u64,
    pub trace_calls: bool,
    pub forks_on: bool,
    pub fork_sites: FxHashMap<String, u64>,
    pub shard: Option<(u64, u64, u32)>,
    pub prop: String,
    pub deadline: Instant,
    pub zero_addr: u64,
    pub witness: FxHashMap<Rc<str>, Vec<(String, String)>>,
    pub max_viol: usize,
    pub isqrt_memo: FxHashMap<T, (T, T)>,
}

pub fn mask(v: u128, sz: u8) -> u128 {
    if sz >= 16 {
        v
    } else {
        v & ((1u128 << (8 * sz)) - 1)
    }
}
pub fn sx(v: u128, sz: u8) -> i128 {
    let sh = 128 - 8 * sz as u32;
    ((v << sh) as i128) >> sh
}

impl<'tcx> Exec<'tcx> {
    pub fn new(lo: Lower<'tcx>, solver: Solver) -> Self {
        let mut e = Exec {
            lo,
            solver,
            work: vec![],
            s: State {
                frames: vec![],
                stack: vec![],
                heap: vec![],
                free: vec![],
                gw: Default::default(),
                path: vec![],
                model: Some(Rc::new(Default::default())),
                conc: Default::default(),
                storage: Default::default(),
                txs: vec![],
                inputs: Default::default(),
                obs: Default::default(),
                steps: 0,
                unknown: false,
                nchoice: 0,
                mix: 0,
                may_panic: 0,
            },
            stats: Default::default(),
            funcs_run: Default::default(),
            checks_seen: Default::default(),
            reach: Default::default(),
            violations: vec![],
            samples: vec![],
            want_samples: 0,
            max_steps: 200_000_000,
            trace_calls: false,
            forks_on: false,
            fork_sites: Default::default(),
            shard: None,
            prop: String::new(),
            deadline: Instant::now() + std::time::Duration::from_secs(3600),
            zero_addr: 0,
            witness: Default::default(),
            isqrt_memo: Default::default(),
            max_viol: 1,
        };
        e.zero_addr = e.lo.new_global(Mem::new(64));
        e
    }

    // ---------- memory ----------
    #[inline]
    pub fn mem(&self, a: u64) -> R<(&Mem, u32)> {
        let off = a as u32;
        if a >= FN_BASE {
            return Err(Stop::Unsupported(format!("access to function memory {a:#x}")));
        }
        if a >= GLOBAL_BASE {
            let i = ((a - GLOBAL_BASE) >> 32) as usize;
            if !self.s.gw.is_empty() {
                if let Some(m) = self.s.gw.get(&(i as u32)) {
                    return Ok((m, off));
                }
            }
            return match self.lo.globals.get(i) {
                Some(m) => Ok((m, off)),
                None => Err(Stop::Unsupported(format!("bad global {a:#x}"))),
            };
        }
        if a >= STACK_BASE {
            let i = ((a - STACK_BASE) >> 32) as usize;
            return match self.s.stack.get(i) {
                Some(m) => Ok((m, off)),
                None => Err(Stop::Unsupported(format!("bad stack address {a:#x}"))),
            };
        }
        if a >= HEAP_BASE {
            let i = ((a - HEAP_BASE) >> 32) as usize;
            if let Some(Some(m)) = self.s.heap.get(i) {
                return Ok((m, off));
            }
        }
        Err(Stop::Unsupported(format!("bad address {a:#x}")))
    }
    #[inline]
    pub fn mem_mut(&mut self, a: u64) -> R<(&mut Mem, u32)> {
        let off = a as u32;
        if a >= FN_BASE {
            return Err(Stop::Unsupported(format!("write to function memory {a:#x}")));
        }
        if a >= GLOBAL_BASE {
            let i = ((a - GLOBAL_BASE) >> 32) as u32;
            let g = match self.lo.globals.get(i as usize) {
                Some(g) => g.clone(),
                None => return Err(Stop::Unsupported("bad global".into())),
            };
            let m = self.s.gw.entry(i).or_insert(g);
            return Ok((Rc::make_mut(m), off));
        }
        if a >= STACK_BASE {
            let i = ((a - STACK_BASE) >> 32) as usize;
            return match self.s.stack.get_mut(i) {
                Some(m) => Ok((Rc::make_mut(m), off)),
                None => Err(Stop::Unsupported(format!("bad stack address {a:#x}"))),
            };
        }
        if a >= HEAP_BASE {
            let i = ((a - HEAP_BASE) >> 32) as usize;
            if let Some(Some(m)) = self.s.heap.get_mut(i) {
                return Ok((Rc::make_mut(m), off));
            }
        }
        Err(Stop::Unsupported(format!("bad address {a:#x}")))
    }
    #[inline]
    pub fn load(&self, a: u64, n: u8) -> R<V> {
        let (m, o) = self.mem(a)?;
        if o as usize + n as usize > m.bytes.len() {
            return Err(Stop::Unsupported(format!("out of bounds read {a:#x}+{n}")));
        }
        let v = m.read(o, n);
        if let V::S(t) = v {
            if let Some(c) = self.s.conc.get(&t) {
                return Ok(V::C(*c));
            }
        }
        Ok(v)
    }
    #[inline]
    pub fn store(&mut self, a: u64, n: u8, v: V) -> R<()> {
        let (m, o) = self.mem_mut(a)?;
        if o as usize + n as usize > m.bytes.len() {
            return Err(Stop::Unsupported(format!("out of bounds write {a:#x}+{n}")));
        }
        m.write(o, n, v);
        Ok(())
    }
    pub fn memcpy(&mut self, dst: u64, src: u64, n: u32) -> R<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        if matches!(n, 1 | 2 | 4 | 8 | 16) {
            let (m, o) = self.mem(src)?;
            if o as usize + n as usize > m.bytes.len() {
                return Err(Stop::Unsupported(format!("out of bounds read {src:#x}+{n}")));
            }
            if m.ov.is_empty() {
                let v = m.read(o, n as u8);
                return self.store(dst, n as u8, v);
            }
        }
        let (m, o) = self.mem(src)?;
        if o as usize + n as usize > m.bytes.len() {
            return Err(Stop::Unsupported(format!("out of bounds copy {src:#x}+{n}")));
        }
        let cells = if m.ov.is_empty() { vec![] } else { m.cells(o, n) };
        let bytes = m.bytes[o as usize..o as usize + n as usize].to_vec();
        let (d, o) = self.mem_mut(dst)?;
        if o as usize + n as usize > d.bytes.len() {
            return Err(Stop::Unsupported(format!("out of bounds copy to {dst:#x}+{n}")));
        }
        d.clear_ov(o, n);
        d.bytes[o as usize..o as usize + n as usize].copy_from_slice(&bytes);
        d.put_cells(o, &cells);
        Ok(())
    }
    pub fn slice(&self, a: u64, n: u32) -> R<Mem> {
        if n == 0 {
            return Ok(Mem::new(0));
        }
        let (m, o) = self.mem(a)?;
        if o as usize + n as usize > m.bytes.len() {
            return Err(Stop::Unsupported(format!("out of bounds slice {a:#x}+{n}")));
        }
        Ok(m.slice(o, n))
    }
    pub fn put_slice(&mut self, a: u64, s: &Mem) -> R<()> {
        let n = s.bytes.len();
        if n == 0 {
            return Ok(());
        }
        let (m, o) = self.mem_mut(a)?;
        if o as usize + n > m.bytes.len() {
            return Err(Stop::Unsupported(format!("out of bounds write {a:#x}+{n}")));
        }
        m.copy_within_from(o, s, 0, n as u32);
        Ok(())
    }
    pub fn bytes(&self, a: u64, n: u64) -> R<Vec<u8>> {
        let m = self.slice(a, n as u32)?;
        if m.ov.is_empty() {
            return Ok(m.bytes);
        }
        let mut b = m.bytes.clone();
        for (o, s, t) in &m.ov {
            match self.s.conc.get(t) {
                Some(v) => b[*o as usize..*o as usize + *s as usize].copy_from_slice(&v.to_le_bytes()[..*s as usize]),
                None => return Err(Stop::Conc(*t)),
            }
        }
        Ok(b)
    }
    pub fn alloc(&mut self, n: u64) -> u64 {
        let m = Rc::new(Mem::new(n as usize));
        let i = match self.s.free.pop() {
            Some(i) => {
                self.s.heap[i as usize] = Some(m);
                i
            }
            None => {
                self.s.heap.push(Some(m));
                self.s.heap.len() as u32 - 1
            }
        };
        HEAP_BASE + ((i as u64) << 32)
    }
    pub fn dealloc(&mut self, a: u64) {
        if a >= HEAP_BASE && a < STACK_BASE {
            let i = ((a - HEAP_BASE) >> 32) as usize;
            if i < self.s.heap.len() && self.s.heap[i].take().is_some() {
                self.s.free.push(i as u32);
            }
        }
    }
    pub fn cv(&self, v: V) -> R<u128> {
        match v {
            V::C(c) => Ok(c),
            V::S(t) => match self.s.conc.get(&t) {
                Some(c) => Ok(*c),
                None => Err(Stop::Conc(t)),
            },
        }
    }

    // ---------- places and operands ----------
    #[inline]
    fn frame_base(&self) -> u64 {
        STACK_BASE + ((self.s.frames.len() as u64 - 1) << 32)
    }
    #[inline]
    pub fn place(&self, p: &Pl) -> R<u64> {
        if p.pj.is_empty() {
            return Ok(self.frame_base() + p.base as u64);
        }
        Ok(self.place_fat(p)?.0)
    }
    pub fn place_fat(&self, p: &Pl) -> R<(u64, u64)> {
        let fb = self.frame_base();
        let mut a = fb + p.base as u64;
        let mut meta = 0u64;
        for e in &p.pj {
            match e {
                Pj::Deref => {
                    let v = self.load(a, 8)?;
                    a = self.cv(v)? as u64;
                    meta = 0;
                }
                Pj::DerefFat => {
                    let v = self.load(a, 8)?;
                    let m = self.load(a + 8, 8)?;
                    meta = self.cv(m)? as u64;
                    a = self.cv(v)? as u64;
                }
                Pj::Off(o) => a = a.wrapping_add(*o),
                Pj::DynOff(o) => {
                    let al = self.load(meta + 16, 8)?;
                    let al = self.cv(al)? as u64;
                    let al = al.max(1);
                    a = a.wrapping_add(o.div_ceil(al) * al);
                }
                Pj::Index { local, stride } => {
                    let v = self.load(fb + *local as u64, 8)?;
                    let i = self.cv(v)? as u64;
                    a = a.wrapping_add(i.wrapping_mul(*stride));
                }
                Pj::FromEnd { off, stride } => {
                    a = a.wrapping_add((meta - off) * stride);
                }
                Pj::Sub { from, to, stride } => {
                    a = a.wrapping_add(from * stride);
                    meta = meta - from - to;
                }
            }
        }
        Ok((a, meta))
    }
    #[inline]
    pub fn opd(&self, o: &Opd, n: u8) -> R<V> {
        match o {
            Opd::Imm(v) => Ok(V::C(*v)),
            Opd::Pl(p) => {
                let a = self.place(p)?;
                self.load(a, n)
            }
            Opd::Glob(a) => self.load(*a, n),
        }
    }
    pub fn conc_opd(&self, o: &Opd, n: u8) -> R<u128> {
        let v = self.opd(o, n)?;
        self.cv(v)
    }

    // ---------- arithmetic ----------
    pub fn bin(&self, k: BinK, a: V, b: V, sz: u8, signed: bool, bsz: u8, bsigned: bool) -> R<V> {
        let w = sz as u32 * 8;
        if let (V::C(x), V::C(y)) = (a, b) {
            let c = |v: bool| V::C(v as u128);
            let r = match k {
                BinK::Add => mask(x.wrapping_add(y), sz),
                BinK::Sub => mask(x.wrapping_sub(y), sz),
                BinK::Mul => mask(x.wrapping_mul(y), sz),
                BinK::Div | BinK::Rem => {
                    if y == 0 {
                        return Err(Stop::Panic("division by zero".into()));
                    }
                    if signed {
                        let (x, y) = (sx(x, sz), sx(y, sz));
                        let r = if k == BinK::Div { x.wrapping_div(y) } else { x.wrapping_rem(y) };
                        mask(r as u128, sz)
                    } else if k == BinK::Div {
                        x / y
                    } else {
                        x % y
                    }
                }
                BinK::Xor => x ^ y,
                BinK::And => x & y,
                BinK::Or => x | y,
                BinK::Shl => mask(x.wrapping_shl((y as u32) & (w - 1)), sz),
                BinK::Shr => {
                    let s = (y as u32) & (w - 1);
                    if signed {
                        mask((sx(x, sz) >> s) as u128, sz)
                    } else {
                        x >> s
                    }
                }
                BinK::Eq => return Ok(c(x == y)),
                BinK::Ne => return Ok(c(x != y)),
                BinK::Lt | BinK::Le | BinK::Gt | BinK::Ge | BinK::Cmp => {
                    let o = if signed { sx(x, sz).cmp(&sx(y, sz)) } else { x.cmp(&y) };
                    match k {
                        BinK::Lt => return Ok(c(o.is_lt())),
                        BinK::Le => return Ok(c(o.is_le())),
                        BinK::Gt => return Ok(c(o.is_gt())),
                        BinK::Ge => return Ok(c(o.is_ge())),
                        _ => (o as i8) as u8 as u128,
                    }
                }
                BinK::Offset(st) => {
                    let d = sx(y, bsz).wrapping_mul(st as i128);
                    mask((x as i128).wrapping_add(d) as u128, 8)
                }
            };
            return Ok(V::C(r));
        }
        let tm = tt();
        if let BinK::Offset(st) = k {
            let _ = bsigned;
            let x = self.cv(a)?;
            let y = self.cv(b)?;
            let d = sx(y, bsz).wrapping_mul(st as i128);
            return Ok(V::C(mask((x as i128).wrapping_add(d) as u128, 8)));
        }
        let (x, y) = (a.term(), b.term());
        let bt = |t: T| -> V {
            let i = tt().b2i(t);
            V::from_term(i)
        };
        let r = match k {
            BinK::Add => {
                let s = tm.add(x, y);
                tm.wrap(s, w)
            }
            BinK::Sub => {
                let s = tm.sub(x, y);
                tm.wrap(s, w)
            }
            BinK::Mul => {
                let (x, y) = if signed { (tm.signed(x, w), tm.signed(y, w)) } else { (x, y) };
                let s = tm.mul(x, y);
                tm.wrap(s, w)
            }
            BinK::Div | BinK::Rem => {
                if signed {
                    let (x, y) = (tm.signed(x, w), tm.signed(y, w));
                    let (cx, cy) = (tm.ge0(x), tm.ge0(y));
                    let nx = tm.scale(x, Z::i(-1));
                    let ny = tm.scale(y, Z::i(-1));
                    let ax = tm.ite(cx, x, nx);
                    let ay = tm.ite(cy, y, ny);
                    if k == BinK::Div {
                        let q = tm.div(ax, ay);
                        let nq = tm.scale(q, Z::i(-1));
                        let same = tm.bite(cx, cy, { let t = tt(); t.not(cy) });
                        let r = tm.ite(same, q, nq);
                        tm.wrap(r, w)
                    } else {
                        let q = tm.modulo(ax, ay);
                        let nq = tm.scale(q, Z::i(-1));
                        let r = tm.ite(cx, q, nq);
                        tm.wrap(r, w)
                    }
                } else if k == BinK::Div {
                    tm.div(x, y)
                } else {
                    tm.modulo(x, y)
                }
            }
            BinK::And | BinK::Or | BinK::Xor => {
                let an = self.bit_and(x, y)?;
                match k {
                    BinK::And => an,
                    BinK::Or => {
                        let s = tm.add(x, y);
                        tm.sub(s, an)
                    }
                    _ => {
                        let s = tm.add(x, y);
                        let d = tm.scale(an, Z::u(2));
                        let r = tm.sub(s, d);
                        let one = Z::u(1);
                        if tm.hi(x) <= one && tm.hi(y) <= one {
                            // boolean xor
                            let (bx, by) = (self.as_bool(x), self.as_bool(y));
                            let ny = tm.not(by);
                            let z = tm.bite(bx, ny, by);
                            tm.b2i(z)
                        } else {
                            r
                        }
                    }
                }
            }
            BinK::Shl => {
                let s = (self.cv(b)? as u32) & (w - 1);
                let m = tm.scale(x, Z::pow2(s));
                tm.wrap(m, w)
            }
            BinK::Shr => {
                let s = (self.cv(b)? as u32) & (w - 1);
                let d = tm.konst(Z::pow2(s));
                if signed {
                    let x = tm.signed(x, w);
                    let q = tm.div(x, d);
                    tm.wrap(q, w)
                } else {
                    tm.div(x, d)
                }
            }
            BinK::Eq => return Ok(bt(tm.eq(x, y))),
            BinK::Ne => {
                let e = tm.eq(x, y);
                return Ok(bt(tm.not(e)));
            }
            BinK::Lt | BinK::Le | BinK::Gt | BinK::Ge | BinK::Cmp => {
                let (x, y) = if signed { (tm.signed(x, w), tm.signed(y, w)) } else { (x, y) };
                match k {
                    BinK::Lt => return Ok(bt(tm.lt(x, y))),
                    BinK::Le => return Ok(bt(tm.le(x, y))),
                    BinK::Gt => return Ok(bt(tm.lt(y, x))),
                    BinK::Ge => return Ok(bt(tm.le(y, x))),
                    _ => {
                        let l = tm.lt(x, y);
                        let e = tm.eq(x, y);
                        let (m, z, o) = (tm.ku(255), tm.ku(0), tm.ku(1));
                        let r = tm.ite(e, z, o);
                        tm.ite(l, m, r)
                    }
                }
            }
            BinK::Offset(_) => unreachable!(),
        };
        Ok(V::from_term(r))
    }
    pub fn as_bool(&self, x: T) -> T {
        let tm = tt();
        let one = tm.ku(1);
        tm.eq(x, one)
    }
    fn bit_and(&self, x: T, y: T) -> R<T> {
        let tm = tt();
        let one = Z::u(1);
        if tm.hi(x) <= one && tm.hi(y) <= one {
            let (a, b) = (self.as_bool(x), self.as_bool(y));
            let c = tm.and(a, b);
            return Ok(tm.b2i(c));
        }
        let (x, m) = if tm.as_const(x).is_some() { (y, x) } else { (x, y) };
        if let Some(m) = tm.as_u(m) {
            // runs of ones
            let mut r = tm.ku(0);
            let mut i = 0u32;
            while i < 128 {
                if m >> i & 1 == 0 {
                    i += 1;
                    continue;
                }
                let mut j = i;
                while j < 128 && m >> j & 1 == 1 {
                    j += 1;
                }
                let d = tm.konst(Z::pow2(i));
                let q = tm.div(x, d);
                let md = tm.konst(Z::pow2(j - i));
                let q = tm.modulo(q, md);
                let q = tm.scale(q, Z::pow2(i));
                r = tm.add(r, q);
                i = j;
            }
            return Ok(r);
        }
        let bits = tm.hi(x).bits().min(tm.hi(m).bits());
        if bits <= 16 {
            let mut r = tm.ku(0);
            for i in 0..bits {
                let d = tm.konst(Z::pow2(i));
                let two = tm.ku(2);
                let a = tm.div(x, d);
                let a = tm.modulo(a, two);
                let b = tm.div(m, d);
                let b = tm.modulo(b, two);
                let (a, b) = (self.as_bool(a), self.as_bool(b));
                let c = tm.and(a, b);
                let c = tm.b2i(c);
                let c = tm.scale(c, Z::pow2(i));
                r = tm.add(r, c);
            }
            return Ok(r);
        }
        // concretise the operand with the smaller range
        Err(Stop::Conc(if tm.hi(x) < tm.hi(m) { x } else { m }))
    }
    /// (wrapped result, overflow flag)
    pub fn bin_ovf(&self, k: BinK, a: V, b: V, sz: u8, signed: bool) -> R<(V, V)> {
        let w = sz as u32 * 8;
        if let (V::C(x), V::C(y)) = (a, b) {
            let (r, o) = if signed {
                let (x, y) = (sx(x, sz), sx(y, sz));
                let (r, o) = match k {
                    BinK::Add => x.overflowing_add(y),
                    BinK::Sub => x.overflowing_sub(y),
                    _ => x.overflowing_mul(y),
                };
                let m = mask(r as u128, sz);
                (m, o || sx(m, sz) != r)
            } else {
                let (r, o) = match k {
                    BinK::Add => x.overflowing_add(y),
                    BinK::Sub => x.overflowing_sub(y),
                    _ => x.overflowing_mul(y),
                };
                let m = mask(r, sz);
                (m, o || m != r)
            };
            return Ok((V::C(r), V::C(o as u128)));
        }
        let tm = tt();
        let (mut x, mut y) = (a.term(), b.term());
        if signed {
            x = tm.signed(x, w);
            y = tm.signed(y, w);
        }
        let s = match k {
            BinK::Add => tm.add(x, y),
            BinK::Sub => tm.sub(x, y),
            _ => tm.mul(x, y),
        };
        let (lo, hi) = if signed { (Z::pow2(w - 1).neg(), Z::pow2(w - 1)) } else { (ZERO, Z::pow2(w)) };
        let a1 = tm.addk(s, lo.neg());
        let ok1 = tm.ge0(a1);
        let n = tm.scale(s, Z::i(-1));
        let a2 = tm.addk(n, hi.sub(Z::u(1)));
        let ok2 = tm.ge0(a2);
        let ok = tm.and(ok1, ok2);
        let ov = tm.not(ok);
        let r = tm.wrap(s, w);
        let ov = tm.b2i(ov);
        Ok((V::from_term(r), V::from_term(ov)))
    }

    fn discr(&self, p: &Pl, d: &Discr, dsz: u8) -> R<V> {
        match d {
            Discr::Const(v) => Ok(V::C(mask(*v, dsz))),
            Discr::Direct { off, tsize, sext } => {
                let a = self.place(p)?;
                let v = self.load(a + *off as u64, *tsize)?;
                self.cast(v, *tsize, *sext, dsz)
            }
            Discr::Niche { off, tsize, niche_start, lo, n, untagged } => {
                let a = self.place(p)?;
                let v = self.load(a + *off as u64, *tsize)?;
                match v {
                    V::C(c) => {
                        let rel = mask(c.wrapping_sub(*niche_start), *tsize);
                        Ok(V::C(if rel < *n as u128 { *lo as u128 + rel } else { *untagged as u128 }))
                    }
                    V::S(t) => {
                        let tm = tt();
                        let s = tm.addk(t, Z::u(*niche_start).neg());
                        let rel = tm.wrap(s, *tsize as u32 * 8);
                        let nn = tm.ku(*n as u128);
                        let c = tm.lt(rel, nn);
                        let x = tm.addk(rel, Z::u(*lo as u128));
                        let u = tm.ku(*untagged as u128);
                        Ok(V::from_term(tm.ite(c, x, u)))
                    }
                }
            }
        }
    }
    pub fn cast(&self, v: V, from: u8, signed: bool, to: u8) -> R<V> {
        match v {
            V::C(c) => Ok(V::C(if signed { mask(sx(c, from) as u128, to) } else { mask(c, to) })),
            V::S(t) => {
                let tm = tt();
                if to > from {
                    if signed {
                        let s = tm.signed(t, from as u32 * 8);
                        return Ok(V::from_term(tm.wrap(s, to as u32 * 8)));
                    }
                    return Ok(v);
                }
                if to == from {
                    return Ok(v);
                }
                Ok(V::from_term(tm.ext(t, 0, to)))
            }
        }
    }
    fn ex(&self, e: &Ex, size: u8) -> R<V> {
        match e {
            Ex::Use(o) => self.opd(o, size),
            Ex::Bin { k, a, b, sz, signed, bsz, bsigned } => {
                let x = self.opd(a, *sz)?;
                let y = self.opd(b, *bsz)?;
                self.bin(*k, x, y, *sz, *signed, *bsz, *bsigned)
            }
            Ex::Not { a, is_bool } => match self.opd(a, size)? {
                V::C(c) => Ok(V::C(if *is_bool { c ^ 1 } else { mask(!c, size) })),
                V::S(t) => {
                    let tm = tt();
                    if *is_bool {
                        let b = self.as_bool(t);
                        let n = tm.not(b);
                        Ok(V::from_term(tm.b2i(n)))
                    } else {
                        let n = tm.scale(t, Z::i(-1));
                        let n = tm.addk(n, Z::pow2(size as u32 * 8).sub(Z::u(1)));
                        Ok(V::from_term(n))
                    }
                }
            },
            Ex::Neg { a } => match self.opd(a, size)? {
                V::C(c) => Ok(V::C(mask(c.wrapping_neg(), size))),
                V::S(t) => {
                    let tm = tt();
                    let n = tm.scale(t, Z::i(-1));
                    Ok(V::from_term(tm.wrap(n, size as u32 * 8)))
                }
            },
            Ex::Cast { a, from, signed } => {
                let v = self.opd(a, *from)?;
                self.cast(v, *from, *signed, size)
            }
            Ex::Discr { p, d } => self.discr(p, d, size),
            Ex::AddrOf(p) => Ok(V::C(self.place(p)? as u128)),
            Ex::Unsupported(m) => Err(Stop::Unsupported(m.clone())),
        }
    }
    fn src_addr(&self, o: &Opd) -> R<u64> {
        match o {
            Opd::Pl(p) => self.place(p),
            Opd::Glob(a) => Ok(*a),
            Opd::Imm(_) => Err(Stop::Unsupported("address of immediate".into())),
        }
    }
    fn stmt(&mut self, s: &St) -> R<()> {
        match s {
            St::Copy { dst, src, size } => {
                let a = self.src_addr(src)?;
                let d = self.place(dst)?;
                self.memcpy(d, a, *size)
            }
            St::Store { dst, size, e } => {
                let v = self.ex(e, *size)?;
                let d = self.place(dst)?;
                self.store(d, *size, v)
            }
            St::BinOvf { dst, k, a, b, sz, signed, bsz, flag } => {
                let x = self.opd(a, *sz)?;
                let y = self.opd(b, *bsz)?;
                let (r, o) = self.bin_ovf(*k, x, y, *sz, *signed)?;
                let d = self.place(dst)?;
                self.store(d, *sz, r)?;
                self.store(d + *flag as u64, 1, o)
            }
            St::RefFat { dst, p } => {
                let (a, m) = self.place_fat(p)?;
                let d = self.place(dst)?;
                self.store(d, 8, V::C(a as u128))?;
                self.store(d + 8, 8, V::C(m as u128))
            }
            St::Repeat { dst, src, size, count } => {
                let d = self.place(dst)?;
                match src {
                    Opd::Imm(v) => {
                        if *size == 1 {
                            let (m, o) = self.mem_mut(d)?;
                            m.clear_ov(o, *count as u32);
                            let b = *v as u8;
                            m.bytes[o as usize..o as usize + *count as usize].fill(b);
                        } else {
                            for i in 0..*count {
                                self.store(d + i * *size as u64, *size as u8, V::C(*v))?;
                            }
                        }
                    }
                    _ => {
                        let a = self.src_addr(src)?;
                        for i in 0..*count {
                            self.memcpy(d + i * *size as u64, a, *size)?;
                        }
                    }
                }
                Ok(())
            }
            St::Upcast { dst, src, slot } => {
                let a = self.src_addr(src)?;
                let p = self.load(a, 8)?;
                let m = self.load(a + 8, 8)?;
                let m = self.cv(m)? as u64;
                let nm = self.load(m + 8 * *slot as u64, 8)?;
                let d = self.place(dst)?;
                self.store(d, 8, p)?;
                self.store(d + 8, 8, nm)
            }
            St::Assume(_) => Ok(()),
            St::CopyNonOverlapping { src, dst, count, size } => {
                let a = self.conc_opd(src, 8)? as u64;
                let d = self.conc_opd(dst, 8)? as u64;
                let c = self.conc_opd(count, 8)? as u64;
                self.memcpy(d, a, (c * size) as u32)
            }
            St::Unsupported(m) => Err(Stop::Unsupported(m.clone())),
        }
    }

    // ---------- calls ----------
    pub fn resolve(&mut self, id: u32) -> R<(Option<Rc<Func>>, Option<Handler>)> {
        let e = &self.lo.insts[id as usize];
        if e.resolved {
            return Ok((e.func.clone(), e.handler));
        }
        let h = models::lookup(self, id);
        let f = match h {
            Some(models::Look::Handler(h)) => {
                self.lo.insts[id as usize].handler = Some(h);
                None
            }
            Some(models::Look::Redirect(to)) => {
                let (f, h) = self.resolve(to)?;
                self.lo.insts[id as usize].handler = h;
                f
            }
            None => Some(self.lo.lower_fn(id).map_err(Stop::Unsupported)?),
        };
        self.lo.insts[id as usize].func = f.clone();
        self.lo.insts[id as usize].resolved = true;
        Ok((f, self.lo.insts[id as usize].handler))
    }
    /// push a frame; args as (address or immediate, size)
    pub fn push(&mut self, id: u32, f: Rc<Func>, args: &[(ArgV, u32)], dst: u64, dsize: u32, next: Option<u32>) -> R<()> {
        if self.s.frames.len() > 3000 {
            return Err(Stop::Unsupported("stack depth".into()));
        }
        let depth = self.s.frames.len() as u64;
        let fb = STACK_BASE + (depth << 32);
        let mut mem = Mem::new(f.frame as usize);
        let put = |me: &Self, mem: &mut Mem, off: u32, a: &ArgV, n: u32| -> R<()> {
            if n == 0 {
                return Ok(());
            }
            match a {
                ArgV::Imm(v) => {
                    let b = v.to_le_bytes();
                    mem.bytes[off as usize..(off + n) as usize].copy_from_slice(&b[..n as usize]);
                    Ok(())
                }
                ArgV::At(a) => {
                    let (m, o) = me.mem(*a)?;
                    if o as usize + n as usize > m.bytes.len() {
                        return Err(Stop::Unsupported("arg copy oob".into()));
                    }
                    mem.copy_within_from(off, m, o, n);
                    Ok(())
                }
                ArgV::Val(v) => {
                    mem.write(off, n as u8, *v);
                    Ok(())
                }
            }
        };
        // a closure called through a function pointer gets its own (empty) value as well
        let want = f.spread.as_ref().map_or(f.args.len(), |(si, fields)| si + fields.len());
        let mut full = vec![];
        let args = if args.len() + 1 == want && f.args[0].1 == 0 {
            full.push((ArgV::Imm(0), 0));
            full.extend(args.iter().cloned());
            &full[..]
        } else {
            args
        };
        if let Some((si, fields)) = &f.spread {
            if args.len() != want {
                return Err(Stop::Unsupported(format!("arity mismatch calling {}: {} vs {want}", f.name, args.len())));
            }
            for i in 0..*si {
                put(self, &mut mem, f.args[i].0, &args[i].0, args[i].1)?;
            }
            let base = f.args[*si].0;
            for (j, (o, _)) in fields.iter().enumerate() {
                if let Some((a, n)) = args.get(si + j) {
                    put(self, &mut mem, base + o, a, *n)?;
                }
            }
        } else {
            if args.len() != f.args.len() {
                return Err(Stop::Unsupported(format!(
                    "arity mismatch calling {}: {} vs {}",
                    f.name,
                    args.len(),
                    f.args.len()
                )));
            }
            for (i, (a, n)) in args.iter().enumerate() {
                let n = (*n).min(f.args[i].1);
                put(self, &mut mem, f.args[i].0, a, n)?;
            }
        }
        let _ = fb;
        self.s.stack.truncate(depth as usize);
        self.s.stack.push(Rc::new(mem));
        if self.trace_calls {
            eprintln!("{:indent$}{}", "", f.name, indent = depth as usize);
        }
        self.funcs_run.insert(id);
        self.s.frames.push(Frame { f, id, blk: 0, st: 0, dst, dsize, next });
        if self.s.frames.len() > self.stats.max_depth {
            self.stats.max_depth = self.s.frames.len();
        }
        Ok(())
    }
    fn call_args(&self, args: &[Arg]) -> R<Vec<(ArgV, u32)>> {
        let mut out = Vec::with_capacity(args.len());
        for a in args {
            match a {
                Arg::Val(o, n) => {
                    let v = match o {
                        Opd::Imm(v) => ArgV::Imm(*v),
                        Opd::Glob(a) => ArgV::At(*a),
                        Opd::Pl(p) => {
                            if *n == 0 {
                                ArgV::Imm(0)
                            } else {
                                ArgV::At(self.place(p)?)
                            }
                        }
                    };
                    out.push((v, *n));
                }
                Arg::UnsizedPlace(p) => {
                    let (a, m) = self.place_fat(p)?;
                    out.push((ArgV::Imm(a as u128 | (m as u128) << 64), 16));
                }
            }
        }
        Ok(out)
    }
    pub fn argv(&self, a: &(ArgV, u32)) -> R<V> {
        match a.0 {
            ArgV::Imm(v) => Ok(V::C(v)),
            ArgV::Val(v) => Ok(v),
            ArgV::At(p) => {
                if a.1 == 0 {
                    return Ok(V::C(0));
                }
                self.load(p, a.1 as u8)
            }
        }
    }
    pub fn invoke(&mut self, id: u32, args: &[(ArgV, u32)], dst: u64, dsize: u32, next: Option<u32>) -> R<()> {
        let (f, h) = self.resolve(id)?;
        if let Some(h) = h {
            if self.trace_calls {
                let n = self.lo.insts[id as usize].name.clone();
                eprintln!("{:indent$}[{}]", "", n, indent = self.s.frames.len());
            }
            let cx = Cx { id, args, dst, dsize, next };
            let pushed = h(self, &cx)?;
            if !pushed {
                match next {
                    Some(n) => self.goto(n),
                    None => return Err(Stop::Unsupported(format!("diverging model {}", self.lo.insts[id as usize].name))),
                }
            }
            return Ok(());
        }
        self.push(id, f.unwrap(), args, dst, dsize, next)
    }
    #[inline]
    fn goto(&mut self, b: u32) {
        let f = self.s.frames.last_mut().unwrap();
        f.blk = b;
        f.st = 0;
    }
    /// feasibility of the path with one more condition; keeps the model when it already decides
    pub fn feasible(&mut self, c: T) -> (bool, Option<Rc<Model>>) {
        if c == TRUE {
            return (true, self.s.model.clone());
        }
        if c == FALSE {
            return (false, None);
        }
        if let Some(m) = self.s.model.clone() {
            let mut memo = FxHashMap::default();
            if let Some(v) = tt().eval(c, &m, &mut memo) {
                if v.is_one() {
                    return (true, Some(m));
                }
            }
        }
        match self.solver.check(&self.s.path, c) {
            Res::Sat(m) => (true, Some(Rc::new(m))),
            Res::Unsat => (false, None),
            Res::Unknown => {
                self.stats.unknown_branches += 1;
                (true, None)
            }
        }
    }
    /// fork over alternatives; continues with the first feasible one, pushes the others as work
    fn branch(&mut self, alts: Vec<(T, u32)>) -> R<()> {
        let mut feas = vec![];
        let n = alts.len();
        for (i, (c, b)) in alts.into_iter().enumerate() {
            if c == FALSE {
                continue;
            }
            if i + 1 == n && feas.is_empty() {
                // all others infeasible: this one must hold
                feas.push((c, b, self.s.model.clone()));
                break;
            }
            let (ok, m) = self.feasible(c);
            if ok {
                let unknown = m.is_none();
                feas.push((c, b, m));
                let _ = unknown;
                if c == TRUE {
                    break;
                }
            }
        }
        if feas.is_empty() {
            return Err(Stop::Cut);
        }
        if feas.len() == 1 {
            let (_, b, m) = feas.pop().unwrap();
            if m.is_some() {
                self.s.model = m;
            }
            self.goto(b);
            return Ok(());
        }
        self.stats.forks += feas.len() as u64 - 1;
        self.fork_at(feas.len() as u64 - 1);
        let rest = feas.split_off(1);
        for (c, b, m) in rest.into_iter().rev() {
            let mut s2 = self.s.clone();
            s2.path.push(c);
            s2.unknown |= m.is_none();
            s2.model = m;
            let f = s2.frames.last_mut().unwrap();
            f.blk = b;
            f.st = 0;
            self.work.push(s2);
        }
        let (c, b, m) = feas.pop().unwrap();
        self.s.path.push(c);
        self.s.unknown |= m.is_none();
        self.s.model = m;
        self.goto(b);
        Ok(())
    }
    fn fork_at(&mut self, n: u64) {
        if self.forks_on && n > 0 {
            let b = self.backtrace();
            let k = b.iter().filter(|x| x.contains("/repo/") || x.contains("/verif/") || x.contains("pallet_")).take(2).cloned().collect::<Vec<_>>().join(" < ");
            let l = format!("{} | {}", b[0], k);
            *self.fork_sites.entry(l).or_insert(0) += n;
        }
    }
    fn concretise(&mut self, t: T) -> R<()> {
        let mut vals: Vec<(u128, T, Option<Rc<Model>>)> = vec![];
        let tm = tt();
        let mut excl = TRUE;
        loop {
            let r = if excl == TRUE && self.s.model.is_some() {
                Res::Sat((**self.s.model.as_ref().unwrap()).clone())
            } else {
                self.solver.check(&self.s.path, excl)
            };
            match r {
                Res::Sat(m) => {
                    let mut memo = FxHashMap::default();
                    let v = match tm.eval(t, &m, &mut memo).and_then(|z| z.to_u128()) {
                        Some(v) => v,
                        None => return Err(Stop::Unsupported("concretise eval".into())),
                    };
                    let k = tm.ku(v);
                    let c = tm.eq(t, k);
                    vals.push((v, c, Some(Rc::new(m))));
                    let n = tm.not(c);
                    excl = tm.and(excl, n);
                    if vals.len() > 512 {
                        let loc = self.where_();
                        return Err(Stop::Unsupported(format!("too many values to concretise at {loc}")));
                    }
                }
                Res::Unsat => break,
                Res::Unknown => return Err(Stop::Unsupported("solver unknown while concretising".into())),
            }
        }
        if vals.is_empty() {
            return Err(Stop::Cut);
        }
        self.stats.forks += vals.len() as u64 - 1;
        self.fork_at(vals.len() as u64 - 1);
        let n = vals.len();
        let base = if n > 1 { Some(self.s.clone()) } else { None };
        for (i, (v, c, m)) in vals.into_iter().enumerate() {
            if i == 0 {
                if n > 1 {
                    self.s.path.push(c);
                }
                Rc::make_mut(&mut self.s.conc).insert(t, v);
                self.s.model = m;
            } else {
                let mut s2 = base.as_ref().unwrap().clone();
                s2.path.push(c);
                Rc::make_mut(&mut s2.conc).insert(t, v);
                s2.model = m;
                self.work.push(s2);
            }
        }
        Ok(())
    }
    fn term(&mut self, tm: &Tm) -> R<()> {
        match tm {
            Tm::Goto(b) => {
                self.goto(*b);
                Ok(())
            }
            Tm::Switch { a, sz, targets, otherwise } => {
                let v = self.opd(a, *sz)?;
                match v {
                    V::C(c) => {
                        for (k, b) in targets {
                            if *k == c {
                                self.goto(*b);
                                return Ok(());
                            }
                        }
                        self.goto(*otherwise);
                        Ok(())
                    }
                    V::S(t) => {
                        let tmm = tt();
                        let mut alts = vec![];
                        let mut rest = TRUE;
                        for (k, b) in targets {
                            let kk = tmm.ku(*k);
                            let c = tmm.eq(t, kk);
                            let n = tmm.not(c);
                            let c = tmm.and(c, TRUE);
                            alts.push((c, *b));
                            rest = tmm.and(rest, n);
                        }
                        let f = &self.s.frames.last().unwrap().f;
                        let dead = matches!(f.blocks[*otherwise as usize].tm, Tm::Unreachable)
                            && f.blocks[*otherwise as usize].st.is_empty();
                        if !dead {
                            alts.push((rest, *otherwise));
                        }
                        self.branch(alts)
                    }
                }
            }
            Tm::Return => {
                let fr = self.s.frames.last().unwrap();
                let (ret, rs, dst, next) = (fr.f.ret, fr.f.rsize, fr.dst, fr.next);
                let src = self.frame_base() + ret as u64;
                if rs > 0 && dst != 0 {
                    self.memcpy(dst, src, rs)?;
                }
                self.s.frames.pop();
                let n = self.s.frames.len();
                self.s.stack.truncate(n);
                if n == 0 {
                    return Err(Stop::End);
                }
                match next {
                    Some(b) => self.goto(b),
                    None => return Err(Stop::Unsupported("return into nothing".into())),
                }
                Ok(())
            }
            Tm::Unreachable => Err(Stop::Unsupported("unreachable executed".into())),
            Tm::DropCall { f, p, fat, next } => {
                let (a, m) = self.place_fat(p)?;
                let arg = if *fat { (ArgV::Imm(a as u128 | (m as u128) << 64), 16) } else { (ArgV::Imm(a as u128), 8) };
                self.invoke(*f, &[arg], 0, 0, Some(*next))
            }
            Tm::DropDyn { p, next } => {
                let (a, m) = self.place_fat(p)?;
                let d = self.load(m, 8)?;
                let d = self.cv(d)? as u64;
                if d == 0 {
                    self.goto(*next);
                    return Ok(());
                }
                let id = ((d - FN_BASE) / 16) as u32;
                self.invoke(id, &[(ArgV::Imm(a as u128), 8)], 0, 0, Some(*next))
            }
            Tm::Call { f, args, dst, dsize, next } => {
                let mut av = self.call_args(args)?;
                let id = match f {
                    Callee::Inst(i) => *i,
                    Callee::Ptr(o) => {
                        let a = self.conc_opd(o, 8)? as u64;
                        if a < FN_BASE {
                            return Err(Stop::Unsupported("call of non-function pointer".into()));
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                    Callee::Virtual(slot) => {
                        let v = self.argv(&av[0])?;
                        let v = self.cv2(v, &av[0])?;
                        let (p, m) = v;
                        let fa = self.load(m + 8 * *slot as u64, 8)?;
                        let fa = self.cv(fa)? as u64;
                        av[0] = (ArgV::Imm(p as u128), 8);
                        ((fa - FN_BASE) / 16) as u32
                    }
                };
                let d = if *dsize == 0 { 0 } else { self.place(dst)? };
                self.invoke(id, &av, d, *dsize, *next)
            }
            Tm::Assert { a, expected, msg, next } => {
                let v = self.opd(a, 1)?;
                match v {
                    V::C(c) => {
                        if (c != 0) == *expected {
                            self.goto(*next);
                            Ok(())
                        } else {
                            Err(Stop::Panic(msg.clone()))
                        }
                    }
                    V::S(t) => {
                        let b = self.as_bool(t);
                        let good = if *expected { b } else { tt().not(b) };
                        let bad = tt().not(good);
                        let (ok, m) = self.feasible(bad);
                        if ok {
                            // the failing side becomes a path of its own
                            let (ok2, m2) = self.feasible(good);
                            if ok2 {
                                let mut s2 = self.s.clone();
                                s2.path.push(good);
                                s2.unknown |= m2.is_none();
                                s2.model = m2;
                                let f = s2.frames.last_mut().unwrap();
                                f.blk = *next;
                                f.st = 0;
                                self.work.push(s2);
                                self.stats.forks += 1;
                            }
                            self.s.path.push(bad);
                            self.s.unknown |= m.is_none();
                            self.s.model = m;
                            return Err(Stop::Panic(msg.clone()));
                        }
                        self.goto(*next);
                        Ok(())
                    }
                }
            }
            Tm::Abort(m) => Err(Stop::Unsupported(format!("abort: {m}"))),
        }
    }
    fn cv2(&self, v: V, a: &(ArgV, u32)) -> R<(u64, u64)> {
        if let V::C(c) = v {
            return Ok((c as u64, (c >> 64) as u64));
        }
        if let ArgV::At(p) = a.0 {
            let x = self.load(p, 8)?;
            let y = self.load(p + 8, 8)?;
            return Ok((self.cv(x)? as u64, self.cv(y)? as u64));
        }
        Err(Stop::Unsupported("fat pointer".into()))
    }
    pub fn where_(&self) -> String {
        match self.s.frames.last() {
            Some(f) => {
                let b = &f.f.blocks[f.blk as usize];
                let l = b.slines.get(f.st as usize).copied().unwrap_or(b.tline);
                format!("{} ({}:{})", f.f.name, f.f.file, l)
            }
            None => "?".into(),
        }
    }
    pub fn backtrace(&self) -> Vec<String> {
        self.s
            .frames
            .iter()
            .rev()
            .take(40)
            .map(|f| {
                let b = &f.f.blocks[f.blk as usize];
                let l = b.slines.get(f.st as usize).copied().unwrap_or(b.tline);
                format!("{} ({}:{})", f.f.name, f.f.file, l)
            })
            .collect()
    }
    /// run the current state until it stops
    fn run_state(&mut self) -> Stop {
        loop {
            let fr = self.s.frames.last().unwrap();
            let f = fr.f.clone();
            let b = &f.blocks[fr.blk as usize];
            let mut i = fr.st as usize;
            let mut stop = None;
            while i < b.st.len() {
                if let Err(e) = self.stmt(&b.st[i]) {
                    stop = Some(e);
                    break;
                }
                i += 1;
            }
            self.stats.steps += (i as u64).max(1);
            self.s.steps += (i as u64).max(1);
            self.s.frames.last_mut().unwrap().st = i as u32;
            if stop.is_none() {
                if self.s.steps > self.max_steps {
                    return Stop::Unsupported(format!("step limit at {}", self.where_()));
                }
                if let Err(e) = self.term(&b.tm) {
                    stop = Some(e);
                }
            }
            match stop {
                None => {}
                Some(Stop::Conc(t)) => {
                    if let Err(e) = self.concretise(t) {
                        return e;
                    }
                }
                Some(e) => return e,
            }
        }
    }
    pub fn inputs_under(&self, m: &Model) -> Vec<(String, String)> {
        let mut memo = FxHashMap::default();
        self.s
            .inputs
            .iter()
            .map(|i| (i.name.to_string(), tt().eval(i.t, m, &mut memo).map(|z| z.to_string()).unwrap_or("0".into())))
            .collect()
    }
    pub fn violation(&mut self, msg: String, m: &Model) {
        let v = Violation { msg, inputs: self.inputs_under(m), trace: self.backtrace() };
        self.violations.push(v);
    }
    pub fn sample_path(&mut self) {
        if self.samples.len() >= self.want_samples {
            return;
        }
        let m = match &self.s.model {
            Some(m) => m.clone(),
            None => return,
        };
        let mut memo = FxHashMap::default();
        let obs = self
            .s
            .obs
            .iter()
            .map(|(n, v)| {
                let x = match v {
                    V::C(c) => c.to_string(),
                    V::S(t) => tt().eval(*t, &m, &mut memo).map(|z| z.to_string()).unwrap_or("?".into()),
                };
                (n.to_string(), x)
            })
            .collect();
        let i = self.inputs_under(&m);
        self.samples.push((i, obs));
    }
    /// Explore everything from the current state.
    pub fn explore(&mut self) -> Result<(), String> {
        let mut seen = 0u64;
        loop {
            let r = self.run_state();
            match r {
                Stop::End => {
                    self.stats.paths += 1;
                    seen += 1;
                    // spread the samples over the exploration
                    if self.samples.len() < self.want_samples && (seen.is_power_of_two() || seen % 37 == 0) {
                        self.sample_path();
                    }
                }
                Stop::Cut => self.stats.cut += 1,
                Stop::Panic(msg) => {
                    self.stats.paths += 1;
                    let loc = self.backtrace();
                    match self.solver.check(&self.s.path.clone(), TRUE) {
                        Res::Sat(m) => {
                            let at = loc.iter().find(|x| !x.contains("/rustlib/") && !x.contains("library/")).cloned();
                            let msg = format!("panic: {msg} at {}", at.unwrap_or_default());
                            self.violation(msg, &m);
                        }
                        Res::Unsat => {}
                        Res::Unknown => {
                            return Err(format!("undecided panic path: {msg} {loc:?}"));
                        }
                    }
                }
                Stop::Unsupported(m) => {
                    return Err(format!("unsupported: {m}\n  at {}", self.backtrace().join("\n     ")));
                }
                Stop::Conc(_) => unreachable!(),
            }
            if self.violations.len() >= self.max_viol {
                return Ok(());
            }
            if Instant::now() > self.deadline {
                return Err(format!("deadline: {} paths done, {} pending", self.stats.paths, self.work.len()));
            }
            match self.work.pop() {
                Some(s) => self.s = s,
                None => return Ok(()),
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum ArgV {
    Imm(u128),
    At(u64),
    Val(V),
}

pub struct Cx<'a> {
    pub id: u32,
    pub args: &'a [(ArgV, u32)],
    pub dst: u64,
    pub dsize: u32,
    pub next: Option<u32>,
}

impl<'tcx> Exec<'tcx> {
    pub fn discr_at(&self, a: u64, d: &Discr, dsz: u8) -> R<V> {
        // like `discr`, for an address
        match d {
            Discr::Const(v) => Ok(V::C(mask(*v, dsz))),
            Discr::Direct { off, tsize, sext } => {
                let v = self.load(a + *off as u64, *tsize)?;
                self.cast(v, *tsize, *sext, dsz)
            }
            Discr::Niche { off, tsize, niche_start, lo, n, untagged } => {
                let v = self.load(a + *off as u64, *tsize)?;
                match v {
                    V::C(c) => {
                        let rel = mask(c.wrapping_sub(*niche_start), *tsize);
                        Ok(V::C(if rel < *n as u128 { *lo as u128 + rel } else { *untagged as u128 }))
                    }
                    V::S(t) => {
                        let tm = tt();
                        let s = tm.addk(t, Z::u(*niche_start).neg());
                        let rel = tm.wrap(s, *tsize as u32 * 8);
                        let nn = tm.ku(*n as u128);
                        let c = tm.lt(rel, nn);
                        let x = tm.addk(rel, Z::u(*lo as u128));
                        let u = tm.ku(*untagged as u128);
                        Ok(V::from_term(tm.ite(c, x, u)))
                    }
                }
            }
        }
    }
}
