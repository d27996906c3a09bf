//! Hash-consed terms over mathematical integers (with intervals) and booleans.
//! Machine words are represented by their unsigned value; wrap-around is made explicit by `wrap`.
use crate::big::{Z, ZERO};
use rustc_data_structures::fx::FxHashMap;

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(Z),
    Var(u32),
    /// k + sum of coefficient * atom (atoms are never Const or Lin)
    Lin(Z, Vec<(T, Z)>),
    Mul(T, T),
    Div(T, T),
    Mod(T, T),
    /// bytes [off, off+n) of the little-endian representation
    Ext(T, u8, u8),
    Ite(T, T, T),
    B2I(T),
    True,
    False,
    Not(T),
    And(T, T),
    Or(T, T),
    Ge0(T),
    Eq0(T),
}

#[derive(Clone)]
pub struct Node {
    pub k: K,
    pub lo: Z,
    pub hi: Z,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: FxHashMap<K, T>,
    pub vars: Vec<String>,
}

pub const TRUE: T = 0;
pub const FALSE: T = 1;

static mut TERMS: Option<Terms> = None;

#[allow(static_mut_refs)]
pub fn tt() -> &'static mut Terms {
    unsafe {
        if TERMS.is_none() {
            let mut t = Terms { nodes: vec![], map: Default::default(), vars: vec![] };
            t.intern(K::True, ZERO, ZERO);
            t.intern(K::False, ZERO, ZERO);
            TERMS = Some(t);
        }
        TERMS.as_mut().unwrap()
    }
}

impl Terms {
    fn intern(&mut self, k: K, lo: Z, hi: Z) -> T {
        if let Some(&t) = self.map.get(&k) {
            return t;
        }
        let t = self.nodes.len() as T;
        self.map.insert(k.clone(), t);
        self.nodes.push(Node { k, lo, hi });
        t
    }
    pub fn k(&self, t: T) -> &K {
        &self.nodes[t as usize].k
    }
    pub fn lo(&self, t: T) -> Z {
        self.nodes[t as usize].lo
    }
    pub fn hi(&self, t: T) -> Z {
        self.nodes[t as usize].hi
    }
    pub fn konst(&mut self, z: Z) -> T {
        self.intern(K::Const(z), z, z)
    }
    pub fn ku(&mut self, v: u128) -> T {
        self.konst(Z::u(v))
    }
    pub fn as_const(&self, t: T) -> Option<Z> {
        match &self.nodes[t as usize].k {
            K::Const(z) => Some(*z),
            _ => None,
        }
    }
    pub fn as_u(&self, t: T) -> Option<u128> {
        self.as_const(t).and_then(|z| z.to_u128())
    }
    pub fn fresh(&mut self, name: &str, lo: Z, hi: Z) -> T {
        if lo == hi {
            return self.konst(lo);
        }
        let i = self.vars.len() as u32;
        self.vars.push(name.to_string());
        self.intern(K::Var(i), lo, hi)
    }
    fn lin_parts(&self, t: T) -> (Z, Vec<(T, Z)>) {
        match self.k(t) {
            K::Const(z) => (*z, vec![]),
            K::Lin(k, v) => (*k, v.clone()),
            _ => (ZERO, vec![(t, Z::u(1))]),
        }
    }
    pub fn mk_lin(&mut self, k: Z, mut v: Vec<(T, Z)>) -> T {
        v.sort_by_key(|x| x.0);
        let mut out: Vec<(T, Z)> = Vec::with_capacity(v.len());
        for (t, c) in v {
            if let Some(l) = out.last_mut() {
                if l.0 == t {
                    l.1 = l.1.add(c);
                    continue;
                }
            }
            out.push((t, c));
        }
        out.retain(|x| !x.1.is_zero());
        if out.is_empty() {
            return self.konst(k);
        }
        if k.is_zero() && out.len() == 1 && out[0].1.is_one() {
            return out[0].0;
        }
        let (mut lo, mut hi) = (k, k);
        for (t, c) in &out {
            let (a, b) = (self.lo(*t).mul(*c), self.hi(*t).mul(*c));
            if c.is_neg() {
                lo = lo.add(b);
                hi = hi.add(a);
            } else {
                lo = lo.add(a);
                hi = hi.add(b);
            }
        }
        if lo == hi {
            return self.konst(lo);
        }
        self.intern(K::Lin(k, out), lo, hi)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let (ka, mut va) = self.lin_parts(a);
        let (kb, vb) = self.lin_parts(b);
        va.extend(vb);
        self.mk_lin(ka.add(kb), va)
    }
    pub fn scale(&mut self, a: T, c: Z) -> T {
        let (k, mut v) = self.lin_parts(a);
        for x in v.iter_mut() {
            x.1 = x.1.mul(c);
        }
        self.mk_lin(k.mul(c), v)
    }
    pub fn addk(&mut self, a: T, k: Z) -> T {
        let (ka, va) = self.lin_parts(a);
        self.mk_lin(ka.add(k), va)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let nb = self.scale(b, Z::i(-1));
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if let Some(c) = self.as_const(a) {
            return self.scale(b, c);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(a, c);
        }
        if let K::B2I(c) = *self.k(a) {
            let z = self.ku(0);
            return self.ite(c, b, z);
        }
        if let K::B2I(c) = *self.k(b) {
            let z = self.ku(0);
            return self.ite(c, a, z);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        // pull a common constant factor out of single-atom linear terms
        let c = [
            self.lo(a).mul(self.lo(b)),
            self.lo(a).mul(self.hi(b)),
            self.hi(a).mul(self.lo(b)),
            self.hi(a).mul(self.hi(b)),
        ];
        let lo = *c.iter().min().unwrap();
        let hi = *c.iter().max().unwrap();
        self.intern(K::Mul(a, b), lo, hi)
    }
    /// Floor division; the divisor must be positive in every model of the path.
    pub fn div(&mut self, a: T, b: T) -> T {
        if let Some(d) = self.as_const(b) {
            if d.is_one() {
                return a;
            }
            if d.is_neg() || d.is_zero() {
                // caller guards
                return self.intern(K::Div(a, b), ZERO, ZERO);
            }
            if let Some(x) = self.as_const(a) {
                return self.konst(x.divmod(d).0);
            }
            let (qlo, qhi) = (self.lo(a).divmod(d).0, self.hi(a).divmod(d).0);
            if qlo == qhi {
                return self.konst(qlo);
            }
            // split off the divisible part
            let (k, v) = self.lin_parts(a);
            let (mut dv, mut rv) = (vec![], vec![]);
            for (t, c) in v {
                if c.divmod(d).1.is_zero() {
                    dv.push((t, c.divmod(d).0));
                } else {
                    rv.push((t, c));
                }
            }
            if !dv.is_empty() {
                let (kq, kr) = k.divmod(d);
                let rest = self.mk_lin(kr, rv);
                let rq = self.div(rest, b);
                let dq = self.mk_lin(kq, dv);
                return self.add(dq, rq);
            }
            if let K::Div(x, y) = *self.k(a) {
                if let Some(dy) = self.as_const(y) {
                    let nb = self.konst(dy.mul(d));
                    return self.div(x, nb);
                }
            }
            return self.intern(K::Div(a, b), qlo, qhi);
        }
        if a == b {
            return self.ku(1);
        }
        if let Some(z) = self.as_const(a) {
            if z.is_zero() {
                return a;
            }
        }
        if let K::Mul(x, y) = *self.k(a) {
            if x == b {
                return y;
            }
            if y == b {
                return x;
            }
        }
        if !self.lo(a).is_neg() && self.hi(a) < self.lo(b) {
            return self.ku(0);
        }
        let one = Z::u(1);
        let lob = self.lo(b).max(one);
        let hib = self.hi(b).max(one);
        let c = [
            self.lo(a).divmod(lob).0,
            self.lo(a).divmod(hib).0,
            self.hi(a).divmod(lob).0,
            self.hi(a).divmod(hib).0,
        ];
        let lo = *c.iter().min().unwrap();
        let hi = *c.iter().max().unwrap();
        self.intern(K::Div(a, b), lo, hi)
    }
    pub fn modulo(&mut self, a: T, b: T) -> T {
        if let Some(d) = self.as_const(b) {
            if d.is_neg() || d.is_zero() {
                return self.intern(K::Mod(a, b), ZERO, ZERO);
            }
            if let Some(x) = self.as_const(a) {
                return self.konst(x.divmod(d).1);
            }
            let (k, v) = self.lin_parts(a);
            let mut rv = vec![];
            let n = v.len();
            for (t, c) in v {
                let cr = c.divmod(d).1;
                if !cr.is_zero() {
                    rv.push((t, c));
                }
            }
            let a = if rv.len() < n || k.is_neg() || k >= d {
                self.mk_lin(k.divmod(d).1, rv)
            } else {
                a
            };
            if let Some(x) = self.as_const(a) {
                return self.konst(x.divmod(d).1);
            }
            let (qlo, _) = self.lo(a).divmod(d);
            let (qhi, _) = self.hi(a).divmod(d);
            if qlo == qhi {
                return self.addk(a, qlo.mul(d).neg());
            }
            if let K::Mod(x, y) = *self.k(a) {
                if let Some(dy) = self.as_const(y) {
                    if dy.divmod(d).1.is_zero() {
                        return self.modulo(x, b);
                    }
                }
            }
            return self.intern(K::Mod(a, b), ZERO, d.sub(Z::u(1)));
        }
        let hi = self.hi(b).sub(Z::u(1)).max(ZERO);
        let hi = if !self.lo(a).is_neg() && self.hi(a) < hi { self.hi(a) } else { hi };
        self.intern(K::Mod(a, b), ZERO, hi)
    }
    pub fn ext(&mut self, x: T, off: u8, n: u8) -> T {
        if let Some(z) = self.as_const(x) {
            let q = z.divmod(Z::pow2(8 * off as u32)).0.divmod(Z::pow2(8 * n as u32)).1;
            return self.konst(q);
        }
        if let K::Ext(y, o2, n2) = *self.k(x) {
            if off >= n2 {
                return self.ku(0);
            }
            return self.ext(y, o2 + off, n.min(n2 - off));
        }
        let hi = self.hi(x);
        let bits = hi.bits();
        if bits <= 8 * off as u32 {
            return self.ku(0);
        }
        if off == 0 && bits <= 8 * n as u32 {
            return x;
        }
        // shrink n to what can be non-zero
        let maxn = (bits - 8 * off as u32 + 7) / 8;
        let n = (n as u32).min(maxn) as u8;
        let full = off as u32 + n as u32 == (bits + 7) / 8;
        let h = if full { hi.divmod(Z::pow2(8 * off as u32)).0 } else { Z::pow2(8 * n as u32).sub(Z::u(1)) };
        self.intern(K::Ext(x, off, n), ZERO, h)
    }
    pub fn b2i(&mut self, b: T) -> T {
        match b {
            TRUE => self.ku(1),
            FALSE => self.ku(0),
            _ => self.intern(K::B2I(b), ZERO, Z::u(1)),
        }
    }
    pub fn not(&mut self, b: T) -> T {
        match (b, self.k(b)) {
            (TRUE, _) => FALSE,
            (FALSE, _) => TRUE,
            (_, K::Not(x)) => *x,
            (_, K::Ge0(x)) => {
                // not (x >= 0)  <=>  -x - 1 >= 0
                let x = *x;
                let n = self.scale(x, Z::i(-1));
                let n = self.addk(n, Z::i(-1));
                self.ge0(n)
            }
            _ => self.intern(K::Not(b), ZERO, ZERO),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if a == TRUE || a == b {
            return b;
        }
        if b == TRUE {
            return a;
        }
        if a == FALSE || b == FALSE {
            return FALSE;
        }
        if self.not(a) == b {
            return FALSE;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.intern(K::And(a, b), ZERO, ZERO)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == FALSE || a == b {
            return b;
        }
        if b == FALSE {
            return a;
        }
        if a == TRUE || b == TRUE {
            return TRUE;
        }
        if self.not(a) == b {
            return TRUE;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.intern(K::Or(a, b), ZERO, ZERO)
    }
    pub fn bite(&mut self, c: T, a: T, b: T) -> T {
        let x = self.and(c, a);
        let nc = self.not(c);
        let y = self.and(nc, b);
        self.or(x, y)
    }
    fn single_ite(&self, x: T) -> Option<(Z, Z, T, T, T)> {
        // x = k + c * Ite(cond,a,b)
        let one = Z::u(1);
        let (k, c, at) = match self.k(x) {
            K::Lin(k, v) if v.len() == 1 => (*k, v[0].1, v[0].0),
            K::Ite(..) | K::B2I(..) => (ZERO, one, x),
            _ => return None,
        };
        match *self.k(at) {
            K::Ite(cc, a, b) => Some((k, c, cc, a, b)),
            _ => None,
        }
    }
    fn single_b2i(&self, x: T) -> Option<(Z, Z, T)> {
        let (k, c, at) = match self.k(x) {
            K::Lin(k, v) if v.len() == 1 => (*k, v[0].1, v[0].0),
            K::B2I(..) => (ZERO, Z::u(1), x),
            _ => return None,
        };
        match *self.k(at) {
            K::B2I(b) => Some((k, c, b)),
            _ => None,
        }
    }
    fn gcd(mut a: Z, mut b: Z) -> Z {
        while !b.is_zero() {
            let r = a.divmod(b).1;
            a = b;
            b = r;
        }
        a
    }
    pub fn ge0(&mut self, x: T) -> T {
        if !self.lo(x).is_neg() {
            return TRUE;
        }
        if self.hi(x).is_neg() {
            return FALSE;
        }
        if let Some((k, c, b)) = self.single_b2i(x) {
            let t = !k.add(c).is_neg();
            let f = !k.is_neg();
            return match (t, f) {
                (true, true) => TRUE,
                (false, false) => FALSE,
                (true, false) => b,
                (false, true) => self.not(b),
            };
        }
        if let Some((k, c, cc, a, b)) = self.single_ite(x) {
            let ea = self.scale(a, c);
            let ea = self.addk(ea, k);
            let eb = self.scale(b, c);
            let eb = self.addk(eb, k);
            let ga = self.ge0(ea);
            let gb = self.ge0(eb);
            if ga <= FALSE || gb <= FALSE {
                return self.bite(cc, ga, gb);
            }
        }
        if let K::Lin(k, v) = self.k(x).clone() {
            let mut g = ZERO;
            for (_, c) in &v {
                let c = if c.is_neg() { c.neg() } else { *c };
                g = Terms::gcd(c, g);
            }
            if !g.is_one() {
                let k2 = k.divmod(g).0;
                let v2: Vec<_> = v
                    .iter()
                    .map(|(t, c)| (*t, if c.is_neg() { c.neg().divmod(g).0.neg() } else { c.divmod(g).0 }))
                    .collect();
                let y = self.mk_lin(k2, v2);
                if !self.lo(y).is_neg() {
                    return TRUE;
                }
                if self.hi(y).is_neg() {
                    return FALSE;
                }
                return self.intern(K::Ge0(y), ZERO, ZERO);
            }
        }
        self.intern(K::Ge0(x), ZERO, ZERO)
    }
    pub fn eq0(&mut self, x: T) -> T {
        if self.lo(x) > ZERO || self.hi(x).is_neg() {
            return FALSE;
        }
        if let Some(z) = self.as_const(x) {
            return if z.is_zero() { TRUE } else { FALSE };
        }
        if let Some((k, c, b)) = self.single_b2i(x) {
            let t = k.add(c).is_zero();
            let f = k.is_zero();
            return match (t, f) {
                (true, true) => TRUE,
                (false, false) => FALSE,
                (true, false) => b,
                (false, true) => self.not(b),
            };
        }
        if let Some((k, c, cc, a, b)) = self.single_ite(x) {
            let ea = self.scale(a, c);
            let ea = self.addk(ea, k);
            let eb = self.scale(b, c);
            let eb = self.addk(eb, k);
            let ga = self.eq0(ea);
            let gb = self.eq0(eb);
            if ga <= FALSE || gb <= FALSE {
                return self.bite(cc, ga, gb);
            }
        }
        if let K::Lin(k, v) = self.k(x).clone() {
            let mut g = ZERO;
            for (_, c) in &v {
                let c = if c.is_neg() { c.neg() } else { *c };
                g = Terms::gcd(c, g);
            }
            let ak = if k.is_neg() { k.neg() } else { k };
            if !ak.divmod(g).1.is_zero() {
                return FALSE;
            }
            let flip = v[0].1.is_neg();
            if !g.is_one() || flip {
                let dv = |c: Z| {
                    let q = if c.is_neg() { c.neg().divmod(g).0.neg() } else { c.divmod(g).0 };
                    if flip {
                        q.neg()
                    } else {
                        q
                    }
                };
                let v2: Vec<_> = v.iter().map(|(t, c)| (*t, dv(*c))).collect();
                let y = self.mk_lin(dv(k), v2);
                return self.intern(K::Eq0(y), ZERO, ZERO);
            }
        }
        self.intern(K::Eq0(x), ZERO, ZERO)
    }
    pub fn le(&mut self, a: T, b: T) -> T {
        let d = self.sub(b, a);
        self.ge0(d)
    }
    pub fn lt(&mut self, a: T, b: T) -> T {
        let d = self.sub(b, a);
        let d = self.addk(d, Z::i(-1));
        self.ge0(d)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return TRUE;
        }
        if self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) {
            return FALSE;
        }
        let d = self.sub(a, b);
        self.eq0(d)
    }
    fn refine(&mut self, y: T, e: T, pos: bool) -> (Z, Z) {
        // interval of e under (y >= 0) if pos, else under (y <= -1)
        let (mut lo, mut hi) = (self.lo(e), self.hi(e));
        let d = self.sub(e, y);
        if let Some(k) = self.as_const(d) {
            if pos {
                lo = lo.max(k);
            } else {
                hi = hi.min(k.sub(Z::u(1)));
            }
        }
        let s = self.add(e, y);
        if let Some(k) = self.as_const(s) {
            if pos {
                hi = hi.min(k);
            } else {
                lo = lo.max(k.add(Z::u(1)));
            }
        }
        if lo > hi {
            // branch impossible: keep something consistent
            return (self.lo(e), self.hi(e));
        }
        (lo, hi)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        match c {
            TRUE => return a,
            FALSE => return b,
            _ => {}
        }
        if a == b {
            return a;
        }
        if let K::Not(d) = *self.k(c) {
            return self.ite(d, b, a);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if x.is_one() && y.is_zero() {
                return self.b2i(c);
            }
            if x.is_zero() && y.is_one() {
                let n = self.not(c);
                return self.b2i(n);
            }
        }
        // nested ite with same condition
        let a = match *self.k(a) {
            K::Ite(c2, x, _) if c2 == c => x,
            _ => a,
        };
        let b = match *self.k(b) {
            K::Ite(c2, _, y) if c2 == c => y,
            _ => b,
        };
        if a == b {
            return a;
        }
        let ((la, ha), (lb, hb)) = if let K::Ge0(y) = *self.k(c) {
            (self.refine(y, a, true), self.refine(y, b, false))
        } else {
            ((self.lo(a), self.hi(a)), (self.lo(b), self.hi(b)))
        };
        self.intern(K::Ite(c, a, b), la.min(lb), ha.max(hb))
    }
    pub fn min(&mut self, a: T, b: T) -> T {
        let c = self.le(a, b);
        self.ite(c, a, b)
    }
    pub fn max(&mut self, a: T, b: T) -> T {
        let c = self.le(a, b);
        self.ite(c, b, a)
    }
    pub fn wrap(&mut self, x: T, w: u32) -> T {
        let m = Z::pow2(w);
        let (lo, hi) = (self.lo(x), self.hi(x));
        if !lo.is_neg() && hi < m {
            return x;
        }
        if lo >= m.neg() && hi < m {
            let c = self.ge0(x);
            let y = self.addk(x, m);
            return self.ite(c, x, y);
        }
        if !lo.is_neg() && hi < m.add(m) {
            let y = self.addk(x, m.neg());
            let c = self.ge0(y);
            return self.ite(c, y, x);
        }
        let mt = self.konst(m);
        self.modulo(x, mt)
    }
    /// two's complement reading of an unsigned w-bit value
    pub fn signed(&mut self, x: T, w: u32) -> T {
        let h = Z::pow2(w - 1);
        if self.hi(x) < h {
            return x;
        }
        let y = self.addk(x, Z::pow2(w).neg());
        if self.lo(x) >= h {
            return y;
        }
        let g = self.addk(x, h.neg());
        let c = self.ge0(g);
        self.ite(c, y, x)
    }

    pub fn eval(&self, t: T, m: &FxHashMap<u32, Z>, memo: &mut FxHashMap<T, Z>) -> Option<Z> {
        if let Some(z) = memo.get(&t) {
            return Some(*z);
        }
        let b = |x: bool| if x { Z::u(1) } else { ZERO };
        let r = match self.k(t).clone() {
            K::Const(z) => z,
            K::Var(v) => *m.get(&v).unwrap_or(&self.lo(t)),
            K::Lin(k, v) => {
                let mut s = k;
                for (x, c) in v {
                    s = s.add(self.eval(x, m, memo)?.mul(c));
                }
                s
            }
            K::Mul(x, y) => self.eval(x, m, memo)?.mul(self.eval(y, m, memo)?),
            K::Div(x, y) => {
                let d = self.eval(y, m, memo)?;
                if d.is_zero() || d.is_neg() {
                    return None;
                }
                self.eval(x, m, memo)?.divmod(d).0
            }
            K::Mod(x, y) => {
                let d = self.eval(y, m, memo)?;
                if d.is_zero() || d.is_neg() {
                    return None;
                }
                self.eval(x, m, memo)?.divmod(d).1
            }
            K::Ext(x, o, n) => {
                self.eval(x, m, memo)?.divmod(Z::pow2(8 * o as u32)).0.divmod(Z::pow2(8 * n as u32)).1
            }
            K::Ite(c, x, y) => {
                if self.eval(c, m, memo)?.is_one() {
                    self.eval(x, m, memo)?
                } else {
                    self.eval(y, m, memo)?
                }
            }
            K::B2I(c) => self.eval(c, m, memo)?,
            K::True => b(true),
            K::False => b(false),
            K::Not(c) => b(self.eval(c, m, memo)?.is_zero()),
            K::And(x, y) => b(self.eval(x, m, memo)?.is_one() && self.eval(y, m, memo)?.is_one()),
            K::Or(x, y) => b(self.eval(x, m, memo)?.is_one() || self.eval(y, m, memo)?.is_one()),
            K::Ge0(x) => b(!self.eval(x, m, memo)?.is_neg()),
            K::Eq0(x) => b(self.eval(x, m, memo)?.is_zero()),
        };
        memo.insert(t, r);
        Some(r)
    }
}
