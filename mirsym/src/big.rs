//! Fixed-capacity (512 bit) signed integers, used for constants and interval bounds of terms.
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Z {
    neg: bool,
    m: [u64; 8],
}

pub const ZERO: Z = Z { neg: false, m: [0; 8] };

impl Z {
    pub fn u(v: u128) -> Z {
        let mut m = [0; 8];
        m[0] = v as u64;
        m[1] = (v >> 64) as u64;
        Z { neg: false, m }
    }
    pub fn i(v: i128) -> Z {
        let mut z = Z::u(v.unsigned_abs());
        z.neg = v < 0;
        z
    }
    pub fn pow2(k: u32) -> Z {
        let mut m = [0; 8];
        m[(k / 64) as usize] = 1 << (k % 64);
        Z { neg: false, m }
    }
    pub fn is_zero(&self) -> bool {
        self.m == [0; 8]
    }
    pub fn is_neg(&self) -> bool {
        self.neg
    }
    pub fn is_one(&self) -> bool {
        !self.neg && self.m[0] == 1 && self.m[1..] == [0; 7]
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.neg || self.m[2..] != [0; 6] {
            return None;
        }
        Some(self.m[0] as u128 | (self.m[1] as u128) << 64)
    }
    pub fn bits(&self) -> u32 {
        for i in (0..8).rev() {
            if self.m[i] != 0 {
                return i as u32 * 64 + 64 - self.m[i].leading_zeros();
            }
        }
        0
    }
    fn cmp_m(a: &[u64; 8], b: &[u64; 8]) -> Ordering {
        for i in (0..8).rev() {
            if a[i] != b[i] {
                return a[i].cmp(&b[i]);
            }
        }
        Ordering::Equal
    }
    fn add_m(a: &[u64; 8], b: &[u64; 8]) -> [u64; 8] {
        let mut r = [0; 8];
        let mut c = 0u128;
        for i in 0..8 {
            let s = a[i] as u128 + b[i] as u128 + c;
            r[i] = s as u64;
            c = s >> 64;
        }
        assert!(c == 0, "Z overflow");
        r
    }
    fn sub_m(a: &[u64; 8], b: &[u64; 8]) -> [u64; 8] {
        let mut r = [0; 8];
        let mut brw = false;
        for i in 0..8 {
            let (d, b1) = a[i].overflowing_sub(b[i]);
            let (d, b2) = d.overflowing_sub(brw as u64);
            r[i] = d;
            brw = b1 || b2;
        }
        assert!(!brw);
        r
    }
    fn norm(mut self) -> Z {
        if self.is_zero() {
            self.neg = false;
        }
        self
    }
    pub fn neg(self) -> Z {
        Z { neg: !self.neg, m: self.m }.norm()
    }
    pub fn add(self, o: Z) -> Z {
        if self.neg == o.neg {
            return Z { neg: self.neg, m: Z::add_m(&self.m, &o.m) }.norm();
        }
        match Z::cmp_m(&self.m, &o.m) {
            Ordering::Less => Z { neg: o.neg, m: Z::sub_m(&o.m, &self.m) }.norm(),
            _ => Z { neg: self.neg, m: Z::sub_m(&self.m, &o.m) }.norm(),
        }
    }
    pub fn sub(self, o: Z) -> Z {
        self.add(o.neg())
    }
    pub fn mul(self, o: Z) -> Z {
        let mut r = [0u64; 8];
        for i in 0..8 {
            if self.m[i] == 0 {
                continue;
            }
            let mut c = 0u128;
            for j in 0..8 {
                if i + j >= 8 {
                    assert!(o.m[j] == 0 && c == 0, "Z overflow");
                    continue;
                }
                let t = self.m[i] as u128 * o.m[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            assert!(c == 0, "Z overflow");
        }
        Z { neg: self.neg != o.neg, m: r }.norm()
    }
    fn divrem_m(a: &[u64; 8], b: &[u64; 8]) -> ([u64; 8], [u64; 8]) {
        let mut q = [0u64; 8];
        let mut r = [0u64; 8];
        let za = Z { neg: false, m: *a };
        for i in (0..za.bits()).rev() {
            // r = r*2 + bit
            let mut c = (a[(i / 64) as usize] >> (i % 64)) & 1;
            for w in r.iter_mut() {
                let n = *w >> 63;
                *w = (*w << 1) | c;
                c = n;
            }
            if Z::cmp_m(&r, b) != Ordering::Less {
                r = Z::sub_m(&r, b);
                q[(i / 64) as usize] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
    /// Floor division and (non-negative for positive divisor) modulo; divisor must be > 0.
    pub fn divmod(self, o: Z) -> (Z, Z) {
        assert!(!o.neg && !o.is_zero());
        let (q, r) = Z::divrem_m(&self.m, &o.m);
        let (q, r) = (Z { neg: false, m: q }, Z { neg: false, m: r });
        if !self.neg {
            (q, r)
        } else if r.is_zero() {
            (q.neg(), r)
        } else {
            (q.add(Z::u(1)).neg(), o.sub(r))
        }
    }
    pub fn parse(s: &str) -> Option<Z> {
        let mut z = ZERO;
        let ten = Z::u(10);
        if s.is_empty() {
            return None;
        }
        for c in s.bytes() {
            if !c.is_ascii_digit() {
                return None;
            }
            z = z.mul(ten).add(Z::u((c - b'0') as u128));
        }
        Some(z)
    }
}

impl std::fmt::Display for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if let Some(v) = (Z { neg: false, m: self.m }).to_u128() {
            return write!(f, "{}{}", if self.neg { "-" } else { "" }, v);
        }
        let mut s = vec![];
        let mut v = Z { neg: false, m: self.m };
        let base = Z::u(10_000_000_000_000_000_000);
        while !v.is_zero() {
            let (q, r) = v.divmod(base);
            s.push(r.m[0]);
            v = q;
        }
        if self.neg {
            write!(f, "-")?;
        }
        write!(f, "{}", s.last().unwrap())?;
        for x in s.iter().rev().skip(1) {
            write!(f, "{:019}", x)?;
        }
        Ok(())
    }
}
impl std::fmt::Debug for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self}")
    }
}
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Z {
    fn cmp(&self, o: &Z) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => Z::cmp_m(&self.m, &o.m),
            (true, true) => Z::cmp_m(&o.m, &self.m),
        }
    }
}
