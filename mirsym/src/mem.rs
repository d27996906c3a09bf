//! Byte memory with an overlay of symbolic cells. Addresses are concrete 64-bit numbers: region << 32 | offset.
use crate::term::*;

pub const HEAP_BASE: u64 = 0x0000_0001_0000_0000;
pub const STACK_BASE: u64 = 0x4000_0000_0000_0000;
pub const GLOBAL_BASE: u64 = 0x6000_0000_0000_0000;
pub const FN_BASE: u64 = 0x7000_0000_0000_0000;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum V {
    C(u128),
    S(T),
}

impl V {
    pub fn term(self) -> T {
        match self {
            V::C(v) => tt().ku(v),
            V::S(t) => t,
        }
    }
    pub fn from_term(t: T) -> V {
        match tt().as_u(t) {
            Some(v) => V::C(v),
            None => V::S(t),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Mem {
    pub bytes: Vec<u8>,
    /// sorted, disjoint symbolic cells
    pub ov: Vec<(u32, u8, T)>,
}

#[inline]
fn rd(b: &[u8]) -> u128 {
    match b.len() {
        1 => b[0] as u128,
        2 => u16::from_le_bytes(b.try_into().unwrap()) as u128,
        4 => u32::from_le_bytes(b.try_into().unwrap()) as u128,
        8 => u64::from_le_bytes(b.try_into().unwrap()) as u128,
        16 => u128::from_le_bytes(b.try_into().unwrap()),
        n => {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = v << 8 | b[i] as u128;
            }
            v
        }
    }
}

impl Mem {
    pub fn new(n: usize) -> Mem {
        Mem { bytes: vec![0; n], ov: vec![] }
    }
    #[inline]
    fn first(&self, off: u32) -> usize {
        // first overlay cell whose end > off
        self.ov.partition_point(|c| c.0 + c.1 as u32 <= off)
    }
    #[inline]
    pub fn clear_ov(&mut self, off: u32, n: u32) {
        if self.ov.is_empty() || n == 0 {
            return;
        }
        let i = self.first(off);
        let mut j = i;
        let mut add: Vec<(u32, u8, T)> = vec![];
        while j < self.ov.len() && self.ov[j].0 < off + n {
            let (o, s, t) = self.ov[j];
            let end = o + s as u32;
            if o < off {
                let k = (off - o) as u8;
                let x = tt().ext(t, 0, k);
                add.push((o, k, x));
            }
            if end > off + n {
                let k = (end - (off + n)) as u8;
                let x = tt().ext(t, s - k, k);
                add.push((off + n, k, x));
            }
            j += 1;
        }
        if i == j {
            return;
        }
        self.ov.drain(i..j);
        for (o, s, t) in add {
            self.put(o, s, t);
        }
    }
    fn put(&mut self, off: u32, n: u8, t: T) {
        if let Some(v) = tt().as_u(t) {
            let b = v.to_le_bytes();
            self.bytes[off as usize..off as usize + n as usize].copy_from_slice(&b[..n as usize]);
            return;
        }
        let i = self.ov.partition_point(|c| c.0 < off);
        self.ov.insert(i, (off, n, t));
    }
    #[inline]
    pub fn write(&mut self, off: u32, n: u8, v: V) {
        if !self.ov.is_empty() {
            self.clear_ov(off, n as u32);
        }
        match v {
            V::C(c) => {
                let b = c.to_le_bytes();
                self.bytes[off as usize..off as usize + n as usize].copy_from_slice(&b[..n as usize]);
            }
            V::S(t) => self.put(off, n, t),
        }
    }
    #[inline]
    pub fn read(&self, off: u32, n: u8) -> V {
        if self.ov.is_empty() {
            return V::C(rd(&self.bytes[off as usize..off as usize + n as usize]));
        }
        let i = self.first(off);
        if i >= self.ov.len() || self.ov[i].0 >= off + n as u32 {
            return V::C(rd(&self.bytes[off as usize..off as usize + n as usize]));
        }
        if self.ov[i].0 == off && self.ov[i].1 == n {
            return V::S(self.ov[i].2);
        }
        // assemble from pieces
        let tm = tt();
        let mut pieces: Vec<(u32, u32, T)> = vec![]; // rel offset, len, term
        let mut pos = off;
        let end = off + n as u32;
        let mut j = i;
        while pos < end {
            if j < self.ov.len() && self.ov[j].0 <= pos {
                let (o, s, t) = self.ov[j];
                let e = (o + s as u32).min(end);
                let x = tm.ext(t, (pos - o) as u8, (e - pos) as u8);
                pieces.push((pos - off, e - pos, x));
                pos = e;
                j += 1;
            } else {
                let e = if j < self.ov.len() { self.ov[j].0.min(end) } else { end };
                let v = rd(&self.bytes[pos as usize..e as usize]);
                let x = tm.ku(v);
                pieces.push((pos - off, e - pos, x));
                pos = e;
            }
        }
        V::from_term(concat(&pieces))
    }
    pub fn copy_within_from(&mut self, dst: u32, src: &Mem, so: u32, n: u32) {
        self.clear_ov(dst, n);
        self.bytes[dst as usize..(dst + n) as usize].copy_from_slice(&src.bytes[so as usize..(so + n) as usize]);
        if !src.ov.is_empty() {
            self.put_cells(dst, &src.cells(so, n));
        }
    }
    /// symbolic cells in the range, with offsets relative to `so`
    pub fn cells(&self, so: u32, n: u32) -> Vec<(u32, u8, T)> {
        let mut out = vec![];
        let mut i = self.first(so);
        while i < self.ov.len() && self.ov[i].0 < so + n {
            let (o, s, t) = self.ov[i];
            let a = o.max(so);
            let e = (o + s as u32).min(so + n);
            if a == o && e == o + s as u32 {
                out.push((a - so, s, t));
            } else {
                let x = tt().ext(t, (a - o) as u8, (e - a) as u8);
                out.push((a - so, (e - a) as u8, x));
            }
            i += 1;
        }
        out
    }
    pub fn put_cells(&mut self, dst: u32, cells: &[(u32, u8, T)]) {
        for (o, s, t) in cells {
            self.put(dst + o, *s, *t);
        }
    }
    pub fn slice(&self, so: u32, n: u32) -> Mem {
        let mut m = Mem::new(n as usize);
        m.copy_within_from(0, self, so, n);
        m
    }
}

/// little-endian concatenation of pieces (relative offset, length, value)
pub fn concat(pieces: &[(u32, u32, T)]) -> T {
    let tm = tt();
    // merge adjacent extracts of one term
    let mut merged: Vec<(u32, u32, T)> = vec![];
    for &(o, l, x) in pieces {
        if let Some(last) = merged.last_mut() {
            // (base, start byte, end byte) views
            let view = |t: T, len: u32, tm: &Terms| -> Option<(T, u32, u32)> {
                match *tm.k(t) {
                    K::Ext(b, eo, _) => Some((b, eo as u32, eo as u32 + len)),
                    K::Const(_) => None,
                    _ => Some((t, 0, len)),
                }
            };
            if let Some((b1, s1, e1)) = view(last.2, last.1, tm) {
                if let Some((b2, s2, _e2)) = view(x, l, tm) {
                    if b1 == b2 && s2 == e1 && last.0 + last.1 == o {
                        let nl = last.1 + l;
                        let y = tm.ext(b1, s1 as u8, nl as u8);
                        *last = (last.0, nl, y);
                        continue;
                    }
                }
                // trailing constant zero where the base has no more bytes
                if let Some(z) = tm.as_const(x) {
                    if z.is_zero() && last.0 + last.1 == o && tm.hi(b1).bits() <= 8 * e1 {
                        last.1 += l;
                        continue;
                    }
                }
            }
        }
        merged.push((o, l, x));
    }
    let mut r = tm.ku(0);
    for (o, _, x) in merged {
        let y = tm.scale(x, crate::big::Z::pow2(8 * o));
        r = tm.add(r, y);
    }
    r
}
