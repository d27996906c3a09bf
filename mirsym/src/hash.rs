//! Concrete twox / blake2b, so that storage keys (and therefore iteration order) equal the real ones.
fn r(x: u64, n: u32) -> u64 {
    x.rotate_left(n)
}
pub fn xxh64(d: &[u8], seed: u64) -> u64 {
    const P1: u64 = 11400714785074694791;
    const P2: u64 = 14029467366897019727;
    const P3: u64 = 1609587929392839161;
    const P4: u64 = 9650029242287828579;
    const P5: u64 = 2870177450012600261;
    let rd8 = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    let rd4 = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap()) as u64;
    let round = |a: u64, x: u64| r(a.wrapping_add(x.wrapping_mul(P2)), 31).wrapping_mul(P1);
    let n = d.len();
    let mut i = 0;
    let mut h;
    if n >= 32 {
        let mut v = [seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1)];
        while i + 32 <= n {
            for k in 0..4 {
                v[k] = round(v[k], rd8(i + 8 * k));
            }
            i += 32;
        }
        h = r(v[0], 1).wrapping_add(r(v[1], 7)).wrapping_add(r(v[2], 12)).wrapping_add(r(v[3], 18));
        for k in 0..4 {
            h = (h ^ round(0, v[k])).wrapping_mul(P1).wrapping_add(P4);
        }
    } else {
        h = seed.wrapping_add(P5);
    }
    h = h.wrapping_add(n as u64);
    while i + 8 <= n {
        h = r(h ^ round(0, rd8(i)), 27).wrapping_mul(P1).wrapping_add(P4);
        i += 8;
    }
    if i + 4 <= n {
        h = r(h ^ rd4(i).wrapping_mul(P1), 23).wrapping_mul(P2).wrapping_add(P3);
        i += 4;
    }
    while i < n {
        h = r(h ^ (d[i] as u64).wrapping_mul(P5), 11).wrapping_mul(P1);
        i += 1;
    }
    h ^= h >> 33;
    h = h.wrapping_mul(P2);
    h ^= h >> 29;
    h = h.wrapping_mul(P3);
    h ^ (h >> 32)
}
pub fn twox(d: &[u8], n: usize) -> Vec<u8> {
    (0..n / 8).flat_map(|i| xxh64(d, i as u64).to_le_bytes()).collect()
}
pub fn blake2b(d: &[u8], outlen: usize) -> Vec<u8> {
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1,
        0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    const S: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let mut h = IV;
    h[0] ^= 0x01010000 ^ outlen as u64;
    let mut t: u128 = 0;
    let nblk = d.len().div_ceil(128).max(1);
    for bi in 0..nblk {
        let mut blk = [0u8; 128];
        let end = (bi * 128 + 128).min(d.len());
        let s = &d[bi * 128..end];
        blk[..s.len()].copy_from_slice(s);
        t += s.len() as u128;
        let m: Vec<u64> = blk.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u64;
        v[13] ^= (t >> 64) as u64;
        if bi + 1 == nblk {
            v[14] = !v[14];
        }
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        };
        for rr in 0..12 {
            let s = &S[rr % 10];
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    h.iter().flat_map(|x| x.to_le_bytes()).take(outlen).collect()
}
