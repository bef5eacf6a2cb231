//! FIPS 202: Keccak-p, sponge and the functions built on it, on bit strings (0/1 bytes).

/// rc(t) of algorithm 5
fn rc(t: i64) -> u8 {
    let t = t.rem_euclid(255);
    if t == 0 {
        return 1;
    }
    let mut r: Vec<u8> = vec![1, 0, 0, 0, 0, 0, 0, 0];
    for _ in 0..t {
        r.insert(0, 0);
        r[0] ^= r[8];
        r[4] ^= r[8];
        r[5] ^= r[8];
        r[6] ^= r[8];
        r.truncate(8);
    }
    r[0]
}

/// Keccak-p[b, nr]; S[w(5y+x)+z] = A[x,y,z]
pub fn permute(s: &[u8], nr: usize) -> Vec<u8> {
    let w = s.len() / 25;
    let l = w.trailing_zeros() as i64;
    let at = |x: usize, y: usize, z: usize| w * (5 * y + x) + z;
    let mut a = s.to_vec();
    for ir in (12 + 2 * l - nr as i64)..(12 + 2 * l) {
        // theta
        let mut c = vec![0u8; 5 * w];
        for x in 0..5 {
            for z in 0..w {
                c[x * w + z] = a[at(x, 0, z)] ^ a[at(x, 1, z)] ^ a[at(x, 2, z)] ^ a[at(x, 3, z)] ^ a[at(x, 4, z)];
            }
        }
        let mut t = vec![0u8; 25 * w];
        for x in 0..5 {
            for z in 0..w {
                let d = c[(x + 4) % 5 * w + z] ^ c[(x + 1) % 5 * w + (z + w - 1) % w];
                for y in 0..5 {
                    t[at(x, y, z)] = a[at(x, y, z)] ^ d;
                }
            }
        }
        // rho
        let mut r = t.clone();
        let (mut x, mut y) = (1, 0);
        for q in 0..24 {
            let off = (q + 1) * (q + 2) / 2 % w;
            for z in 0..w {
                r[at(x, y, z)] = t[at(x, y, (z + w - off) % w)];
            }
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
        // pi
        let mut p = vec![0u8; 25 * w];
        for x in 0..5 {
            for y in 0..5 {
                for z in 0..w {
                    p[at(x, y, z)] = r[at((x + 3 * y) % 5, x, z)];
                }
            }
        }
        // chi
        for x in 0..5 {
            for y in 0..5 {
                for z in 0..w {
                    a[at(x, y, z)] = p[at(x, y, z)] ^ ((p[at((x + 1) % 5, y, z)] ^ 1) & p[at((x + 2) % 5, y, z)]);
                }
            }
        }
        // iota
        for j in 0..=l {
            a[at(0, 0, (1usize << j) - 1)] ^= rc(j + 7 * ir);
        }
    }
    a
}

/// SPONGE[Keccak-p[b, nr], pad10*1, rate](n, d)
pub fn sponge(b: usize, nr: usize, rate: usize, n: &[u8], d: usize) -> Vec<u8> {
    let mut p = n.to_vec();
    p.push(1);
    while (p.len() + 1) % rate != 0 {
        p.push(0);
    }
    p.push(1);
    let mut s = vec![0u8; b];
    let mut i = 0;
    while i < p.len() {
        for k in 0..rate {
            s[k] ^= p[i + k];
        }
        s = permute(&s, nr);
        i += rate;
    }
    let mut z = s[..rate].to_vec();
    while z.len() < d {
        s = permute(&s, nr);
        z.extend_from_slice(&s[..rate]);
    }
    z.truncate(d);
    z
}
pub fn bits(m: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(8 * m.len() + 8);
    for x in m {
        for i in 0..8 {
            o.push((x >> i) & 1);
        }
    }
    o
}
pub fn bytes(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0u8; (b.len() + 7) / 8];
    for i in 0..b.len() {
        o[i / 8] |= b[i] << (i % 8);
    }
    o
}
/// KECCAK[c](m || suffix, d)
pub fn keccak(c: usize, m: &[u8], suffix: &[u8], d: usize) -> Vec<u8> {
    let mut n = bits(m);
    n.extend_from_slice(suffix);
    bytes(&sponge(1600, 24, 1600 - c, &n, d))
}
