//! FIPS 197 (AES), FIPS 46-3 / SP 800-67 (DES, TDEA), GB/T 32907 (SM4): reference definitions.

const fn gmul(a: u8, b: u8, poly: u32) -> u8 {
    let (mut a, mut b, mut r) = (a as u32, b, 0u32);
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x100 != 0 {
            a ^= poly;
        }
        b >>= 1;
    }
    r as u8
}
/// x^254: the inverse, 0 for 0
const fn ginv(x: u8, poly: u32) -> u8 {
    let mut r = 1u8;
    let mut i = 0;
    while i < 254 {
        r = gmul(r, x, poly);
        i += 1;
    }
    r
}
const fn aes_sbox() -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        let b = ginv(i as u8, 0x11b);
        t[i] = b ^ b.rotate_left(1) ^ b.rotate_left(2) ^ b.rotate_left(3) ^ b.rotate_left(4) ^ 0x63;
        i += 1;
    }
    t
}
const fn invert(s: &[u8; 256]) -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        t[s[i] as usize] = i as u8;
        i += 1;
    }
    t
}
const fn mul_table(k: u8) -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = gmul(i as u8, k, 0x11b);
        i += 1;
    }
    t
}
static SBOX: [u8; 256] = aes_sbox();
static INV: [u8; 256] = invert(&aes_sbox());
static M2: [u8; 256] = mul_table(2);
static M3: [u8; 256] = mul_table(3);
static M9: [u8; 256] = mul_table(9);
static M11: [u8; 256] = mul_table(11);
static M13: [u8; 256] = mul_table(13);
static M14: [u8; 256] = mul_table(14);

pub struct Aes {
    w: Vec<[u8; 4]>,
    nr: usize,
}
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = vec![];
        for i in 0..nk {
            w.push([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]);
        }
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [SBOX[t[1] as usize] ^ rcon, SBOX[t[2] as usize], SBOX[t[3] as usize], SBOX[t[0] as usize]];
                rcon = gmul(rcon, 2, 0x11b);
            } else if nk > 6 && i % nk == 4 {
                t = [SBOX[t[0] as usize], SBOX[t[1] as usize], SBOX[t[2] as usize], SBOX[t[3] as usize]];
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes { w, nr }
    }
    fn add(&self, s: &mut [u8; 16], r: usize) {
        for c in 0..4 {
            for i in 0..4 {
                s[4 * c + i] ^= self.w[4 * r + c][i];
            }
        }
    }
    pub fn encrypt(&self, b: &[u8]) -> [u8; 16] {
        let mut s = [0u8; 16];
        s.copy_from_slice(b);
        self.add(&mut s, 0);
        for r in 1..=self.nr {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    t[4 * c + i] = SBOX[s[4 * ((c + i) % 4) + i] as usize];
                }
            }
            if r != self.nr {
                for c in 0..4 {
                    let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for i in 0..4 {
                        t[4 * c + i] = M2[a[i] as usize] ^ M3[a[(i + 1) % 4] as usize] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                    }
                }
            }
            s = t;
            self.add(&mut s, r);
        }
        s
    }
    pub fn decrypt(&self, b: &[u8]) -> [u8; 16] {
        let mut s = [0u8; 16];
        s.copy_from_slice(b);
        for r in (1..=self.nr).rev() {
            self.add(&mut s, r);
            if r != self.nr {
                for c in 0..4 {
                    let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                    for i in 0..4 {
                        s[4 * c + i] = M14[a[i] as usize] ^ M11[a[(i + 1) % 4] as usize] ^ M13[a[(i + 2) % 4] as usize] ^ M9[a[(i + 3) % 4] as usize];
                    }
                }
            }
            let mut t = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    t[4 * ((c + i) % 4) + i] = INV[s[4 * c + i] as usize];
                }
            }
            s = t;
        }
        self.add(&mut s, 0);
        s
    }
}

// ------------------------------------------------------------------ SM4
const fn parity(mut x: u8) -> u8 {
    let mut r = 0;
    while x != 0 {
        r ^= x & 1;
        x >>= 1;
    }
    r
}
const fn sm4_affine(x: u8) -> u8 {
    let mut r = 0u8;
    let mut i = 0;
    while i < 8 {
        r |= parity(0xa7u8.rotate_left(i) & x) << i;
        i += 1;
    }
    r ^ 0xd3
}
const fn sm4_sbox() -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = sm4_affine(ginv(sm4_affine(i as u8), 0x1f5));
        i += 1;
    }
    t
}
static SM4_S: [u8; 256] = sm4_sbox();
fn sm4_tau(x: u32) -> u32 {
    let b = x.to_be_bytes();
    u32::from_be_bytes([SM4_S[b[0] as usize], SM4_S[b[1] as usize], SM4_S[b[2] as usize], SM4_S[b[3] as usize]])
}
pub fn sm4(key: &[u8], block: &[u8], decrypt: bool) -> [u8; 16] {
    let be = |b: &[u8], i: usize| u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    let fk = [0xa3b1bac6u32, 0x56aa3350, 0x677d9197, 0xb27022dc];
    let mut k = [0u32; 36];
    for i in 0..4 {
        k[i] = be(key, i) ^ fk[i];
    }
    for i in 0..32 {
        // CK_i: bytes (4i+j)*7 mod 256
        let mut ck = 0u32;
        for j in 0..4 {
            ck = (ck << 8) | (((4 * i + j) * 7) as u32 & 0xff);
        }
        let b = sm4_tau(k[i + 1] ^ k[i + 2] ^ k[i + 3] ^ ck);
        k[i + 4] = k[i] ^ b ^ b.rotate_left(13) ^ b.rotate_left(23);
    }
    let mut x = [0u32; 36];
    for i in 0..4 {
        x[i] = be(block, i);
    }
    for i in 0..32 {
        let rk = if decrypt { k[35 - i] } else { k[4 + i] };
        let b = sm4_tau(x[i + 1] ^ x[i + 2] ^ x[i + 3] ^ rk);
        x[i + 4] = x[i] ^ b ^ b.rotate_left(2) ^ b.rotate_left(10) ^ b.rotate_left(18) ^ b.rotate_left(24);
    }
    let mut o = [0u8; 16];
    for i in 0..4 {
        o[4 * i..4 * i + 4].copy_from_slice(&x[35 - i].to_be_bytes());
    }
    o
}

// ------------------------------------------------------------------ DES
// positions are numbered from 1, most significant bit first, as in FIPS 46-3
const IP: [u8; 64] = [
    58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8, 57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7,
];
const E: [u8; 48] = [
    32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17, 16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24, 25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1,
];
const P: [u8; 32] = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25];
const PC1: [u8; 56] = [
    57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36, 63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4,
];
const PC2: [u8; 48] = [
    14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2, 41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32,
];
static S: [[u8; 64]; 8] = [
    [
        14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8, 4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13,
    ],
    [
        15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5, 0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9,
    ],
    [
        10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1, 13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12,
    ],
    [
        7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9, 10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14,
    ],
    [
        2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6, 4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3,
    ],
    [
        12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8, 9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13,
    ],
    [
        4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6, 1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12,
    ],
    [
        13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2, 7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11,
    ],
];
const SHIFTS: [usize; 16] = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1];

/// a bit string, first bit first; every byte is 0 or 1
type Bits = Vec<u8>;
fn bits(b: &[u8]) -> Bits {
    let mut o = vec![];
    for x in b {
        for i in 0..8 {
            o.push((x >> (7 - i)) & 1);
        }
    }
    o
}
fn pick(b: &[u8], t: &[u8]) -> Bits {
    let mut o = vec![];
    for &p in t {
        o.push(b[p as usize - 1]);
    }
    o
}
pub struct Des {
    k: Vec<Bits>,
}
impl Des {
    pub fn new(key: &[u8]) -> Des {
        let cd = pick(&bits(key), &PC1);
        let mut k = vec![];
        let mut rot = 0;
        for s in SHIFTS.iter() {
            rot += s;
            let mut r = vec![];
            for i in 0..28 {
                r.push(cd[(i + rot) % 28]);
            }
            for i in 0..28 {
                r.push(cd[28 + (i + rot) % 28]);
            }
            k.push(pick(&r, &PC2));
        }
        Des { k }
    }
    fn f(r: &[u8], k: &[u8]) -> Bits {
        let e = pick(r, &E);
        let mut o = vec![];
        for j in 0..8 {
            let mut b = [0u8; 6];
            for i in 0..6 {
                b[i] = e[6 * j + i] ^ k[6 * j + i];
            }
            let row = b[0] << 1 | b[5];
            let col = b[1] << 3 | b[2] << 2 | b[3] << 1 | b[4];
            let v = S[j][(row << 4 | col) as usize];
            for i in 0..4 {
                o.push((v >> (3 - i)) & 1);
            }
        }
        pick(&o, &P)
    }
    pub fn crypt(&self, b: &[u8], decrypt: bool) -> [u8; 8] {
        let x = pick(&bits(b), &IP);
        let mut l = x[..32].to_vec();
        let mut r = x[32..].to_vec();
        for i in 0..16 {
            let k = if decrypt { &self.k[15 - i] } else { &self.k[i] };
            let mut t = Des::f(&r, k);
            for i in 0..32 {
                t[i] ^= l[i];
            }
            l = r;
            r = t;
        }
        r.extend_from_slice(&l);
        // inverse of IP
        let mut y = [0u8; 64];
        for i in 0..64 {
            y[IP[i] as usize - 1] = r[i];
        }
        let mut o = [0u8; 8];
        for i in 0..64 {
            o[i / 8] |= y[i] << (7 - i % 8);
        }
        o
    }
}
