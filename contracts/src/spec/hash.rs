//! RFC 1321 (MD5), FIPS 180-4 (SHA-1, SHA-2), GB/T 32905 (SM3): reference definitions.

pub trait Md: Clone {
    const BLOCK: usize;
    const LEN: usize;
    fn init() -> Self;
    fn compress(&mut self, b: &[u8]);
    fn out(&self) -> Vec<u8>;
    /// bytes of the encoded bit length, and whether it is little endian
    const LENB: usize;
    const LE: bool;
}

/// padding for `rest` (shorter than a block) with a total of `total` bytes
pub fn finish<M: Md>(mut m: M, rest: &[u8], total: u128) -> Vec<u8> {
    let mut t = rest.to_vec();
    t.push(0x80);
    while t.len() % M::BLOCK != M::BLOCK - M::LENB {
        t.push(0);
    }
    let bits = total << 3;
    for i in 0..M::LENB {
        let sh = if M::LE { i } else { M::LENB - 1 - i };
        t.push((bits >> (8 * sh)) as u8);
    }
    let mut i = 0;
    while i < t.len() {
        m.compress(&t[i..i + M::BLOCK]);
        i += M::BLOCK;
    }
    m.out()
}
pub fn hash<M: Md>(msg: &[u8]) -> Vec<u8> {
    finish_all(M::init(), msg)
}
/// whole message from a given chaining state
pub fn finish_all<M: Md>(mut m: M, msg: &[u8]) -> Vec<u8> {
    let mut i = 0;
    while i + M::BLOCK <= msg.len() {
        m.compress(&msg[i..i + M::BLOCK]);
        i += M::BLOCK;
    }
    finish(m, &msg[i..], msg.len() as u128)
}

fn be32(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}
fn le32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

// ------------------------------------------------------------------ MD5
#[derive(Clone)]
pub struct Md5([u32; 4]);
const MD5_S: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
// floor(2^32 * abs(sin(i+1)))
const MD5_T: [u32; 64] = [
    0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501, 0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821, 0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa,
    0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8, 0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a, 0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70,
    0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665, 0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1, 0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1,
    0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391,
];
impl Md for Md5 {
    const BLOCK: usize = 64;
    const LEN: usize = 16;
    const LENB: usize = 8;
    const LE: bool = true;
    fn init() -> Self {
        Md5([0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476])
    }
    fn compress(&mut self, m: &[u8]) {
        let mut x = [0u32; 16];
        for i in 0..16 {
            x[i] = le32(&m[4 * i..]);
        }
        let [mut a, mut b, mut c, mut d] = self.0;
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((b & d) | (c & !d), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let t = a.wrapping_add(f).wrapping_add(x[g]).wrapping_add(MD5_T[i]);
            a = d;
            d = c;
            c = b;
            b = b.wrapping_add(t.rotate_left(MD5_S[i / 16][i % 4]));
        }
        self.0[0] = self.0[0].wrapping_add(a);
        self.0[1] = self.0[1].wrapping_add(b);
        self.0[2] = self.0[2].wrapping_add(c);
        self.0[3] = self.0[3].wrapping_add(d);
    }
    fn out(&self) -> Vec<u8> {
        let mut o = vec![];
        for x in self.0 {
            o.extend_from_slice(&x.to_le_bytes());
        }
        o
    }
}

// ------------------------------------------------------------------ SHA-1
#[derive(Clone)]
pub struct Sha1([u32; 5]);
impl Md for Sha1 {
    const BLOCK: usize = 64;
    const LEN: usize = 20;
    const LENB: usize = 8;
    const LE: bool = false;
    fn init() -> Self {
        Sha1([0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0])
    }
    fn compress(&mut self, m: &[u8]) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = be32(&m[4 * i..]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = self.0;
        for i in 0..80 {
            let (f, k) = match i / 20 {
                0 => ((b & c) ^ (!b & d), 0x5a827999u32),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (h, v) in self.0.iter_mut().zip([a, b, c, d, e]) {
            *h = h.wrapping_add(v);
        }
    }
    fn out(&self) -> Vec<u8> {
        let mut o = vec![];
        for x in self.0 {
            o.extend_from_slice(&x.to_be_bytes());
        }
        o
    }
}

// ------------------------------------------------------------------ SHA-224 / SHA-256
const K256: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc,
    0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
    0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
fn compress256(h: &mut [u32; 8], m: &[u8]) {
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = be32(&m[4 * i..]);
    }
    for i in 16..64 {
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        w[i] = s1.wrapping_add(w[i - 7]).wrapping_add(s0).wrapping_add(w[i - 16]);
    }
    let mut v = *h;
    for i in 0..64 {
        let [a, b, c, d, e, f, g, hh] = v;
        let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let ch = (e & f) ^ (!e & g);
        let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add(K256[i]).wrapping_add(w[i]);
        let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let maj = (a & b) ^ (a & c) ^ (b & c);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}
fn out32(h: &[u32]) -> Vec<u8> {
    let mut o = vec![];
    for x in h {
        o.extend_from_slice(&x.to_be_bytes());
    }
    o
}
#[derive(Clone)]
pub struct Sha256([u32; 8]);
impl Md for Sha256 {
    const BLOCK: usize = 64;
    const LEN: usize = 32;
    const LENB: usize = 8;
    const LE: bool = false;
    fn init() -> Self {
        Sha256([0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19])
    }
    fn compress(&mut self, m: &[u8]) {
        compress256(&mut self.0, m)
    }
    fn out(&self) -> Vec<u8> {
        out32(&self.0)
    }
}
#[derive(Clone)]
pub struct Sha224([u32; 8]);
impl Md for Sha224 {
    const BLOCK: usize = 64;
    const LEN: usize = 28;
    const LENB: usize = 8;
    const LE: bool = false;
    fn init() -> Self {
        Sha224([0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4])
    }
    fn compress(&mut self, m: &[u8]) {
        compress256(&mut self.0, m)
    }
    fn out(&self) -> Vec<u8> {
        out32(&self.0[..7])
    }
}

// ------------------------------------------------------------------ SHA-384 / SHA-512 / SHA-512/t
const K512: [u64; 80] = [
    0x428a2f98d728ae22, 0x7137449123ef65cd, 0xb5c0fbcfec4d3b2f, 0xe9b5dba58189dbbc, 0x3956c25bf348b538, 0x59f111f1b605d019, 0x923f82a4af194f9b, 0xab1c5ed5da6d8118, 0xd807aa98a3030242, 0x12835b0145706fbe, 0x243185be4ee4b28c, 0x550c7dc3d5ffb4e2,
    0x72be5d74f27b896f, 0x80deb1fe3b1696b1, 0x9bdc06a725c71235, 0xc19bf174cf692694, 0xe49b69c19ef14ad2, 0xefbe4786384f25e3, 0x0fc19dc68b8cd5b5, 0x240ca1cc77ac9c65, 0x2de92c6f592b0275, 0x4a7484aa6ea6e483, 0x5cb0a9dcbd41fbd4, 0x76f988da831153b5,
    0x983e5152ee66dfab, 0xa831c66d2db43210, 0xb00327c898fb213f, 0xbf597fc7beef0ee4, 0xc6e00bf33da88fc2, 0xd5a79147930aa725, 0x06ca6351e003826f, 0x142929670a0e6e70, 0x27b70a8546d22ffc, 0x2e1b21385c26c926, 0x4d2c6dfc5ac42aed, 0x53380d139d95b3df,
    0x650a73548baf63de, 0x766a0abb3c77b2a8, 0x81c2c92e47edaee6, 0x92722c851482353b, 0xa2bfe8a14cf10364, 0xa81a664bbc423001, 0xc24b8b70d0f89791, 0xc76c51a30654be30, 0xd192e819d6ef5218, 0xd69906245565a910, 0xf40e35855771202a, 0x106aa07032bbd1b8,
    0x19a4c116b8d2d0c8, 0x1e376c085141ab53, 0x2748774cdf8eeb99, 0x34b0bcb5e19b48a8, 0x391c0cb3c5c95a63, 0x4ed8aa4ae3418acb, 0x5b9cca4f7763e373, 0x682e6ff3d6b2b8a3, 0x748f82ee5defb2fc, 0x78a5636f43172f60, 0x84c87814a1f0ab72, 0x8cc702081a6439ec,
    0x90befffa23631e28, 0xa4506cebde82bde9, 0xbef9a3f7b2c67915, 0xc67178f2e372532b, 0xca273eceea26619c, 0xd186b8c721c0c207, 0xeada7dd6cde0eb1e, 0xf57d4f7fee6ed178, 0x06f067aa72176fba, 0x0a637dc5a2c898a6, 0x113f9804bef90dae, 0x1b710b35131c471b,
    0x28db77f523047d84, 0x32caab7b40c72493, 0x3c9ebe0a15c9bebc, 0x431d67c49c100d4c, 0x4cc5d4becb3e42b6, 0x597f299cfc657e2a, 0x5fcb6fab3ad6faec, 0x6c44198c4a475817,
];
fn compress512(h: &mut [u64; 8], m: &[u8]) {
    let mut w = [0u64; 80];
    for i in 0..16 {
        let mut x = 0u64;
        for j in 0..8 {
            x = (x << 8) | m[8 * i + j] as u64;
        }
        w[i] = x;
    }
    for i in 16..80 {
        let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
        let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
        w[i] = s1.wrapping_add(w[i - 7]).wrapping_add(s0).wrapping_add(w[i - 16]);
    }
    let mut v = *h;
    for i in 0..80 {
        let [a, b, c, d, e, f, g, hh] = v;
        let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
        let ch = (e & f) ^ (!e & g);
        let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add(K512[i]).wrapping_add(w[i]);
        let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
        let maj = (a & b) ^ (a & c) ^ (b & c);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}
const IV512: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
fn out64(h: &[u64]) -> Vec<u8> {
    let mut o = vec![];
    for x in h {
        o.extend_from_slice(&x.to_be_bytes());
    }
    o
}
#[derive(Clone)]
pub struct Sha512(pub [u64; 8]);
impl Md for Sha512 {
    const BLOCK: usize = 128;
    const LEN: usize = 64;
    const LENB: usize = 16;
    const LE: bool = false;
    fn init() -> Self {
        Sha512(IV512)
    }
    fn compress(&mut self, m: &[u8]) {
        compress512(&mut self.0, m)
    }
    fn out(&self) -> Vec<u8> {
        out64(&self.0)
    }
}
#[derive(Clone)]
pub struct Sha384([u64; 8]);
impl Md for Sha384 {
    const BLOCK: usize = 128;
    const LEN: usize = 48;
    const LENB: usize = 16;
    const LE: bool = false;
    fn init() -> Self {
        Sha384([0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4])
    }
    fn compress(&mut self, m: &[u8]) {
        compress512(&mut self.0, m)
    }
    fn out(&self) -> Vec<u8> {
        out64(&self.0[..6])
    }
}
/// FIPS 180-4, 5.3.6: initial value of SHA-512/t
pub fn iv512t(t: usize) -> [u64; 8] {
    let mut h = IV512;
    for x in h.iter_mut() {
        *x ^= 0xa5a5a5a5a5a5a5a5;
    }
    let name = format!("SHA-512/{}", t);
    let d = finish(Sha512(h), name.as_bytes(), name.len() as u128);
    let mut o = [0u64; 8];
    for i in 0..8 {
        let mut b = [0; 8];
        b.copy_from_slice(&d[8 * i..8 * i + 8]);
        o[i] = u64::from_be_bytes(b);
    }
    o
}
/// leftmost t bits; unused low bits of the last byte are zero
pub fn take_bits(d: &[u8], t: usize) -> Vec<u8> {
    let n = (t + 7) / 8;
    let mut o = d[..n].to_vec();
    if t % 8 != 0 {
        o[n - 1] &= 0xffu8 << (8 - t % 8);
    }
    o
}

// ------------------------------------------------------------------ SM3
#[derive(Clone)]
pub struct Sm3([u32; 8]);
impl Md for Sm3 {
    const BLOCK: usize = 64;
    const LEN: usize = 32;
    const LENB: usize = 8;
    const LE: bool = false;
    fn init() -> Self {
        Sm3([0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e])
    }
    fn compress(&mut self, m: &[u8]) {
        let p0 = |x: u32| x ^ x.rotate_left(9) ^ x.rotate_left(17);
        let p1 = |x: u32| x ^ x.rotate_left(15) ^ x.rotate_left(23);
        let mut w = [0u32; 68];
        for i in 0..16 {
            w[i] = be32(&m[4 * i..]);
        }
        for j in 16..68 {
            w[j] = p1(w[j - 16] ^ w[j - 9] ^ w[j - 3].rotate_left(15)) ^ w[j - 13].rotate_left(7) ^ w[j - 6];
        }
        let mut v = self.0;
        for j in 0..64 {
            let [a, b, c, d, e, f, g, h] = v;
            let t: u32 = if j < 16 { 0x79cc4519 } else { 0x7a879d8a };
            let ss1 = a.rotate_left(12).wrapping_add(e).wrapping_add(t.rotate_left(j as u32 % 32)).rotate_left(7);
            let ss2 = ss1 ^ a.rotate_left(12);
            let ff = if j < 16 { a ^ b ^ c } else { (a & b) | (a & c) | (b & c) };
            let gg = if j < 16 { e ^ f ^ g } else { (e & f) | (!e & g) };
            let tt1 = ff.wrapping_add(d).wrapping_add(ss2).wrapping_add(w[j] ^ w[j + 4]);
            let tt2 = gg.wrapping_add(h).wrapping_add(ss1).wrapping_add(w[j]);
            v = [tt1, a, b.rotate_left(9), c, p0(tt2), e, f.rotate_left(19), g];
        }
        for i in 0..8 {
            self.0[i] ^= v[i];
        }
    }
    fn out(&self) -> Vec<u8> {
        out32(&self.0)
    }
}
