//! GM/T 0001 / ETSI 35.221-223: ZUC, 128-EEA3, 128-EIA3.
use super::tables::{ZUC_S0, ZUC_S1};
pub struct Zuc {
    s: [u32; 16],
    r1: u32,
    r2: u32,
}
const D: [u32; 16] = [0x44d7, 0x26bc, 0x626b, 0x135e, 0x5789, 0x35e2, 0x7135, 0x09af, 0x4d78, 0x2f13, 0x6bc4, 0x1af1, 0x5e26, 0x3c4d, 0x789a, 0x47ac];
/// addition modulo 2^31-1 on representatives 0..2^31-1; zero only for two zeros (see z_addm)
pub fn addm(a: u32, b: u32) -> u32 {
    let c = a.wrapping_add(b);
    (c & 0x7fffffff) + (c >> 31)
}
/// 2^k a modulo 2^31-1
pub fn rot31(a: u32, k: u32) -> u32 {
    ((a << k) | (a >> (31 - k))) & 0x7fffffff
}
fn s(x: u32) -> u32 {
    let b = x.to_be_bytes();
    u32::from_be_bytes([ZUC_S0[b[0] as usize], ZUC_S1[b[1] as usize], ZUC_S0[b[2] as usize], ZUC_S1[b[3] as usize]])
}
impl Zuc {
    pub fn new(k: &[u8], iv: &[u8]) -> Zuc {
        let mut z = Zuc { s: [0; 16], r1: 0, r2: 0 };
        for i in 0..16 {
            z.s[i] = ((k[i] as u32) << 23) | (D[i] << 8) | iv[i] as u32;
        }
        for _ in 0..32 {
            let x = z.br();
            let w = z.f(x);
            z.shift(Some(w >> 1));
        }
        let x = z.br();
        z.f(x);
        z.shift(None);
        z
    }
    fn br(&self) -> [u32; 4] {
        let s = &self.s;
        let h = |i: usize| s[i] >> 15;
        let l = |i: usize| s[i] & 0xffff;
        [(h(15) << 16) | l(14), (l(11) << 16) | h(9), (l(7) << 16) | h(5), (l(2) << 16) | h(0)]
    }
    fn f(&mut self, x: [u32; 4]) -> u32 {
        let w = (x[0] ^ self.r1).wrapping_add(self.r2);
        let w1 = self.r1.wrapping_add(x[1]);
        let w2 = self.r2 ^ x[2];
        let u = (w1 << 16) | (w2 >> 16);
        let v = (w2 << 16) | (w1 >> 16);
        self.r1 = s(u ^ u.rotate_left(2) ^ u.rotate_left(10) ^ u.rotate_left(18) ^ u.rotate_left(24));
        self.r2 = s(v ^ v.rotate_left(8) ^ v.rotate_left(14) ^ v.rotate_left(22) ^ v.rotate_left(30));
        w
    }
    fn shift(&mut self, u: Option<u32>) {
        let s = &self.s;
        let mut v = s[0];
        v = addm(v, rot31(s[0], 8));
        v = addm(v, rot31(s[4], 20));
        v = addm(v, rot31(s[10], 21));
        v = addm(v, rot31(s[13], 17));
        v = addm(v, rot31(s[15], 15));
        if let Some(u) = u {
            v = addm(v, u);
        }
        if v == 0 {
            v = 0x7fffffff;
        }
        for i in 0..15 {
            self.s[i] = self.s[i + 1];
        }
        self.s[15] = v;
    }
    pub fn next(&mut self) -> u32 {
        let x = self.br();
        let z = self.f(x) ^ x[3];
        self.shift(None);
        z
    }
}
fn iv_cipher(count: u32, bearer: u8, dir: bool) -> [u8; 16] {
    let c = count.to_be_bytes();
    let mut iv = [0; 16];
    for i in 0..4 {
        iv[i] = c[i];
    }
    iv[4] = ((bearer & 31) << 3) | ((dir as u8) << 2);
    for i in 0..8 {
        iv[8 + i] = iv[i];
    }
    iv
}
pub fn eea3(count: u32, bearer: u8, dir: bool, k: &[u8], m: &[u8]) -> Vec<u8> {
    let mut z = Zuc::new(k, &iv_cipher(count, bearer, dir));
    let mut o = vec![];
    let mut w = [0u8; 4];
    for i in 0..m.len() {
        if i % 4 == 0 {
            w = z.next().to_be_bytes();
        }
        o.push(m[i] ^ w[i % 4]);
    }
    o
}
pub fn eia3(count: u32, bearer: u8, dir: bool, k: &[u8], m: &[u8]) -> u32 {
    let c = count.to_be_bytes();
    let mut iv = [0u8; 16];
    for i in 0..4 {
        iv[i] = c[i];
        iv[8 + i] = c[i];
    }
    iv[4] = (bearer & 31) << 3;
    iv[12] = iv[4];
    iv[8] ^= (dir as u8) << 7;
    iv[14] ^= (dir as u8) << 7;
    let mut z = Zuc::new(k, &iv);
    let n = 8 * m.len();
    let l = (n + 31) / 32 + 2;
    let mut ks: Vec<u32> = vec![];
    for _ in 0..l {
        ks.push(z.next());
    }
    let word = |i: usize| -> u32 {
        if i % 32 == 0 {
            ks[i / 32]
        } else {
            (ks[i / 32] << (i % 32)) | (ks[i / 32 + 1] >> (32 - i % 32))
        }
    };
    let mut t = 0u32;
    for i in 0..n {
        let bit = (m[i / 8] >> (7 - i % 8)) & 1;
        if bit == 1 {
            t ^= word(i);
        }
    }
    t ^ word(n) ^ ks[l - 1]
}
