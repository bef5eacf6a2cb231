//! Assumed contracts of the AES-NI instructions (Intel SDM), over byte terms.
use crate::term::*;

pub struct AesTables {
    sbox: u32,
    inv: u32,
    mul: [u32; 16],
}

pub fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = (a << 1) ^ (((a >> 7) & 1) * 0x1b);
        b >>= 1;
    }
    r
}

impl AesTables {
    pub fn new(tm: &mut Tm) -> AesTables {
        let mut s = vec![0u128; 256];
        let mut si = vec![0u128; 256];
        for x in 0..256usize {
            let mut i = 0u8;
            for y in 1..=255u8 {
                if gmul(x as u8, y) == 1 {
                    i = y;
                }
            }
            let v = i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63;
            s[x] = v as u128;
            si[v as usize] = x as u128;
        }
        let sbox = tm.mk_table(8, s);
        let inv = tm.mk_table(8, si);
        let mut mul = [0; 16];
        for k in 0..16u8 {
            let d = (0..256u32).map(|x| gmul(x as u8, k) as u128).collect();
            mul[k as usize] = tm.mk_table(8, d);
        }
        AesTables { sbox, inv, mul }
    }
    fn mix(&self, tm: &mut Tm, s: &[Id], m: [u8; 4]) -> Vec<Id> {
        let mut o = vec![];
        for c in 0..4 {
            for r in 0..4 {
                let mut xs = vec![];
                for j in 0..4 {
                    // coefficient of row j in output row r
                    let k = m[(j + 4 - r) % 4];
                    let x = s[4 * c + j];
                    xs.push(if k == 1 { x } else { tm.table(self.mul[k as usize], x) });
                }
                o.push(tm.xor_n(8, &xs));
            }
        }
        o
    }
    pub fn round(&self, tm: &mut Tm, op: &str, a: &[Id], k: &[Id]) -> Vec<Id> {
        let mut s = vec![];
        let dec = op.starts_with("aesdec");
        for c in 0..4usize {
            for r in 0..4usize {
                let src = if dec { 4 * ((c + 4 - r) % 4) + r } else { 4 * ((c + r) % 4) + r };
                s.push(tm.table(if dec { self.inv } else { self.sbox }, a[src]));
            }
        }
        let s = match op {
            "aesenc" => self.mix(tm, &s, [2, 3, 1, 1]),
            "aesdec" => self.mix(tm, &s, [14, 11, 13, 9]),
            _ => s,
        };
        s.iter().zip(k).map(|(&x, &y)| tm.xor(x, y)).collect()
    }
    pub fn imc(&self, tm: &mut Tm, a: &[Id]) -> Vec<Id> {
        self.mix(tm, a, [14, 11, 13, 9])
    }
    pub fn keygen(&self, tm: &mut Tm, a: &[Id], rc: u8) -> Vec<Id> {
        let x1: Vec<Id> = (4..8).map(|i| tm.table(self.sbox, a[i])).collect();
        let x3: Vec<Id> = (12..16).map(|i| tm.table(self.sbox, a[i])).collect();
        let rot = |tm: &mut Tm, x: &[Id]| -> Vec<Id> {
            let k = tm.cst(8, rc as u128);
            let f = tm.xor(x[1], k);
            vec![f, x[2], x[3], x[0]]
        };
        let r1 = rot(tm, &x1);
        let r3 = rot(tm, &x3);
        [x1, r1, x3, r3].concat()
    }
}
