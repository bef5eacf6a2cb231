//! Contracts of HMAC and CMAC over an arbitrary hash function / block cipher.
use crate::rt::*;
use rcrypto::*;

/// an arbitrary hash function with block size b and l-byte output
#[derive(Clone)]
pub struct AnyHash {
    pub b: usize,
    pub l: usize,
    pub buf: Vec<u8>,
    pub done: bool,
}
impl AnyHash {
    pub fn new(b: usize, l: usize) -> Self {
        AnyHash { b, l, buf: vec![], done: false }
    }
}
pub fn any_hash(l: usize, m: &[u8]) -> Vec<u8> {
    let mut o = vec![0; l];
    uf(7, m, &mut o);
    o
}
impl Digest for AnyHash {
    fn block_size(&self) -> Option<usize> {
        if self.b == 0 {
            None
        } else {
            Some(self.b)
        }
    }
    fn bits_len(&self) -> usize {
        self.l * 8
    }
    fn write(&mut self, data: &[u8]) {
        if self.done {
            // nothing is promised about writing after a digest without a reset
            self.buf.push(0xee);
        }
        self.done = false;
        self.buf.extend_from_slice(data);
    }
    fn checksum(&mut self, digest: &mut Vec<u8>) {
        self.done = true;
        *digest = any_hash(self.l, &self.buf);
    }
    fn reset(&mut self) {
        self.buf.clear();
        self.done = false;
    }
}
/// RFC 2104
fn hmac(b: usize, l: usize, k: &[u8], m: &[u8]) -> Vec<u8> {
    let mut k0 = if k.len() > b { any_hash(l, k) } else { k.to_vec() };
    k0.resize(b, 0);
    let mut inner: Vec<u8> = k0.iter().map(|x| x ^ 0x36).collect();
    inner.extend_from_slice(m);
    let h = any_hash(l, &inner);
    let mut outer: Vec<u8> = k0.iter().map(|x| x ^ 0x5c).collect();
    outer.extend_from_slice(&h);
    any_hash(l, &outer)
}
fn tag<D: Digest>(h: &mut D) -> Vec<u8> {
    let mut o = vec![9u8; 3];
    h.checksum(&mut o);
    o
}
/// key of kl bytes, message in two pieces, then (bits of how) 1: further message without reset,
/// 2: reset in between, 4: new key of k2 bytes, 8: new key set in the middle of a message
#[no_mangle]
pub extern "C-unwind" fn m_hmac(b: u64, l: u64, kl: u64, a: u64, c: u64, k2: u64, how: u64) {
    let (b, l) = (b as usize, l as usize);
    let k = sym_vec("key", kl as usize);
    let m = sym_vec("msg", (a + c) as usize);
    let a = a as usize;
    let mut used = AnyHash::new(b, l);
    if how & 1 != 0 {
        // a hash object that was used before
        used.write(&[1, 2, 3]);
    }
    let mut h = match HMAC::new(k.clone(), used) {
        Ok(h) => h,
        Err(_) => return check(false, "suitable hash is accepted"),
    };
    check(h.bits_len() == 8 * l && h.block_size() == Some(b), "sizes are the hash function's");
    h.write(&m[..a]);
    h.write(&m[a..]);
    let e = hmac(b, l, &k, &m);
    check(same(&tag(&mut h), &e), "tag equals RFC 2104");
    check(same(&tag(&mut h), &e), "asking again gives the same tag");
    let m2 = sym_vec("next", 5);
    let e2 = hmac(b, l, &k, &m2);
    if how & 1 != 0 {
        h.write(&m2[..2]);
        h.write(&m2[2..]);
        check(same(&tag(&mut h), &e2), "the next message is independent of the previous one");
    }
    if how & 2 != 0 {
        if how & 8 != 0 {
            h.write(&m);
        }
        h.reset();
        h.write(&m2);
        check(same(&tag(&mut h), &e2), "after a reset the key alone remains");
        h.reset();
        check(same(&tag(&mut h), &hmac(b, l, &k, &[])), "empty message after a reset");
    }
    if how & 4 != 0 {
        if how & 8 != 0 {
            h.write(&m);
        }
        let nk = sym_vec("newkey", k2 as usize);
        h.set_key(nk.clone());
        h.write(&m2);
        check(same(&tag(&mut h), &hmac(b, l, &nk, &m2)), "a new key replaces the old one entirely");
        h.set_key(k.clone());
        check(same(&tag(&mut h), &hmac(b, l, &k, &[])), "a new key replaces the old one entirely");
    }
    reach(0);
}
#[no_mangle]
pub extern "C-unwind" fn m_hmac_empty(b: u64, l: u64, kl: u64) {
    let k = sym_vec("key", kl as usize);
    let (b, l) = (b as usize, l as usize);
    if let Ok(mut h) = HMAC::new(k.clone(), AnyHash::new(b, l)) {
        check(same(&tag(&mut h), &hmac(b, l, &k, &[])), "tag of the empty message");
    } else {
        check(false, "suitable hash is accepted");
    }
    check(HMAC::new(k.clone(), AnyHash::new(0, l)).is_err(), "hash without block size is refused");
    check(HMAC::new(k.clone(), AnyHash::new(b, b + 1)).is_err(), "output longer than the block is refused");
    reach(0);
}

/// an arbitrary block cipher with block size b
#[derive(Clone)]
pub struct AnyCipher {
    pub b: usize,
}
pub fn enc(x: &[u8]) -> Vec<u8> {
    let mut o = vec![0; x.len()];
    perm(3, 0, x, &mut o);
    o
}
pub fn dec(x: &[u8]) -> Vec<u8> {
    let mut o = vec![0; x.len()];
    perm(3, 1, x, &mut o);
    o
}
impl Cipher for AnyCipher {
    type Output = usize;
    fn block_size(&self) -> Option<usize> {
        Some(self.b)
    }
    fn encrypt(&self, dst: &mut Vec<u8>, x: &[u8]) -> Result<usize, CryptoError> {
        if x.len() != self.b {
            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "block"));
        }
        *dst = enc(x);
        Ok(x.len())
    }
    fn decrypt(&self, dst: &mut Vec<u8>, x: &[u8]) -> Result<usize, CryptoError> {
        if x.len() != self.b {
            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "block"));
        }
        *dst = dec(x);
        Ok(x.len())
    }
}
/// multiplication by x in GF(2^64) / GF(2^128) (and the other block sizes' fields)
fn dbl(x: &[u8]) -> Vec<u8> {
    let n = x.len();
    let rb: u32 = match n {
        8 => 0x1b,
        16 => 0x87,
        _ => 0,
    };
    let mut o = vec![0; n];
    for i in 0..n {
        o[i] = (x[i] << 1) | if i + 1 < n { x[i + 1] >> 7 } else { 0 };
    }
    if x[0] >> 7 == 1 {
        for i in 0..4 {
            o[n - 1 - i] ^= (rb >> (8 * i)) as u8;
        }
    }
    o
}
fn cmac(b: usize, m: &[u8]) -> Vec<u8> {
    let l = enc(&vec![0; b]);
    let k1 = dbl(&l);
    let k2 = dbl(&k1);
    let n = if m.is_empty() { 1 } else { (m.len() + b - 1) / b };
    let mut c = vec![0; b];
    for i in 0..n {
        let mut x = vec![0; b];
        let part = &m[i * b..((i + 1) * b).min(m.len())];
        x[..part.len()].copy_from_slice(part);
        if i == n - 1 {
            let k = if part.len() == b { &k1 } else { &k2 };
            if part.len() < b {
                x[part.len()] = 0x80;
            }
            for j in 0..b {
                x[j] ^= k[j];
            }
        }
        for j in 0..b {
            x[j] ^= c[j];
        }
        c = enc(&x);
    }
    c
}
/// message in three pieces; again; next message directly or after a reset (possibly mid-way)
#[no_mangle]
pub extern "C-unwind" fn m_cmac(b: u64, x: u64, y: u64, z: u64, n2: u64) {
    let b = b as usize;
    let (x, y) = (x as usize, y as usize);
    let m = sym_vec("msg", x + y + z as usize);
    let m2 = sym_vec("next", n2 as usize);
    check(CMAC::<AnyCipher>::is_support(&AnyCipher { b }), "block size is supported");
    let mut h = match CMAC::new(AnyCipher { b }) {
        Ok(h) => h,
        Err(_) => return check(false, "block size is supported"),
    };
    check(h.bits_len() == 8 * b && h.block_size() == Some(b), "sizes are the cipher's");
    h.write(&m[..x]);
    h.write(&m[x..x + y]);
    h.write(&m[x + y..]);
    let e = cmac(b, &m);
    check(same(&tag(&mut h), &e), "tag equals SP 800-38B");
    check(same(&tag(&mut h), &e), "asking again gives the same tag");
    let e2 = cmac(b, &m2);
    if n2 > 0 {
        h.write(&m2);
        check(same(&tag(&mut h), &e2), "the next message is independent of the previous one");
        h.write(&m);
    }
    h.reset();
    h.write(&m2);
    check(same(&tag(&mut h), &e2), "after a reset the key alone remains");
    reach(0);
}
#[no_mangle]
pub extern "C-unwind" fn m_cmac_bad(b: u64) {
    let c = AnyCipher { b: b as usize };
    check(!CMAC::<AnyCipher>::is_support(&c), "unsupported block size is reported");
    check(CMAC::new(c).is_err(), "unsupported block size is refused");
    reach(0);
}
