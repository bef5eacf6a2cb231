//! Contracts on call histories of the hash functions, and the SHA-512/t family.
use crate::rt::*;
use crate::spec::hash as sp;
use rcrypto::sha::*;
use rcrypto::*;

/// SHA-512/t (via 0), its named truncations (1), through the SHA wrapper (2: by t, 3: named)
#[no_mangle]
pub extern "C-unwind" fn h_sha512t(t: u64, n: u64, via: u64) {
    let m = sym_vec("msg", n as usize);
    let t = t as usize;
    let mut d: Box<dyn Digest> = match (via, t) {
        (0, _) => match SHA512T::new(t) {
            Some(d) => Box::new(d),
            None => return check(false, "admissible t is accepted"),
        },
        (1, 224) => Box::new(SHA512T224::new()),
        (1, _) => Box::new(SHA512T256::new()),
        (2, _) => match SHA::sha512t(t) {
            Some(d) => Box::new(d),
            None => return check(false, "admissible t is accepted"),
        },
        (_, 224) => Box::new(SHA::sha512_224()),
        _ => Box::new(SHA::sha512_256()),
    };
    check(d.bits_len() == t, "digest length is t");
    check(d.block_size() == Some(128), "block size");
    d.write(&m);
    let mut o = vec![3];
    d.checksum(&mut o);
    let e = sp::finish_all(sp::Sha512(sp::iv512t(t)), &m);
    check(same(&o, &sp::take_bits(&e, t)), "digest equals the standard's");
    reach(0);
}
#[no_mangle]
pub extern "C-unwind" fn h_sha512t_bad() {
    let t = sym_u64("t") as usize;
    assume(t > 512);
    check(SHA512T::new(t).is_none(), "t above 512 is refused");
    check(SHA::sha512t(t).is_none(), "t above 512 is refused");
    reach(0);
}

pub trait Dup: Digest {
    fn dup(&self) -> Box<dyn Dup>;
}
impl<T: Digest + Clone + 'static> Dup for T {
    fn dup(&self) -> Box<dyn Dup> {
        Box::new(self.clone())
    }
}
pub fn make(id: u64) -> Box<dyn Dup> {
    match id {
        0 => Box::new(MD5::new()),
        1 => Box::new(SHA1::new()),
        2 => Box::new(SHA224::new()),
        3 => Box::new(SHA256::new()),
        4 => Box::new(SHA384::new()),
        5 => Box::new(SHA512::new()),
        6 => Box::new(SHA512T224::new()),
        7 => Box::new(SHA512T256::new()),
        8 => Box::new(SHA512T::new(333).unwrap()),
        9 => Box::new(SM3::new()),
        10 => Box::new(sha3::SHA224::new()),
        11 => Box::new(sha3::SHA256::new()),
        12 => Box::new(sha3::SHA384::new()),
        13 => Box::new(sha3::SHA512::new()),
        14 => Box::new(sha3::Shake128::new(256)),
        15 => Box::new(sha3::Shake256::new(77)),
        16 => Box::new(sha3::Shake128::new(31).to_raw_shake()),
        17 => Box::new(sha3::Shake256::new(264).to_raw_shake()),
        20 => Box::new(SHA::sha1()),
        21 => Box::new(SHA::sha224()),
        22 => Box::new(SHA::sha256()),
        23 => Box::new(SHA::sha384()),
        24 => Box::new(SHA::sha512()),
        25 => Box::new(SHA::sha512_224()),
        26 => Box::new(SHA::sha512_256()),
        27 => Box::new(SHA::sha512t(333).unwrap()),
        30 => Box::new(sha3::SHA3::sha224()),
        31 => Box::new(sha3::SHA3::sha256()),
        32 => Box::new(sha3::SHA3::sha384()),
        _ => Box::new(sha3::SHA3::sha512()),
    }
}
fn digest(d: &mut Box<dyn Dup>) -> Vec<u8> {
    let mut o = vec![5u8; 3];
    d.checksum(&mut o);
    o
}
/// first write a (lo..=hi), second write 0..=max: same digest as one write
#[no_mangle]
pub extern "C-unwind" fn h_split2(id: u64, lo: u64, hi: u64, max: u64, step: u64) {
    let m = sym_vec("msg", (hi + max) as usize);
    let new = make(id);
    let mut whole: Vec<Option<Vec<u8>>> = vec![];
    for _ in 0..=m.len() {
        whole.push(None);
    }
    for a in lo as usize..=hi as usize {
        let mut x = new.dup();
        x.write(&m[..a]);
        let mut b = 0;
        while b <= max as usize {
            let mut y = x.dup();
            y.write(&m[a..a + b]);
            let got = digest(&mut y);
            if whole[a + b].is_none() {
                let mut z = new.dup();
                z.write(&m[..a + b]);
                whole[a + b] = Some(digest(&mut z));
            }
            check(same(&got, whole[a + b].as_ref().unwrap()), "two writes give the digest of the concatenation");
            b += step as usize;
        }
    }
    reach(0);
}
/// four writes, digest asked twice, reset (after a digest or in the middle), another message
#[no_mangle]
pub extern "C-unwind" fn h_history(id: u64, a: u64, b: u64, c: u64, d: u64, n2: u64, mid: u64) {
    let (a, b, c, d) = (a as usize, b as usize, c as usize, d as usize);
    let m = sym_vec("msg", a + b + c + d);
    let m2 = sym_vec("next", n2 as usize);
    let new = make(id);
    let mut x = new.dup();
    x.write(&m[..a]);
    x.write(&m[a..a + b]);
    x.write(&m[a + b..a + b + c]);
    x.write(&m[a + b + c..]);
    if mid == 0 {
        let mut y = new.dup();
        y.write(&m);
        let e = digest(&mut y);
        check(same(&digest(&mut x), &e), "any split gives the digest of the concatenation");
        check(same(&digest(&mut x), &e), "asking again gives the same digest");
    }
    x.reset();
    check(x.bits_len() == new.bits_len() && x.block_size() == new.block_size(), "reset keeps the parameters");
    let k = n2 as usize / 2;
    x.write(&m2[..k]);
    x.write(&m2[k..]);
    let mut y = new.dup();
    y.write(&m2);
    check(same(&digest(&mut x), &digest(&mut y)), "a reset object behaves like a new one");
    reach(0);
}
/// changing the output length of an extendable-output function
#[no_mangle]
pub extern "C-unwind" fn h_xof_len(id: u64, w1: u64, w2: u64, n: u64) {
    let m = sym_vec("msg", n as usize);
    fn go<D: DigestXOF + Clone>(mut x: D, mut y: D, w2: usize, m: &[u8]) {
        x.write(m);
        let mut o = vec![];
        x.checksum(&mut o);
        x.set_digest_len(w2);
        check(x.bits_len() == w2, "length is the new one");
        x.write(m);
        let mut p = vec![];
        x.checksum(&mut p);
        y.write(m);
        y.checksum(&mut o);
        check(same(&p, &o), "behaves like a new object of that length");
    }
    let (w1, w2) = (w1 as usize, w2 as usize);
    match id {
        14 => go(sha3::Shake128::new(w1), sha3::Shake128::new(w2), w2, &m),
        15 => go(sha3::Shake256::new(w1), sha3::Shake256::new(w2), w2, &m),
        16 => go(sha3::Shake128::new(w1).to_raw_shake(), sha3::Shake128::new(w2).to_raw_shake(), w2, &m),
        _ => go(sha3::Shake256::new(w1).to_raw_shake(), sha3::Shake256::new(w2).to_raw_shake(), w2, &m),
    }
    reach(0);
}
