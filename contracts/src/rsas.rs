//! Contracts of the RSA schemes over an arbitrary trapdoor permutation: modular exponentiation
//! with the key's exponents is replaced by ghost state that answers with arbitrary values below
//! the modulus, the same value for the same argument, and inversely for the other exponent.
//! Everything else of the schemes, including the integer conversions, is the real code.
use crate::macs::{any_hash, AnyHash};
use crate::rt::*;
use rcrypto::rsa::{KeyPair, PrivateKey, PublicKey, SignatureContent, OAEP, PKCS1, PSS};
use rcrypto::sha::{SHA1, SHA224, SHA256, SHA384, SHA512};
use rcrypto::*;
use rmath::bigint::BigInt;
use rmath::rand::{Iter, IterSource, RandErrKind, RandError, Seed, Source};

/// a random source with the given words, exhausted afterwards
#[derive(Clone)]
pub struct Words {
    pub w: Vec<u32>,
    pub i: usize,
}
impl Words {
    pub fn arbitrary(name: &str, n: usize) -> Words {
        Self::of(&sym_vec(name, 4 * n))
    }
    pub fn of(b: &[u8]) -> Words {
        let n = b.len() / 4;
        Words { w: (0..n).map(|i| u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]])).collect(), i: 0 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        for x in self.w.iter() {
            o.extend_from_slice(&x.to_be_bytes());
        }
        o
    }
}
impl Source<u32> for Words {
    fn gen(&mut self) -> rmath::rand::Result<u32> {
        if self.i < self.w.len() {
            self.i += 1;
            unsafe { DRAWN = self.i };
            Ok(self.w[self.i - 1])
        } else {
            Err(RandError::new(RandErrKind::NoNewRandNumberGen, ""))
        }
    }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> rmath::rand::Result<()> {
        Ok(())
    }
}
impl IterSource<u32> for Words {
    fn iter_mut(&mut self) -> Iter<'_, Self, u32> {
        Iter::new(self)
    }
}

/// words taken from the source used last
static mut DRAWN: usize = 0;
fn drawn() -> usize {
    unsafe { DRAWN }
}

struct Call {
    dir: u8,
    x: Vec<u8>,
    y: Vec<u8>,
}
struct Ghost {
    n: Vec<u8>,
    e: BigInt,
    d: BigInt,
    answers: Vec<Vec<u8>>,
    given: usize,
    calls: Vec<Call>,
    too_big: bool,
}
static mut GHOST: Option<Ghost> = None;
#[allow(static_mut_refs)]
fn ghost() -> &'static mut Ghost {
    unsafe { GHOST.as_mut().unwrap() }
}
fn lt(a: &[u8], b: &[u8]) -> bool {
    let (mut l, mut e) = (false, true);
    for i in 0..a.len() {
        l |= e & (a[i] < b[i]);
        e &= a[i] == b[i];
    }
    l
}
fn pad(v: Vec<u8>, k: usize) -> Vec<u8> {
    if v.len() < k {
        let mut o = vec![0; k - v.len()];
        o.extend_from_slice(&v);
        o
    } else {
        v
    }
}
fn power(x: &BigInt, e: &BigInt, n: &BigInt) -> Option<BigInt> {
    let g = ghost();
    let dir = if e == &g.e {
        0
    } else if e == &g.d {
        1
    } else {
        check(false, "exponent is one of the key's");
        0
    };
    check(same(&pad(n.to_be_bytes(), g.n.len()), &g.n), "modulus is the key's");
    let x = pad(x.to_be_bytes(), g.n.len());
    if x.len() > g.n.len() || !lt(&x, &g.n) {
        g.too_big = true;
    }
    for c in g.calls.iter() {
        if c.dir == dir && same(&c.x, &x) {
            return Some(BigInt::from_be_bytes(&c.y));
        }
        if c.dir != dir && same(&c.y, &x) {
            return Some(BigInt::from_be_bytes(&c.x));
        }
    }
    check(g.given < g.answers.len(), "no further RSA operation");
    let y = g.answers[g.given].clone();
    g.given += 1;
    g.calls.push(Call { dir, x, y: y.clone() });
    Some(BigInt::from_be_bytes(&y))
}
/// a modulus of the given bit length
fn modulus(bits: usize, shape: u64) -> Vec<u8> {
    let k = (bits + 7) / 8;
    let top = bits - 8 * (k - 1);
    let mut n: Vec<u8> = (0..k)
        .map(|i| match shape {
            0 => 0xff,
            1 => 0,
            _ => (i * 89 + 41) as u8,
        })
        .collect();
    n[0] &= ((1u32 << top) - 1) as u8;
    n[0] |= 1 << (top - 1);
    n[k - 1] |= 1;
    n
}
/// an arbitrary value below n whose first z bytes are exactly the leading zeros
fn below(name: &str, z: usize, n: &[u8]) -> Vec<u8> {
    let k = n.len();
    let mut v = vec![0u8; z];
    let s = sym_vec(name, k - z);
    v.extend_from_slice(&s);
    if z < k {
        if z == 0 {
            v[0] &= (0xff >> n[0].leading_zeros()) as u8;
        }
        assume(v[z] != 0);
    }
    assume(lt(&v, n));
    v
}
/// arbitrary bytes of which exactly the first z are leading zeros; z = 99: any number of them
fn lead(name: &str, z: usize, n: usize) -> Vec<u8> {
    let mut v = sym_vec(name, n);
    if z != 99 {
        for i in 0..z {
            v[i] = 0;
        }
        if z < n {
            assume(v[z] != 0);
        }
    }
    v
}
fn begin(n: &[u8], answers: Vec<Vec<u8>>) {
    let d = BigInt::from_be_bytes(&[0x5a, 0xa5, 0x77]);
    unsafe {
        GHOST = Some(Ghost { n: n.to_vec(), e: BigInt::from(65537u32), d, answers, given: 0, calls: vec![], too_big: false });
        rmath::verif_hook::EXP = Some(power);
    }
}
/// an earlier use of the object, with one RSA operation of its own
fn before(f: impl FnOnce()) {
    let g = ghost();
    let mut junk = vec![0u8; g.n.len()];
    *junk.last_mut().unwrap() = 0xbc;
    g.answers.insert(0, junk);
    f();
    let g = ghost();
    g.calls.clear();
    g.given = 1;
}
fn end() {
    unsafe {
        rmath::verif_hook::EXP = None;
        GHOST = None;
    }
}
fn public() -> KeyPair {
    let g = ghost();
    KeyPair::from(PublicKey::from_be_bytes(&g.n, &[1, 0, 1]).unwrap())
}
fn private() -> KeyPair {
    let g = ghost();
    let n = BigInt::from_be_bytes(&g.n);
    KeyPair::from(PrivateKey::verif_key(&n, &g.e, &g.d, &vec![], false).unwrap())
}
fn mgf(l: usize, seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut c = 0u32;
    while o.len() < n {
        let mut m = seed.to_vec();
        m.extend_from_slice(&c.to_be_bytes());
        o.extend_from_slice(&any_hash(l, &m));
        c += 1;
    }
    o.truncate(n);
    o
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    (0..a.len()).map(|i| a[i] ^ b[i]).collect()
}

/// EM of an OAEP block into first byte, seed, data block
fn oaep_open(l: usize, em: &[u8]) -> (u8, Vec<u8>, Vec<u8>) {
    let k = em.len();
    let seed = xor(&em[1..1 + l], &mgf(l, &em[1 + l..], l));
    let db = xor(&em[1 + l..], &mgf(l, &seed, k - l - 1));
    (em[0], seed, db)
}
fn oaep_db(l: usize, k: usize, label: &[u8], m: &[u8]) -> Vec<u8> {
    let mut d = any_hash(l, label);
    while d.len() < k - l - 2 - m.len() {
        d.push(0);
    }
    d.push(1);
    d.extend_from_slice(m);
    d
}
fn oaep_block(l: usize, k: usize, label: &[u8], seed: &[u8], m: &[u8]) -> Vec<u8> {
    let db = xor(&oaep_db(l, k, label, m), &mgf(l, seed, k - l - 1));
    let mut em = vec![0];
    em.extend_from_slice(&xor(seed, &mgf(l, &db, l)));
    em.extend_from_slice(&db);
    em
}
/// OAEP encryption; the answer of the public operation has z leading zero bytes
#[no_mangle]
pub extern "C-unwind" fn r_oaep_enc(bits: u64, shape: u64, l: u64, lab: u64, ml: u64, z: u64, how: u64) {
    let (l, ml) = (l as usize, ml as usize);
    let n = modulus(bits as usize, shape);
    let k = n.len();
    let label = sym_vec("label", lab as usize);
    let m = sym_vec("msg", ml);
    let out = below("c", z as usize, &n);
    begin(&n, vec![out.clone(), out.clone()]);
    let rd = Words::arbitrary("rnd", 2 * l + 6);
    let stream = rd.bytes();
    let kp = if how & 1 == 0 { public() } else { private() };
    let first = if how & 2 == 0 { label.clone() } else { vec![9; 3] };
    let mut o = match OAEP::new_uncheck(AnyHash::new(4, l), rd, kp, first, false) {
        Ok(o) => o,
        Err(_) => {
            check(k < 2 * l + 3, "key accepted");
            reach(0);
            return;
        }
    };
    if how & 2 != 0 {
        o.set_label(label.clone());
    }
    let mut c = vec![7u8; 5];
    let r = o.encrypt(&mut c, &m);
    if ml + 2 * l + 2 > k {
        check(r.is_err(), "message too long refused");
        check(ghost().calls.is_empty(), "nothing encrypted");
        reach(0);
        end();
        return;
    }
    check(r.is_ok(), "message encrypted");
    check(ghost().calls.len() == 1 && ghost().calls[0].dir == 0 && !ghost().too_big, "one public operation on a value below the modulus");
    check(same(&ghost().calls[0].x, &oaep_block(l, k, &label, &stream[..l], &m)), "encrypted block is the OAEP encoding with a seed from the random source");
    check(same(&c, &out), "ciphertext is the RSA value in full length");
    reach(0);
    end();
}
/// two messages in a row with the same object
#[no_mangle]
pub extern "C-unwind" fn r_oaep_twice(bits: u64, l: u64, lab: u64, ml: u64, m2: u64) {
    let l = l as usize;
    let n = modulus(bits as usize, 0);
    let k = n.len();
    let label = sym_vec("label", lab as usize);
    let label2 = sym_vec("label2", 2);
    let m = sym_vec("msg", ml as usize);
    let m2 = sym_vec("msg2", m2 as usize);
    let outs = vec![below("c", 0, &n), below("c2", 0, &n)];
    begin(&n, outs.clone());
    let rd = Words::arbitrary("rnd", 2 * l + 6);
    let stream = rd.bytes();
    let mut o = OAEP::new_uncheck(AnyHash::new(4, l), rd, public(), label.clone(), false).ok().unwrap();
    let mut c = vec![];
    check(o.encrypt(&mut c, &m).is_ok(), "first message encrypted");
    check(same(&c, &outs[0]), "first ciphertext");
    o.set_label(label2.clone());
    ghost().calls.clear();
    let at = 4 * drawn();
    check(o.encrypt(&mut c, &m2).is_ok(), "second message encrypted");
    check(same(&ghost().calls[0].x, &oaep_block(l, k, &label2, &stream[at..at + l], &m2)), "second block is the OAEP encoding with a new seed");
    check(same(&c, &outs[1]), "second ciphertext");
    reach(0);
    end();
}
/// OAEP decryption of arbitrary data; the private operation answers with z leading zero bytes
#[no_mangle]
pub extern "C-unwind" fn r_oaep_dec(bits: u64, shape: u64, l: u64, lab: u64, z: u64, cl: u64) {
    let l = l as usize;
    let n = modulus(bits as usize, shape);
    let k = n.len();
    let label = sym_vec("label", lab as usize);
    let c = sym_vec("ct", cl as usize);
    let em = below("em", z as usize, &n);
    begin(&n, vec![em.clone()]);
    let o = OAEP::new_uncheck(AnyHash::new(4, l), Words { w: vec![], i: 0 }, private(), label.clone(), false).ok().unwrap();
    let mut m = vec![7u8; 5];
    if lab == 3 {
        before(|| {
            let _ = o.decrypt(&mut m, &vec![1u8; k]);
        });
    }
    let r = o.decrypt(&mut m, &c);
    if c.len() != k {
        check(r.is_err(), "ciphertext of the wrong length refused");
        reach(0);
        end();
        return;
    }
    if !lt(&c, &n) {
        check(r.is_err(), "ciphertext not below the modulus refused");
        reach(0);
        end();
        return;
    }
    check(ghost().calls.len() == 1 && ghost().calls[0].dir == 1 && same(&ghost().calls[0].x, &c), "one private operation on the ciphertext");
    let (y, _, db) = oaep_open(l, &em);
    let mut want = None;
    if y == 0 && same(&db[..l], &any_hash(l, &label)) {
        for i in l..db.len() {
            if db[i] == 1 {
                want = Some(db[i + 1..].to_vec());
                break;
            }
            if db[i] != 0 {
                break;
            }
        }
    }
    match (r.is_ok(), want) {
        (true, Some(w)) => check(same(&m, &w), "decrypted message"),
        (true, None) => check(false, "malformed block refused"),
        (false, Some(_)) => check(false, "well-formed block accepted"),
        (false, None) => check(true, "malformed block refused"),
    }
    reach(0);
    end();
}
/// a key without private part does not decrypt or sign
#[no_mangle]
pub extern "C-unwind" fn r_public_only(what: u64, bits: u64) {
    let n = modulus(bits as usize, 0);
    let c = sym_vec("ct", n.len());
    begin(&n, vec![]);
    let w = Words::arbitrary("rnd", 20);
    let mut o = vec![];
    let r = match what {
        0 => OAEP::new_uncheck(AnyHash::new(4, 2), w, public(), vec![], false).ok().unwrap().decrypt(&mut o, &c).is_err(),
        1 => PKCS1::new_uncheck(SHA1::new(), w, public(), false).ok().unwrap().decrypt(&mut o, &c).is_err(),
        2 => PKCS1::new_uncheck(SHA1::new(), w, public(), false).ok().unwrap().sign(&mut SignatureContent::new(), &c).is_err(),
        _ => PSS::new_uncheck(AnyHash::new(4, 2), w, public(), None, false).ok().unwrap().sign(&mut SignatureContent::new(), &c).is_err(),
    };
    check(r, "refused without a private key");
    reach(0);
    end();
}
/// PKCS#1 v1.5 encryption; bit i of `zeros` says whether the i-th random byte is zero
#[no_mangle]
pub extern "C-unwind" fn r_pkcs1_enc(bits: u64, shape: u64, ml: u64, z: u64, words: u64, zeros: u64) {
    let n = modulus(bits as usize, shape);
    let k = n.len();
    let m = sym_vec("msg", ml as usize);
    let out = below("c", z as usize, &n);
    begin(&n, vec![out.clone()]);
    let mut s = sym_vec("rnd", 4 * words as usize);
    let mut ps = vec![];
    for i in 0..s.len() {
        if i < 64 && zeros >> i & 1 != 0 {
            s[i] = 0;
        } else {
            assume(s[i] != 0);
            ps.push(s[i]);
        }
    }
    let rd = Words::of(&s);
    let o = match PKCS1::new_uncheck(SHA1::new(), rd, public(), false) {
        Ok(o) => o,
        Err(_) => {
            check(k < 12, "key accepted");
            reach(0);
            return;
        }
    };
    let mut c = vec![7u8; 5];
    let r = o.encrypt(&mut c, &m);
    if m.len() + 11 > k {
        check(r.is_err(), "message too long refused");
        reach(0);
        end();
        return;
    }
    let pl = k - 3 - m.len();
    if ps.len() < pl {
        check(r.is_err(), "exhausted random source reported");
        reach(0);
        end();
        return;
    }
    check(r.is_ok(), "message encrypted");
    check(ghost().calls.len() == 1 && ghost().calls[0].dir == 0, "one public operation");
    let x = &ghost().calls[0].x;
    check(x[0] == 0 && x[1] == 2, "block starts with 00 02");
    let mut nz = true;
    for i in 2..2 + pl {
        nz &= x[i] != 0;
    }
    check(nz, "padding bytes are not zero");
    check(same(&x[2..2 + pl], &ps[..pl]), "padding is drawn from the random source");
    check(x[2 + pl] == 0, "separator");
    check(same(&x[3 + pl..], &m), "message at the end of the block");
    check(same(&c, &out), "ciphertext is the RSA value in full length");
    reach(0);
    end();
}
/// PKCS#1 v1.5 decryption of arbitrary data
#[no_mangle]
pub extern "C-unwind" fn r_pkcs1_dec(bits: u64, shape: u64, z: u64, cl: u64) {
    let n = modulus(bits as usize, shape);
    let k = n.len();
    let c = sym_vec("ct", cl as usize);
    let em = below("em", z as usize, &n);
    begin(&n, vec![em.clone()]);
    let o = PKCS1::new_uncheck(SHA1::new(), Words { w: vec![], i: 0 }, private(), false).ok().unwrap();
    let mut m = vec![7u8; 5];
    if shape == 1 {
        before(|| {
            let _ = o.decrypt(&mut m, &vec![1u8; k]);
        });
    }
    let r = o.decrypt(&mut m, &c);
    if c.len() != k {
        check(r.is_err(), "ciphertext of the wrong length refused");
        reach(0);
        end();
        return;
    }
    if !lt(&c, &n) {
        check(r.is_err(), "ciphertext not below the modulus refused");
        reach(0);
        end();
        return;
    }
    check(ghost().calls.len() == 1 && ghost().calls[0].dir == 1 && same(&ghost().calls[0].x, &c), "one private operation on the ciphertext");
    let mut want = None;
    if em[0] == 0 && em[1] == 2 {
        for i in 2..k {
            if em[i] == 0 {
                if i >= 10 {
                    want = Some(em[i + 1..].to_vec());
                }
                break;
            }
        }
    }
    match (r.is_ok(), want) {
        (true, Some(w)) => check(same(&m, &w), "decrypted message"),
        (true, None) => check(false, "malformed block refused"),
        (false, Some(_)) => check(false, "well-formed block accepted"),
        (false, None) => check(true, "malformed block refused"),
    }
    reach(0);
    end();
}
fn digest<D: Digest>(mut d: D, m: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    d.write(m);
    d.checksum(&mut o);
    o
}
/// AlgorithmIdentifier bytes of the DigestInfo structures (RFC 8017, 9.2 note 1): the object
/// identifiers, from which the lengths follow
const OIDS: [(&[u8], usize); 6] = [
    (&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05], 16),
    (&[0x2b, 0x0e, 0x03, 0x02, 0x1a], 20),
    (&[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x04], 28),
    (&[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01], 32),
    (&[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02], 48),
    (&[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03], 64),
];
fn digest_info(h: usize, hash: &[u8]) -> Vec<u8> {
    let (oid, l) = OIDS[h];
    let mut alg = vec![6, oid.len() as u8];
    alg.extend_from_slice(oid);
    alg.extend_from_slice(&[5, 0]);
    let mut t = vec![0x30, (alg.len() + 4 + l) as u8, 0x30, alg.len() as u8];
    t.extend_from_slice(&alg);
    t.extend_from_slice(&[4, l as u8]);
    t.extend_from_slice(hash);
    t
}
fn pkcs1_block(h: usize, k: usize, m: &[u8]) -> Option<Vec<u8>> {
    let d = match h {
        0 => digest(MD5::new(), m),
        1 => digest(SHA1::new(), m),
        2 => digest(SHA224::new(), m),
        3 => digest(SHA256::new(), m),
        4 => digest(SHA384::new(), m),
        _ => digest(SHA512::new(), m),
    };
    let t = digest_info(h, &d);
    if k < t.len() + 11 {
        return None;
    }
    let mut b = vec![0, 1];
    while b.len() < k - t.len() - 1 {
        b.push(0xff);
    }
    b.push(0);
    b.extend_from_slice(&t);
    Some(b)
}
macro_rules! with_hash {
    ($h:expr, $f:ident, $($a:expr),*) => {
        match $h {
            0 => $f(MD5::new(), $($a),*),
            1 => $f(SHA1::new(), $($a),*),
            2 => $f(SHA224::new(), $($a),*),
            3 => $f(SHA256::new(), $($a),*),
            4 => $f(SHA384::new(), $($a),*),
            _ => $f(SHA512::new(), $($a),*),
        }
    };
}
fn do_sign<D: Digest + 'static>(h: D, used: bool, m: &[u8]) -> Option<Vec<u8>> {
    let mut o = PKCS1::new_uncheck(h, Words { w: vec![], i: 0 }, private(), false).ok().unwrap();
    let mut s = SignatureContent::from(vec![7u8; 5]);
    if used {
        before(|| {
            let _ = o.verify(&SignatureContent::from(vec![1u8; ghost().n.len()]), b"abc");
        });
    }
    match o.sign(&mut s, m) {
        Ok(_) => {
            let v: &[u8] = s.as_ref();
            Some(v.to_vec())
        }
        Err(_) => None,
    }
}
fn do_verify<D: Digest + 'static>(h: D, used: bool, s: &[u8], m: &[u8]) -> bool {
    let mut o = PKCS1::new_uncheck(h, Words { w: vec![], i: 0 }, public(), false).ok().unwrap();
    if used {
        before(|| {
            let _ = o.verify(&SignatureContent::from(vec![1u8; ghost().n.len()]), b"abc");
        });
    }
    o.verify(&SignatureContent::from(s), m).is_ok()
}
/// PKCS#1 v1.5 signature with hash h, verified afterwards
#[no_mangle]
pub extern "C-unwind" fn r_pkcs1_sign(h: u64, bits: u64, shape: u64, ml: u64, z: u64, how: u64) {
    let h = h as usize;
    let n = modulus(bits as usize, shape);
    let k = n.len();
    let m = sym_vec("msg", ml as usize);
    let out = below("s", z as usize, &n);
    begin(&n, vec![out.clone()]);
    let r = with_hash!(h, do_sign, how & 1 != 0, &m);
    match (r, pkcs1_block(h, k, &m)) {
        (Some(s), Some(b)) => {
            check(ghost().calls.len() == 1 && ghost().calls[0].dir == 1, "one private operation");
            check(same(&ghost().calls[0].x, &b), "signed block is 00 01 FF.. 00 DigestInfo");
            check(same(&s, &out), "signature is the RSA value in full length");
            check(with_hash!(h, do_verify, false, &s, &m), "signature verifies");
        }
        (None, None) => check(true, "key too short refused"),
        (Some(_), None) => check(false, "key too short refused"),
        (None, Some(_)) => check(false, "message signed"),
    }
    reach(0);
    end();
}
/// PKCS#1 v1.5 verification of arbitrary data of sl bytes
#[no_mangle]
pub extern "C-unwind" fn r_pkcs1_verify(h: u64, bits: u64, shape: u64, ml: u64, z: u64, sl: u64, zs: u64) {
    let h = h as usize;
    let n = modulus(bits as usize, shape);
    let k = n.len();
    let m = sym_vec("msg", ml as usize);
    let s = lead("sig", zs as usize, sl as usize);
    let mut em = below("em", z as usize, &n);
    let block = pkcs1_block(h, k, &m);
    if let Some(b) = &block {
        // behind the leading byte arbitrary, given as the difference from the encoding
        for i in z as usize + 1..k {
            em[i] ^= b[i];
        }
        assume(em[0] < n[0] || em[1] < n[1]);
    }
    begin(&n, vec![em.clone()]);
    let ok = with_hash!(h, do_verify, ml % 2 == 1, &s, &m);
    let want = match block {
        Some(b) => s.len() == k && lt(&s, &n) && same(&em, &b),
        None => false,
    };
    if ok {
        check(want, "nothing but the exact encoding accepted");
        check(ghost().calls.len() == 1 && ghost().calls[0].dir == 0 && same(&ghost().calls[0].x, &s), "one public operation on the signature");
    } else {
        check(!want, "exact encoding accepted");
    }
    reach(0);
    end();
}
/// a hash without DigestInfo is refused, not a crash
#[no_mangle]
pub extern "C-unwind" fn r_pkcs1_other_hash(ml: u64) {
    let n = modulus(400, 0);
    let m = sym_vec("msg", ml as usize);
    begin(&n, vec![]);
    check(do_sign(AnyHash::new(4, 4), false, &m).is_none(), "unsupported hash refused for signing");
    check(!do_verify(AnyHash::new(4, 4), false, &m, &m), "unsupported hash refused for verification");
    reach(0);
    end();
}
fn pss_hash(l: usize, m: &[u8], salt: &[u8]) -> Vec<u8> {
    let mut x = vec![0; 8];
    x.extend_from_slice(&any_hash(l, m));
    x.extend_from_slice(salt);
    any_hash(l, &x)
}
/// EMSA-PSS-ENCODE
fn pss_block(l: usize, embits: usize, m: &[u8], salt: &[u8]) -> Vec<u8> {
    let el = (embits + 7) / 8;
    let h = pss_hash(l, m, salt);
    let mut db = vec![0; el - l - 2 - salt.len()];
    db.push(1);
    db.extend_from_slice(salt);
    let mut em = xor(&db, &mgf(l, &h, el - l - 1));
    em[0] &= 0xff >> (8 * el - embits);
    em.extend_from_slice(&h);
    em.push(0xbc);
    em
}
/// EMSA-PSS-VERIFY
fn pss_ok(l: usize, embits: usize, m: &[u8], sl: usize, em: &[u8]) -> bool {
    let el = (embits + 7) / 8;
    if em[el - 1] != 0xbc {
        return false;
    }
    let mask = 0xffu8 >> (8 * el - embits);
    if em[0] & !mask != 0 {
        return false;
    }
    let h = &em[el - l - 1..el - 1];
    let mut db = xor(&em[..el - l - 1], &mgf(l, h, el - l - 1));
    db[0] &= mask;
    let p = el - l - sl - 2;
    let mut zero = true;
    for i in 0..p {
        zero &= db[i] == 0;
    }
    if !zero || db[p] != 1 {
        return false;
    }
    same(h, &pss_hash(l, m, &db[p + 1..]))
}
fn pss_salt(l: usize, embits: usize, s: u64) -> (Option<usize>, usize) {
    let el = (embits + 7) / 8;
    match s {
        99 => (None, l),
        0 => (Some(0), if el > l + 2 { el - l - 2 } else { 0 }),
        x => (Some(x as usize), x as usize),
    }
}
/// PSS signature, salt option s (99: default, 0: longest), verified afterwards
#[no_mangle]
pub extern "C-unwind" fn r_pss_sign(bits: u64, shape: u64, l: u64, s: u64, ml: u64, z: u64, how: u64) {
    let l = l as usize;
    let n = modulus(bits as usize, shape);
    let embits = bits as usize - 1;
    let el = (embits + 7) / 8;
    let (opt, sl) = pss_salt(l, embits, s);
    let m = sym_vec("msg", ml as usize);
    let out = below("s", z as usize, &n);
    begin(&n, vec![out.clone()]);
    let words = if how & 2 == 0 { (sl + 3) / 4 + 2 } else { ((sl + 3) / 4).saturating_sub(1) };
    let rd = Words::arbitrary("rnd", words);
    let stream = rd.bytes();
    let o = PSS::new_uncheck(AnyHash::new(4, l), rd, private(), opt, false);
    if el < l + sl + 2 {
        check(o.is_err(), "key too short refused");
        reach(0);
        end();
        return;
    }
    check(o.is_ok(), "key accepted");
    let mut o = o.ok().unwrap();
    check(o.salt_len() == sl, "salt length");
    let mut sig = SignatureContent::from(vec![7u8; 5]);
    if how & 1 != 0 {
        before(|| {
            let _ = o.verify(&SignatureContent::from(vec![1u8; n.len()]), b"abc");
        });
    }
    let r = o.sign(&mut sig, &m);
    if stream.len() < sl {
        check(r.is_err(), "exhausted random source reported");
        reach(0);
        end();
        return;
    }
    check(r.is_ok(), "message signed");
    check(ghost().calls.len() == 1 && ghost().calls[0].dir == 1, "one private operation");
    check(same(&ghost().calls[0].x, &pad(pss_block(l, embits, &m, &stream[..sl]), n.len())), "signed block is the PSS encoding");
    let v: &[u8] = sig.as_ref();
    check(same(v, &out), "signature is the RSA value in full length");
    let mut p = PSS::new_uncheck(AnyHash::new(4, l), Words { w: vec![], i: 0 }, public(), opt, false).ok().unwrap();
    check(p.verify(&sig, &m).is_ok(), "signature verifies");
    reach(0);
    end();
}
/// PSS verification of arbitrary data of gl bytes
#[no_mangle]
pub extern "C-unwind" fn r_pss_verify(bits: u64, shape: u64, l: u64, s: u64, ml: u64, z: u64, gl: u64, zs: u64) {
    let l = l as usize;
    let n = modulus(bits as usize, shape);
    let k = n.len();
    let embits = bits as usize - 1;
    let el = (embits + 7) / 8;
    let (opt, sl) = pss_salt(l, embits, s);
    let m = sym_vec("msg", ml as usize);
    let sig = lead("sig", zs as usize, gl as usize);
    let em = below("em", z as usize, &n);
    begin(&n, vec![em.clone()]);
    let mut p = PSS::new_uncheck(AnyHash::new(4, l), Words { w: vec![], i: 0 }, public(), opt, false).ok().unwrap();
    if ml == 3 {
        before(|| {
            let _ = p.verify(&SignatureContent::from(vec![1u8; k]), b"abc");
        });
    }
    let ok = p.verify(&SignatureContent::from(&sig[..]), &m).is_ok();
    let mut want = sig.len() == k && lt(&sig, &n);
    if want {
        want = (el == k || em[0] == 0) && pss_ok(l, embits, &m, sl, &em[k - el..]);
    }
    if ok {
        check(want, "nothing but a PSS encoding accepted");
        check(ghost().calls.len() == 1 && ghost().calls[0].dir == 0 && same(&ghost().calls[0].x, &sig), "one public operation on the signature");
    } else {
        check(!want, "PSS encoding accepted");
    }
    reach(0);
    end();
}
