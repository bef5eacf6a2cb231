//! Contracts of the block cipher modes over an arbitrary block cipher.
use crate::macs::{dec, enc, AnyCipher};
use crate::rt::*;
use rcrypto::cipher_mode::*;
use rcrypto::*;

/// the padding kinds: 0 none, 1 the crate's default, 2 a foreign one of more than a block
#[derive(Clone)]
pub enum AnyPad {
    Empty(EmptyPadding),
    Default(DefaultPadding<AnyCipher>),
    Two(usize),
}
impl AnyPad {
    fn new(kind: u64, b: usize) -> Self {
        match kind {
            0 => AnyPad::Empty(EmptyPadding::new()),
            1 => AnyPad::Default(DefaultPadding::new(&AnyCipher { b })),
            _ => AnyPad::Two(b),
        }
    }
}
impl Padding for AnyPad {
    fn padding(&self, buf: &mut Vec<u8>) {
        match self {
            AnyPad::Empty(p) => p.padding(buf),
            AnyPad::Default(p) => p.padding(buf),
            AnyPad::Two(b) => *buf = pad(2, *b, buf),
        }
    }
    fn unpadding(&self, buf: &mut Vec<u8>) -> Result<usize, CryptoError> {
        match self {
            AnyPad::Empty(p) => p.unpadding(buf),
            AnyPad::Default(p) => p.unpadding(buf),
            AnyPad::Two(_) => Err(CryptoError::new(CryptoErrorKind::UnpaddingNotMatch, "unused")),
        }
    }
}
/// initial vectors in a given order
#[derive(Clone)]
pub struct AnyIv {
    ivs: Vec<Vec<u8>>,
    n: usize,
}
impl InitialVec<AnyCipher> for AnyIv {
    fn initial_vec(&mut self, iv: &mut Vec<u8>) -> Result<(), CryptoError> {
        if self.n < self.ivs.len() {
            *iv = self.ivs[self.n].clone();
            self.n += 1;
            Ok(())
        } else {
            Err(CryptoError::new(CryptoErrorKind::RandError, "no more vectors"))
        }
    }
}

// ---- SP 800-38A ----
pub const ECB_: u64 = 0;
pub const CBC_: u64 = 1;
pub const CFB_: u64 = 2;
pub const OFB_: u64 = 3;
pub const CTR_: u64 = 4;

fn pad(kind: u64, b: usize, rest: &[u8]) -> Vec<u8> {
    let mut r = rest.to_vec();
    if kind == 0 {
        return r;
    }
    r.push(0x80);
    while r.len() % b != 0 {
        r.push(0);
    }
    if kind == 2 {
        for i in 0..b {
            r.push(i as u8);
        }
    }
    r
}
fn unit(mode: u64, b: usize, s: usize) -> usize {
    if mode == CFB_ {
        s
    } else {
        b
    }
}
/// the message the mode works on: whole units, then the padded rest
fn padded(mode: u64, b: usize, s: usize, pk: u64, m: &[u8]) -> Option<Vec<u8>> {
    if mode == OFB_ || mode == CTR_ {
        return Some(m.to_vec());
    }
    let u = unit(mode, b, s);
    let k = m.len() / u * u;
    let mut r = m[..k].to_vec();
    r.extend(pad(pk, b, &m[k..]));
    if r.len() % u != 0 {
        None
    } else {
        Some(r)
    }
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b.iter()).map(|(x, y)| x ^ y).collect()
}
/// the next counter value, byte by byte with carry (b_inc shows that this is adding one)
fn inc(v: &[u8]) -> Vec<u8> {
    let mut o = v.to_vec();
    let mut c = 1u8;
    for i in (0..o.len()).rev() {
        let (x, y) = o[i].overflowing_add(c);
        o[i] = x;
        c = y as u8;
    }
    o
}
/// counter value plus k modulo its width
fn count(v: &[u8], k: u64) -> Vec<u8> {
    let mut o = v.to_vec();
    for _ in 0..k {
        o = inc(&o);
    }
    o
}
#[no_mangle]
pub extern "C-unwind" fn b_inc(n: u64) {
    let v = sym_vec("value", n as usize);
    let (mut x, mut y) = (0u128, 0u128);
    for &e in &v {
        x = x << 8 | e as u128;
    }
    for &e in &inc(&v) {
        y = y << 8 | e as u128;
    }
    check(y == x.wrapping_add(1) & (!0 >> (128 - 8 * n)), "the byte-wise increment adds one");
    reach(0);
}
/// encryption of a padded message; skip: counter blocks used before
fn mode_enc(mode: u64, b: usize, s: usize, iv: &[u8], p: &[u8], skip: u64) -> Vec<u8> {
    let mut o = vec![];
    let mut prev = iv.to_vec();
    for (i, x) in p.chunks(unit(mode, b, s)).enumerate() {
        match mode {
            ECB_ => o.extend(enc(x)),
            CBC_ => {
                prev = enc(&xor(x, &prev));
                o.extend_from_slice(&prev);
            }
            CFB_ => {
                let c = xor(x, &enc(&prev));
                prev = [&prev[s..], &c].concat();
                o.extend(c);
            }
            OFB_ => {
                prev = enc(&prev);
                o.extend(xor(x, &prev));
            }
            _ => {
                let c = count(iv, skip + i as u64);
                o.extend(xor(x, &enc(&c[c.len() - b..])));
            }
        }
    }
    o
}
/// decryption, padding still in place
fn mode_dec(mode: u64, b: usize, s: usize, iv: &[u8], c: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut prev = iv.to_vec();
    if mode == OFB_ || mode == CTR_ {
        return mode_enc(mode, b, s, iv, c, 0);
    }
    for x in c.chunks(unit(mode, b, s)) {
        match mode {
            ECB_ => o.extend(dec(x)),
            CBC_ => {
                o.extend(xor(&dec(x), &prev));
                prev = x.to_vec();
            }
            _ => {
                o.extend(xor(x, &enc(&prev)));
                prev = [&prev[s..], x].concat();
            }
        }
    }
    o
}
/// length of the message in padded data
fn unpadded_len(b: usize, p: &[u8]) -> Option<usize> {
    for k in 1..=b.min(p.len()) {
        let e = p[p.len() - k];
        if e == 0x80 {
            return Some(p.len() - k);
        }
        if e != 0 {
            return None;
        }
    }
    None
}

// ---- one interface for the crate's modes ----
pub enum Mode {
    Ecb(ECB<AnyCipher, AnyPad>),
    Cbc(CBC<AnyCipher, AnyPad, AnyIv>),
    Cfb(CFB<AnyCipher, AnyPad, AnyIv>),
    Ofb(OFB<AnyCipher, AnyIv>),
    Ctr(CTR<AnyCipher, DefaultCounter>),
}
macro_rules! on {
    ($e:ident, $x:expr, $v:ident => $r:expr) => {
        match $x {
            $e::Ecb($v) => $r,
            $e::Cbc($v) => $r,
            $e::Cfb($v) => $r,
            $e::Ofb($v) => $r,
            $e::Ctr($v) => $r,
        }
    };
}
/// s: segment bytes (CFB), counter bytes (CTR)
fn make(mode: u64, b: usize, s: usize, pk: u64, ivs: &[Vec<u8>]) -> Mode {
    let c = AnyCipher { b };
    let p = AnyPad::new(pk, b);
    let iv = AnyIv { ivs: ivs.to_vec(), n: 0 };
    match mode {
        ECB_ => Mode::Ecb(ECB::new(c, p)),
        CBC_ => Mode::Cbc(CBC::new(c, p, iv).ok().unwrap()),
        CFB_ => Mode::Cfb(CFB::new(c, p, iv, 8 * s).ok().unwrap()),
        OFB_ => Mode::Ofb(OFB::new(c, iv).ok().unwrap()),
        _ => Mode::Ctr(CTR::new(c, DefaultCounter::new(ivs[0].clone(), 8 * s).ok().unwrap()).ok().unwrap()),
    }
}
impl Mode {
    fn encrypt(&self, m: &[u8]) -> Option<Vec<u8>> {
        let mut d = vec![7u8; 3];
        match on!(Mode, self, x => x.encrypt(&mut d, m)) {
            Ok(n) => {
                check(n == d.len(), "returned length is the number of bytes produced");
                Some(d)
            }
            Err(_) => None,
        }
    }
    fn decrypt(&self, m: &[u8]) -> Option<Vec<u8>> {
        let mut d = vec![7u8; 3];
        match on!(Mode, self, x => x.decrypt(&mut d, m)) {
            Ok(n) => {
                check(n == d.len(), "returned length is the number of bytes produced");
                Some(d)
            }
            Err(_) => None,
        }
    }
    fn copy(&self) -> Mode {
        match self {
            Mode::Ecb(x) => Mode::Ecb(x.clone()),
            Mode::Cbc(x) => Mode::Cbc(x.clone()),
            Mode::Cfb(x) => Mode::Cfb(x.clone()),
            Mode::Ofb(x) => Mode::Ofb(x.clone()),
            Mode::Ctr(x) => Mode::Ctr(x.clone()),
        }
    }
    fn enc_stream(self) -> Enc {
        match self {
            Mode::Ecb(x) => Enc::Ecb(x.encrypt_stream()),
            Mode::Cbc(x) => Enc::Cbc(x.encrypt_stream()),
            Mode::Cfb(x) => Enc::Cfb(x.encrypt_stream()),
            Mode::Ofb(x) => Enc::Ofb(x.encrypt_stream()),
            Mode::Ctr(x) => Enc::Ctr(x.encrypt_stream()),
        }
    }
    fn dec_stream(self) -> Dec {
        match self {
            Mode::Ecb(x) => Dec::Ecb(x.decrypt_stream()),
            Mode::Cbc(x) => Dec::Cbc(x.decrypt_stream()),
            Mode::Cfb(x) => Dec::Cfb(x.decrypt_stream()),
            Mode::Ofb(x) => Dec::Ofb(x.decrypt_stream()),
            Mode::Ctr(x) => Dec::Ctr(x.decrypt_stream()),
        }
    }
}
pub enum Enc {
    Ecb(ECBEncrypt<AnyCipher, AnyPad>),
    Cbc(CBCEncrypt<AnyCipher, AnyPad, AnyIv>),
    Cfb(CFBEncrypt<AnyCipher, AnyPad, AnyIv>),
    Ofb(OFBEncrypt<AnyCipher, AnyIv>),
    Ctr(CTREncrypt<AnyCipher, DefaultCounter>),
}
pub enum Dec {
    Ecb(ECBDecrypt<AnyCipher, AnyPad>),
    Cbc(CBCDecrypt<AnyCipher, AnyPad, AnyIv>),
    Cfb(CFBDecrypt<AnyCipher, AnyPad, AnyIv>),
    Ofb(OFBDecrypt<AnyCipher, AnyIv>),
    Ctr(CTRDecrypt<AnyCipher, DefaultCounter>),
}
fn pond(r: Result<Pond, CryptoError>, draw: bool, out: &mut Vec<u8>) -> bool {
    match r {
        Ok(p) => {
            if draw {
                let k = out.len();
                let n = p.draw_off(out);
                check(out.len() == k + n, "drawn length is the number of bytes appended");
            }
            true
        }
        Err(_) => false,
    }
}
macro_rules! stream {
    ($e:ident) => {
        impl $e {
            fn write(&mut self, m: &[u8], draw: bool, out: &mut Vec<u8>) -> bool {
                on!($e, self, x => pond(x.write(m), draw, out))
            }
            fn finish(&mut self, draw: bool, out: &mut Vec<u8>) -> bool {
                on!($e, self, x => pond(x.finish(), draw, out))
            }
            fn reset(&mut self) {
                on!($e, self, x => x.reset())
            }
            /// a message in pieces; draw: bit i says whether to draw off after piece i
            fn run(&mut self, m: &[u8], cuts: &[usize], draw: u64) -> Option<Vec<u8>> {
                let mut out = vec![];
                let mut k = 0;
                for (i, &c) in cuts.iter().enumerate() {
                    if !self.write(&m[k..k + c], draw >> i & 1 != 0, &mut out) {
                        return None;
                    }
                    k += c;
                }
                if !self.write(&m[k..], draw >> cuts.len() & 1 != 0, &mut out) {
                    return None;
                }
                if self.finish(true, &mut out) {
                    Some(out)
                } else {
                    None
                }
            }
        }
    };
}
stream!(Enc);
stream!(Dec);

fn iv_len(mode: u64, b: usize, s: usize) -> usize {
    if mode == CTR_ {
        s
    } else {
        b
    }
}
fn agree(a: &Option<Vec<u8>>, e: &Option<Vec<u8>>, msg: &str) {
    match (a, e) {
        (Some(x), Some(y)) => check(same(x, y), msg),
        (None, None) => check(true, msg),
        _ => check(false, msg),
    }
}
macro_rules! vectors {
    ($c:ident, $ivs:ident, $l:ident) => {
        check(same(&$c.cur_iv(), &$ivs[0]), "current vector");
        match $c.update_iv() {
            Ok(v) => check(same(v, &$ivs[1]), "next vector of the source"),
            Err(_) => check(false, "next vector of the source"),
        }
        check(same(&$c.cur_iv(), &$ivs[1]), "next vector of the source");
        check($c.set_iv(vec![1; $l + 1]).is_err(), "vector of a wrong length is refused");
        check($c.set_iv(vec![1; $l - 1]).is_err(), "vector of a wrong length is refused");
        check(same(&$c.cur_iv(), &$ivs[1]), "refused vector changes nothing");
        check($c.set_iv($ivs[2].clone()).is_ok(), "vector can be set");
        check(same(&$c.cur_iv(), &$ivs[2]), "vector can be set");
    };
}
/// one-shot encryption of n bytes: right, repeatable, follows the vector; CTR goes on counting
#[no_mangle]
pub extern "C-unwind" fn b_enc(mode: u64, b: u64, s: u64, pk: u64, n: u64) {
    let (b, s, n) = (b as usize, s as usize, n as usize);
    let l = iv_len(mode, b, s);
    let ivs = vec![sym_vec("iv", l), sym_vec("iv2", l), sym_vec("iv3", l)];
    let m = sym_vec("msg", n);
    let x = make(mode, b, s, pk, &ivs);
    let p = padded(mode, b, s, pk, &m);
    let e = |iv: usize, skip: u64| p.as_ref().map(|p| mode_enc(mode, b, s, &ivs[iv], p, skip));
    agree(&x.encrypt(&m), &e(0, 0), "ciphertext is the one of SP 800-38A");
    let used = if mode == CTR_ { (n + b - 1) / b } else { 0 };
    agree(&x.encrypt(&m), &e(0, used as u64), "a repeated call gives the same answer (CTR: goes on counting)");
    agree(&x.copy().encrypt(&m), &e(0, 0), "a copy starts afresh");
    match x {
        Mode::Cbc(mut c) => {
            vectors!(c, ivs, l);
            agree(&Mode::Cbc(c).encrypt(&m), &e(2, 0), "the new vector is used");
        }
        Mode::Cfb(mut c) => {
            vectors!(c, ivs, l);
            agree(&Mode::Cfb(c).encrypt(&m), &e(2, 0), "the new vector is used");
        }
        Mode::Ofb(mut c) => {
            vectors!(c, ivs, l);
            agree(&Mode::Ofb(c).encrypt(&m), &e(2, 0), "the new vector is used");
        }
        Mode::Ctr(mut c) => {
            check(c.set_counter(DefaultCounter::new(ivs[1].clone(), 8 * l).ok().unwrap()).is_ok(), "counter can be replaced");
            agree(&Mode::Ctr(c).encrypt(&m), &e(1, 0), "the new counter is used");
        }
        _ => {}
    }
    reach(0);
}
/// what the constructors refuse; counters of other shapes
#[no_mangle]
pub extern "C-unwind" fn b_new(b: u64) {
    let b = b as usize;
    let c = AnyCipher { b };
    for l in 0..2 * b + 2 {
        let iv = AnyIv { ivs: vec![vec![1; l], vec![2; b]], n: 0 };
        check(CBC::new(c.clone(), EmptyPadding::new(), iv.clone()).is_ok() == (l == b), "vector length");
        check(OFB::new(c.clone(), iv.clone()).is_ok() == (l == b), "vector length");
        check(CFB::new(c.clone(), EmptyPadding::new(), iv.clone(), 8).is_ok() == (l == b), "vector length");
    }
    let none = AnyIv { ivs: vec![], n: 0 };
    check(CBC::new(c.clone(), EmptyPadding::new(), none.clone()).is_err(), "failing vector source");
    check(OFB::new(c.clone(), none.clone()).is_err(), "failing vector source");
    check(CFB::new(c.clone(), EmptyPadding::new(), none, 8).is_err(), "failing vector source");
    for s in 0..16 * b + 10 {
        let iv = AnyIv { ivs: vec![vec![1; b]], n: 0 };
        let ok = s % 8 == 0 && s >= 8 && s <= 8 * b;
        check(CFB::new(c.clone(), EmptyPadding::new(), iv.clone(), s).is_ok() == ok, "segment size");
        if !ok {
            check(CFB::new(c.clone(), DefaultPadding::new(&c), iv, s).is_err(), "segment size");
        }
    }
    for bits in 0..16 * b + 10 {
        let k = DefaultCounter::new(vec![1], bits);
        check(k.is_ok() == (bits > 0), "counter holds its initial value");
        if let Ok(k) = k {
            check(k.bits_len() == bits, "counter width");
            check(CTR::new(c.clone(), k).is_ok() == (bits >= 8 * b), "counter covers the block");
        }
    }
    reach(0);
}
/// decryption of an arbitrary ciphertext of n bytes
#[no_mangle]
pub extern "C-unwind" fn b_dec(mode: u64, b: u64, s: u64, pk: u64, n: u64) {
    let (b, s, n) = (b as usize, s as usize, n as usize);
    let iv = sym_vec("iv", iv_len(mode, b, s));
    let c = sym_vec("cipher", n);
    let x = make(mode, b, s, pk, &[iv.clone()]);
    let stream_mode = mode == OFB_ || mode == CTR_;
    let r = x.decrypt(&c);
    if !stream_mode && n % unit(mode, b, s) != 0 {
        check(r.is_none(), "ciphertext of impossible length is refused");
        return reach(0);
    }
    let p = mode_dec(mode, b, s, &iv, &c);
    if stream_mode || pk == 0 {
        agree(&r, &Some(p), "plaintext is the one of SP 800-38A");
    } else {
        let e = unpadded_len(b, &p).map(|k| p[..k].to_vec());
        agree(&r, &e, "plaintext is the unpadded one of SP 800-38A");
    }
    reach(0);
}
/// decryption inverts encryption, one-shot and streaming, in any combination
#[no_mangle]
pub extern "C-unwind" fn b_inv(mode: u64, b: u64, s: u64, pk: u64, n: u64) {
    let (b, s, n) = (b as usize, s as usize, n as usize);
    let iv = vec![sym_vec("iv", iv_len(mode, b, s))];
    let m = sym_vec("msg", n);
    let r = make(mode, b, s, pk, &iv).encrypt(&m);
    let c = match r {
        Some(c) => c,
        None => {
            check(padded(mode, b, s, pk, &m).is_none(), "an admissible message is encrypted");
            return reach(0);
        }
    };
    agree(&make(mode, b, s, pk, &iv).decrypt(&c), &Some(m.clone()), "decryption inverts encryption");
    let k = c.len() / 2;
    agree(&make(mode, b, s, pk, &iv).dec_stream().run(&c, &[k], 1), &Some(m.clone()), "stream decryption inverts encryption");
    let c2 = make(mode, b, s, pk, &iv).enc_stream().run(&m, &[n / 3], 1);
    match c2 {
        Some(c2) => {
            agree(&make(mode, b, s, pk, &iv).decrypt(&c2), &Some(m.clone()), "decryption inverts stream encryption");
            agree(&make(mode, b, s, pk, &iv).dec_stream().run(&c2, &[c2.len() / 3], 3), &Some(m), "stream decryption inverts stream encryption");
        }
        None => check(false, "an admissible message is encrypted by the stream"),
    }
    reach(0);
}
/// streaming encryption of x+y+z bytes in three writes, then the object is used again
#[no_mangle]
pub extern "C-unwind" fn b_enc_stream(mode: u64, b: u64, s: u64, pk: u64, x: u64, y: u64, z: u64, draw: u64) {
    let (b, s, x, y, z) = (b as usize, s as usize, x as usize, y as usize, z as usize);
    let n = x + y + z;
    let iv = sym_vec("iv", iv_len(mode, b, s));
    let m = sym_vec("msg", n);
    let m2 = sym_vec("next", b + s);
    let e = |m: &[u8], skip: usize| padded(mode, b, s, pk, m).map(|p| mode_enc(mode, b, s, &iv, &p, skip as u64));
    let mut st = make(mode, b, s, pk, &[iv.clone()]).enc_stream();
    let r = st.run(&m, &[x, y], draw);
    agree(&r, &e(&m, 0), "streamed ciphertext equals the one-shot one");
    let blocks = |n: usize| if mode == CTR_ { (n + b - 1) / b } else { 0 };
    let mut used = blocks(n);
    if r.is_some() {
        let k = m2.len() - if draw & 1 != 0 || pk == 0 { 0 } else { 1 };
        if let Some(e2) = e(&m2[..k], used) {
            agree(&st.run(&m2[..k], &[1], draw >> 1), &Some(e2), "the next message starts afresh (CTR: goes on counting)");
            used += blocks(k);
        }
        // finish without drawing off: nothing may leak into the next message
        let mut out = vec![];
        if st.write(&m, draw & 2 != 0, &mut out) && st.finish(false, &mut out) {
            used += blocks(n);
            agree(&st.run(&m, &[], 0), &e(&m, used), "output not drawn off is dropped");
        } else {
            check(false, "same message is accepted again");
        }
    }
    let mut out = vec![];
    st.write(&m2[..b + 1], false, &mut out);
    st.reset();
    agree(&st.run(&m, &[x], draw >> 1), &e(&m, 0), "after a reset the stream starts afresh");
    reach(0);
}
/// streaming decryption of an arbitrary ciphertext in three writes, then the object is used again
#[no_mangle]
pub extern "C-unwind" fn b_dec_stream(mode: u64, b: u64, s: u64, pk: u64, x: u64, y: u64, z: u64, draw: u64) {
    let (b, s, x, y, z) = (b as usize, s as usize, x as usize, y as usize, z as usize);
    let n = x + y + z;
    let iv = sym_vec("iv", iv_len(mode, b, s));
    let c = sym_vec("cipher", n);
    let e = make(mode, b, s, pk, &[iv.clone()]).decrypt(&c);
    let mut st = make(mode, b, s, pk, &[iv.clone()]).dec_stream();
    let r = st.run(&c, &[x, y], draw);
    agree(&r, &e, "streamed plaintext equals the one-shot one");
    if r.is_some() {
        let skip = if mode == CTR_ { (n + b - 1) / b } else { 0 } as u64;
        let e2 = if mode == CTR_ { Some(mode_enc(mode, b, s, &iv, &c, skip)) } else { e.clone() };
        agree(&st.run(&c, &[y], draw >> 1), &e2, "the next message starts afresh (CTR: goes on counting)");
    }
    let mut out = vec![];
    st.write(&[5u8; 64][..2 * b + 1], false, &mut out);
    st.reset();
    agree(&st.run(&c, &[x], draw >> 2), &e, "after a reset the stream starts afresh");
    reach(0);
}
/// the default padding on n bytes, block size b
#[no_mangle]
pub extern "C-unwind" fn b_pad(b: u64, n: u64) {
    let (b, n) = (b as usize, n as usize);
    let m = sym_vec("msg", n);
    let p = DefaultPadding::new(&AnyCipher { b });
    let mut x = m.clone();
    p.padding(&mut x);
    check(same(&x, &pad(1, b, &m)), "0x80 and the zeros up to the next block boundary");
    match p.unpadding(&mut x) {
        Ok(k) => check(k == n && same(&x, &m), "unpadding gives the message back"),
        Err(_) => check(false, "unpadding gives the message back"),
    }
    let mut e = m.clone();
    EmptyPadding::new().padding(&mut e);
    check(same(&e, &m), "the empty padding adds nothing");
    check(EmptyPadding::new().unpadding(&mut e).ok() == Some(n) && same(&e, &m), "the empty padding removes nothing");
    reach(0);
}
/// unpadding of arbitrary data
#[no_mangle]
pub extern "C-unwind" fn b_unpad(b: u64, n: u64) {
    let (b, n) = (b as usize, n as usize);
    let m = sym_vec("data", n);
    let p = DefaultPadding::new(&AnyCipher { b });
    let mut x = m.clone();
    let e = unpadded_len(b, &m);
    match p.unpadding(&mut x) {
        Ok(k) => {
            check(e == Some(k), "only 0x80 and zeros are removed");
            check(x.len() == k && same(&x, &m[..k]), "only 0x80 and zeros are removed");
        }
        Err(_) => {
            check(n % b != 0 || e.is_none(), "well-formed padding is accepted");
            check(same(&x, &m), "refused data is left unchanged");
        }
    }
    reach(0);
}
/// counter of len bytes with an initial value of n bytes; steps from an arbitrary value
#[no_mangle]
pub extern "C-unwind" fn b_counter(len: u64, n: u64, steps: u64) {
    let (len, n) = (len as usize, n as usize);
    let v = sym_vec("initial", n);
    let r = DefaultCounter::new(v.clone(), 8 * len);
    if n > len {
        check(r.is_err(), "initial value wider than the counter is refused");
        return reach(0);
    }
    let mut c = match r {
        Ok(c) => c,
        Err(_) => return check(false, "counter is accepted"),
    };
    check(c.bits_len() == 8 * len, "width");
    let mut full = vec![0; len - n];
    full.extend(v);
    let step = |c: &mut DefaultCounter, k: u64, msg: &str| match c.next() {
        Some(x) => check(same(x, &count(&full, k)), msg),
        None => check(false, msg),
    };
    for k in 0..steps {
        step(&mut c, k, "every step adds one modulo the width");
    }
    c.reset();
    step(&mut c, 0, "a reset returns to the initial value");
    step(&mut c, 1, "every step adds one modulo the width");
    let mut d = c.clone();
    step(&mut d, 0, "a copy starts at the initial value");
    step(&mut c, 2, "every step adds one modulo the width");
    reach(0);
}
/// an arbitrary counter: the cipher sees its values one after the other
struct ListCounter {
    vals: Vec<Vec<u8>>,
    n: usize,
    bits: usize,
}
impl Counter for ListCounter {
    fn reset(&mut self) {
        self.n = 0;
    }
    fn next(&mut self) -> Option<&Vec<u8>> {
        self.n += 1;
        self.vals.get(self.n - 1)
    }
    fn bits_len(&self) -> usize {
        self.bits
    }
}
#[no_mangle]
pub extern "C-unwind" fn b_ctr_any(b: u64, len: u64, n: u64) {
    let (b, len, n) = (b as usize, len as usize, n as usize);
    let m = sym_vec("msg", n);
    let vals: Vec<Vec<u8>> = (0..3).map(|i| sym_vec(["c0", "c1", "c2"][i], len)).collect();
    let ks: Vec<u8> = vals.iter().flat_map(|v| enc(&v[len - b..])).collect();
    let x = CTR::new(AnyCipher { b }, ListCounter { vals, n: 0, bits: 8 * len }).ok().unwrap();
    let mut d = vec![];
    let r = x.encrypt(&mut d, &m);
    if n <= 3 * b {
        check(r.ok() == Some(n) && same(&d, &xor(&m, &ks)), "key stream is the encryption of successive counter values");
        let mut st = x.encrypt_stream();
        let mut out = vec![];
        check(pond(st.write(&m[..n / 2]), true, &mut out) && pond(st.write(&m[n / 2..]), true, &mut out) && pond(st.finish(), true, &mut out), "stream");
        check(same(&out, &xor(&m, &ks)), "key stream is the encryption of successive counter values");
    } else {
        check(r.is_err(), "an exhausted counter is an error");
    }
    reach(0);
}
