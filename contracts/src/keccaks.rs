//! Contracts of Keccak, SHA-3 and SHAKE.
use crate::rt::*;
use crate::spec::keccak as sp;
use rcrypto::sha3::*;
use rcrypto::*;

/// permutation of width b with nr rounds on every state; `extra` unused leading input bytes
#[no_mangle]
pub extern "C-unwind" fn k_permutation(b: u64, nr: u64, extra: u64) {
    let (b, nr) = (b as usize, nr as usize);
    let n = (b + 7) / 8;
    let d = sym_vec("state", n + extra as usize);
    let mut k = match Keccak::new(b, nr as u32) {
        Ok(k) => k,
        Err(_) => {
            check(false, "valid width is accepted");
            return;
        }
    };
    check(k.widths() == b, "width is kept");
    // bit i of the state is read from the end of the input, most significant bit first
    let mut s = vec![];
    for i in 0..b {
        s.push((d[d.len() - 1 - i / 8] >> (7 - i % 8)) & 1);
    }
    let e = sp::bytes(&sp::permute(&s, nr));
    let mut o = vec![7u8];
    match k.permutation(&d, &mut o) {
        Ok(r) => check(r == b, "reported bit length is the width"),
        Err(_) => check(false, "state of sufficient length is accepted"),
    }
    check(same(&o, &e), "permutation equals Keccak-p");
    let mut o2 = vec![];
    let _ = k.permutation(&d, &mut o2);
    check(same(&o2, &e), "repeated permutation starts from its own input");
    reach(0);
}
/// widths and rates: refused unless valid
#[no_mangle]
pub extern "C-unwind" fn k_params() {
    let b = sym_u64("width") as usize;
    let nr = sym_u32("rounds");
    let valid = b == 25 || b == 50 || b == 100 || b == 200 || b == 400 || b == 800 || b == 1600;
    match Keccak::new(b, nr) {
        Ok(k) => {
            check(valid, "invalid width is refused");
            check(k.widths() == b, "width is kept");
            reach(0);
        }
        Err(_) => {
            check(!valid, "valid width is accepted");
            reach(1);
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn k_rates(b: u64) {
    let b = b as usize;
    let mut try_rate = |rate: usize| {
        let valid = rate > 0 && rate < b;
        if let Ok(k) = Keccak::new(b, 24) {
            check(k.sponge(rate).is_ok() == valid, "rate is accepted exactly when 0 < rate < width");
            check(KeccakSponge::new(k, rate).is_ok() == valid, "rate is accepted exactly when 0 < rate < width");
        }
    };
    for rate in 0..=b.min(60) {
        try_rate(rate);
    }
    for rate in [b - 2, b - 1, b, b + 1, b + 7, 2 * b, 1601, 4096] {
        try_rate(rate);
    }
    reach(0);
}
#[no_mangle]
pub extern "C-unwind" fn k_short(b: u64, n: u64) {
    let d = sym_vec("state", n as usize);
    if let Ok(mut k) = Keccak::new(b as usize, 24) {
        let mut o = vec![];
        check(k.permutation(&d, &mut o).is_err(), "too short a state is refused");
        check(o.is_empty(), "refused permutation leaves the output alone");
    }
    reach(0);
}
/// sponge over width b, nr rounds: message of `bits` bits, output of `want` bits
#[no_mangle]
pub extern "C-unwind" fn k_sponge(b: u64, nr: u64, rate: u64, bits: u64, want: u64) {
    let m = sym_vec("msg", (bits as usize + 7) / 8);
    let k = match Keccak::new(b as usize, nr as u32) {
        Ok(k) => k,
        Err(_) => return check(false, "valid width is accepted"),
    };
    let mut s = match k.sponge(rate as usize) {
        Ok(s) => s,
        Err(_) => return check(false, "valid rate is accepted"),
    };
    let mut o = vec![];
    s.sponge(&m, bits as usize, want as usize, &mut o);
    let n = sp::bits(&m);
    let e = sp::bytes(&sp::sponge(b as usize, nr as usize, rate as usize, &n[..bits as usize], want as usize));
    check(same(&o, &e), "sponge output equals FIPS 202");
    s.sponge(&m, bits as usize, want as usize, &mut o);
    check(same(&o, &e), "repeated sponge call gives the same output");
    reach(0);
}
/// SHA3-t on messages of n bytes; via 0: the type itself, 1: through the SHA3 wrapper
#[no_mangle]
pub extern "C-unwind" fn k_sha3(t: u64, n: u64, via: u64) {
    let m = sym_vec("msg", n as usize);
    fn go<D: Digest>(mut d: D, m: &[u8], t: usize) -> Vec<u8> {
        check(d.bits_len() == t, "digest length is the requested one");
        check(d.block_size() == Some(200 - t / 4), "block size is the rate");
        d.write(m);
        let mut o = vec![9u8];
        d.checksum(&mut o);
        o
    }
    let o = match (t, via) {
        (224, 0) => go(sha3::SHA224::new(), &m, 224),
        (256, 0) => go(sha3::SHA256::new(), &m, 256),
        (384, 0) => go(sha3::SHA384::new(), &m, 384),
        (_, 0) => go(sha3::SHA512::new(), &m, 512),
        (224, _) => go(SHA3::sha224(), &m, 224),
        (256, _) => go(SHA3::sha256(), &m, 256),
        (384, _) => go(SHA3::sha384(), &m, 384),
        _ => go(SHA3::sha512(), &m, 512),
    };
    check(same(&o, &sp::keccak(2 * t as usize, &m, &[0, 1], t as usize)), "digest equals FIPS 202");
    reach(0);
}
/// SHAKE (kind 0) and RawSHAKE (kind 1) of strength t with `want` output bits
#[no_mangle]
pub extern "C-unwind" fn k_shake(t: u64, kind: u64, n: u64, want: u64) {
    let m = sym_vec("msg", n as usize);
    fn go<D: DigestXOF>(mut d: D, m: &[u8], want: usize) -> Vec<u8> {
        check(d.bits_len() == want, "digest length is the requested one");
        d.write(m);
        let mut o = vec![9u8];
        d.checksum(&mut o);
        o
    }
    let w = want as usize;
    let o = match (t, kind) {
        (128, 0) => go(Shake128::new(w), &m, w),
        (128, _) => {
            let d = Shake128::new(w).to_raw_shake();
            check(d.is_raw_shake(), "raw variant is reported");
            go(d, &m, w)
        }
        (_, 0) => go(Shake256::new(w), &m, w),
        _ => go(Shake256::new(w).to_raw_shake(), &m, w),
    };
    let suf: &[u8] = if kind == 0 { &[1, 1, 1, 1] } else { &[1, 1] };
    check(same(&o, &sp::keccak(2 * t as usize, &m, suf, w)), "output equals FIPS 202");
    reach(0);
}
