//! Contracts of ZUC, 128-EEA3 and 128-EIA3.
use crate::rt::*;
use crate::spec::zuc as sp;
use rcrypto::*;

/// addm is addition modulo 2^31-1 (lemma about the specification's arithmetic)
#[no_mangle]
pub extern "C-unwind" fn z_addm() {
    let (a, b) = (sym_u32("a"), sym_u32("b"));
    assume(a <= 0x7fffffff && b <= 0x7fffffff);
    let c = sp::addm(a, b);
    check(c <= 0x7fffffff, "stays in range");
    let d = a as u64 + b as u64 - c as u64;
    check(d == 0 || d == 0x7fffffff, "congruent modulo 2^31-1");
    check((c == 0) == (a == 0 && b == 0), "zero only for zeros");
    reach(0);
}
/// keystream words; via 0: from_slice, 1: new, 2: set on a used object
#[no_mangle]
pub extern "C-unwind" fn z_stream(n: u64, via: u64) {
    let k = sym::<16>("key");
    let iv = sym::<16>("iv");
    let mut z = match via {
        0 => match ZUC::from_slice(&k, &iv) {
            Ok(z) => z,
            Err(_) => return check(false, "16-byte key and vector are accepted"),
        },
        1 => ZUC::new(k, iv),
        _ => {
            let mut z = ZUC::new([3; 16], [5; 16]);
            z.zuc();
            z.set(k, iv);
            z
        }
    };
    let mut e = sp::Zuc::new(&k, &iv);
    for i in 0..n {
        let w = if i & 1 == 0 { z.zuc() } else { z.next().unwrap_or(0) };
        check(w == e.next(), "keystream word");
    }
    reach(0);
}
#[no_mangle]
pub extern "C-unwind" fn z_bad(kl: u64, il: u64) {
    let k = sym_vec("key", kl as usize);
    let iv = sym_vec("iv", il as usize);
    check(ZUC::from_slice(&k, &iv).is_err(), "wrong length is refused");
    let mut z = ZUC::new([3; 16], [5; 16]);
    let mut y = z.clone();
    check(z.set_slice(&k, &iv).is_err(), "wrong length is refused");
    check(z.zuc() == y.zuc(), "refused parameters leave the state alone");
    if kl != 16 {
        check(ZUCCipher::from_slice(1, 2, true, &k).is_err(), "wrong key length is refused");
        check(ZUCMac::from_slice(1, 2, true, &k).is_err(), "wrong key length is refused");
    }
    reach(0);
}
struct P {
    count: u32,
    bearer: u8,
    dir: bool,
    k: [u8; 16],
}
fn params() -> P {
    P { count: sym_u32("count"), bearer: sym::<1>("bearer")[0], dir: sym::<1>("dir")[0] & 1 == 1, k: sym::<16>("key") }
}
/// data in three pieces, then a reset (or a clone taken at the start) and decryption in other pieces
#[no_mangle]
pub extern "C-unwind" fn z_cipher(a: u64, b: u64, c: u64, how: u64) {
    let p = params();
    let m = sym_vec("data", (a + b + c) as usize);
    let (a, b) = (a as usize, b as usize);
    let mut z = if how & 1 == 0 {
        match ZUCCipher::from_slice(p.count, p.bearer, p.dir, &p.k) {
            Ok(z) => z,
            Err(_) => return check(false, "16-byte key is accepted"),
        }
    } else {
        ZUCCipher::new(p.count, p.bearer, p.dir, p.k)
    };
    let z0 = z.clone();
    let e = sp::eea3(p.count, p.bearer, p.dir, &p.k, &m);
    let mut o = vec![];
    let mut t = vec![1u8, 2];
    for piece in [&m[..a], &m[a..a + b], &m[a + b..]] {
        match z.encrypt(&mut t, piece) {
            Ok(n) => check(n == piece.len(), "reported length is the number of bytes"),
            Err(_) => check(false, "encryption succeeds"),
        }
        o.extend_from_slice(&t);
    }
    check(same(&o, &e), "ciphertext is data xor keystream");
    let d = if how & 2 == 0 {
        z.reset();
        z
    } else {
        z0
    };
    let mut back = vec![];
    for piece in [&o[..b], &o[b..b], &o[b..]] {
        match d.decrypt(&mut t, piece) {
            Ok(n) => check(n == piece.len(), "reported length is the number of bytes"),
            Err(_) => check(false, "decryption succeeds"),
        }
        back.extend_from_slice(&t);
    }
    check(same(&back, &m), "decryption restores the data");
    reach(0);
}
/// tag of a message in three pieces; again; after more input or a reset, of the next message
#[no_mangle]
pub extern "C-unwind" fn z_mac(a: u64, b: u64, c: u64, how: u64) {
    let p = params();
    let m = sym_vec("msg", (a + b + c) as usize);
    let (a, b) = (a as usize, b as usize);
    let mut z = if how & 1 == 0 {
        match ZUCMac::from_slice(p.count, p.bearer, p.dir, &p.k) {
            Ok(z) => z,
            Err(_) => return check(false, "16-byte key is accepted"),
        }
    } else {
        ZUCMac::new(p.count, p.bearer, p.dir, p.k)
    };
    let mut t = vec![1u8];
    if how & 2 != 0 {
        z.write(&m[..a]);
        if how & 4 != 0 {
            z.checksum(&mut t);
        }
        z.reset();
    }
    if m.len() > 0 || how & 1 == 0 {
        z.write(&m[..a]);
        z.write(&m[a..a + b]);
        z.write(&m[a + b..]);
    }
    z.checksum(&mut t);
    let e = sp::eia3(p.count, p.bearer, p.dir, &p.k, &m).to_be_bytes();
    check(same(&t, &e), "tag equals 128-EIA3");
    z.checksum(&mut t);
    check(same(&t, &e), "repeated request returns the same tag");
    reach(0);
}
