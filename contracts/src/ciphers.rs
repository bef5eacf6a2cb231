//! Contracts of the block ciphers.
use crate::rt::*;
use crate::spec::cipher as sp;

/// every key of kl bytes and every block; dir 0 encrypts, 1 decrypts
macro_rules! aes {
    ($name:ident, $bad:ident, $lib:ident) => {
        #[no_mangle]
        pub extern "C-unwind" fn $name(kl: u64, dir: u64) {
            use $lib::Cipher;
            let key = sym_vec("key", kl as usize);
            let b: [u8; 16] = sym("block");
            let c = match $lib::AES::new(key.clone()) {
                Ok(c) => c,
                Err(_) => {
                    check(false, "key of valid length is accepted");
                    return;
                }
            };
            let s = sp::Aes::new(&key);
            let mut o = vec![0xa5u8; 3];
            let r = if dir == 0 { c.encrypt(&mut o, &b) } else { c.decrypt(&mut o, &b) };
            let e = if dir == 0 { s.encrypt(&b) } else { s.decrypt(&b) };
            match r {
                Ok(n) => check(n == 16, "returned length is the block length"),
                Err(_) => check(false, "block of valid length is accepted"),
            }
            check(same(&o, &e), "output equals FIPS 197");
            check(c.block_size() == Some(16), "block size is 16");
            reach(0);
        }
        /// key of kl bytes; block of bl bytes, at least one of the lengths being invalid
        #[no_mangle]
        pub extern "C-unwind" fn $bad(kl: u64, bl: u64) {
            use $lib::Cipher;
            let key = sym_vec("key", kl as usize);
            let b = sym_vec("block", bl as usize);
            match $lib::AES::new(key) {
                Ok(c) => {
                    check(kl == 16 || kl == 24 || kl == 32, "key of invalid length is refused");
                    let mut o = vec![];
                    check(c.encrypt(&mut o, &b).is_err(), "block of invalid length is refused by encryption");
                    check(o.is_empty(), "refused encryption leaves the output alone");
                    check(c.decrypt(&mut o, &b).is_err(), "block of invalid length is refused by decryption");
                    check(o.is_empty(), "refused decryption leaves the output alone");
                }
                Err(_) => check(kl != 16 && kl != 24 && kl != 32, "key of valid length is accepted"),
            }
            reach(0);
        }
    };
}
aes!(c_aes, c_aes_bad, rcrypto);
aes!(c_aes_portable, c_aes_portable_bad, rcrypto_generic);

#[no_mangle]
pub extern "C-unwind" fn c_aes_fixed(kl: u64, dir: u64) {
    use rcrypto::*;
    let b: [u8; 16] = sym("block");
    let key = sym_vec("key", kl as usize);
    let c = match kl {
        16 => {
            let mut k = [0; 16];
            k.copy_from_slice(&key);
            AES::aes_128(k)
        }
        24 => {
            let mut k = [0; 24];
            k.copy_from_slice(&key);
            AES::aes_192(k)
        }
        _ => {
            let mut k = [0; 32];
            k.copy_from_slice(&key);
            AES::aes_256(k)
        }
    };
    let c = c.clone();
    let s = sp::Aes::new(&key);
    let mut o = vec![];
    let r = if dir == 0 { c.encrypt(&mut o, &b) } else { c.decrypt(&mut o, &b) };
    let e = if dir == 0 { s.encrypt(&b) } else { s.decrypt(&b) };
    check(r.is_ok(), "block of valid length is accepted");
    check(same(&o, &e), "output equals FIPS 197");
    reach(0);
}

#[no_mangle]
pub extern "C-unwind" fn c_des(dir: u64) {
    use rcrypto::*;
    let key: [u8; 8] = sym("key");
    let b: [u8; 8] = sym("block");
    let c = DES::new(key);
    let mut o = vec![0xa5u8; 3];
    let r = if dir == 0 { c.encrypt(&mut o, &b) } else { c.decrypt(&mut o, &b) };
    match r {
        Ok(n) => check(n == 8, "returned length is the block length"),
        Err(_) => check(false, "block of valid length is accepted"),
    }
    check(same(&o, &sp::Des::new(&key).crypt(&b, dir != 0)), "output equals FIPS 46-3");
    check(c.block_size() == Some(8), "block size is 8");
    reach(0);
}
#[no_mangle]
pub extern "C-unwind" fn c_tdes(dir: u64) {
    use rcrypto::*;
    let k1: [u8; 8] = sym("key1");
    let k2: [u8; 8] = sym("key2");
    let k3: [u8; 8] = sym("key3");
    let b: [u8; 8] = sym("block");
    let c = TDES::new(k1, k2, k3).clone();
    let mut o = vec![0xa5u8; 3];
    let r = if dir == 0 { c.encrypt(&mut o, &b) } else { c.decrypt(&mut o, &b) };
    match r {
        Ok(n) => check(n == 8, "returned length is the block length"),
        Err(_) => check(false, "block of valid length is accepted"),
    }
    let (d1, d2, d3) = (sp::Des::new(&k1), sp::Des::new(&k2), sp::Des::new(&k3));
    let e = if dir == 0 { d3.crypt(&d2.crypt(&d1.crypt(&b, false), true), false) } else { d1.crypt(&d2.crypt(&d3.crypt(&b, true), false), true) };
    check(same(&o, &e), "output equals SP 800-67");
    check(c.block_size() == Some(8), "block size is 8");
    reach(0);
}
#[no_mangle]
pub extern "C-unwind" fn c_des_bad(bl: u64) {
    use rcrypto::*;
    let key: [u8; 8] = sym("key");
    let b = sym_vec("block", bl as usize);
    let mut o = vec![];
    let c = DES::new(key);
    check(c.encrypt(&mut o, &b).is_err(), "DES encryption refuses a block of invalid length");
    check(c.decrypt(&mut o, &b).is_err(), "DES decryption refuses a block of invalid length");
    let c = TDES::new(key, sym("key2"), sym("key3"));
    check(c.encrypt(&mut o, &b).is_err(), "TDES encryption refuses a block of invalid length");
    check(c.decrypt(&mut o, &b).is_err(), "TDES decryption refuses a block of invalid length");
    check(o.is_empty(), "refused calls leave the output alone");
    reach(0);
}

#[no_mangle]
pub extern "C-unwind" fn c_sm4(dir: u64) {
    use rcrypto::*;
    let key: [u8; 16] = sym("key");
    let b: [u8; 16] = sym("block");
    let c = SM4::new(key);
    let mut o = vec![0xa5u8; 3];
    let r = if dir == 0 { c.encrypt(&mut o, &b) } else { c.decrypt(&mut o, &b) };
    match r {
        Ok(n) => check(n == 16, "returned length is the block length"),
        Err(_) => check(false, "block of valid length is accepted"),
    }
    check(same(&o, &sp::sm4(&key, &b, dir != 0)), "output equals GB/T 32907");
    let mut o2 = vec![];
    match SM4::from_slice(&key) {
        Ok(c) => {
            let c = c.clone();
            let _ = if dir == 0 { c.encrypt(&mut o2, &b) } else { c.decrypt(&mut o2, &b) };
        }
        Err(_) => check(false, "key of valid length is accepted"),
    }
    check(same(&o2, &o), "both constructors agree");
    check(c.block_size() == Some(16), "block size is 16");
    reach(0);
}
#[no_mangle]
pub extern "C-unwind" fn c_sm4_bad(kl: u64, bl: u64) {
    use rcrypto::*;
    let key = sym_vec("key", kl as usize);
    let b = sym_vec("block", bl as usize);
    match SM4::from_slice(&key) {
        Ok(c) => {
            check(kl == 16, "key of invalid length is refused");
            let mut o = vec![];
            check(c.encrypt(&mut o, &b).is_err(), "block of invalid length is refused by encryption");
            check(c.decrypt(&mut o, &b).is_err(), "block of invalid length is refused by decryption");
            check(o.is_empty(), "refused calls leave the output alone");
        }
        Err(_) => check(kl != 16, "key of valid length is accepted"),
    }
    reach(0);
}
