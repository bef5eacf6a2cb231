//! Contracts of the Merkle-Damgard hash functions.
use crate::rt::*;
use crate::spec::hash as sp;
use rcrypto::sha::*;
use rcrypto::*;

fn one_shot<D: Digest>(mut d: D, msg: &[u8]) -> Vec<u8> {
    d.write(msg);
    let mut o = vec![];
    d.checksum(&mut o);
    o
}

/// digest of every message of n bytes, written at once, equals the standard
macro_rules! oneshot {
    ($name:ident, $d:expr, $s:ty) => {
        #[no_mangle]
        pub extern "C-unwind" fn $name(n: u64) {
            let m = sym_vec("msg", n as usize);
            let o = one_shot($d, &m);
            let e = sp::hash::<$s>(&m);
            check(same(&o, &e), "digest equals the standard's");
            reach(0);
        }
    };
}
oneshot!(h_md5, MD5::new(), sp::Md5);
oneshot!(h_sha1, SHA1::new(), sp::Sha1);
oneshot!(h_sha224, SHA224::new(), sp::Sha224);
oneshot!(h_sha256, SHA256::new(), sp::Sha256);
oneshot!(h_sm3, SM3::new(), sp::Sm3);
oneshot!(h_sha384, SHA384::new(), sp::Sha384);
oneshot!(h_sha512, SHA512::new(), sp::Sha512);

/// long messages: 2^29+3 bytes (length in bits above 32 bits) and 2^32+5 bytes (length in bytes
/// above 32 bits); the expected digests were computed with OpenSSL
fn long<D: Digest + Clone>(mut d: D, h: u64, far: bool) {
    let chunk: Vec<u8> = (0..1usize << 20).map(|i| ((i * 7) + (i >> 8)) as u8).collect();
    let mut n = 0u64;
    for (k, &l) in [(1u64 << 29) + 3, (1u64 << 32) + 5].iter().enumerate().take(if far { 2 } else { 1 }) {
        while n < l {
            let o = (n & 0xfffff) as usize;
            let m = ((l - n) as usize).min(chunk.len() - o);
            d.write(&chunk[o..o + m]);
            n += m as u64;
        }
        let mut o = vec![];
        d.clone().checksum(&mut o);
        let e: String = o.iter().map(|b| format!("{:02x}", b)).collect();
        check(e == LONG[h as usize][k], "digest of a long message");
    }
}
const LONG: [[&str; 2]; 9] = [
    ["4c8e69474a8ffbe3282b76feb9f0de93", "5043185a6445215984e615185bacbf36"],
    ["49a685d88c03c54abe8d53ff170f30e737cc7630", "8c06a5c0900fdee0afc4eefa57852425a49e2b18"],
    ["54a237b7033281fc03fd50bf7e67a72d98ba2c8c4e38f5741ac52167", "fead4c8b88aa450fbbe8abf271acc978fdbeedf56d8daf946574d7d4"],
    ["bc6891bcc78ef5d12d8e38062a0f3c62de0607127c747c5fa5a36cf50d80ed9b", "9eb3ca23204521e27a779628c11e224c5cdd35c5f2a8258b2ebd1ce091bf36f3"],
    ["714f566459d7e44591ecfe814e69038a4c876d3849f3be4a409fc60c5d0e8393", "7c6e9142b0471b8fb108c9c7a545f2b149c1ba318deed1c051d08954be51da75"],
    [
        "6e955e1b45d5e9b602faee706659427c53a63a68d526f44a34131f2614fcfd015ae89d30f002b6f9df257e558311dc82",
        "4cfb36f14355c3c9717bafc535b1695f4527a26144912366eebe8c1b470611b1fa489c4eac25e1f2c8ec11ef0a31b2ec",
    ],
    [
        "d1c394e7c446c2f89e42850cf52bec1316a306394ebd1fd45057a903eb3fccc03b0c409aeb1894549ff47fbfb28ef3f28c5df29b13b4b9b0ce4119cfd133cfad",
        "1b34e5cc05f384f15e62004e02286f229afd2bbb11100d83d4be2a3ed8d6808fc6556117a1300900157b4230249c06a0f22953b7d4e5eae0bc2aeeaadcf2211b",
    ],
    ["a2dc50e96f10c038368de4a07790278ea2771ad692725948a241f308", "ac91519a51fa4015f572f0a94535128617ddf469aecb39773b83bd71"],
    ["52091c0829a4adb04516c5e9a21dd6942a883a37b83d8c10864b7e51cdb98912", "1275b5f7cc94549cfe3b69dac40a05d1646cc5f50eda48e654e191eef84856ce"],
];

#[no_mangle]
pub extern "C-unwind" fn n_long(h: u64, far: u64) {
    if native() {
        let f = far == 1;
        match h {
            0 => long(MD5::new(), h, f),
            1 => long(SHA1::new(), h, f),
            2 => long(SHA224::new(), h, f),
            3 => long(SHA256::new(), h, f),
            4 => long(SM3::new(), h, f),
            5 => long(SHA384::new(), h, f),
            6 => long(SHA512::new(), h, f),
            7 => long(SHA512T::new(224).unwrap(), h, f),
            _ => long(SHA512T::new(256).unwrap(), h, f),
        }
    }
    reach(0);
}
