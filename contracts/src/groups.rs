//! R05, D01, E01, E02 on concrete values: exhaustive over small rings, fields and curves, and
//! pseudo-random on the real curves. Run natively only (bounded).
use crate::macs::{any_hash, AnyHash};
use crate::rt::*;
use crate::spec::big::{self, Z};
use rcrypto::dsa;
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::{self, CurveP224, CurveP256, CurveParams, EllipticCurve};
use rcrypto::rsa;
use rcrypto::*;
use rmath::bigint::BigInt;
use rmath::rand::{IterSource, Iter, Seed, Source};

/// an unlimited source of words
#[derive(Clone)]
pub struct Lcg {
    s: u64,
    /// words given first
    first: Vec<u32>,
}
impl Source<u32> for Lcg {
    fn gen(&mut self) -> rmath::rand::Result<u32> {
        if !self.first.is_empty() {
            return Ok(self.first.remove(0));
        }
        self.s = self.s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        Ok((self.s >> 32) as u32)
    }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> rmath::rand::Result<()> {
        Ok(())
    }
}
impl IterSource<u32> for Lcg {
    fn iter_mut(&mut self) -> Iter<'_, Self, u32> {
        Iter::new(self)
    }
}
fn lcg(name: &str) -> Lcg {
    Lcg { s: sym_u64(name), first: vec![] }
}
fn next(r: &mut Lcg) -> u64 {
    (r.gen().ok().unwrap() as u64) << 32 | r.gen().ok().unwrap() as u64
}
fn rnd(r: &mut Lcg, m: &Z) -> Z {
    let mut v = vec![];
    for _ in 0..m.len() + 2 {
        v.push(r.gen().ok().unwrap());
    }
    big::rem(&big::trim(v), m)
}

fn b(z: &Z) -> BigInt {
    if z.is_empty() {
        BigInt::from(0u32)
    } else {
        BigInt::from_be_bytes(&big::to_bytes(z))
    }
}
fn bu(x: u64) -> BigInt {
    b(&big::small(x))
}
/// value of a number, None if it is none or negative
fn z(x: &BigInt) -> Option<Z> {
    if x.is_nan() || x.signnum() == Some(-1) {
        return None;
    }
    Some(big::bytes(&x.to_be_bytes()))
}
fn is(x: &BigInt, v: u64) -> bool {
    z(x) == Some(big::small(v))
}
fn pow(mut a: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    a %= m;
    while e > 0 {
        if e & 1 == 1 {
            r = (r as u128 * a as u128 % m as u128) as u64;
        }
        a = (a as u128 * a as u128 % m as u128) as u64;
        e >>= 1;
    }
    r
}
fn inv(a: u64, m: u64) -> Option<u64> {
    let (mut r0, mut r1, mut t0, mut t1) = (m as i128, (a % m) as i128, 0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        let t = (r0 - q * r1, t0 - q * t1);
        r0 = r1;
        t0 = t1;
        r1 = t.0;
        t1 = t.1;
    }
    if r0 == 1 {
        Some(t0.rem_euclid(m as i128) as u64)
    } else {
        None
    }
}
fn is_prime(n: u64) -> bool {
    n >= 2 && (2..).take_while(|i| i * i <= n).all(|i| n % i != 0)
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// R05: a key of the given primes (0 = none) and every residue.
/// how: bit 0 precomputed values, bit 1 blinding, bit 2 exponent modulo the product instead of
/// the least common multiple, bit 3 key copied
#[no_mangle]
pub extern "C-unwind" fn n_rsa(p1: u64, p2: u64, p3: u64, p4: u64, e: u64, how: u64) {
    let ps: Vec<u64> = [p1, p2, p3, p4].iter().cloned().filter(|&p| p > 0).collect();
    let n: u64 = ps.iter().product();
    let prod: u64 = ps.iter().map(|p| p - 1).product();
    let lcm = ps.iter().fold(1, |l, p| l / gcd(l, p - 1) * (p - 1));
    let m = if how & 4 != 0 { prod } else { lcm };
    let d = match inv(e, m) {
        Some(d) if e < n => d,
        _ => {
            check(true, "no such key");
            reach(0);
            return;
        }
    };
    let primes: Vec<BigInt> = ps.iter().map(|&p| bu(p)).collect();
    let key = rsa::PrivateKey::verif_key(&bu(n), &bu(e), &bu(d), &primes, how & 1 != 0).ok().unwrap();
    let key = if how & 8 != 0 { key.clone() } else { key };
    check(key.is_valid().is_ok(), "valid key accepted");
    let mut rd = lcg("seed");
    // blinding factors without inverse, zero, and any
    for c in 0..n {
        let want = pow(c, d, n);
        let x = bu(c);
        if c % 3 == 0 {
            rd.first = vec![0, ps[0] as u32, 1, n as u32 - 1];
        }
        let r = key.decrypt(&x, if how & 2 != 0 { Some(&mut rd) } else { None });
        check(r.is_ok(), "value below the modulus accepted");
        check(is(&r.ok().unwrap(), want), "private operation is the plain exponentiation");
        check(is(&x, c), "input unchanged");
        let y = key.public_key().encrypt(&x);
        check(is(&y, pow(c, e, n)), "public operation");
        let r = key.decrypt_and_check(&y, if how & 2 != 0 { Some(&mut rd) } else { None });
        check(r.is_ok(), "checked private operation accepted");
        check(is(&r.ok().unwrap(), c), "private after public is the identity");
    }
    for c in [n, n + 1, n + 2, 2 * n, 2 * n + 1, 10 * n] {
        check(key.decrypt(&bu(c), if how & 2 != 0 { Some(&mut rd) } else { None }).is_err(), "value not below the modulus refused");
        check(key.decrypt_and_check(&bu(c), None::<&mut Lcg>).is_err(), "value not below the modulus refused");
    }
    reach(0);
}
/// R05: keys that are not valid are told apart
#[no_mangle]
pub extern "C-unwind" fn n_rsa_valid(p1: u64, p2: u64, p3: u64, e: u64) {
    let ps: Vec<u64> = [p1, p2, p3].iter().cloned().filter(|&p| p > 0).collect();
    let n: u64 = ps.iter().product();
    let primes: Vec<BigInt> = ps.iter().map(|&p| bu(p)).collect();
    for d in 1..3 * n {
        for m in [n, n + 2] {
            let k = rsa::PrivateKey::verif_key(&bu(m), &bu(e), &bu(d), &primes, false);
            if let Ok(k) = k {
                let want = m == n && ps.iter().all(|p| e * d % (p - 1) == 1 % (p - 1));
                // for a prime factor 2 every exponent will do
                if ps.iter().all(|&p| p > 2) {
                    check(k.is_valid().is_ok() == want, "key validation");
                }
            }
        }
    }
    reach(0);
}
/// R05: generated keys
#[no_mangle]
pub extern "C-unwind" fn n_rsa_gen(primes: u64, bits: u64) {
    let mut rd = lcg("seed");
    let k = if primes == 2 {
        rsa::PrivateKey::generate_key(bits as usize, 20, &mut rd)
    } else {
        rsa::PrivateKey::generate_multi_prime_key(primes as usize, bits as usize, 20, &mut rd)
    };
    if primes < 2 {
        check(k.is_err(), "less than two primes refused");
        reach(0);
        return;
    }
    if k.is_err() {
        check(bits < 64, "key generated");
        reach(0);
        return;
    }
    let k = k.ok().unwrap();
    check(k.is_valid().is_ok(), "generated key is valid");
    check(k.modulus_len() == (bits as usize + 7) / 8, "modulus length");
    let top = big::shl(&big::small(1), bits as usize);
    for i in 0..6 {
        let x = rnd(&mut rd, &big::shr(&top, 1));
        let x = if i == 0 { big::small(2) } else { x };
        let y = k.public_key().encrypt(&b(&x));
        for blind in [false, true] {
            let r = k.decrypt(&y, if blind { Some(&mut rd) } else { None });
            check(r.is_ok() && z(&r.ok().unwrap()) == Some(x.clone()), "private after public is the identity");
        }
    }
    check(k.decrypt(&b(&top), None::<&mut Lcg>).is_err(), "value not below the modulus refused");
    reach(0);
}

fn dsa_z(l: usize, nbits: usize, m: &[u8]) -> Z {
    let h = any_hash(l, m);
    let v = big::bytes(&h);
    if 8 * l > nbits {
        big::shr(&v, 8 * l - nbits)
    } else {
        v
    }
}
/// D01: domain (p,q,g), private key x, hash of l bytes; all pairs (r,s) up to q+2
#[no_mangle]
pub extern "C-unwind" fn n_dsa(p: u64, q: u64, g: u64, x: u64, l: u64) {
    let l = l as usize;
    let nb = 64 - q.leading_zeros() as usize;
    let y = pow(g, x, p);
    let dp = dsa::DomainParameters::new_uncheck(&bu(p), &bu(q), &bu(g)).ok().unwrap();
    let pk = dsa::PublicKey::new_uncheck(&dp, &bu(y)).ok().unwrap();
    let sk = dsa::PrivateKey::new_uncheck(&pk, &bu(x)).ok().unwrap();
    check(dsa::PrivateKey::new_uncheck(&pk, &bu(q)).is_err() && dsa::PrivateKey::new_uncheck(&pk, &bu(0)).is_err(), "private key out of range refused");
    let m = sym_vec("msg", 5);
    let m2 = sym_vec("msg2", 3);
    let h = |m: &[u8]| {
        let v = dsa_z(l, nb, m);
        (*v.get(0).unwrap_or(&0) as u64 | (*v.get(1).unwrap_or(&0) as u64) << 32) % q
    };
    let valid = |r: u64, s: u64, e: u64| {
        if r == 0 || s == 0 || r >= q || s >= q {
            return false;
        }
        let w = inv(s, q).unwrap();
        let v = pow(g, e * w % q, p) as u128 * pow(y, r * w % q, p) as u128 % p as u128;
        v as u64 % q == r
    };
    let mut signer = dsa::DSA::new_uncheck(AnyHash::new(4, l), lcg("seed"), dsa::KeyPair::from(sk.clone())).ok().unwrap();
    let mut verifier = dsa::DSA::new_uncheck(AnyHash::new(4, l), lcg("seed2"), dsa::KeyPair::from(pk.clone())).ok().unwrap();
    let mut sc = dsa::SignatureContent::new();
    check(verifier.sign(&mut sc, &m).is_err(), "signing without private key refused");
    check(verifier.verify(&dsa::SignatureContent::new(), &m).is_err(), "empty signature refused");
    for i in 0..8 {
        let msg = if i % 2 == 0 { &m } else { &m2 };
        let ok = signer.sign(&mut sc, msg).is_ok();
        check(ok, "message signed");
        let (r, s) = sc.to_bigint();
        let (r, s) = (z(&r).unwrap(), z(&s).unwrap());
        let (r, s) = (*r.get(0).unwrap_or(&0) as u64, *s.get(0).unwrap_or(&0) as u64);
        check(r > 0 && s > 0 && r < q && s < q, "signature in range");
        // some nonce gives r, and s for that nonce is the value of FIPS 186-4
        let good = (1..q).any(|k| pow(g, k, p) % q == r && inv(k, q).unwrap() * ((h(msg) + x * r) % q) % q == s);
        check(good, "signature is the FIPS 186-4 value");
        check(verifier.verify(&sc, msg).is_ok(), "signature verifies");
        check(signer.verify(&sc, msg).is_ok(), "signature verifies with the key pair");
        let other = if i % 2 == 0 { &m2 } else { &m };
        check(verifier.verify(&sc, other).is_ok() == valid(r, s, h(other)), "signature of another message");
    }
    for r in 0..q + 3 {
        for s in 0..q + 3 {
            if q > 300 && (r * 7 + s * 3) % 61 != 0 && r > 2 && s > 2 && r < q - 2 && s < q - 2 {
                continue;
            }
            let c = dsa::SignatureContent::form_bigint(&bu(r), &bu(s));
            check(verifier.verify(&c, &m).is_ok() == valid(r, s, h(&m)), "accepted exactly if the equation holds");
        }
    }
    for (r, s) in [(256 * q, 1), (1, 256 * q), (1 << 40, 1 << 40)] {
        let c = dsa::SignatureContent::form_bigint(&bu(r), &bu(s));
        check(verifier.verify(&c, &m).is_err(), "values far out of range refused");
    }
    reach(0);
}
/// D01: a generated domain and key of the smallest size
#[no_mangle]
pub extern "C-unwind" fn n_dsa_gen(l: u64) {
    let mut rd = lcg("seed");
    let k = dsa::DSA::<AnyHash, Lcg>::l1024_n160_key(&mut rd);
    check(k.is_ok(), "key generated");
    let k = k.ok().unwrap();
    let pk = k.public_key().clone();
    let m = sym_vec("msg", 9);
    let mut s = dsa::DSA::new_uncheck(AnyHash::new(4, l as usize), rd, dsa::KeyPair::from(k)).ok().unwrap();
    let mut v = dsa::DSA::new_uncheck(AnyHash::new(4, l as usize), lcg("seed2"), dsa::KeyPair::from(pk)).ok().unwrap();
    let mut sc = dsa::SignatureContent::new();
    for i in 0..3u8 {
        let mut m = m.clone();
        m[0] = i;
        check(s.sign(&mut sc, &m).is_ok(), "message signed");
        check(v.verify(&sc, &m).is_ok(), "signature verifies");
        m[8] ^= 1;
        check(v.verify(&sc, &m).is_err(), "signature of another message refused");
    }
    reach(0);
}

/// points of y² = x³ - 3x + b over the field of p elements; the point at infinity is (0,0)
struct Small {
    p: u64,
    b: u64,
}
type Pt = (u64, u64);
impl Small {
    fn on(&self, x: u64, y: u64) -> bool {
        (y * y + 3 * x) % self.p == (x * x % self.p * x + self.b) % self.p
    }
    fn points(&self) -> Vec<Pt> {
        let mut v = vec![(0, 0)];
        for x in 0..self.p {
            for y in 0..self.p {
                if self.on(x, y) {
                    v.push((x, y));
                }
            }
        }
        v
    }
    fn add(&self, a: Pt, c: Pt) -> Pt {
        let p = self.p;
        if a == (0, 0) {
            return c;
        }
        if c == (0, 0) {
            return a;
        }
        let l = if a.0 == c.0 {
            if (a.1 + c.1) % p == 0 {
                return (0, 0);
            }
            (3 * a.0 * a.0 + 3 * p - 3) % p * inv(2 * a.1, p).unwrap() % p
        } else {
            (c.1 + p - a.1) * inv(c.0 + p - a.0, p).unwrap() % p
        };
        let x = (l * l + 2 * p - a.0 - c.0) % p;
        (x, (l * (a.0 + p - x) + p - a.1) % p)
    }
    fn mul(&self, a: Pt, k: u64) -> Pt {
        (0..64).rev().fold((0, 0), |r, i| {
            let d = self.add(r, r);
            if k >> i & 1 == 1 {
                self.add(d, a)
            } else {
                d
            }
        })
    }
    fn singular(&self) -> bool {
        let p = self.p;
        (4 * pow(p - 3, 3, p) + 27 * self.b * self.b) % p == 0
    }
}
fn same_pt(r: &(BigInt, BigInt), w: Pt) -> bool {
    is(&r.0, w.0) && is(&r.1, w.1)
}
/// E02: every point, pair of points and scalar on a small curve
#[no_mangle]
pub extern "C-unwind" fn n_curve(p: u64, bb: u64) {
    let c = Small { p, b: bb };
    if c.singular() || bb == 0 {
        check(true, "no such curve");
        reach(0);
        return;
    }
    let pts = c.points();
    let n = pts.len() as u64;
    for x in 0..p {
        for y in 0..p {
            let k = CurveParams::verif_curve(&bu(p), &bu(n), &bu(bb), &bu(1), &bu(1), 8);
            check(k.is_on_curve(&bu(x), &bu(y)) == c.on(x, y), "membership");
        }
    }
    for &a in pts.iter() {
        let k = CurveParams::verif_curve(&bu(p), &bu(n), &bu(bb), &bu(a.0), &bu(a.1), 8);
        let (ax, ay) = (bu(a.0), bu(a.1));
        check(same_pt(&k.double(&ax, &ay), c.add(a, a)), "doubling");
        for &d in pts.iter() {
            check(same_pt(&k.add(&ax, &ay, &bu(d.0), &bu(d.1)), c.add(a, d)), "addition");
        }
        for s in (0..2 * n + 4).chain([255, 256, 257, 65535, 65536, 0xffffff, 0x1000001, 0xffffffff, 0x100000000]) {
            let w = c.mul(a, s);
            check(same_pt(&k.scalar(&ax, &ay, bu(s).as_ref()), w), "scalar multiplication");
            check(same_pt(&k.scalar_base_point(bu(s).as_ref()), w), "base point multiplication");
        }
        check(is(&ax, a.0) && is(&ay, a.1), "inputs unchanged");
    }
    // every representation of every pair of points
    if p <= 13 {
        let k = CurveParams::verif_curve(&bu(p), &bu(n), &bu(bb), &bu(1), &bu(1), 8);
        let reps: Vec<(Pt, [u64; 3])> = pts
            .iter()
            .flat_map(|&a| {
                let c = if a == (0, 0) { vec![(a, [0, 0, 0]), (a, [1, 1, 0])] } else { (1..p).map(|t| (a, [a.0 * t * t % p, a.1 * t * t % p * t % p, t])).collect() };
                c
            })
            .collect();
        for (a, r) in reps.iter() {
            let f = |r: &(BigInt, BigInt, BigInt), w: Pt, msg: &str| {
                let v = |x: &BigInt| z(x).map(|v| *v.get(0).unwrap_or(&0) as u64);
                let (x, y, zz) = (v(&r.0), v(&r.1), v(&r.2));
                check(x.is_some() && y.is_some() && zz.is_some(), msg);
                let (x, y, zz) = (x.unwrap(), y.unwrap(), zz.unwrap());
                if w == (0, 0) {
                    check(zz == 0, msg);
                } else {
                    check(zz % p != 0, msg);
                    let i = inv(zz, p).unwrap();
                    check((x * i % p * i % p, y % p * i % p * i % p * i % p) == w, msg);
                }
            };
            let ar: Vec<BigInt> = r.iter().map(|&x| bu(x)).collect();
            f(&k.verif_double([&ar[0], &ar[1], &ar[2]]), c.add(*a, *a), "doubling of a projective point");
            for (d, t) in reps.iter() {
                let dr: Vec<BigInt> = t.iter().map(|&x| bu(x)).collect();
                f(&k.verif_add([&ar[0], &ar[1], &ar[2]], [&dr[0], &dr[1], &dr[2]]), c.add(*a, *d), "addition of projective points");
            }
        }
    }
    reach(0);
}

/// a curve of FIPS 186-4, appendix D.1.2
struct Big {
    p: Z,
    n: Z,
    b: Z,
    g: (Z, Z),
    bits: usize,
    name: &'static str,
}
type BPt = (Z, Z);
fn fips(c: u64) -> Big {
    match c {
        0 => Big {
            p: big::hex("ffffffffffffffffffffffffffffffff000000000000000000000001"),
            n: big::hex("ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d"),
            b: big::hex("b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4"),
            g: (big::hex("b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21"), big::hex("bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34")),
            bits: 224,
            name: "P-224",
        },
        1 => Big {
            p: big::hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
            n: big::hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
            b: big::hex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
            g: (big::hex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), big::hex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")),
            bits: 256,
            name: "P-256",
        },
        2 => Big {
            p: big::hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"),
            n: big::hex("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
            b: big::hex("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
            g: (
                big::hex("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
                big::hex("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
            ),
            bits: 384,
            name: "P-384",
        },
        _ => Big {
            p: big::sub(&big::shl(&big::small(1), 521), &big::small(1)),
            n: big::hex("01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"),
            b: big::hex("51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00"),
            g: (
                big::hex("00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66"),
                big::hex("011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"),
            ),
            bits: 521,
            name: "P-521",
        },
    }
}
impl Big {
    fn add(&self, a: &BPt, c: &BPt) -> BPt {
        let p = &self.p;
        let o = (vec![], vec![]);
        if *a == o {
            return c.clone();
        }
        if *c == o {
            return a.clone();
        }
        let l = if a.0 == c.0 {
            if big::addm(&a.1, &c.1, p).is_empty() {
                return o;
            }
            let t = big::mulm(&big::small(3), &big::subm(&big::mulm(&a.0, &a.0, p), &big::small(1), p), p);
            big::mulm(&t, &big::inv(&big::add(&a.1, &a.1), p).unwrap(), p)
        } else {
            big::mulm(&big::subm(&c.1, &a.1, p), &big::inv(&big::subm(&c.0, &a.0, p), p).unwrap(), p)
        };
        let x = big::subm(&big::subm(&big::mulm(&l, &l, p), &a.0, p), &c.0, p);
        let y = big::subm(&big::mulm(&l, &big::subm(&a.0, &x, p), p), &a.1, p);
        (x, y)
    }
    fn mul(&self, a: &BPt, k: &Z) -> BPt {
        let mut r = (vec![], vec![]);
        for i in (0..big::bits(k)).rev() {
            r = self.add(&r, &r);
            if big::bit(k, i) {
                r = self.add(&r, a);
            }
        }
        r
    }
    fn neg(&self, a: &BPt) -> BPt {
        (a.0.clone(), big::subm(&vec![], &a.1, &self.p))
    }
}
fn same_big(r: &(BigInt, BigInt), w: &BPt) -> bool {
    z(&r.0).as_ref() == Some(&w.0) && z(&r.1).as_ref() == Some(&w.1)
}
enum Code {
    G(CurveParams),
    A(CurveP224),
    B(CurveP256),
}
/// 0..3 the generic code on the four curves, 4 and 5 the specialised code for P-224 and P-256
fn code(c: u64) -> (Code, Big) {
    match c {
        0 => (Code::G(CurveParams::p224().ok().unwrap()), fips(0)),
        1 => (Code::G(CurveParams::p256().ok().unwrap()), fips(1)),
        2 => (Code::G(CurveParams::p384().ok().unwrap()), fips(2)),
        3 => (Code::G(CurveParams::p521().ok().unwrap()), fips(3)),
        4 => (Code::A(CurveP224::new().ok().unwrap()), fips(0)),
        _ => (Code::B(CurveP256::new().ok().unwrap()), fips(1)),
    }
}
impl Code {
    fn dynamic(&self) -> &dyn EllipticCurve {
        match self {
            Code::G(c) => c,
            Code::A(c) => c,
            Code::B(c) => c,
        }
    }
}
/// E02: domain parameters
#[no_mangle]
pub extern "C-unwind" fn n_params(c: u64) {
    let (k, f) = code(c);
    let k = k.dynamic().curve_params().clone();
    let v = k.verif_params();
    check(z(v[0]) == Some(f.p.clone()), "field order");
    check(z(v[1]) == Some(f.n.clone()), "base point order");
    check(z(v[2]) == Some(f.b.clone()), "coefficient");
    check(z(v[3]) == Some(f.g.0.clone()) && z(v[4]) == Some(f.g.1.clone()), "base point");
    check(k.field_bits_size() == f.bits && k.name() == f.name, "size and name");
    reach(0);
}
/// E02: group law on a real curve at pseudo-random and special points
#[no_mangle]
pub extern "C-unwind" fn n_group(c: u64) {
    let (k, f) = code(c);
    let k = k.dynamic();
    let mut rd = lcg("seed");
    let o: BPt = (vec![], vec![]);
    let (a, e) = (rnd(&mut rd, &f.n), rnd(&mut rd, &f.n));
    let (p, q) = (f.mul(&f.g, &a), f.mul(&f.g, &e));
    let two = f.add(&f.g, &f.g);
    let pts = [o.clone(), f.g.clone(), f.neg(&f.g), two.clone(), p.clone(), f.neg(&p), q.clone(), f.add(&p, &p), f.add(&p, &q)];
    for (i, x) in pts.iter().enumerate() {
        let (x0, x1) = (b(&x.0), b(&x.1));
        if i > 0 {
            check(k.is_on_curve(&x0, &x1), "point on the curve");
            check(!k.is_on_curve(&x0, &b(&big::addm(&x.1, &big::small(1), &f.p))), "point off the curve");
        }
        check(same_big(&k.double(&x0, &x1), &f.add(x, x)), "doubling");
        for y in pts.iter() {
            check(same_big(&k.add(&x0, &x1, &b(&y.0), &b(&y.1)), &f.add(x, y)), "addition");
        }
        check(z(&x0) == Some(x.0.clone()) && z(&x1) == Some(x.1.clone()), "inputs unchanged");
    }
    reach(0);
}
/// E02: multiplication on a real curve; which selects the scalar
#[no_mangle]
pub extern "C-unwind" fn n_scalar(c: u64, which: u64) {
    let (k, f) = code(c);
    let k = k.dynamic();
    let mut rd = lcg("seed");
    let n = &f.n;
    let i = next(&mut rd) as usize % f.bits;
    let one = big::small(1);
    let s = match which {
        0 => big::small(next(&mut rd) % 40),
        1 => big::sub(n, &big::small(1 + next(&mut rd) % 20)),
        2 => big::add(n, &big::small(next(&mut rd) % 20)),
        3 => big::shl(&one, i),
        4 => big::sub(&big::shl(&one, i + 1), &one),
        5 => {
            // long runs
            let j = next(&mut rd) as usize % f.bits;
            big::rem(&big::add(&big::shl(&one, i), &big::sub(&big::shl(&one, j + 3), &big::small(7))), n)
        }
        6 => big::add(&big::mul(n, &big::small(next(&mut rd) % 1000 + 1)), &rnd(&mut rd, n)),
        7 => {
            // few bits, at word boundaries
            let mut s = vec![];
            for _ in 0..3 {
                s = big::add(&s, &big::shl(&one, (next(&mut rd) as usize % (f.bits / 32)) * 32 + (next(&mut rd) % 2) as usize));
            }
            big::rem(&s, n)
        }
        _ => rnd(&mut rd, n),
    };
    let p = f.mul(&f.g, &rnd(&mut rd, &big::small(1 << 40)));
    let sb = b(&s);
    check(same_big(&k.scalar_base_point(sb.as_ref()), &f.mul(&f.g, &s)), "base point multiplication");
    check(same_big(&k.scalar(&b(&p.0), &b(&p.1), sb.as_ref()), &f.mul(&p, &s)), "scalar multiplication");
    check(same_big(&k.scalar(&b(&f.g.0), &b(&f.g.1), sb.as_ref()), &f.mul(&f.g, &s)), "base point multiplication the long way");
    let o = BigInt::from(0u32);
    check(same_big(&k.scalar(&o, &o, sb.as_ref()), &(vec![], vec![])), "multiple of the point at infinity");
    check(z(&sb) == Some(s.clone()), "scalar unchanged");
    reach(0);
}
/// E01: generated keys
#[no_mangle]
pub extern "C-unwind" fn n_ec_key(c: u64, zeros: u64) {
    let (k, f) = code(c);
    let mut rd = lcg("seed");
    // values that are zero or too large come first
    rd.first = match zeros {
        0 => vec![],
        1 => {
            let mut v = vec![0; (f.bits + 31) / 32];
            v[0] = 0x00420000;
            v
        }
        _ => vec![0xffffffff; (f.bits + 31) / 32],
    };
    let k = k.dynamic().curve_params().generate_key(&mut rd);
    check(k.is_ok(), "key generated");
    let k = k.ok().unwrap();
    let v = k.verif_parts();
    let d = z(v[0]);
    check(d.is_some(), "private key is a number");
    let d = d.unwrap();
    check(!d.is_empty() && big::lt(&d, &f.n), "private key in range");
    let q = f.mul(&f.g, &d);
    check(z(v[1]) == Some(q.0) && z(v[2]) == Some(q.1), "public key is its multiple of the base point");
    reach(0);
}
fn ec_e(l: usize, n: &Z, m: &[u8]) -> Z {
    dsa_z(l, big::bits(n), m)
}
fn ec_sig<C: EllipticCurve + Clone>(k: C, f: &Big, l: usize) {
    let mut rd = lcg("seed");
    let n = f.n.clone();
    let d = big::add(&rnd(&mut rd, &big::sub(&n, &big::small(1))), &big::small(1));
    let q = f.mul(&f.g, &d);
    let pk = || elliptic::PublicKey::new_uncheck(&b(&q.0), &b(&q.1));
    let h = || AnyHash::new(4, l);
    let mut signer = ECDSA::new_unchcek(h(), rd.clone(), k.clone(), elliptic::KeyPair::from(elliptic::PrivateKey::new_uncheck(pk(), &b(&d)))).ok().unwrap();
    let mut verifier = ECDSA::new_unchcek(h(), rd.clone(), k.clone(), elliptic::KeyPair::from(pk())).ok().unwrap();
    let valid = |r: &Z, s: &Z, m: &[u8]| {
        if r.is_empty() || s.is_empty() || !big::lt(r, &n) || !big::lt(s, &n) {
            return false;
        }
        let w = big::inv(s, &n).unwrap();
        let u1 = big::mulm(&ec_e(l, &n, m), &w, &n);
        let u2 = big::mulm(r, &w, &n);
        let v = f.add(&f.mul(&f.g, &u1), &f.mul(&q, &u2));
        v != (vec![], vec![]) && big::rem(&v.0, &n) == *r
    };
    let (m, m2) = (sym_vec("msg", 6), sym_vec("msg2", 4));
    let mut sc = dsa::SignatureContent::new();
    check(verifier.sign(&mut sc, &m).is_err(), "signing without private key refused");
    check(verifier.verify(&dsa::SignatureContent::new(), &m).is_err(), "empty signature refused");
    let mut last = vec![];
    for msg in [&m, &m2, &m] {
        check(signer.sign(&mut sc, msg).is_ok(), "message signed");
        let (r, s) = sc.to_bigint();
        let (r, s) = (z(&r).unwrap(), z(&s).unwrap());
        check(valid(&r, &s, msg), "signature satisfies the equation");
        check(verifier.verify(&sc, msg).is_ok(), "signature verifies");
        check(signer.verify(&sc, msg).is_ok(), "signature verifies with the key pair");
        check(last != r, "a nonce of its own");
        last = r;
    }
    let (r, s) = sc.to_bigint();
    let (r, s) = (z(&r).unwrap(), z(&s).unwrap());
    let one = big::small(1);
    let o = vec![];
    let rn = big::add(&r, &n);
    let sn = big::add(&s, &n);
    let neg = big::sub(&n, &s);
    let r1 = big::addm(&r, &one, &n);
    let s1 = big::addm(&s, &one, &n);
    for (r, s) in [(&r, &o), (&o, &s), (&o, &o), (&r, &n), (&n, &s), (&rn, &s), (&r, &sn), (&r, &neg), (&r1, &s), (&r, &s1), (&s, &r), (&one, &one)] {
        let c = dsa::SignatureContent::form_bigint(&b(r), &b(s));
        check(verifier.verify(&c, &m).is_ok() == valid(r, s, &m), "accepted exactly if the equation holds");
    }
    check(verifier.verify(&sc, &m2).is_ok() == valid(&r, &s, &m2), "signature of another message");
    let mut own = ECDSA::auto_generate_key(h(), rd, k).ok().unwrap();
    check(own.sign(&mut sc, &m).is_ok() && own.verify(&sc, &m).is_ok(), "signature with a generated key verifies");
    check(own.verify(&sc, &m2).is_err() || any_hash(l, &m) == any_hash(l, &m2), "signature of another message refused");
    reach(0);
}
/// E01: signatures on a real curve with a hash of l bytes
#[no_mangle]
pub extern "C-unwind" fn n_ecdsa(c: u64, l: u64) {
    let (k, f) = code(c);
    match k {
        Code::G(k) => ec_sig(k, &f, l as usize),
        Code::A(k) => ec_sig(k, &f, l as usize),
        Code::B(k) => ec_sig(k, &f, l as usize),
    }
}
/// E01: all candidate signatures on a small curve of prime order
#[no_mangle]
pub extern "C-unwind" fn n_ecdsa_small(p: u64, bb: u64, l: u64) {
    let l = l as usize;
    let c = Small { p, b: bb };
    let pts = if c.singular() || bb == 0 { vec![] } else { c.points() };
    let n = pts.len() as u64;
    if !is_prime(n) || n < 5 || n == p {
        check(true, "no such curve");
        reach(0);
        return;
    }
    let g = pts[1];
    let nb = 64 - n.leading_zeros() as usize;
    let k = CurveParams::verif_curve(&bu(p), &bu(n), &bu(bb), &bu(g.0), &bu(g.1), 64 - p.leading_zeros() as usize);
    let mut rd = lcg("seed");
    let d = next(&mut rd) % (n - 1) + 1;
    let q = c.mul(g, d);
    let pk = || elliptic::PublicKey::new_uncheck(&bu(q.0), &bu(q.1));
    let h = || AnyHash::new(4, l);
    let mut signer = ECDSA::new_unchcek(h(), rd.clone(), k.clone(), elliptic::KeyPair::from(elliptic::PrivateKey::new_uncheck(pk(), &bu(d)))).ok().unwrap();
    let mut verifier = ECDSA::new_unchcek(h(), rd.clone(), k.clone(), elliptic::KeyPair::from(pk())).ok().unwrap();
    for round in 0..3u8 {
        let m = vec![round, next(&mut rd) as u8];
        let e = {
            let v = dsa_z(l, nb, &m);
            *big::rem(&v, &big::small(n)).get(0).unwrap_or(&0) as u64
        };
        let valid = |r: u64, s: u64| {
            if r == 0 || s == 0 || r >= n || s >= n {
                return false;
            }
            let w = inv(s, n).unwrap();
            let v = c.add(c.mul(g, e * w % n), c.mul(q, r * w % n));
            v != (0, 0) && v.0 % n == r
        };
        let mut sc = dsa::SignatureContent::new();
        // tiny groups may have no signature of this message at all
        let some = (1..n).any(|k| {
            let r = c.mul(g, k).0 % n;
            r != 0 && (e + d * r) % n != 0
        });
        for _ in 0..if some { 4 } else { 0 } {
            check(signer.sign(&mut sc, &m).is_ok(), "message signed");
            let (r, s) = sc.to_bigint();
            let f = |x: &BigInt| z(x).map(|v| *v.get(0).unwrap_or(&0) as u64).unwrap_or(0);
            check(valid(f(&r), f(&s)), "signature satisfies the equation");
            check(verifier.verify(&sc, &m).is_ok(), "signature verifies");
        }
        for r in 0..n + 3 {
            for s in 0..n + 3 {
                let sc = dsa::SignatureContent::form_bigint(&bu(r), &bu(s));
                check(verifier.verify(&sc, &m).is_ok() == valid(r, s), "accepted exactly if the equation holds");
            }
        }
    }
    reach(0);
}
