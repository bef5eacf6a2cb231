//! Natural numbers in the simplest form: little-endian 32-bit words without leading zeros.
use std::cmp::Ordering;
pub type Z = Vec<u32>;
pub fn trim(mut a: Z) -> Z {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
pub fn small(x: u64) -> Z {
    trim(vec![x as u32, (x >> 32) as u32])
}
pub fn bytes(b: &[u8]) -> Z {
    let mut v = vec![0u32; (b.len() + 3) / 4];
    for (i, &x) in b.iter().rev().enumerate() {
        v[i / 4] |= (x as u32) << (8 * (i % 4));
    }
    trim(v)
}
pub fn hex(s: &str) -> Z {
    let t: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    let mut v = vec![0u32; (t.len() + 7) / 8];
    for (i, &c) in t.iter().rev().enumerate() {
        v[i / 8] |= (c as char).to_digit(16).unwrap() << (4 * (i % 8));
    }
    trim(v)
}
pub fn to_bytes(a: &Z) -> Vec<u8> {
    let mut o = vec![];
    for x in a.iter().rev() {
        o.extend_from_slice(&x.to_be_bytes());
    }
    while o.first() == Some(&0) {
        o.remove(0);
    }
    o
}
pub fn bits(a: &Z) -> usize {
    match a.last() {
        None => 0,
        Some(x) => 32 * a.len() - x.leading_zeros() as usize,
    }
}
pub fn bit(a: &Z, i: usize) -> bool {
    i / 32 < a.len() && a[i / 32] >> (i % 32) & 1 == 1
}
pub fn cmp(a: &Z, b: &Z) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
pub fn lt(a: &Z, b: &Z) -> bool {
    cmp(a, b) == Ordering::Less
}
pub fn add(a: &Z, b: &Z) -> Z {
    let mut v = vec![];
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) + 1 {
        c += *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        v.push(c as u32);
        c >>= 32;
    }
    trim(v)
}
/// a - b, a not smaller
pub fn sub(a: &Z, b: &Z) -> Z {
    let mut v = vec![];
    let mut c = 0i64;
    for i in 0..a.len() {
        c += a[i] as i64 - *b.get(i).unwrap_or(&0) as i64;
        v.push(c as u32);
        c >>= 32;
    }
    trim(v)
}
pub fn mul(a: &Z, b: &Z) -> Z {
    let mut v = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            c += v[i + j] as u64 + a[i] as u64 * b[j] as u64;
            v[i + j] = c as u32;
            c >>= 32;
        }
        v[i + b.len()] = c as u32;
    }
    trim(v)
}
pub fn shr(a: &Z, n: usize) -> Z {
    let mut v = vec![];
    for i in n / 32..a.len() {
        let x = a[i] as u64 | (*a.get(i + 1).unwrap_or(&0) as u64) << 32;
        v.push((x >> (n % 32)) as u32);
    }
    trim(v)
}
pub fn shl(a: &Z, n: usize) -> Z {
    let mut v = vec![0; n / 32];
    let mut c = 0u64;
    for &x in a.iter() {
        c |= (x as u64) << (n % 32);
        v.push(c as u32);
        c >>= 32;
    }
    v.push(c as u32);
    trim(v)
}
/// quotient and remainder, digit by digit in base 2
pub fn divmod(a: &Z, m: &Z) -> (Z, Z) {
    let mut r = a.clone();
    let mut q = small(0);
    if bits(a) >= bits(m) {
        let s = bits(a) - bits(m);
        let mut d = shl(m, s);
        for _ in 0..s + 1 {
            q = shl(&q, 1);
            if !lt(&r, &d) {
                r = sub(&r, &d);
                q = add(&q, &small(1));
            }
            d = shr(&d, 1);
        }
    }
    (q, r)
}
pub fn rem(a: &Z, m: &Z) -> Z {
    let mut r = a.clone();
    if bits(a) >= bits(m) {
        let s = bits(a) - bits(m);
        let mut d = shl(m, s);
        for _ in 0..s + 1 {
            if !lt(&r, &d) {
                r = sub(&r, &d);
            }
            d = shr(&d, 1);
        }
    }
    r
}
pub fn mulm(a: &Z, b: &Z, m: &Z) -> Z {
    rem(&mul(a, b), m)
}
pub fn addm(a: &Z, b: &Z, m: &Z) -> Z {
    rem(&add(a, b), m)
}
pub fn subm(a: &Z, b: &Z, m: &Z) -> Z {
    rem(&sub(&add(a, m), &rem(b, m)), m)
}
pub fn powm(a: &Z, e: &Z, m: &Z) -> Z {
    let mut r = rem(&small(1), m);
    for i in (0..bits(e)).rev() {
        r = mulm(&r, &r, m);
        if bit(e, i) {
            r = mulm(&r, a, m);
        }
    }
    r
}
/// inverse modulo m by the extended Euclidean algorithm
pub fn inv(a: &Z, m: &Z) -> Option<Z> {
    let (mut r0, mut r1) = (m.clone(), rem(a, m));
    let (mut t0, mut t1) = (small(0), small(1));
    while !r1.is_empty() {
        let (q, r) = divmod(&r0, &r1);
        let t = subm(&t0, &mulm(&q, &t1, m), m);
        r0 = r1;
        r1 = r;
        t0 = t1;
        t1 = t;
    }
    if r0 == small(1) {
        Some(rem(&t0, m))
    } else {
        None
    }
}
