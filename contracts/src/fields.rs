//! E02: limb arithmetic modulo the P-224 and P-256 primes, for every input within the
//! documented limb bounds.
use crate::rt::*;
use rcrypto::elliptic::{CurveP224, CurveP256};

const P224: [u8; 28] = [
    255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1,
];
const P256: [u8; 32] = [
    255, 255, 255, 255, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
];
const W224: [u32; 8] = [0, 28, 56, 84, 112, 140, 168, 196];
const W256: [u32; 9] = [0, 29, 57, 86, 114, 143, 171, 200, 228];
/// 2^257
const R256: [u8; 33] = [2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
/// its inverse modulo the P-256 prime
const RI256: [u8; 32] = [127, 255, 255, 255, 0, 0, 0, 1, 255, 255, 255, 254, 128, 0, 0, 1, 0, 0, 0, 0, 255, 255, 255, 255, 0, 0, 0, 1, 128, 0, 0, 0];
const A: [&str; 9] = ["a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8"];
const B: [&str; 9] = ["b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8"];

/// field elements between operations: bits of each limb
const E256: [u32; 9] = [30, 29, 30, 29, 30, 29, 30, 29, 29];

/// limbs of the given numbers of bits
fn arg<const N: usize>(names: &[&str; 9], w: &[u32; N]) -> [u32; N] {
    let mut r = [0u32; N];
    for i in 0..N {
        r[i] = limb(w[i], names[i]);
    }
    r
}
fn within(x: &[u32], w: &[u32]) {
    for i in 0..x.len() {
        at_most(x[i], ((1u64 << w[i]) - 1) as u32, "limb of the result within its bound");
    }
}

/// op: 0 product, 1 square, 2 sum, 3 difference, 4.. triple, quadruple, eightfold
#[no_mangle]
pub extern "C-unwind" fn f_p256(op: u64) {
    limbs_ahead();
    let a: [u32; 9] = arg(&A, &E256);
    let b: [u32; 9] = arg(&B, &E256);
    let mut o = [0u32; 9];
    let (x, y) = (Gh::limbs(&a, &W256), Gh::limbs(&b, &W256));
    let want = match op {
        0 => {
            CurveP256::verif_mul(&mut o, &a, &b);
            x * y
        }
        1 => {
            CurveP256::verif_square(&mut o, &a);
            x * x
        }
        2 => {
            CurveP256::verif_add(&mut o, &a, &b);
            x + y
        }
        3 => {
            CurveP256::verif_sub(&mut o, &a, &b);
            x - y
        }
        _ => {
            let k = [3, 4, 8][op as usize - 4];
            o = a;
            CurveP256::verif_times(&mut o, k);
            x * Gh::small(k as u8)
        }
    };
    within(&o, &E256);
    let z = Gh::limbs(&o, &W256);
    let z = if op < 2 { z * Gh::cst(&R256) } else { z };
    (z - want).zero_mod(&P256, "residue of the result");
    reach(0);
}

/// largest limbs of a product modulo the P-224 prime
const M224: [u32; 8] = [(1 << 28) - 1, (1 << 29) - 2, (1 << 29) - 2, (1 << 29) - 2, (1 << 29) - 2, (1 << 28) - 1, (1 << 28) - 1, (1 << 28) - 1];

/// op: 0 product, 1 product with the long factor first, 2 square, 3 sum, 4 difference,
/// 5 reduction
#[no_mangle]
pub extern "C-unwind" fn f_p224(op: u64) {
    limbs_ahead();
    let wa = [29, 30, 29, 30, 30, 31][op as usize];
    let wb = [30, 29, 29, 30, 30, 30][op as usize];
    let mut a: [u32; 8] = arg(&A, &[wa; 8]);
    let b: [u32; 8] = arg(&B, &[wb; 8]);
    if op == 5 {
        for i in 0..8 {
            a[i] += b[i];
        }
    }
    let mut o = [0u32; 8];
    let (x, y) = (Gh::limbs(&a, &W224), Gh::limbs(&b, &W224));
    let (want, m) = match op {
        0 | 1 => {
            CurveP224::verif_mul(&mut o, &a, &b);
            (x * y, M224)
        }
        2 => {
            CurveP224::verif_square(&mut o, &a);
            (x * x, M224)
        }
        3 => {
            CurveP224::verif_add(&mut o, &a, &b);
            (x + y, [(1u32 << 31) - 1; 8])
        }
        4 => {
            CurveP224::verif_sub(&mut o, &a, &b);
            (x - y, [0xffffffffu32; 8])
        }
        _ => {
            o = a;
            CurveP224::verif_reduce(&mut o);
            (x, [(1u32 << 29) - 1; 8])
        }
    };
    for i in 0..8 {
        at_most(o[i], m[i], "limb of the result within its bound");
    }
    let z = Gh::limbs(&o, &W224);
    (z - want).zero_mod(&P224, "residue of the result");
    reach(0);
}

/// unique form: op 0 residue and limbs, 1 below the prime, 2 zero exactly if the zero test
/// says so
#[no_mangle]
pub extern "C-unwind" fn f_p224_zero(op: u64) {
    let a: [u32; 8] = arg(&A, &[29; 8]);
    let mut o = [0u32; 8];
    CurveP224::verif_contract(&mut o, &a);
    if op == 0 {
        check(o.iter().all(|&x| x < 1 << 28), "limb of the result within its bound");
        // halves of 112 bits
        let half = |x: &[u32]| x[0] as u128 + ((x[1] as u128) << 28) + ((x[2] as u128) << 56) + ((x[3] as u128) << 84);
        let (al, ah, ol, oh) = (half(&a[..4]), half(&a[4..]), half(&o[..4]), half(&o[4..]));
        let pl = half(&[1, 0, 0, 0xffff000]);
        let ph = half(&[0xfffffff; 4]);
        let plus = |k: u128| {
            let l = ol + k * pl;
            let m = (1 << 112) - 1;
            (l & m) == (al & m) && oh + k * ph + (l >> 112) == ah + (al >> 112)
        };
        check(plus(0) | plus(1) | plus(2), "residue of the result");
    } else if op == 1 {
        let ones = o[4] & o[5] & o[6] & o[7] == 0xfffffff;
        let low = o[0] | o[1] | o[2] != 0;
        check(!(ones && (o[3] > 0xffff000 || o[3] == 0xffff000 && low)), "result below the prime");
    } else {
        let z = CurveP224::verif_is_zero(&a);
        let zero = o.iter().fold(0, |x, &y| x | y) == 0;
        check(z == zero as u32, "zero test");
    }
    reach(0);
}

// ------------------------------------------------------------------ contracts of callees
/// product behind its contract: f_p256(0)
#[no_mangle]
pub extern "C-unwind" fn k_p256_mul(o: &mut [u32; 9], a: &[u32; 9], b: &[u32; 9]) {
    within(a, &E256);
    within(b, &E256);
    let v = Gh::limbs(a, &W256) * Gh::limbs(b, &W256) * Gh::cst(&RI256);
    for i in 0..9 {
        o[i] = any(E256[i]);
    }
    Gh::limbs(o, &W256).stands_for(v);
}
/// square behind its contract: f_p256(1)
#[no_mangle]
pub extern "C-unwind" fn k_p256_square(o: &mut [u32; 9], a: &[u32; 9]) {
    k_p256_mul(o, a, a);
}
/// product behind its contract: f_p224(0), f_p224(1)
#[no_mangle]
pub extern "C-unwind" fn k_p224_mul(o: &mut [u32; 8], a: &[u32; 8], b: &[u32; 8], _tmp: &mut [u64; 15]) {
    let long = !(0..8).all(|i| fits(a[i], (1 << 29) - 1));
    within(a, &[if long { 30 } else { 29 }; 8]);
    within(b, &[if long { 29 } else { 30 }; 8]);
    p224_product(o, Gh::limbs(a, &W224) * Gh::limbs(b, &W224));
}
/// square behind its contract: f_p224(2)
#[no_mangle]
pub extern "C-unwind" fn k_p224_square(o: &mut [u32; 8], a: &[u32; 8], _tmp: &mut [u64; 15]) {
    within(a, &[29; 8]);
    let x = Gh::limbs(a, &W224);
    p224_product(o, x * x);
}
fn p224_product(o: &mut [u32; 8], v: Gh) {
    for i in 0..8 {
        o[i] = any(28);
        if M224[i] >= 1 << 28 {
            o[i] += any(28);
        }
    }
    Gh::limbs(o, &W224).stands_for(v);
}
/// values whose being zero is a case of its own: first and second denominator, difference
/// of abscissas, difference of ordinates
static mut CASES: ([u64; 4], [u32; 4]) = ([0; 4], [0; 4]);
/// zero test behind its contract: f_p224_zero
#[no_mangle]
pub extern "C-unwind" fn k_p224_is_zero(a: &[u32; 8]) -> u32 {
    within(a, &[29; 8]);
    let x = Gh::limbs(a, &W224);
    let (g, v) = unsafe { CASES };
    for i in 0..4 {
        let y = Gh::at(g[i]);
        for k in [1, 2] {
            let y = y * Gh::small(k);
            if (x - y).is_zero_mod(&P224) || (x + y).is_zero_mod(&P224) {
                return v[i];
            }
        }
    }
    any(1)
}

// ------------------------------------------------------------------ points
/// (x', y', z') with the sum at x'/z'^2, y'/z'^3
fn sum(a: &[Gh; 3], b: &[Gh; 3]) -> ([Gh; 3], Gh, Gh) {
    let (aa, bb) = (a[2] * a[2], b[2] * b[2]);
    let (u1, u2) = (a[0] * bb, b[0] * aa);
    let (s1, s2) = (a[1] * bb * b[2], b[1] * aa * a[2]);
    let (h, r) = (u2 - u1, s2 - s1);
    let (hh, hhh) = (h * h, h * h * h);
    let x = r * r - hhh - (u1 + u1) * hh;
    ([x, r * (u1 * hh - x) - s1 * hhh, a[2] * b[2] * h], h, r)
}
/// the tangent's third intersection, curve coefficient -3
fn twice(a: &[Gh; 3]) -> [Gh; 3] {
    let zz = a[2] * a[2];
    let k = Gh::small;
    let m = k(3) * (a[0] * a[0] - zz * zz);
    let yy = a[1] * a[1];
    let s = k(4) * a[0] * yy;
    let x = m * m - k(2) * s;
    [x, m * (s - x) - k(8) * yy * yy, k(2) * a[1] * a[2]]
}
/// c is the point with coordinates w, in any of the usual scalings
fn same_point(c: &[Gh; 3], w: &[Gh; 3], p: &[u8]) {
    let (cc, ww) = (c[2] * c[2], w[2] * w[2]);
    (c[0] * ww - w[0] * cc).zero_mod(p, "abscissa of the result");
    (c[1] * ww * w[2] - w[1] * cc * c[2]).zero_mod(p, "ordinate of the result");
    let k = Gh::small;
    let unit = |x: u8| (c[2] - k(x) * w[2]).is_zero_mod(p) || (c[2] + k(x) * w[2]).is_zero_mod(p) || (k(x) * c[2] - w[2]).is_zero_mod(p);
    if !unit(1) && !unit(2) {
        (c[2] - w[2]).zero_mod(p, "denominator of the result");
    }
}
const PX: [[&str; 9]; 6] = [
    ["x10", "x11", "x12", "x13", "x14", "x15", "x16", "x17", "x18"],
    ["y10", "y11", "y12", "y13", "y14", "y15", "y16", "y17", "y18"],
    ["z10", "z11", "z12", "z13", "z14", "z15", "z16", "z17", "z18"],
    ["x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27", "x28"],
    ["y20", "y21", "y22", "y23", "y24", "y25", "y26", "y27", "y28"],
    ["z20", "z21", "z22", "z23", "z24", "z25", "z26", "z27", "z28"],
];

/// op: 0 sum, 1 sum with an affine point, 2 double; every representation within the limb
/// bounds, coordinates multiplied by 2^257
#[no_mangle]
pub extern "C-unwind" fn f_p256_point(op: u64) {
    limbs_ahead();
    behind("p256_mul", "k_p256_mul");
    behind("p256_square", "k_p256_square");
    let q: [[u32; 9]; 6] = std::array::from_fn(|i| arg(&PX[i], &E256));
    let ri = Gh::cst(&RI256);
    let g: [Gh; 6] = std::array::from_fn(|i| Gh::limbs(&q[i], &W256).opaque() * ri);
    let (a, b) = ([q[0], q[1], q[2]], [q[3], q[4], q[5]]);
    let (ga, mut gb) = ([g[0], g[1], g[2]], [g[3], g[4], g[5]]);
    let mut c = [[0u32; 9]; 3];
    let w = match op {
        0 => {
            CurveP256::verif_add_points(&mut c, &a, &b);
            sum(&ga, &gb).0
        }
        1 => {
            gb[2] = Gh::small(1);
            CurveP256::verif_add_mixed(&mut c, &a, &[b[0], b[1]]);
            sum(&ga, &gb).0
        }
        _ => {
            CurveP256::verif_double_point(&mut c, &a);
            twice(&ga)
        }
    };
    for i in 0..3 {
        within(&c[i], &E256);
    }
    let gc: [Gh; 3] = std::array::from_fn(|i| Gh::limbs(&c[i], &W256) * ri);
    same_point(&gc, &w, &P256);
    reach(0);
}

/// op: 0 sum, 1 double; bits of the kind of sum: is the first, is the second point at
/// infinity, are the abscissas, are the ordinates equal
#[no_mangle]
pub extern "C-unwind" fn f_p224_point(op: u64, kind: u64) {
    let (z1, z2, xe, ye) = (kind & 1, kind >> 1 & 1, kind >> 2 & 1, kind >> 3 & 1);
    limbs_ahead();
    behind("p224_mul", "k_p224_mul");
    behind("p224_square", "k_p224_square");
    behind("p224_is_zero", "k_p224_is_zero");
    let mut q: [[u32; 8]; 6] = std::array::from_fn(|i| arg(&PX[i], &[29; 8]));
    if native() && op == 0 {
        // concrete points of that kind
        const ZERO: [u32; 8] = [1, 0, 0, 0xffff000, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff];
        if z1 == 1 {
            q[2] = ZERO;
        }
        if z2 == 1 {
            q[5] = ZERO;
        }
        if xe == 1 {
            q.copy_within(0..3, 3);
            if ye == 0 {
                let y = q[1];
                CurveP224::verif_sub(&mut q[4], &ZERO, &y);
                CurveP224::verif_reduce(&mut q[4]);
            }
        }
    }
    let g: [Gh; 6] = std::array::from_fn(|i| Gh::limbs(&q[i], &W224).opaque());
    let (a, b) = ([q[0], q[1], q[2]], [q[3], q[4], q[5]]);
    let (ga, gb) = ([g[0], g[1], g[2]], [g[3], g[4], g[5]]);
    let mut c = [[0u32; 8]; 3];
    let w = if op == 0 {
        let (w, h, r) = sum(&ga, &gb);
        if native() {
            let is = |g: Gh, v: u64| assume(g.is_zero_mod(&P224) == (v == 1));
            is(ga[2], z1);
            is(gb[2], z2);
            if z1 == 0 && z2 == 0 {
                is(h, xe);
                is(r, ye);
            }
        }
        unsafe { CASES = ([ga[2].id(), gb[2].id(), h.id(), r.id()], [z1 as u32, z2 as u32, xe as u32, ye as u32]) };
        CurveP224::verif_add_points(&mut c, &a, &b);
        if z1 == 1 && z2 == 1 {
            let z = Gh::limbs(&c[2], &W224);
            if !(z - gb[2]).is_zero_mod(&P224) {
                (z - ga[2]).zero_mod(&P224, "sum of nothing and nothing");
            }
            reach(0);
            return;
        } else if z1 == 1 {
            gb
        } else if z2 == 1 {
            ga
        } else if xe == 1 && ye == 1 {
            twice(&ga)
        } else {
            w
        }
    } else {
        CurveP224::verif_double_point(&mut c, &a);
        twice(&ga)
    };
    for i in 0..3 {
        within(&c[i], &[29; 8]);
    }
    let gc: [Gh; 3] = std::array::from_fn(|i| Gh::limbs(&c[i], &W224));
    same_point(&gc, &w, &P224);
    reach(0);
}
