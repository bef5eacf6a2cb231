//! Concrete implementation of the contract intrinsics: replays a counterexample, or tries
//! pseudo-random inputs, against the natively compiled code.
use crate::spec::big::{self, Z};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

struct Ctx {
    seed: u64,
    fixed: HashMap<String, Vec<u8>>,
    used: Vec<(String, Vec<u8>)>,
    msg: String,
    n: u64,
    ufs: bool,
}
struct Stop(i32);
thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx { seed: 0, fixed: HashMap::new(), used: vec![], msg: String::new(), n: 0, ufs: false });
    static OUT: RefCell<String> = RefCell::new(String::new());
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed ^ (b.len() as u64).wrapping_mul(0x1000193));
    for c in b.chunks(8) {
        let mut x = 0u64;
        for (i, &y) in c.iter().enumerate() {
            x |= (y as u64) << (8 * i);
        }
        h = mix(h ^ x).wrapping_add(h.rotate_left(17));
    }
    mix(h)
}
unsafe fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string()
}
fn gen(c: &mut Ctx, n: usize) -> Vec<u8> {
    c.n += 1;
    let base = mix(c.seed ^ c.n.wrapping_mul(0x1234567));
    let style = base % 8;
    (0..n)
        .map(|i| {
            let r = mix(base ^ (i as u64) << 8);
            match style {
                0 => 0,
                1 => 0xff,
                2 => [0u8, 0xff, 0x80, 1, 0x7f, 2, 0xfe, 0][(r % 8) as usize],
                3 => {
                    // small little-endian number
                    if i == 0 {
                        r as u8
                    } else {
                        0
                    }
                }
                _ => r as u8,
            }
        })
        .collect()
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_sym(p: *mut u8, n: usize, name: *const u8, nl: usize) {
    let nm = s(name, nl);
    let v = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let v = match c.fixed.get(&nm) {
            Some(v) => {
                let mut v = v.clone();
                v.resize(n, 0);
                v
            }
            None => match c.used.iter().find(|u| u.0 == nm && u.1.len() >= n) {
                Some(u) => u.1[..n].to_vec(),
                None => gen(&mut c, n),
            },
        };
        c.used.push((nm, v.clone()));
        v
    });
    std::ptr::copy_nonoverlapping(v.as_ptr(), p, n);
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_assume(c: bool) {
    if !c {
        resume_unwind(Box::new(Stop(77)));
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_assert(c: bool, m: *const u8, ml: usize) {
    if !c {
        let m = s(m, ml);
        CTX.with(|c| c.borrow_mut().msg = m);
        resume_unwind(Box::new(Stop(1)));
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_uf(fid: u64, i: *const u8, il: usize, o: *mut u8, ol: usize) {
    let b = std::slice::from_raw_parts(i, il);
    let mut k = 0;
    let mut ch = 0u64;
    while k < ol {
        let lo = hash_bytes((fid << 32) | (ch << 1), b);
        let hi = hash_bytes((fid << 32) | (ch << 1) | 1, b);
        let mut v = (((hi as u128) << 64) | lo as u128).to_le_bytes();
        // values given by a counterexample
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.ufs {
                let arg: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                let key = format!("uf:{}:{}:{}", fid, ch, arg);
                if let Some(w) = c.fixed.get(&key).cloned() {
                    v.copy_from_slice(&w[..16]);
                    c.used.push((key, w));
                }
            }
        });
        for x in v.iter() {
            if k < ol {
                *o.add(k) = *x;
                k += 1;
            }
        }
        ch += 1;
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_perm(fid: u64, dir: u64, i: *const u8, o: *mut u8, n: usize) {
    let bytes = std::slice::from_raw_parts(i, n).to_vec();
    let key = 0x4000 + 2 * fid;
    let h = n / 2;
    let mut l = bytes[..h].to_vec();
    let mut r = bytes[h..n].to_vec();
    let f = |x: &[u8], rd: u64| hash_bytes(key.wrapping_mul(0x9E37).wrapping_add(rd) | (1 << 63), x);
    let apply = |dst: &mut Vec<u8>, k: u64| {
        for (j, d) in dst.iter_mut().enumerate() {
            *d ^= (k >> (8 * (j % 8))) as u8;
        }
    };
    if dir == 0 {
        for rd in 0..6u64 {
            let k = f(&r, rd);
            apply(&mut l, k);
            std::mem::swap(&mut l, &mut r);
        }
    } else {
        for rd in (0..6u64).rev() {
            std::mem::swap(&mut l, &mut r);
            let k = f(&r, rd);
            apply(&mut l, k);
        }
    }
    l.extend_from_slice(&r);
    std::ptr::copy_nonoverlapping(l.as_ptr(), o, n);
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_reach(_k: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_concrete(k: u64) -> u64 {
    k
}

#[no_mangle]
pub unsafe extern "C-unwind" fn irv_limb(bits: u64, name: *const u8, nl: usize) -> u32 {
    let nm = s(name, nl);
    let top = ((1u64 << bits) - 1) as u32;
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let given = c.fixed.get(&nm).map(|v| {
            let mut v = v.clone();
            v.resize(4, 0);
            u32::from_le_bytes([v[0], v[1], v[2], v[3]]) & top
        });
        // carries want extreme limbs
        let x = given.unwrap_or_else(|| {
            let v = gen(&mut c, 8);
            let x = u32::from_le_bytes([v[0], v[1], v[2], v[3]]) & top;
            match v[4] & 15 {
                0 | 1 => 0,
                2 | 3 => top,
                4 => x & 3,
                5 => top - (x & 3),
                6 => 1 << (bits - 1),
                _ => x,
            }
        });
        c.used.push((nm, x.to_le_bytes().to_vec()));
        x
    })
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_plain() {}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_fresh(_bits: u64) -> u32 {
    unreachable!()
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_fits(x: u64, max: u64) -> u64 {
    (x <= max) as u64
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_replace(_f: *const u8, _fl: usize, _by: *const u8, _bl: usize) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_g_sym(_h: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_g_is_zero(h: u64, p: *const u8, n: usize) -> u64 {
    let md = big::bytes(std::slice::from_raw_parts(p, n));
    (big::bits(&ghost_val(h, &md)) == 0) as u64
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_native() -> u64 {
    1
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_below(x: u64, max: u64, m: *const u8, ml: usize) {
    irv_assert(x <= max, m, ml)
}
#[derive(Clone)]
enum G {
    Int(Z),
    Op(u64, u64, u64),
}
thread_local! {
    static GH: RefCell<Vec<G>> = RefCell::new(vec![]);
}
fn ghost(g: G) -> u64 {
    GH.with(|v| {
        let mut v = v.borrow_mut();
        v.push(g);
        v.len() as u64 - 1
    })
}
fn ghost_val(h: u64, m: &Z) -> Z {
    let g = GH.with(|v| v.borrow()[h as usize].clone());
    match g {
        G::Int(z) => big::rem(&z, m),
        G::Op(o, a, b) => {
            let (a, b) = (ghost_val(a, m), ghost_val(b, m));
            match o {
                0 => big::addm(&a, &b, m),
                1 => big::subm(&a, &b, m),
                _ => big::mulm(&a, &b, m),
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_g_limbs(p: *const u32, n: usize, sh: *const u32) -> u64 {
    let mut r: Z = vec![];
    for i in 0..n {
        r = big::add(&r, &big::shl(&big::small(*p.add(i) as u64), *sh.add(i) as usize));
    }
    ghost(G::Int(r))
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_g_const(p: *const u8, n: usize) -> u64 {
    ghost(G::Int(big::bytes(std::slice::from_raw_parts(p, n))))
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_g_op(op: u64, a: u64, b: u64) -> u64 {
    ghost(G::Op(op, a, b))
}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_g_def(_limbs: u64, _v: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn irv_g_zero(h: u64, p: *const u8, n: usize, m: *const u8, ml: usize) {
    let md = big::bytes(std::slice::from_raw_parts(p, n));
    irv_assert(big::bits(&ghost_val(h, &md)) == 0, m, ml)
}

extern "C" {
    fn dlsym(h: *mut u8, s: *const u8) -> *mut u8;
}
type F0 = extern "C-unwind" fn();
type F1 = extern "C-unwind" fn(u64);
type F2 = extern "C-unwind" fn(u64, u64);
type F3 = extern "C-unwind" fn(u64, u64, u64);
type F4 = extern "C-unwind" fn(u64, u64, u64, u64);
type F9 = extern "C-unwind" fn(u64, u64, u64, u64, u64, u64, u64, u64, u64);

/// run an entry once; `fixed` is "name=hex\n..." lines. Returns 0 held, 1 assertion failed,
/// 77 assumption not met, 101 panic, -1 unknown entry.
#[no_mangle]
pub unsafe extern "C" fn native_trial(name: *const u8, nargs: u64, args: *const u64, seed: u64, fixed: *const u8, fl: usize) -> i32 {
    let nm = std::ffi::CStr::from_ptr(name as *const _);
    let f = dlsym(std::ptr::null_mut(), nm.as_ptr() as *const u8);
    if f.is_null() {
        return -1;
    }
    let txt = s(fixed, fl);
    let mut map = HashMap::new();
    for l in txt.lines() {
        if let Some((k, v)) = l.split_once('=') {
            let b: Vec<u8> = (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
            map.insert(k.to_string(), b);
        }
    }
    let ufs = map.keys().any(|k| k.starts_with("uf:"));
    CTX.with(|c| *c.borrow_mut() = Ctx { seed, fixed: map, used: vec![], msg: String::new(), n: 0, ufs });
    let a = std::slice::from_raw_parts(args, nargs as usize);
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        CTX.with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                c.msg = m;
            }
        });
    }));
    let r = catch_unwind(AssertUnwindSafe(|| match nargs {
        0 => std::mem::transmute::<_, F0>(f)(),
        1 => std::mem::transmute::<_, F1>(f)(a[0]),
        2 => std::mem::transmute::<_, F2>(f)(a[0], a[1]),
        3 => std::mem::transmute::<_, F3>(f)(a[0], a[1], a[2]),
        4 => std::mem::transmute::<_, F4>(f)(a[0], a[1], a[2], a[3]),
        _ => {
            // further arguments are ignored by the callee
            let g = |i: usize| if i < a.len() { a[i] } else { 0 };
            std::mem::transmute::<_, F9>(f)(g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8))
        }
    }));
    match r {
        Ok(()) => 0,
        Err(e) => match e.downcast_ref::<Stop>() {
            Some(s) => s.0,
            None => 101,
        },
    }
}
/// message and inputs of the last trial
#[no_mangle]
pub unsafe extern "C" fn native_report(buf: *mut u8, cap: usize) -> usize {
    let t = CTX.with(|c| {
        let c = c.borrow();
        let mut t = format!("msg={}\n", c.msg.replace('\n', " "));
        for (k, v) in &c.used {
            t.push_str(&format!("{}={}\n", k, v.iter().map(|x| format!("{:02x}", x)).collect::<String>()));
        }
        t
    });
    let n = t.len().min(cap);
    std::ptr::copy_nonoverlapping(t.as_ptr(), buf, n);
    n
}
