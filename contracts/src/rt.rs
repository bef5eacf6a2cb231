//! The contract language: thin wrappers over the verifier's intrinsics. In the native
//! replay binary the same symbols are implemented on concrete inputs.
extern "C-unwind" {
    fn irv_sym(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn irv_assume(c: bool);
    fn irv_assert(c: bool, msg: *const u8, ml: usize);
    fn irv_uf(fid: u64, i: *const u8, il: usize, o: *mut u8, ol: usize);
    fn irv_perm(fid: u64, dir: u64, i: *const u8, o: *mut u8, n: usize);
    fn irv_reach(k: u64);
    fn irv_concrete(k: u64) -> u64;
    fn irv_limb(bits: u64, name: *const u8, nl: usize) -> u32;
    fn irv_plain();
    fn irv_fresh(bits: u64) -> u32;
    fn irv_fits(x: u64, max: u64) -> u64;
    fn irv_replace(f: *const u8, fl: usize, by: *const u8, bl: usize);
    fn irv_g_sym(h: u64);
    fn irv_g_is_zero(h: u64, p: *const u8, n: usize) -> u64;
    fn irv_native() -> u64;
    fn irv_below(x: u64, max: u64, msg: *const u8, ml: usize);
    fn irv_g_limbs(p: *const u32, n: usize, shifts: *const u32) -> u64;
    fn irv_g_const(p: *const u8, n: usize) -> u64;
    fn irv_g_op(op: u64, a: u64, b: u64) -> u64;
    fn irv_g_def(limbs: u64, v: u64);
    fn irv_g_zero(h: u64, p: *const u8, n: usize, msg: *const u8, ml: usize);
}
/// arbitrary bytes
#[inline(always)]
pub fn sym<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { irv_sym(b.as_mut_ptr(), N, name.as_ptr(), name.len()) };
    b
}
pub fn sym_vec(name: &str, n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    unsafe { irv_sym(b.as_mut_ptr(), n, name.as_ptr(), name.len()) };
    b
}
#[inline(always)]
pub fn sym_u64(name: &str) -> u64 {
    u64::from_le_bytes(sym::<8>(name))
}
#[inline(always)]
pub fn sym_u32(name: &str) -> u32 {
    u32::from_le_bytes(sym::<4>(name))
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { irv_assume(c) }
}
/// an obligation
#[inline(always)]
pub fn check(c: bool, msg: &str) {
    unsafe { irv_assert(c, msg.as_ptr(), msg.len()) }
}
/// an arbitrary function of its input
pub fn uf(fid: u64, i: &[u8], o: &mut [u8]) {
    unsafe { irv_uf(fid, i.as_ptr(), i.len(), o.as_mut_ptr(), o.len()) }
}
/// an arbitrary permutation (dir 0) or its inverse (dir 1)
pub fn perm(fid: u64, dir: u64, i: &[u8], o: &mut [u8]) {
    unsafe { irv_perm(fid, dir, i.as_ptr(), o.as_mut_ptr(), i.len()) }
}
/// this point must be reachable
pub fn reach(k: u64) {
    unsafe { irv_reach(k) }
}
/// case split over the possible values
pub fn concrete(k: usize) -> usize {
    unsafe { irv_concrete(k as u64) as usize }
}
/// byte strings are equal (lengths must agree)
#[inline(always)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
/// an arbitrary number of that many bits
#[inline(always)]
pub fn limb(bits: u32, name: &str) -> u32 {
    unsafe { irv_limb(bits as u64, name.as_ptr(), name.len()) }
}
/// an arbitrary number of that many bits, another one at every call (no input: not for
/// entries that also run natively)
pub fn any(bits: u32) -> u32 {
    unsafe { irv_fresh(bits as u64) }
}
/// x is provably at most max
pub fn fits(x: u32, max: u32) -> bool {
    unsafe { irv_fits(x as u64, max as u64) == 1 }
}
/// from here on, calls of the function go to its contract
pub fn behind(f: &str, contract: &str) {
    unsafe { irv_replace(f.as_ptr(), f.len(), contract.as_ptr(), contract.len()) }
}
/// limb arithmetic follows: keep terms in the form the polynomial back end reads
pub fn limbs_ahead() {
    unsafe { irv_plain() }
}
/// running on concrete values
pub fn native() -> bool {
    unsafe { irv_native() == 1 }
}
/// an obligation: x is at most max
#[inline(always)]
pub fn at_most(x: u32, max: u32, msg: &str) {
    unsafe { irv_below(x as u64, max as u64, msg.as_ptr(), msg.len()) }
}
/// ghost integers: values of limb vectors and what is computed from them
#[derive(Clone, Copy)]
pub struct Gh(u64);
impl Gh {
    /// sum of limb * 2^shift
    pub fn limbs(l: &[u32], shifts: &[u32]) -> Gh {
        Gh(unsafe { irv_g_limbs(l.as_ptr(), l.len(), shifts.as_ptr()) })
    }
    /// big-endian constant
    pub fn cst(b: &[u8]) -> Gh {
        Gh(unsafe { irv_g_const(b.as_ptr(), b.len()) })
    }
    pub fn id(self) -> u64 {
        self.0
    }
    pub fn at(id: u64) -> Gh {
        Gh(id)
    }
    pub fn small(k: u8) -> Gh {
        Gh::cst(&[k])
    }
    /// an obligation: multiple of the modulus (big-endian)
    pub fn zero_mod(self, m: &[u8], msg: &str) {
        unsafe { irv_g_zero(self.0, m.as_ptr(), m.len(), msg.as_ptr(), msg.len()) }
    }
    /// provably a multiple of the modulus
    pub fn is_zero_mod(self, m: &[u8]) -> bool {
        unsafe { irv_g_is_zero(self.0, m.as_ptr(), m.len()) == 1 }
    }
    /// the residue of freshly chosen limbs is an unknown of its own
    pub fn opaque(self) -> Gh {
        unsafe { irv_g_sym(self.0) };
        self
    }
    /// freshly chosen limbs are a representative of the value
    pub fn stands_for(self, v: Gh) {
        unsafe { irv_g_def(self.0, v.0) }
    }
}
impl std::ops::Add for Gh {
    type Output = Gh;
    fn add(self, o: Gh) -> Gh {
        Gh(unsafe { irv_g_op(0, self.0, o.0) })
    }
}
impl std::ops::Sub for Gh {
    type Output = Gh;
    fn sub(self, o: Gh) -> Gh {
        Gh(unsafe { irv_g_op(1, self.0, o.0) })
    }
}
impl std::ops::Mul for Gh {
    type Output = Gh;
    fn mul(self, o: Gh) -> Gh {
        Gh(unsafe { irv_g_op(2, self.0, o.0) })
    }
}
