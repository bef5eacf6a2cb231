//! Polynomial back end: limb arithmetic as integer polynomials.
//!
//! Every term is given an exact integer value: a polynomial over atoms (inputs, quotients of
//! shifts, carries) with known ranges. Bounds are decided by intervals and, where these are too
//! weak, by linear integer arithmetic over the definitions of the atoms. Congruences modulo a
//! prime are decided by expanding the polynomials: every coefficient must vanish.
use crate::solve::Solver;
use crate::term::{mask, sx, HashMap, Id, Op, Tm};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::rc::Rc;

type Mono = Vec<u32>;
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly {
    t: BTreeMap<Mono, i128>,
}

#[derive(Clone, Debug)]
enum Def {
    Input(Id),
    /// floor(p / 2^k)
    Floor(Poly, u32),
    /// p - 2^k * floor(p / 2^k)
    Low(Poly, u32, Poly),
    /// 1 if p = 0
    Zero(Poly),
    /// 1 if p < 0
    Neg(Poly),
}
struct Atom {
    def: Def,
    lo: i128,
    hi: i128,
}

/// ghost expressions over field elements
#[derive(Clone)]
pub enum G {
    Limbs(Vec<(Id, u32)>),
    Const(Vec<u8>),
    Op(u64, usize, usize),
}

#[derive(Default)]
pub struct Px {
    atoms: Vec<Atom>,
    keys: HashMap<(u8, u32, Poly), u32>,
    inputs: HashMap<Id, u32>,
    exact: HashMap<Id, Option<Rc<Poly>>>,
    cong: HashMap<Id, Option<Rc<Poly>>>,
    /// forms known to be in a range
    pieces: std::collections::HashSet<(u32, u32)>,
    /// remainders tested for zero, all remainders
    tested: Vec<u32>,
    lows: Vec<u32>,
    busy: bool,
    pending: Vec<(u32, u32)>,
    facts: Vec<(Poly, i128, i128)>,
    asked: HashMap<(Poly, i128, i128), bool>,
    pub ghosts: Vec<G>,
    /// atom -> (ghost of the limbs, ghost of the value): the residue of the limbs
    resid: HashMap<u32, (usize, usize)>,
    expand: HashMap<u32, Rc<Pm>>,
    gval: HashMap<usize, Rc<Pm>>,
    /// atoms shown equal to others
    same: HashMap<u32, Poly>,
    pub lia: u64,
    pub verbose: bool,
}

const LIM: i128 = 1 << 120;

impl Poly {
    fn cst(c: i128) -> Poly {
        let mut p = Poly::default();
        if c != 0 {
            p.t.insert(vec![], c);
        }
        p
    }
    fn atom(a: u32) -> Poly {
        let mut p = Poly::default();
        p.t.insert(vec![a], 1);
        p
    }
    fn k(&self) -> i128 {
        *self.t.get(&vec![]).unwrap_or(&0)
    }
    fn as_const(&self) -> Option<i128> {
        match self.t.len() {
            0 => Some(0),
            1 => self.t.get(&vec![]).cloned(),
            _ => None,
        }
    }
    fn add_term(&mut self, m: Mono, c: i128) -> Option<()> {
        if c == 0 {
            return Some(());
        }
        let e = self.t.entry(m).or_insert(0);
        *e = e.checked_add(c)?;
        if *e > LIM || *e < -LIM {
            return None;
        }
        if *e == 0 {
            self.t.retain(|_, c| *c != 0);
        }
        Some(())
    }
    fn add(&mut self, o: &Poly, c: i128) -> Option<()> {
        for (m, x) in &o.t {
            self.add_term(m.clone(), x.checked_mul(c)?)?;
        }
        Some(())
    }
    fn plus(&self, o: &Poly, c: i128) -> Option<Poly> {
        let mut r = self.clone();
        r.add(o, c)?;
        Some(r)
    }
    fn times(&self, c: i128) -> Option<Poly> {
        Poly::default().plus(self, c)
    }
    /// coefficients to the representatives around zero modulo 2^w
    fn wrap(&self, w: u32) -> Poly {
        if w > 100 {
            return self.clone();
        }
        let m = 1i128 << w;
        let mut r = Poly::default();
        for (k, &c) in &self.t {
            let mut c = c.rem_euclid(m);
            if c > m / 2 {
                c -= m;
            }
            if c != 0 {
                r.t.insert(k.clone(), c);
            }
        }
        r
    }
}

impl Px {
    fn new_atom(&mut self, def: Def, lo: i128, hi: i128) -> u32 {
        if self.verbose {
            let t = match &def {
                Def::Input(t) => format!("input {}", t),
                Def::Floor(p, k) => format!("floor {} :{}", k, self.show(p)),
                Def::Low(p, k, f) => format!("low {} :{} ;;{}", k, self.show(p), self.show(f)),
                Def::Zero(p) => format!("zero{}", self.show(p)),
                Def::Neg(p) => format!("neg{}", self.show(p)),
            };
            eprintln!("atom {} [{},{}] {}", self.atoms.len(), lo, hi, t);
        }
        self.atoms.push(Atom { def, lo, hi });
        self.atoms.len() as u32 - 1
    }
    fn keyed(&mut self, kind: u8, k: u32, p: &Poly, mk: impl FnOnce() -> (Def, i128, i128)) -> u32 {
        let key = (kind, k, p.clone());
        if let Some(&a) = self.keys.get(&key) {
            return a;
        }
        let (d, lo, hi) = mk();
        let a = self.new_atom(d, lo, hi);
        self.keys.insert(key, a);
        a
    }
    fn is_bool(&self, a: u32) -> bool {
        let x = &self.atoms[a as usize];
        x.lo == 0 && x.hi == 1
    }
    fn mono_range(&self, m: &Mono) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (1i128, 1i128);
        for &a in m {
            let x = &self.atoms[a as usize];
            let c = [lo.checked_mul(x.lo)?, lo.checked_mul(x.hi)?, hi.checked_mul(x.lo)?, hi.checked_mul(x.hi)?];
            lo = *c.iter().min().unwrap();
            hi = *c.iter().max().unwrap();
        }
        Some((lo, hi))
    }
    fn range(&self, p: &Poly) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (0i128, 0i128);
        for (m, &c) in &p.t {
            let (a, b) = self.mono_range(m)?;
            let (x, y) = (a.checked_mul(c)?, b.checked_mul(c)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        if lo < -LIM || hi > LIM {
            return None;
        }
        Some((lo, hi))
    }
    /// range by cases over the zero tests that occur
    fn range_cases(&self, p: &Poly) -> Option<(i128, i128)> {
        self.cases(p, i128::MIN, i128::MAX).map(|x| (x.0, x.1))
    }
    /// the range, and the cases that leave lo..=hi
    fn cases(&self, p: &Poly, blo: i128, bhi: i128) -> Option<(i128, i128, Vec<Vec<(u32, bool)>>)> {
        let mut out = vec![];
        let mut at: Vec<u32> = p.t.keys().flatten().cloned().collect();
        at.sort();
        at.dedup();
        let zs: Vec<u32> = at.iter().cloned().filter(|&a| matches!(self.atoms[a as usize].def, Def::Zero(_))).collect();
        if zs.is_empty() || zs.len() > 8 {
            return None;
        }
        // what each test fixes when it holds
        let mut fixed: Vec<Vec<(u32, i128)>> = vec![];
        for &z in &zs {
            let q = match &self.atoms[z as usize].def {
                Def::Zero(q) => q,
                _ => return None,
            };
            fixed.push(at.iter().filter(|&&a| a != z).filter_map(|&a| self.under_zero(q, a, 3).map(|v| (a, v))).collect());
        }
        let (mut lo, mut hi) = (i128::MAX, i128::MIN);
        'cases: for c in 0..1usize << zs.len() {
            let mut val: HashMap<u32, (i128, i128)> = HashMap::default();
            for (i, &z) in zs.iter().enumerate() {
                let b = (c >> i & 1) as i128;
                val.insert(z, (b, b));
            }
            for i in 0..zs.len() {
                if c >> i & 1 == 1 {
                    for &(a, v) in &fixed[i] {
                        match val.get(&a) {
                            Some(&(x, y)) if v < x || v > y => continue 'cases,
                            _ => {
                                val.insert(a, (v, v));
                            }
                        }
                    }
                } else if let Def::Zero(q) = &self.atoms[zs[i] as usize].def {
                    if let Some(y) = self.single(q) {
                        if self.atoms[y as usize].lo == 0 && !val.contains_key(&y) {
                            val.insert(y, (1, self.atoms[y as usize].hi));
                        }
                    }
                }
            }
            let (mut l, mut h) = (0i128, 0i128);
            for (m, &k) in &p.t {
                let (mut a, mut b) = (1i128, 1i128);
                for x in m {
                    let (xl, xh) = val.get(x).cloned().unwrap_or((self.atoms[*x as usize].lo, self.atoms[*x as usize].hi));
                    let c = [a.checked_mul(xl)?, a.checked_mul(xh)?, b.checked_mul(xl)?, b.checked_mul(xh)?];
                    a = *c.iter().min().unwrap();
                    b = *c.iter().max().unwrap();
                }
                let (x, y) = (a.checked_mul(k)?, b.checked_mul(k)?);
                l = l.checked_add(x.min(y))?;
                h = h.checked_add(x.max(y))?;
            }
            if l < blo || h > bhi {
                out.push(zs.iter().enumerate().map(|(i, &z)| (z, c >> i & 1 == 1)).collect());
            }
            lo = lo.min(l);
            hi = hi.max(h);
        }
        Some((lo, hi, out))
    }
    /// value of atom x when the polynomial q is zero, if that fixes it
    fn under_zero(&self, q: &Poly, x: u32, depth: u32) -> Option<i128> {
        if q.t.len() == 1 && q.t.get(&vec![x]).is_some() {
            return Some(0);
        }
        if let Some(y) = self.single(q) {
            if self.pieces.contains(&(y, x)) {
                return Some(0);
            }
            if let (Def::Low(ry, wy, _), Def::Low(rx, wx, _)) = (&self.atoms[y as usize].def, &self.atoms[x as usize].def) {
                if wx <= wy && (ry.wrap(*wx) == *rx || self.unname(ry).wrap(*wx) == self.unname(rx).wrap(*wx)) {
                    return Some(0);
                }
            }
        }
        if depth == 0 {
            return None;
        }
        match &self.atoms[x as usize].def {
            Def::Floor(r, k) => {
                let v = self.poly_under_zero(q, r, depth - 1)?;
                Some(v >> k)
            }
            Def::Low(r, k, _) => {
                let v = self.poly_under_zero(q, r, depth - 1)?;
                Some(v - ((v >> k) << k))
            }
            Def::Zero(r) => Some((self.poly_under_zero(q, r, depth - 1)? == 0) as i128),
            Def::Neg(r) => Some((self.poly_under_zero(q, r, depth - 1)? < 0) as i128),
            Def::Input(_) => None,
        }
    }
    fn poly_under_zero(&self, q: &Poly, r: &Poly, depth: u32) -> Option<i128> {
        if r == q {
            return Some(0);
        }
        let mut s = 0i128;
        for (m, &c) in &r.t {
            let mut v = c;
            for &a in m {
                v = v.checked_mul(self.under_zero(q, a, depth)?)?;
            }
            s = s.checked_add(v)?;
        }
        Some(s)
    }
    fn norm_mono(&self, m: Mono, c: i128) -> (Mono, i128) {
        let mut m = m;
        let mut c = c;
        m.sort();
        // idempotent carries
        let mut i = 1;
        while i < m.len() {
            if m[i] == m[i - 1] && self.is_bool(m[i]) {
                m.remove(i);
            } else {
                i += 1;
            }
        }
        // what a zero test fixes
        let zs: Vec<u32> = m.iter().cloned().filter(|&a| matches!(self.atoms[a as usize].def, Def::Zero(_))).collect();
        for z in zs {
            if let Def::Zero(q) = &self.atoms[z as usize].def {
                let mut i = 0;
                while i < m.len() {
                    if m[i] != z {
                        if let Some(v) = self.under_zero(q, m[i], 3) {
                            c = c.saturating_mul(v);
                            m.remove(i);
                            continue;
                        }
                    }
                    i += 1;
                }
            }
        }
        (m, c)
    }
    /// (c + d z) * y where z tests a sum that also occurs in y
    fn mul_zero(&self, a: &Poly, y: &Poly) -> Option<Poly> {
        if a.t.len() > 2 || y.t.len() < 2 {
            return None;
        }
        let (m, &d) = a.t.iter().find(|(m, _)| !m.is_empty())?;
        if m.len() != 1 || a.t.len() - (a.k() != 0) as usize != 1 {
            return None;
        }
        let q = match &self.atoms[m[0] as usize].def {
            Def::Zero(q) if q.t.len() > 1 => q,
            _ => return None,
        };
        let (qm, &qc) = q.t.iter().next_back()?;
        let yc = *y.t.get(qm)?;
        if yc % qc != 0 {
            return None;
        }
        let rest = y.plus(q, -(yc / qc))?;
        if rest.t.len() >= y.t.len() {
            return None;
        }
        let mut z = Poly::default();
        z.add_term(m.clone(), d)?;
        let p = self.mul(&z, &rest)?;
        y.times(a.k())?.plus(&p, 1)
    }
    fn mul(&self, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.t.len().checked_mul(b.t.len())? > 4000 {
            return None;
        }
        if let Some(r) = self.mul_zero(a, b).or_else(|| self.mul_zero(b, a)) {
            return Some(r);
        }
        let mut r = Poly::default();
        for (m, x) in &a.t {
            for (n, y) in &b.t {
                let mut k = m.clone();
                k.extend_from_slice(n);
                let (k, c) = self.norm_mono(k, x.checked_mul(*y)?);
                r.add_term(k, c)?;
            }
        }
        Some(r)
    }
    /// a function of a polynomial in at most three carries
    fn tabulate(&self, p: &Poly, f: impl Fn(i128) -> i128) -> Option<Poly> {
        let mut at: Vec<u32> = p.t.keys().flatten().cloned().collect();
        at.sort();
        at.dedup();
        if at.len() > 3 || !at.iter().all(|&a| self.is_bool(a)) {
            return None;
        }
        let n = 1usize << at.len();
        let mut v = vec![0i128; n];
        for x in 0..n {
            for (m, &c) in &p.t {
                if m.iter().all(|a| x >> at.iter().position(|b| b == a).unwrap() & 1 == 1) {
                    v[x] += c;
                }
            }
            v[x] = f(v[x]);
        }
        // multilinear interpolation
        for i in 0..at.len() {
            for x in 0..n {
                if x >> i & 1 == 1 {
                    v[x] -= v[x ^ (1 << i)];
                }
            }
        }
        let mut r = Poly::default();
        for x in 0..n {
            let m: Mono = (0..at.len()).filter(|i| x >> i & 1 == 1).map(|i| at[i]).collect();
            let (m, c) = self.norm_mono(m, v[x]);
            r.add_term(m, c)?;
        }
        Some(r)
    }
    /// names of values replaced by the values
    fn unname(&self, p: &Poly) -> Poly {
        let mut p = p.clone();
        for _ in 0..4 {
            let mut r = Poly::default();
            let mut hit = false;
            for (m, &c) in &p.t {
                let mut ok = None;
                if m.len() == 1 {
                    if let Def::Low(e, w, f) = &self.atoms[m[0] as usize].def {
                        if let Some(k) = f.as_const() {
                            ok = e.plus(&Poly::cst(k << w), -1);
                        }
                    }
                }
                let done = match ok {
                    Some(e) => {
                        hit = true;
                        r.add(&e, c)
                    }
                    None => r.add_term(m.clone(), c),
                };
                if done.is_none() {
                    return p;
                }
            }
            p = r;
            if !hit {
                break;
            }
        }
        p
    }
    /// note when x is the upper part of y
    fn relate(&mut self, y: u32, x: u32) {
        self.pending.push((y, x));
        if self.busy {
            return;
        }
        self.busy = true;
        while let Some((y, x)) = self.pending.pop() {
            let (ry, wy, rx, wx) = match (&self.atoms[y as usize].def, &self.atoms[x as usize].def) {
                (Def::Low(ry, wy, _), Def::Low(rx, wx, _)) if wx < wy => (ry.clone(), *wy, rx.clone(), *wx),
                _ => continue,
            };
            if let Some(g) = self.floor(&ry, wy - wx) {
                if self.unname(&g).wrap(wx) == self.unname(&rx).wrap(wx) {
                    self.pieces.insert((y, x));
                    let k = 1i128 << (wy - wx);
                    if let Some(d) = Poly::atom(y).plus(&Poly::atom(x), -k) {
                        self.facts.push((d, 0, k - 1));
                    }
                }
            }
        }
        self.busy = false;
    }
    fn zero_test(&mut self, p: &Poly) -> Option<Poly> {
        let (lo, hi) = self.range(p)?;
        if lo > 0 || hi < 0 {
            return Some(Poly::cst(0));
        }
        if lo == 0 && hi == 0 {
            return Some(Poly::cst(1));
        }
        let mut q = p.clone();
        // sign and common factor
        let g = q.t.values().fold(0u128, |g, c| gcd(g, c.unsigned_abs()));
        let s = if *q.t.values().next_back()? < 0 { -1 } else { 1 };
        for c in q.t.values_mut() {
            *c = *c / g as i128 * s;
        }
        // a single two-valued atom
        if q.t.len() == 1 {
            let m = q.t.keys().next().unwrap().clone();
            if m.len() == 1 && self.is_bool(m[0]) {
                return Poly::cst(1).plus(&Poly::atom(m[0]), -1);
            }
        }
        if let Some(y) = self.single(&q) {
            if matches!(self.atoms[y as usize].def, Def::Low(..)) && !self.tested.contains(&y) {
                self.tested.push(y);
                for x in self.lows.clone() {
                    self.relate(y, x);
                }
            }
        }
        let a = self.keyed(2, 0, &q, || (Def::Zero(q.clone()), 0, 1));
        Some(Poly::atom(a))
    }
    fn neg_test(&mut self, p: &Poly) -> Option<Poly> {
        let (lo, hi) = self.range(p)?;
        if lo >= 0 {
            return Some(Poly::cst(0));
        }
        if hi < 0 {
            return Some(Poly::cst(1));
        }
        // q < 1 is q = 0 for a value that is never negative
        let q = p.plus(&Poly::cst(1), 1)?;
        if self.range(&q)?.0 >= 0 {
            return self.zero_test(&q);
        }
        // not (q > 0)
        let n = p.times(-1)?;
        if self.range(&n)?.0 >= 0 {
            return Poly::cst(1).plus(&self.zero_test(p)?, -1);
        }
        let a = self.keyed(3, 0, p, || (Def::Neg(p.clone()), 0, 1));
        Some(Poly::atom(a))
    }
    fn floor(&mut self, p: &Poly, k: u32) -> Option<Poly> {
        if k == 0 {
            return Some(p.clone());
        }
        if k > 110 {
            return None;
        }
        let m = 1i128 << k;
        if let Some(e) = self.tabulate(p, |v| v >> k) {
            return Some(e);
        }
        // the whole value of a sum that does not overflow
        if p.t.len() == 1 {
            let (mo, &c) = p.t.iter().next().unwrap();
            if c == 1 && mo.len() == 1 {
                if let Def::Low(r, w, f) = self.atoms[mo[0] as usize].def.clone() {
                    if w >= k && f.as_const().is_some() {
                        let r = r.plus(&f, -(1i128 << w))?;
                        let e = self.floor(&r, k)?;
                        let h = self.atoms[mo[0] as usize].hi >> k;
                        let (a, b) = self.range(&e)?;
                        if a >= 0 && b <= h {
                            return Some(e);
                        }
                        // a name for the value, with the range it is known to have
                        let x = self.keyed(1, w - k, &e, || (Def::Low(e.clone(), w - k, Poly::default()), 0, h));
                        return Some(Poly::atom(x));
                    }
                    if k >= w {
                        return Some(Poly::default());
                    }
                    // the upper bits of a remainder
                    let g = self.floor(&r, k)?.wrap(w - k);
                    let h = self.atoms[mo[0] as usize].hi >> k;
                    let e = self.low(&g, w - k, Some(h))?;
                    if let Some(y) = self.single(&e) {
                        self.pieces.insert((mo[0], y));
                    }
                    return Some(e);
                }
            }
        }
        let r = p.wrap(k);
        let mut q = Poly::default();
        for (mo, &c) in &p.t {
            let d = r.t.get(mo).unwrap_or(&0);
            q.add_term(mo.clone(), (c - d) >> k)?;
        }
        if r.t.is_empty() {
            return Some(q);
        }
        let (lo, hi) = self.range(&r)?;
        if lo >> k == hi >> k {
            q.add_term(vec![], lo >> k)?;
            return Some(q);
        }
        if lo >= -m && hi < m {
            let n = self.neg_test(&r)?;
            q.add(&n, -1)?;
            return Some(q);
        }
        // drop low parts that cannot carry
        let mut levels: BTreeSet<u32> = BTreeSet::new();
        for c in r.t.values() {
            levels.insert(c.trailing_zeros());
        }
        for &j in levels.iter().rev() {
            if j == 0 || j >= k {
                continue;
            }
            let (mut low, mut high) = (Poly::default(), Poly::default());
            for (mo, &c) in &r.t {
                if c.trailing_zeros() >= j {
                    high.add_term(mo.clone(), c >> j)?;
                } else if mo.is_empty() {
                    let b = 1i128 << j;
                    high.add_term(vec![], c.div_euclid(b))?;
                    low.add_term(vec![], c.rem_euclid(b))?;
                } else {
                    low.add_term(mo.clone(), c)?;
                }
            }
            let (a, b) = self.range(&low)?;
            if a >= 0 && b < 1i128 << j {
                let f = self.floor(&high, k - j)?;
                q.add(&f, 1)?;
                return Some(q);
            }
        }
        // the only quotient in the sum: one division
        let fl: Vec<u32> = r.t.keys().filter(|m| m.len() == 1 && matches!(self.atoms[m[0] as usize].def, Def::Floor(..))).map(|m| m[0]).collect();
        if fl.len() == 1 && r.t[&vec![fl[0]]] == 1 {
            if let Def::Floor(b, j) = self.atoms[fl[0] as usize].def.clone() {
                if j + k < 100 {
                    let mut s = r.clone();
                    s.add_term(vec![fl[0]], -1)?;
                    let s = s.times(1i128 << j)?.plus(&b, 1)?;
                    let f = self.floor(&s, j + k)?;
                    q.add(&f, 1)?;
                    return Some(q);
                }
            }
        }
        let a = self.keyed(0, k, &r, || (Def::Floor(r.clone(), k), lo >> k, hi >> k));
        q.add(&Poly::atom(a), 1)?;
        Some(q)
    }
    fn single(&self, p: &Poly) -> Option<u32> {
        if p.t.len() != 1 {
            return None;
        }
        let (m, &c) = p.t.iter().next().unwrap();
        if c == 1 && m.len() == 1 {
            Some(m[0])
        } else {
            None
        }
    }
    /// a + 2^wa * b when b continues a
    fn join(&mut self, a: &Poly, wa: u32, b: &Poly, wb: u32) -> Option<Poly> {
        let x = self.single(a)?;
        let (r1, f1) = match &self.atoms[x as usize].def {
            Def::Low(r, w, f) if *w == wa => (r.clone(), f.clone()),
            _ => return None,
        };
        if f1.as_const().is_some() {
            return None;
        }
        let gone = |d: &Poly| f1.t.keys().filter(|m| !m.is_empty()).all(|m| !d.t.contains_key(m));
        if let Some(y) = self.single(b) {
            if let Def::Low(r2, w2, f2) = self.atoms[y as usize].def.clone() {
                let d = r2.plus(&f1, -1)?;
                if w2 == wb && d.t.is_empty() {
                    let r = r1.plus(&d, 1i128 << wa)?.wrap(wa + wb);
                    let e = self.low(&r, wa + wb, None)?;
                    let _ = f2;
                    if let Some(e1) = self.single(&e) {
                        self.pieces.insert((e1, x));
                        self.pieces.insert((e1, y));
                    }
                    return Some(e);
                }
                return None;
            }
        }
        let d = b.plus(&f1, -1)?;
        if !gone(&d) {
            return None;
        }
        r1.plus(&d, 1i128 << wa)
    }
    /// put pieces of one value in a sum together
    fn fuse(&mut self, mut r: Poly, w: u32) -> Option<Poly> {
        'again: loop {
            let ms: Vec<(u32, i128)> = r.t.iter().filter(|(m, _)| m.len() == 1).map(|(m, &c)| (m[0], c)).collect();
            for &(x, c) in &ms {
                let (r1, k, f) = match &self.atoms[x as usize].def {
                    Def::Low(r1, k, f) if f.as_const().is_none() => (r1.clone(), *k, f.clone()),
                    _ => continue,
                };
                let c2 = match c.checked_shl(k) {
                    Some(v) if v >> k == c && v.abs() < LIM => v,
                    _ => continue,
                };
                // the quotient is there as well
                if f.t.iter().all(|(m, &d)| m.is_empty() || r.t.get(m).map_or(false, |&e| Some(e) == c2.checked_mul(d))) {
                    r.add_term(vec![x], -c)?;
                    r.add(&f, -c2)?;
                    r.add(&r1, c)?;
                    r = r.wrap(w);
                    continue 'again;
                }
                for &(y, d) in &ms {
                    if d != c2 || y == x {
                        continue;
                    }
                    let w2 = match &self.atoms[y as usize].def {
                        Def::Low(_, w2, _) => *w2,
                        _ => continue,
                    };
                    if k + w2 > 100 {
                        continue;
                    }
                    if let Some(e) = self.join(&Poly::atom(x), k, &Poly::atom(y), w2) {
                        r.add_term(vec![x], -c)?;
                        r.add_term(vec![y], -d)?;
                        r.add(&e, c)?;
                        continue 'again;
                    }
                }
            }
            return Some(r);
        }
    }
    /// the value modulo 2^w
    fn low(&mut self, r: &Poly, w: u32, h: Option<i128>) -> Option<Poly> {
        let m = 1i128 << w;
        let (lo, hi) = self.range(r)?;
        if lo >> w == hi >> w {
            return r.plus(&Poly::cst((lo >> w) << w), -1);
        }
        if let Some(e) = self.tabulate(r, |v| v & (m - 1)) {
            return Some(e);
        }
        let f = self.floor(r, w)?;
        let plain = r.t.keys().filter(|mo| mo.iter().any(|&a| !self.is_bool(a))).count();
        let simple = f.t.keys().all(|mo| mo.iter().all(|&a| self.is_bool(a))) && f.t.len() <= 2 && r.t.len() <= 3 && plain <= 1;
        if simple && r.t.len() == 2 && r.k() != 0 {
            let e = r.plus(&f, -m)?;
            self.facts.push((e.clone(), 0, m - 1));
            return Some(e);
        }
        let h = h.unwrap_or(m - 1).min(m - 1);
        let n = self.atoms.len();
        let a = self.keyed(1, w, r, || (Def::Low(r.clone(), w, f), 0, h));
        if a as usize == n {
            for y in self.tested.clone() {
                self.relate(y, a);
            }
            self.lows.push(a);
        }
        Some(Poly::atom(a))
    }
    fn input(&mut self, tm: &Tm, t: Id) -> Poly {
        if let Some(&a) = self.inputs.get(&t) {
            return Poly::atom(a);
        }
        let hi = tm.n(t).hi.min(mask(tm.w(t))) as i128;
        if self.verbose {
            eprintln!("opaque {}", crate::solve::show(tm, t, 6));
        }
        let a = self.new_atom(Def::Input(t), 0, hi);
        self.inputs.insert(t, a);
        Poly::atom(a)
    }
    /// exact value of the term, as an unsigned number
    pub fn exact(&mut self, tm: &mut Tm, sv: &mut Solver, t: Id) -> Option<Rc<Poly>> {
        if let Some(r) = self.exact.get(&t) {
            return r.clone();
        }
        let r = self.exact_(tm, sv, t).map(Rc::new);
        self.exact.insert(t, r.clone());
        r
    }
    fn exact_(&mut self, tm: &mut Tm, sv: &mut Solver, t: Id) -> Option<Poly> {
        let w = tm.w(t) as u32;
        if w > 100 {
            return None;
        }
        let r = self.cong(tm, sv, t)?;
        let (lo, hi) = self.range(&r)?;
        let m = 1i128 << w;
        if lo >> w == hi >> w {
            return r.plus(&Poly::cst((lo >> w) << w), -1);
        }
        // the quotient may be fixed by the definitions
        if let Some(e) = self.tabulate(&r, |v| v & (m - 1)) {
            return Some(e);
        }
        if (hi >> w) - (lo >> w) < 4 && (w == 32 || w == 64) && r.t.len() > 2 {
            let mut qs: Vec<i128> = ((lo >> w)..=(hi >> w)).collect();
            qs.sort_by_key(|q| q.abs());
            for q in qs {
                if self.prove(sv, &r, q * m, q * m + m - 1) {
                    let h = (tm.n(t).hi as i128).min(m - 1);
                    let a = self.keyed(1, w, &r, || (Def::Low(r.as_ref().clone(), w, Poly::cst(q)), 0, h));
                    return Some(Poly::atom(a));
                }
            }
        }
        self.low(&r, w, Some(tm.n(t).hi as i128))
    }
    /// a value congruent to the term modulo 2^width
    fn cong(&mut self, tm: &mut Tm, sv: &mut Solver, t: Id) -> Option<Rc<Poly>> {
        if let Some(r) = self.cong.get(&t) {
            return r.clone();
        }
        let r = self.cong_(tm, sv, t).map(Rc::new);
        self.cong.insert(t, r.clone());
        r
    }
    /// all bits of the term equal a single bit: that bit
    fn mask_bit(&mut self, tm: &mut Tm, sv: &mut Solver, t: Id) -> Option<Poly> {
        let w = tm.w(t) as u32;
        if w == 1 {
            return None;
        }
        match tm.op(t) {
            Op::Sum | Op::SExt | Op::Not | Op::Ite | Op::Concat => {}
            _ => return None,
        }
        if tm.op(t) == Op::Concat {
            let a: Vec<Id> = tm.n(t).args.to_vec();
            if a.iter().any(|&x| x != a[0]) || tm.w(a[0]) != 1 {
                return None;
            }
            return self.exact(tm, sv, a[0]).map(|x| x.as_ref().clone());
        }
        let r = self.cong(tm, sv, t)?.wrap(w);
        let n = r.times(-1)?;
        if self.range(&n)? == (0, 1) {
            return Some(n);
        }
        None
    }
    fn cong_(&mut self, tm: &mut Tm, sv: &mut Solver, t: Id) -> Option<Poly> {
        let n = tm.n(t).clone();
        let w = n.w as u32;
        if w > 100 {
            return None;
        }
        match n.op {
            Op::Const => Some(Poly::cst(n.k as i128)),
            Op::Var => Some(self.input(tm, t)),
            Op::Not => {
                if w == 1 {
                    let a = self.exact(tm, sv, n.args[0])?;
                    return Poly::cst(1).plus(&a, -1);
                }
                let a = self.cong(tm, sv, n.args[0])?;
                Some(Poly::cst(-1).plus(&a, -1)?.wrap(w))
            }
            Op::Sum => {
                let mut r = Poly::cst(sx(n.k, n.w));
                for p in n.args.chunks(2) {
                    let c = sx(tm.n(p[1]).k, n.w);
                    let a = self.cong(tm, sv, p[0])?;
                    r.add(&a.wrap(w), c)?;
                    r = r.wrap(w);
                }
                self.fuse(r, w)
            }
            Op::Mul => {
                let mut f = vec![];
                for &x in n.args.iter() {
                    let mut c = self.cong(tm, sv, x)?;
                    // a shifted value
                    let xn = tm.n(x).clone();
                    if xn.op == Op::Concat && xn.args.len() == 2 && tm.as_const(xn.args[0]) == Some(0) {
                        let top = self.cong(tm, sv, xn.args[1])?;
                        if top.t.len() == 1 {
                            c = Rc::new(top.times(1i128 << tm.w(xn.args[0]))?.wrap(w));
                        }
                    }
                    f.push(if c.t.len() == 1 { c } else { self.exact(tm, sv, x)? });
                }
                Some(self.mul(&f[0], &f[1])?.wrap(w))
            }
            Op::Concat => {
                // an input as a whole
                if n.args.iter().all(|&a| match tm.op(a) {
                    Op::Var | Op::Const => true,
                    Op::Extract => tm.op(tm.n(a).args[0]) == Op::Var,
                    _ => false,
                }) && n.args.iter().filter(|&&a| !tm.is_const(a)).count() > 1
                {
                    return Some(self.input(tm, t));
                }
                let mut ps: Vec<(Poly, u32)> = vec![];
                for &a in n.args.iter() {
                    let x = self.exact(tm, sv, a)?;
                    ps.push((x.as_ref().clone(), tm.w(a) as u32));
                }
                // adjacent pieces of one value
                let mut i = 0;
                while i + 1 < ps.len() {
                    match self.join(&ps[i].0, ps[i].1, &ps[i + 1].0, ps[i + 1].1) {
                        Some(x) => {
                            let w = ps[i].1 + ps[i + 1].1;
                            ps[i] = (x, w);
                            ps.remove(i + 1);
                        }
                        None => i += 1,
                    }
                }
                let mut r = Poly::default();
                let mut off = 0;
                for (x, w) in &ps {
                    r.add(x, 1i128 << off)?;
                    off += w;
                }
                Some(r)
            }
            Op::Extract => {
                // one bit of a bitwise operation
                let o = tm.op(n.args[0]);
                if w == 1 && matches!(o, Op::Or | Op::And | Op::Xor) {
                    let a: Vec<Id> = tm.n(n.args[0]).args.to_vec();
                    let bits: Vec<Id> = a.iter().map(|&x| tm.extract(x, n.k as u16, 1)).collect();
                    let b = match o {
                        Op::Or => tm.or_n(1, &bits),
                        Op::And => tm.and_n(1, &bits),
                        _ => tm.xor_n(1, &bits),
                    };
                    if tm.op(b) != Op::Extract || tm.n(b).args[0] != n.args[0] {
                        return self.exact(tm, sv, b).map(|x| x.as_ref().clone());
                    }
                }
                if n.k == 0 {
                    let a = self.cong(tm, sv, n.args[0])?;
                    return Some(a.wrap(w));
                }
                let a = self.exact(tm, sv, n.args[0])?;
                self.floor(&a, n.k as u32)
            }
            Op::SExt => {
                let wa = tm.w(n.args[0]) as u32;
                let a = self.exact(tm, sv, n.args[0])?;
                let s = self.floor(&a, wa - 1)?;
                a.plus(&s, -(1i128 << wa))
            }
            Op::And => {
                if w == 1 {
                    if n.args.len() > 4 {
                        return Some(self.input(tm, t));
                    }
                    let mut r = Poly::cst(1);
                    for &a in n.args.iter() {
                        let x = self.exact(tm, sv, a)?;
                        r = self.mul(&r, &x)?;
                        if r.t.len() > 16 {
                            return Some(self.input(tm, t));
                        }
                    }
                    return Some(r);
                }
                for i in 0..n.args.len() {
                    if let Some(b) = self.mask_bit(tm, sv, n.args[i]) {
                        let mut rest = n.args.to_vec();
                        rest.remove(i);
                        let y = tm.and_n(n.w, &rest);
                        let y = self.exact(tm, sv, y)?;
                        return self.mul(&b, &y);
                    }
                }
                Some(self.input(tm, t))
            }
            Op::Or => {
                if w == 1 {
                    if n.args.len() > 4 {
                        return Some(self.input(tm, t));
                    }
                    let mut r = Poly::cst(1);
                    for &a in n.args.iter() {
                        let x = self.exact(tm, sv, a)?;
                        r = self.mul(&r, &Poly::cst(1).plus(&x, -1)?)?;
                        if r.t.len() > 16 {
                            return Some(self.input(tm, t));
                        }
                    }
                    return Poly::cst(1).plus(&r, -1);
                }
                let mut seen = 0u128;
                for &a in n.args.iter() {
                    let nz = !tm.n(a).kz & mask(n.w);
                    if seen & nz != 0 {
                        // a few bits, one by one
                        let top = !tm.n(t).kz & mask(n.w);
                        if top >= 32 {
                            return Some(self.input(tm, t));
                        }
                        let mut r = Poly::default();
                        for i in 0..5 {
                            let b = tm.extract(t, i, 1);
                            let b = self.exact(tm, sv, b)?;
                            r.add(&b, 1i128 << i)?;
                        }
                        return Some(r);
                    }
                    seen |= nz;
                }
                let mut r = Poly::default();
                for &a in n.args.iter() {
                    let x = self.exact(tm, sv, a)?;
                    r.add(&x, 1)?;
                }
                Some(r)
            }
            Op::Xor => {
                if w == 1 {
                    let mut r = Poly::default();
                    for &a in n.args.iter() {
                        let x = self.exact(tm, sv, a)?;
                        let p = self.mul(&r, &x)?;
                        r.add(&x, 1)?;
                        r.add(&p, -2)?;
                        if r.t.len() > 16 {
                            return Some(self.input(tm, t));
                        }
                    }
                    return Some(r);
                }
                // x ^ ((x ^ y) & mask)
                for i in 0..n.args.len() {
                    if tm.op(n.args[i]) != Op::And {
                        continue;
                    }
                    let aa = tm.n(n.args[i]).args.to_vec();
                    for j in 0..aa.len() {
                        if let Some(b) = self.mask_bit(tm, sv, aa[j]) {
                            let mut rest = aa.clone();
                            rest.remove(j);
                            let z = tm.and_n(n.w, &rest);
                            let mut others = n.args.to_vec();
                            others.remove(i);
                            let x = tm.xor_n(n.w, &others);
                            let y = tm.xor(x, z);
                            let (px, py) = (self.exact(tm, sv, x)?, self.exact(tm, sv, y)?);
                            let d = py.plus(&px, -1)?;
                            return px.plus(&self.mul(&b, &d)?, 1);
                        }
                    }
                }
                Some(self.input(tm, t))
            }
            Op::Ite => {
                let c = self.exact(tm, sv, n.args[0])?;
                let a = self.exact(tm, sv, n.args[1])?;
                let b = self.exact(tm, sv, n.args[2])?;
                let d = a.plus(&b, -1)?;
                b.plus(&self.mul(&c, &d)?, 1)
            }
            Op::Eq => {
                let a = self.exact(tm, sv, n.args[0])?;
                let b = self.exact(tm, sv, n.args[1])?;
                self.zero_test(&a.plus(&b, -1)?)
            }
            Op::Ult => {
                let a = self.exact(tm, sv, n.args[0])?;
                let b = self.exact(tm, sv, n.args[1])?;
                self.neg_test(&a.plus(&b, -1)?)
            }
            Op::Slt => {
                let wa = tm.w(n.args[0]) as u32;
                let a = self.exact(tm, sv, n.args[0])?;
                let b = self.exact(tm, sv, n.args[1])?;
                let (sa, sb) = (self.floor(&a, wa - 1)?, self.floor(&b, wa - 1)?);
                let a = a.plus(&sa, -(1i128 << wa))?;
                let b = b.plus(&sb, -(1i128 << wa))?;
                self.neg_test(&a.plus(&b, -1)?)
            }
            _ => Some(self.input(tm, t)),
        }
    }

    // ------------------------------------------------------------ bounds
    /// lo <= p <= hi under the definitions of the atoms
    fn prove(&mut self, sv: &mut Solver, p: &Poly, lo: i128, hi: i128) -> bool {
        match self.range(p) {
            Some((a, b)) if a >= lo && b <= hi => return true,
            None => return false,
            _ => {}
        }
        let cases = match self.cases(p, lo, hi) {
            Some((a, b, _)) if a >= lo && b <= hi => return true,
            // out of reach in every case of a test
            Some((a, b, _)) if a > hi || b < lo => return false,
            Some((_, _, c)) if c.len() <= 8 => c,
            _ => vec![vec![]],
        };
        let key = (p.clone(), lo, hi);
        if let Some(&r) = self.asked.get(&key) {
            return r;
        }
        let mut r = true;
        for case in &cases {
            let mut held = false;
            let mut last = 0;
            for depth in [0u32, 1, 2, 3, 5] {
                let (s, n) = self.script(p, lo, hi, depth, case);
                if n == last && depth > 0 {
                    break;
                }
                last = n;
                self.lia += 1;
                let t0 = std::time::Instant::now();
                let res = sv.lia(&s, 1500 + 1000 * depth as u64);
                if self.verbose {
                    eprintln!("lia depth {} n {} {:?} {:.2}s", depth, n, res, t0.elapsed().as_secs_f64());
                }
                match res {
                    Some(false) => {
                        held = true;
                        break;
                    }
                    Some(true) => {}
                    None => break,
                }
            }
            if !held {
                r = false;
                break;
            }
        }
        if self.verbose && !r {
            eprintln!("not bounded: {} <= {} <= {} {:?}", lo, self.show(p), hi, self.range_cases(p));
        }
        self.asked.insert(key, r);
        r
    }
    fn int(c: i128) -> String {
        if c < 0 {
            format!("(- {})", c.unsigned_abs())
        } else {
            c.to_string()
        }
    }
    fn lin(&self, p: &Poly, monos: &mut BTreeSet<Mono>) -> String {
        let mut s = String::from("(+ 0");
        for (m, &c) in &p.t {
            if m.is_empty() {
                let _ = write!(s, " {}", Self::int(c));
            } else {
                monos.insert(m.clone());
                let _ = write!(s, " (* {} {})", Self::int(c), Self::mname(m));
            }
        }
        s.push(')');
        s
    }
    fn mname(m: &Mono) -> String {
        let v: Vec<String> = m.iter().map(|a| a.to_string()).collect();
        format!("m{}", v.join("_"))
    }
    fn script(&self, p: &Poly, lo: i128, hi: i128, depth: u32, case: &[(u32, bool)]) -> (String, usize) {
        let mut monos: BTreeSet<Mono> = BTreeSet::new();
        let goal = self.lin(p, &mut monos);
        let mut body = format!("(assert (or (< {} {}) (> {} {})))\n", goal, Self::int(lo), goal, Self::int(hi));
        for (z, _) in case {
            monos.insert(vec![*z]);
        }
        let mut done: BTreeSet<Mono> = BTreeSet::new();
        let mut decl = String::new();
        let mut nf = vec![false; self.facts.len()];
        let mut d = 0;
        loop {
            let new: Vec<Mono> = monos.iter().filter(|m| !done.contains(*m)).cloned().collect();
            if new.is_empty() {
                break;
            }
            for m in &new {
                done.insert(m.clone());
                let nm = Self::mname(m);
                let _ = writeln!(decl, "(declare-const {} Int)", nm);
                if let Some((a, b)) = self.mono_range(m) {
                    let _ = writeln!(body, "(assert (and (<= {} {}) (<= {} {})))", Self::int(a), nm, nm, Self::int(b));
                }
                if m.len() == 1 {
                    for (z, b) in case {
                        let q = match &self.atoms[*z as usize].def {
                            Def::Zero(q) => q,
                            _ => continue,
                        };
                        let v = if *z == m[0] {
                            Some(*b as i128)
                        } else if *b {
                            self.under_zero(q, m[0], 3)
                        } else {
                            None
                        };
                        if let Some(v) = v {
                            let _ = writeln!(body, "(assert (= {} {}))", nm, Self::int(v));
                        }
                    }
                }
                if m.len() >= 2 {
                    // carry times a value
                    if let Some(i) = m.iter().position(|&a| self.is_bool(a)) {
                        let mut rest = m.clone();
                        let b = rest.remove(i);
                        monos.insert(vec![b]);
                        monos.insert(rest.clone());
                        let _ = writeln!(body, "(assert (= {} (ite (= m{} 1) {} 0)))", nm, b, Self::mname(&rest));
                    }
                    continue;
                }
                if d >= depth {
                    continue;
                }
                match &self.atoms[m[0] as usize].def {
                    Def::Input(_) => {}
                    Def::Floor(r, k) => {
                        let l = self.lin(r, &mut monos);
                        let _ = writeln!(body, "(assert (let ((e (- {} (* {} {})))) (and (<= 0 e) (< e {}))))", l, 1i128 << k, nm, 1i128 << k);
                    }
                    Def::Low(r, k, f) => {
                        let l = self.lin(r, &mut monos);
                        let g = self.lin(f, &mut monos);
                        let _ = writeln!(body, "(assert (= {} (- {} (* {} {}))))", nm, l, 1i128 << k, g);
                    }
                    Def::Zero(r) => {
                        let l = self.lin(r, &mut monos);
                        let _ = writeln!(body, "(assert (= (= {} 1) (= {} 0)))", nm, l);
                    }
                    Def::Neg(r) => {
                        let l = self.lin(r, &mut monos);
                        let _ = writeln!(body, "(assert (= (= {} 1) (< {} 0)))", nm, l);
                    }
                }
            }
            if d < depth {
                for (i, (f, a, b)) in self.facts.iter().enumerate() {
                    if !nf[i] && f.t.keys().any(|m| !m.is_empty() && done.contains(m)) {
                        nf[i] = true;
                        let l = self.lin(f, &mut monos);
                        let _ = writeln!(body, "(assert (let ((e {})) (and (<= {} e) (<= e {}))))", l, Self::int(*a), Self::int(*b));
                    }
                }
            }
            d += 1;
        }
        (decl + &body, done.len())
    }
    fn show(&self, p: &Poly) -> String {
        let mut s = String::new();
        for (m, c) in &p.t {
            let _ = write!(s, " {:+}", c);
            for a in m {
                let x = &self.atoms[*a as usize];
                let k = match x.def {
                    Def::Input(t) => format!("t{}", t),
                    Def::Floor(_, k) => format!("F{}>>{}", a, k),
                    Def::Low(_, k, _) => format!("L{}:{}", a, k),
                    Def::Zero(_) => format!("Z{}", a),
                    Def::Neg(_) => format!("N{}", a),
                };
                let _ = write!(s, "*{}", k);
            }
        }
        s
    }
    /// x <= hi
    pub fn below(&mut self, tm: &mut Tm, sv: &mut Solver, x: Id, hi: u64) -> bool {
        match self.exact(tm, sv, x) {
            Some(p) => self.prove(sv, &p, 0, hi as i128),
            None => false,
        }
    }

    // ------------------------------------------------------------ congruences
    pub fn ghost(&mut self, g: G) -> u64 {
        self.ghosts.push(g);
        self.ghosts.len() as u64 - 1
    }
    /// the limbs of ghost h are fresh values whose residue is that of ghost v
    pub fn define(&mut self, tm: &mut Tm, sv: &mut Solver, h: usize, v: usize) -> Result<(), String> {
        let l = match &self.ghosts[h] {
            G::Limbs(l) => l.clone(),
            _ => return Err("definition of a ghost that is not limbs".into()),
        };
        let p = self.exact(tm, sv, l[0].0).ok_or("limb without a value")?;
        if l[0].1 != 0 || p.t.len() != 1 {
            return Err("first limb is not fresh".into());
        }
        let (m, &c) = p.t.iter().next().unwrap();
        if m.len() != 1 || c != 1 || !matches!(self.atoms[m[0] as usize].def, Def::Input(_)) || self.resid.contains_key(&m[0]) {
            return Err("first limb is not fresh".into());
        }
        self.resid.insert(m[0], (h, v));
        Ok(())
    }
    fn pm(&mut self, p: &Poly, md: &Md, tm: &mut Tm, sv: &mut Solver) -> Option<Pm> {
        let mut r = Pm::default();
        for (m, &c) in &p.t {
            let mut x = Pm::cst(md.from_i(c));
            for &a in m {
                let e = self.expand(a, md, tm, sv)?;
                x = self.pm_mul(&x, &e, md)?;
            }
            r.add(&x, md);
        }
        Some(r)
    }
    fn pm_mul(&self, a: &Pm, b: &Pm, md: &Md) -> Option<Pm> {
        if a.t.len().checked_mul(b.t.len())? > 2_000_000 {
            return None;
        }
        let mut r = Pm::default();
        for (m, x) in &a.t {
            for (n, y) in &b.t {
                let mut k = m.clone();
                k.extend_from_slice(n);
                let (k, c) = self.norm_mono(k, 1);
                if c == 0 {
                    continue;
                }
                let mut v = md.mul(x, y);
                if c != 1 {
                    v = md.mul(&v, &md.from_i(c));
                }
                r.add_term(k, v, md);
            }
        }
        Some(r)
    }
    fn expand(&mut self, a: u32, md: &Md, tm: &mut Tm, sv: &mut Solver) -> Option<Rc<Pm>> {
        if let Some(r) = self.expand.get(&a) {
            return Some(r.clone());
        }
        let r = if let Some(&(h, v)) = self.resid.get(&a) {
            // value minus the other limbs
            let l = match &self.ghosts[h] {
                G::Limbs(l) => l.clone(),
                _ => return None,
            };
            let mut r = self.eval(v, md, tm, sv)?.as_ref().clone();
            for (t, s) in &l[1..] {
                let p = self.exact(tm, sv, *t)?;
                let x = self.pm(&p, md, tm, sv)?;
                r.add_scaled(&x, &md.neg(&md.pow2(*s)), md);
            }
            r
        } else {
            match self.atoms[a as usize].def.clone() {
                Def::Low(r, k, f) => {
                    let mut x = self.pm(&r, md, tm, sv)?;
                    let y = self.pm(&f, md, tm, sv)?;
                    x.add_scaled(&y, &md.neg(&md.pow2(k)), md);
                    x
                }
                d => {
                    let mut e = self.same.get(&a).cloned();
                    if let (None, Def::Floor(b, k)) = (&e, &d) {
                        // quotient of a remainder: remainder of the quotient
                        if let Some(y) = self.single(b) {
                            if matches!(self.atoms[y as usize].def, Def::Low(..)) {
                                e = self.floor(b, *k).filter(|e| *e != Poly::atom(a));
                            }
                        }
                    }
                    match e {
                        Some(e) => self.pm(&e, md, tm, sv)?,
                        None => {
                            let mut x = Pm::default();
                            x.t.insert(vec![a], md.one());
                            x
                        }
                    }
                }
            }
        };
        let r = Rc::new(r);
        self.expand.insert(a, r.clone());
        Some(r)
    }
    fn eval(&mut self, h: usize, md: &Md, tm: &mut Tm, sv: &mut Solver) -> Option<Rc<Pm>> {
        if let Some(r) = self.gval.get(&h) {
            return Some(r.clone());
        }
        let r = match self.ghosts[h].clone() {
            G::Const(b) => Pm::cst(md.from_bytes(&b)),
            G::Limbs(l) => {
                let mut r = Pm::default();
                for (t, s) in l {
                    let p = self.exact(tm, sv, t)?;
                    let x = self.pm(&p, md, tm, sv)?;
                    r.add_scaled(&x, &md.pow2(s), md);
                }
                r
            }
            G::Op(o, a, b) => {
                let x = self.eval(a, md, tm, sv)?;
                let y = self.eval(b, md, tm, sv)?;
                match o {
                    0 => {
                        let mut r = x.as_ref().clone();
                        r.add(&y, md);
                        r
                    }
                    1 => {
                        let mut r = x.as_ref().clone();
                        r.add_scaled(&y, &md.neg(&md.one()), md);
                        r
                    }
                    _ => self.pm_mul(&x, &y, md)?,
                }
            }
        };
        let r = Rc::new(r);
        self.gval.insert(h, r.clone());
        Some(r)
    }
    fn value(&self, a: u32, memo: &mut HashMap<u32, i128>, val: &mut dyn FnMut(Id) -> u128) -> i128 {
        if let Some(&v) = memo.get(&a) {
            return v;
        }
        let v = match &self.atoms[a as usize].def {
            Def::Input(t) => val(*t) as i128,
            Def::Floor(p, k) => self.value_of(p, memo, val) >> k,
            Def::Low(p, k, f) => self.value_of(p, memo, val).wrapping_sub(self.value_of(f, memo, val).wrapping_shl(*k)),
            Def::Zero(p) => (self.value_of(p, memo, val) == 0) as i128,
            Def::Neg(p) => (self.value_of(p, memo, val) < 0) as i128,
        };
        memo.insert(a, v);
        v
    }
    fn value_of(&self, p: &Poly, memo: &mut HashMap<u32, i128>, val: &mut dyn FnMut(Id) -> u128) -> i128 {
        let mut s = 0i128;
        for (m, &c) in &p.t {
            let mut x = c;
            for &a in m {
                x = x.wrapping_mul(self.value(a, memo, val));
            }
            s = s.wrapping_add(x);
        }
        s
    }
    /// quotients and carries in the rest that have the same value, written differently
    fn unify(&mut self, tm: &Tm, sv: &mut Solver, r: &Pm, wit: &[u32]) -> bool {
        let mut at: Vec<u32> = r.t.keys().flatten().cloned().collect();
        at.sort();
        at.dedup();
        at.retain(|&a| !matches!(self.atoms[a as usize].def, Def::Input(_)));
        if at.len() > 100 {
            return false;
        }
        let mut vals: Vec<Vec<i128>> = vec![vec![]; at.len()];
        for &w in wit {
            let mut memo = HashMap::default();
            for (i, &a) in at.iter().enumerate() {
                vals[i].push(self.value(a, &mut memo, &mut |t| sv.eval_wit(tm, w, t)));
            }
        }
        let mut any = false;
        for i in 0..at.len() {
            let c = vals[i].first().cloned().unwrap_or(0);
            if vals[i].iter().all(|&v| v == c) && self.prove(sv, &Poly::atom(at[i]), c, c) {
                self.same.insert(at[i], Poly::cst(c));
                any = true;
                continue;
            }
            for j in 0..i {
                if vals[i] != vals[j] || self.same.contains_key(&at[j]) {
                    continue;
                }
                if let Some(d) = Poly::atom(at[i]).plus(&Poly::atom(at[j]), -1) {
                    if self.prove(sv, &d, 0, 0) {
                        self.same.insert(at[i], Poly::atom(at[j]));
                        any = true;
                        break;
                    }
                }
            }
        }
        any
    }
    /// the ghost value is a multiple of the modulus
    pub fn zero(&mut self, tm: &mut Tm, sv: &mut Solver, h: usize, modulus: &[u8], wit: &[u32]) -> Result<(), String> {
        let md = Md::new(modulus);
        for round in 0.. {
            self.expand.clear();
            self.gval.clear();
            let r = self.eval(h, &md, tm, sv).ok_or("value outside the polynomial fragment")?;
            if r.t.is_empty() {
                return Ok(());
            }
            if round < 3 && self.unify(tm, sv, &r, wit) {
                continue;
            }
            let mut s = format!("{} coefficients do not vanish:", r.t.len());
            for (m, c) in r.t.iter().take(8) {
                let mut p = Poly::default();
                p.t.insert(m.clone(), 1);
                let _ = write!(s, " {:x?}{}", c, self.show(&p));
            }
            return Err(s);
        }
        unreachable!()
    }
    pub fn eval_ghost(&self, h: usize, md: &Md, val: &mut dyn FnMut(Id) -> u128) -> Vec<u64> {
        match &self.ghosts[h] {
            G::Const(b) => md.from_bytes(b),
            G::Limbs(l) => {
                let mut r = md.from_i(0);
                for &(t, s) in l {
                    r = md.add(&r, &md.mul(&md.from_i(val(t) as i128), &md.pow2(s)));
                }
                r
            }
            G::Op(o, a, b) => {
                let x = self.eval_ghost(*a, md, val);
                let y = self.eval_ghost(*b, md, val);
                match o {
                    0 => md.add(&x, &y),
                    1 => md.add(&x, &md.neg(&y)),
                    _ => md.mul(&x, &y),
                }
            }
        }
    }
    pub fn has_defs(&self) -> bool {
        !self.resid.is_empty()
    }
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// polynomial with residues as coefficients
#[derive(Clone, Default)]
pub struct Pm {
    t: HashMap<Mono, Vec<u64>>,
}
impl Pm {
    fn cst(c: Vec<u64>) -> Pm {
        let mut r = Pm::default();
        if c.iter().any(|&x| x != 0) {
            r.t.insert(vec![], c);
        }
        r
    }
    fn add_term(&mut self, m: Mono, c: Vec<u64>, md: &Md) {
        match self.t.get_mut(&m) {
            Some(x) => {
                let s = md.add(x, &c);
                if s.iter().all(|&v| v == 0) {
                    self.t.remove(&m);
                } else {
                    *x = s;
                }
            }
            None => {
                if c.iter().any(|&v| v != 0) {
                    self.t.insert(m, c);
                }
            }
        }
    }
    fn add(&mut self, o: &Pm, md: &Md) {
        for (m, c) in &o.t {
            self.add_term(m.clone(), c.clone(), md);
        }
    }
    fn add_scaled(&mut self, o: &Pm, s: &Vec<u64>, md: &Md) {
        for (m, c) in &o.t {
            self.add_term(m.clone(), md.mul(c, s), md);
        }
    }
}

/// residues modulo a number
pub struct Md {
    m: Vec<u64>,
}
impl Md {
    pub fn new(be: &[u8]) -> Md {
        let mut m = vec![0u64; be.len() / 8 + 1];
        for (i, &b) in be.iter().rev().enumerate() {
            m[i / 8] |= (b as u64) << (8 * (i % 8));
        }
        if m[m.len() - 1] >> 63 != 0 {
            m.push(0);
        }
        Md { m }
    }
    fn cmp(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
        for i in (0..a.len()).rev() {
            if a[i] != b[i] {
                return a[i].cmp(&b[i]);
            }
        }
        std::cmp::Ordering::Equal
    }
    fn red(&self, a: &mut [u64]) {
        if Self::cmp(a, &self.m) != std::cmp::Ordering::Less {
            let mut b = 0u64;
            for i in 0..a.len() {
                let (x, o1) = a[i].overflowing_sub(self.m[i]);
                let (x, o2) = x.overflowing_sub(b);
                a[i] = x;
                b = (o1 | o2) as u64;
            }
        }
    }
    pub fn one(&self) -> Vec<u64> {
        let mut r = vec![0; self.m.len()];
        r[0] = 1;
        r
    }
    pub fn add(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        let mut r = vec![0; a.len()];
        let mut c = 0u128;
        for i in 0..a.len() {
            c += a[i] as u128 + b[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        self.red(&mut r);
        r
    }
    pub fn neg(&self, a: &[u64]) -> Vec<u64> {
        if a.iter().all(|&x| x == 0) {
            return a.to_vec();
        }
        let mut r = self.m.clone();
        let mut b = 0u64;
        for i in 0..a.len() {
            let (x, o1) = r[i].overflowing_sub(a[i]);
            let (x, o2) = x.overflowing_sub(b);
            r[i] = x;
            b = (o1 | o2) as u64;
        }
        r
    }
    fn dbl(&self, a: &mut [u64]) {
        let mut c = 0;
        for x in a.iter_mut() {
            let n = *x >> 63;
            *x = *x << 1 | c;
            c = n;
        }
        self.red(a);
    }
    pub fn mul(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        let one = |x: &[u64]| x[0] == 1 && x[1..].iter().all(|&v| v == 0);
        if one(a) {
            return b.to_vec();
        }
        if one(b) {
            return a.to_vec();
        }
        let mut r = vec![0; a.len()];
        for i in (0..64 * a.len()).rev() {
            self.dbl(&mut r);
            if b[i / 64] >> (i % 64) & 1 == 1 {
                r = self.add(&r, a);
            }
        }
        r
    }
    pub fn pow2(&self, k: u32) -> Vec<u64> {
        let mut r = self.one();
        for _ in 0..k {
            self.dbl(&mut r);
        }
        r
    }
    pub fn from_bytes(&self, be: &[u8]) -> Vec<u64> {
        let mut r = vec![0; self.m.len()];
        for &b in be {
            for _ in 0..8 {
                self.dbl(&mut r);
            }
            let mut x = vec![0; self.m.len()];
            x[0] = b as u64;
            r = self.add(&r, &x);
        }
        r
    }
    pub fn from_i(&self, c: i128) -> Vec<u64> {
        let r = self.from_bytes(&c.unsigned_abs().to_be_bytes());
        if c < 0 {
            self.neg(&r)
        } else {
            r
        }
    }
}
