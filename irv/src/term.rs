//! Hash-consed bit-vector terms (width 1..=128) with light normalisation.
use std::hash::{BuildHasherDefault, Hasher};

pub type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(23) ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,  // k = value
    Var,    // k = variable number
    Not,
    And,    // n-ary
    Or,     // n-ary
    Xor,    // n-ary
    Sum,    // args = t1,c1,t2,c2,.. (ci constants), k = constant addend
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    Lshr,
    Ashr,
    Concat, // args low to high
    Extract, // k = low bit
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
    Table, // k = table id, args = [index]
    Uf,    // k = function id << 16 | chunk; args = input bytes
}

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub k: u128,
    pub args: Box<[Id]>,
    /// bits known to be zero
    pub kz: u128,
    /// unsigned upper bound
    pub hi: u128,
}

#[derive(PartialEq, Eq, Hash)]
struct Key {
    op: Op,
    w: u16,
    k: u128,
    args: Box<[Id]>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub struct Table {
    pub w: u16,
    pub data: Vec<u128>,
}

pub struct Tm {
    pub nodes: Vec<Node>,
    map: HashMap<Key, Id>,
    pub vars: Vec<(String, u16)>,
    ext: HashMap<(Id, u16, u16), Id>,
    pub tables: Vec<Table>,
    table_map: HashMap<(u16, Vec<u128>), u32>,
    /// pairs of inverse permutations f -> g
    pub inv: HashMap<u128, u128>,
    /// keep sums and products whole (for the polynomial back end)
    pub plain: bool,
    small: Vec<Vec<Id>>, // cache of small constants for common widths
}

const FLAT: usize = 4;

impl Tm {
    pub fn new() -> Tm {
        let mut t = Tm {
            nodes: Vec::with_capacity(1 << 20),
            map: HashMap::with_capacity_and_hasher(1 << 20, Default::default()),
            vars: vec![],
            ext: HashMap::default(),
            tables: vec![],
            table_map: HashMap::default(),
            inv: HashMap::default(),
            small: vec![],
            plain: false,
        };
        for w in 0..=64u16 {
            let mut v = vec![];
            if w == 1 || w == 8 || w == 16 || w == 32 || w == 64 {
                for i in 0..(if w == 1 { 2u128 } else { 256 }) {
                    v.push(t.intern(Op::Const, w, i, &[]));
                }
            }
            t.small.push(v);
        }
        t
    }

    #[inline]
    pub fn n(&self, i: Id) -> &Node {
        &self.nodes[i as usize]
    }
    #[inline]
    pub fn w(&self, i: Id) -> u16 {
        self.nodes[i as usize].w
    }
    #[inline]
    pub fn op(&self, i: Id) -> Op {
        self.nodes[i as usize].op
    }
    #[inline]
    pub fn as_const(&self, i: Id) -> Option<u128> {
        let n = &self.nodes[i as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn is_const(&self, i: Id) -> bool {
        self.nodes[i as usize].op == Op::Const
    }

    fn intern(&mut self, op: Op, w: u16, k: u128, args: &[Id]) -> Id {
        debug_assert!(w >= 1 && w <= 128, "width {} {:?}", w, op);
        let key = Key { op, w, k, args: args.into() };
        if let Some(&i) = self.map.get(&key) {
            return i;
        }
        let m = mask(w);
        let (mut kz, mut hi) = (!m, m);
        match op {
            Op::Const => {
                kz = !k;
                hi = k;
            }
            Op::And => {
                for &a in args {
                    kz |= self.n(a).kz;
                    hi = hi.min(self.n(a).hi);
                }
            }
            Op::Or | Op::Xor => {
                let mut z = u128::MAX;
                for &a in args {
                    z &= self.n(a).kz;
                }
                kz |= z;
            }
            Op::Sum => {
                let mut s: Option<u128> = Some(k);
                let mut lowz = if k == 0 { 128 } else { k.trailing_zeros() };
                for p in args.chunks(2) {
                    let c = self.n(p[1]).k;
                    let h = self.n(p[0]).hi;
                    s = s.and_then(|s| c.checked_mul(h).and_then(|x| s.checked_add(x)));
                    let tz = (!self.n(p[0]).kz).trailing_zeros();
                    lowz = lowz.min(tz + c.trailing_zeros());
                }
                if let Some(s) = s {
                    if s <= m {
                        hi = s;
                    }
                }
                if lowz < 128 {
                    kz |= (1u128 << lowz) - 1;
                }
            }
            Op::Mul => {
                if let Some(s) = self.n(args[0]).hi.checked_mul(self.n(args[1]).hi) {
                    if s <= m {
                        hi = s;
                    }
                }
            }
            Op::UDiv => {
                hi = self.n(args[0]).hi;
                if let Some(d) = self.as_const(args[1]) {
                    if d > 0 {
                        hi /= d;
                    }
                }
            }
            Op::URem => {
                hi = self.n(args[0]).hi;
                if let Some(d) = self.as_const(args[1]) {
                    if d > 0 {
                        hi = hi.min(d - 1);
                    }
                }
            }
            Op::Lshr => {
                hi = self.n(args[0]).hi;
            }
            Op::Concat => {
                let mut p = 0u32;
                let mut z = 0u128;
                let mut h = 0u128;
                for &a in args {
                    let n = self.n(a);
                    z |= (n.kz & mask(n.w)) << p;
                    h |= n.hi << p;
                    p += n.w as u32;
                }
                kz |= z;
                hi = h;
            }
            Op::Extract => {
                let a = self.n(args[0]);
                kz |= (a.kz >> k) & m;
                if a.hi >> k <= m {
                    hi = a.hi >> k;
                }
            }
            Op::Ite => {
                kz |= self.n(args[1]).kz & self.n(args[2]).kz;
                hi = self.n(args[1]).hi.max(self.n(args[2]).hi);
            }
            Op::Table => {
                let mut z = u128::MAX;
                let mut h = 0;
                for &v in &self.tables[k as usize].data {
                    z &= !v;
                    h = h.max(v);
                }
                kz |= z;
                hi = h;
            }
            _ => {}
        }
        // combine
        let kzm = !kz & m;
        if hi > kzm {
            hi = kzm;
        }
        if hi < m {
            let lz = hi.leading_zeros();
            if lz > 0 {
                kz |= if lz >= 128 { u128::MAX } else { !(u128::MAX >> lz) };
            }
        }
        if kz == u128::MAX && op != Op::Const {
            return self.cst(w, 0);
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { op, w, k, args: args.into(), kz, hi });
        self.map.insert(key, id);
        id
    }

    #[inline]
    pub fn cst(&mut self, w: u16, v: u128) -> Id {
        let v = v & mask(w);
        if v < 256 && (w as usize) < self.small.len() {
            let s = &self.small[w as usize];
            if (v as usize) < s.len() {
                return s[v as usize];
            }
        }
        self.intern(Op::Const, w, v, &[])
    }
    pub fn tru(&mut self) -> Id {
        self.cst(1, 1)
    }
    pub fn fls(&mut self) -> Id {
        self.cst(1, 0)
    }
    pub fn var(&mut self, name: &str, w: u16) -> Id {
        let k = self.vars.len() as u128;
        self.vars.push((name.to_string(), w));
        self.intern(Op::Var, w, k, &[])
    }

    pub fn not(&mut self, a: Id) -> Id {
        let n = self.n(a);
        let w = n.w;
        match n.op {
            Op::Const => {
                let k = n.k;
                self.cst(w, !k)
            }
            Op::Not => n.args[0],
            _ => self.intern(Op::Not, w, 0, &[a]),
        }
    }

    fn flat(&self, op: Op, a: Id, out: &mut Vec<Id>) {
        let n = self.n(a);
        if n.op == op && n.args.len() <= FLAT {
            out.extend_from_slice(&n.args);
        } else {
            out.push(a);
        }
    }

    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.and_n(self.w(a), &[a, b])
    }
    pub fn and_n(&mut self, w: u16, xs: &[Id]) -> Id {
        let mut v = vec![];
        for &x in xs {
            self.flat(Op::And, x, &mut v);
        }
        let m = mask(w);
        let mut c = m;
        let mut r: Vec<Id> = vec![];
        for x in v {
            if let Some(k) = self.as_const(x) {
                c &= k;
            } else {
                r.push(x);
            }
        }
        if c == 0 {
            return self.cst(w, 0);
        }
        r.sort_unstable();
        r.dedup();
        for &x in &r {
            if self.op(x) == Op::Not && r.binary_search(&self.n(x).args[0]).is_ok() {
                return self.cst(w, 0);
            }
        }
        // bits already zero in some operand need not be masked
        let mut kz = 0u128;
        for &x in &r {
            kz |= self.n(x).kz;
        }
        if r.is_empty() {
            return self.cst(w, c);
        }
        if (c | kz) & m == m {
            c = m;
        }
        let body = if r.len() == 1 {
            r[0]
        } else if let Some(x) = self.piecewise(Op::And, w, &r) {
            x
        } else {
            self.intern(Op::And, w, 0, &r)
        };
        if c == m {
            return body;
        }
        // mask by a constant: cut into runs
        let runs = runs(c, w);
        if runs.len() <= 5 {
            let mut ps = vec![];
            for (lo, len, one) in runs {
                if one {
                    let e = self.extract(body, lo, len);
                    ps.push(e);
                } else {
                    let z = self.cst(len, 0);
                    ps.push(z);
                }
            }
            return self.concat(&ps);
        }
        let cc = self.cst(w, c);
        if r.len() == 1 {
            let mut v = vec![r[0], cc];
            v.sort_unstable();
            return self.intern(Op::And, w, 0, &v);
        }
        let mut v = if self.op(body) == Op::And { r } else { vec![body] };
        v.push(cc);
        v.sort_unstable();
        self.intern(Op::And, w, 0, &v)
    }

    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.or_n(self.w(a), &[a, b])
    }
    pub fn or_n(&mut self, w: u16, xs: &[Id]) -> Id {
        let m = mask(w);
        let mut v = vec![];
        for &x in xs {
            self.flat(Op::Or, x, &mut v);
        }
        let mut c = 0;
        let mut r: Vec<Id> = vec![];
        for x in v {
            if let Some(k) = self.as_const(x) {
                c |= k;
            } else {
                r.push(x);
            }
        }
        if c == m {
            return self.cst(w, m);
        }
        r.sort_unstable();
        r.dedup();
        for &x in &r {
            if self.op(x) == Op::Not && r.binary_search(&self.n(x).args[0]).is_ok() {
                return self.cst(w, m);
            }
        }
        if r.is_empty() {
            return self.cst(w, c);
        }
        if c != 0 {
            let cc = self.cst(w, c);
            r.push(cc);
            r.sort_unstable();
        }
        if r.len() == 1 {
            return r[0];
        }
        if let Some(x) = self.disjoint(w, &r) {
            return x;
        }
        if let Some(x) = self.piecewise(Op::Or, w, &r) {
            return x;
        }
        self.intern(Op::Or, w, 0, &r)
    }

    pub fn xor(&mut self, a: Id, b: Id) -> Id {
        self.xor_n(self.w(a), &[a, b])
    }
    pub fn xor_n(&mut self, w: u16, xs: &[Id]) -> Id {
        let m = mask(w);
        let mut v = vec![];
        for &x in xs {
            self.flat(Op::Xor, x, &mut v);
        }
        let mut c = 0u128;
        let mut r: Vec<Id> = vec![];
        for x in v {
            if let Some(k) = self.as_const(x) {
                c ^= k;
            } else if self.op(x) == Op::Not {
                c ^= m;
                let y = self.n(x).args[0];
                self.flat(Op::Xor, y, &mut r);
            } else {
                r.push(x);
            }
        }
        let mut i = 0;
        while i < r.len() {
            if let Some(k) = self.as_const(r[i]) {
                c ^= k;
                r.swap_remove(i);
            } else {
                i += 1;
            }
        }
        r.sort_unstable();
        // cancel pairs
        let mut q: Vec<Id> = vec![];
        for x in r {
            if q.last() == Some(&x) {
                q.pop();
            } else {
                q.push(x);
            }
        }
        let mut r = q;
        if r.is_empty() {
            return self.cst(w, c);
        }
        if c == m {
            let b = self.xor_core(w, &r);
            return self.not(b);
        }
        if c != 0 {
            let cc = self.cst(w, c);
            r.push(cc);
            r.sort_unstable();
        }
        self.xor_core(w, &r)
    }
    fn xor_core(&mut self, w: u16, r: &[Id]) -> Id {
        if r.len() == 1 {
            return r[0];
        }
        if let Some(x) = self.disjoint(w, r) {
            return x;
        }
        if let Some(x) = self.piecewise(Op::Xor, w, r) {
            return x;
        }
        self.intern(Op::Xor, w, 0, r)
    }

    /// Operands whose possibly-one bits are pairwise disjoint: a concatenation.
    fn disjoint(&mut self, w: u16, r: &[Id]) -> Option<Id> {
        if r.len() > 16 {
            return None;
        }
        let mut used = 0u128;
        for &x in r {
            let p = !self.n(x).kz & mask(w);
            if used & p != 0 {
                return None;
            }
            used |= p;
        }
        let mut segs: Vec<(u16, u16, Id)> = vec![]; // lo,len,id
        for &x in r {
            for (lo, len, one) in cover(!self.n(x).kz & mask(w), w) {
                if one {
                    segs.push((lo, len, x));
                }
            }
        }
        segs.sort();
        for k in 1..segs.len() {
            if segs[k - 1].0 + segs[k - 1].1 > segs[k].0 {
                return self.disjoint_runs(w, r);
            }
        }
        self.from_segs(w, segs)
    }
    fn disjoint_runs(&mut self, w: u16, r: &[Id]) -> Option<Id> {
        let mut segs: Vec<(u16, u16, Id)> = vec![];
        for &x in r {
            for (lo, len, one) in runs(!self.n(x).kz & mask(w), w) {
                if one {
                    segs.push((lo, len, x));
                }
            }
        }
        if segs.len() > 24 {
            return None;
        }
        segs.sort();
        self.from_segs(w, segs)
    }
    fn from_segs(&mut self, w: u16, segs: Vec<(u16, u16, Id)>) -> Option<Id> {
        let mut ps = vec![];
        let mut at = 0u16;
        for (lo, len, x) in segs {
            if lo > at {
                let z = self.cst(lo - at, 0);
                ps.push(z);
            }
            let e = self.extract(x, lo, len);
            ps.push(e);
            at = lo + len;
        }
        if at < w {
            let z = self.cst(w - at, 0);
            ps.push(z);
        }
        Some(self.concat(&ps))
    }

    /// bitwise op over concatenations with identical cut points (or constants)
    fn piecewise(&mut self, op: Op, w: u16, r: &[Id]) -> Option<Id> {
        let mut cuts: Option<Vec<u16>> = None;
        for &x in r {
            let n = self.n(x);
            match n.op {
                Op::Const => {}
                Op::Concat => {
                    let c: Vec<u16> = n.args.iter().map(|&a| self.w(a)).collect();
                    match &cuts {
                        None => cuts = Some(c),
                        Some(d) => {
                            if *d != c {
                                // refine when one is a refinement by constants only
                                return self.piecewise_refine(op, w, r);
                            }
                        }
                    }
                }
                _ => return None,
            }
        }
        let cuts = cuts?;
        if !self.cuts_fine(r, &cuts) {
            return None;
        }
        Some(self.by_cuts(op, w, r, &cuts))
    }
    /// a part that stands for itself, not a slice of a computed word
    fn fine(&self, x: Id) -> bool {
        let n = self.n(x);
        match n.op {
            Op::Extract => matches!(self.op(n.args[0]), Op::Var | Op::Table | Op::Uf),
            Op::Not => self.fine(n.args[0]),
            Op::Concat => n.args.iter().all(|&a| self.fine(a)),
            _ => true,
        }
    }
    fn cuts_fine(&mut self, r: &[Id], cuts: &[u16]) -> bool {
        for &x in r {
            if self.is_const(x) {
                continue;
            }
            let mut lo = 0;
            for &len in cuts {
                let e = self.extract(x, lo, len);
                if !self.fine(e) {
                    return false;
                }
                lo += len;
            }
        }
        true
    }
    fn by_cuts(&mut self, op: Op, _w: u16, r: &[Id], cuts: &[u16]) -> Id {
        let mut lo = 0u16;
        let mut ps = vec![];
        for &len in cuts {
            let xs: Vec<Id> = r.iter().map(|&x| self.extract(x, lo, len)).collect();
            let p = match op {
                Op::And => self.and_n(len, &xs),
                Op::Or => self.or_n(len, &xs),
                _ => self.xor_n(len, &xs),
            };
            ps.push(p);
            lo += len;
        }
        self.concat(&ps)
    }
    fn piecewise_refine(&mut self, op: Op, w: u16, r: &[Id]) -> Option<Id> {
        // union of cut points; only if all of them are byte aligned (or few)
        let mut pts = std::collections::BTreeSet::new();
        for &x in r {
            let n = self.n(x);
            if n.op == Op::Concat {
                let mut p = 0;
                for &a in n.args.iter() {
                    p += self.w(a);
                    pts.insert(p);
                }
            }
        }
        if !pts.iter().all(|p| p % 8 == 0) {
            return None;
        }
        let mut cuts = vec![];
        let mut at = 0;
        for p in pts {
            cuts.push(p - at);
            at = p;
        }
        if !self.cuts_fine(r, &cuts) {
            return None;
        }
        Some(self.by_cuts(op, w, r, &cuts))
    }

    pub fn concat(&mut self, ps: &[Id]) -> Id {
        // flatten
        let mut v: Vec<Id> = Vec::with_capacity(ps.len());
        for &p in ps {
            if self.op(p) == Op::Concat {
                let n = self.n(p);
                v.extend_from_slice(&n.args.clone());
            } else {
                v.push(p);
            }
        }
        // merge adjacent
        let mut out: Vec<Id> = Vec::with_capacity(v.len());
        for p in v {
            if let Some(&q) = out.last() {
                if let Some(m) = self.merge2(q, p) {
                    out.pop();
                    out.push(m);
                    continue;
                }
            }
            out.push(p);
        }
        if out.len() == 1 {
            return out[0];
        }
        let w: u32 = out.iter().map(|&a| self.w(a) as u32).sum();
        assert!(w <= 128, "concat too wide");
        self.intern(Op::Concat, w as u16, 0, &out)
    }
    fn merge2(&mut self, lo: Id, hi: Id) -> Option<Id> {
        let (a, b) = (self.n(lo), self.n(hi));
        match (a.op, b.op) {
            (Op::Const, Op::Const) => {
                let (k, w) = (a.k | (b.k << a.w), a.w + b.w);
                Some(self.cst(w, k))
            }
            (Op::Extract, Op::Extract) => {
                if a.args[0] == b.args[0] && a.k + a.w as u128 == b.k {
                    let (x, l, w) = (a.args[0], a.k as u16, a.w + b.w);
                    Some(self.extract(x, l, w))
                } else {
                    None
                }
            }
            // extract pushed through bitwise ops: try to re-fuse not(x)
            (Op::Not, Op::Not) => {
                let (x, y) = (a.args[0], b.args[0]);
                let m = self.merge2(x, y)?;
                Some(self.not(m))
            }
            (Op::Ite, Op::Ite) if a.args[0] == b.args[0] => {
                let (c, p, q, r, t) = (a.args[0], a.args[1], b.args[1], a.args[2], b.args[2]);
                let x = self.merge2(p, q)?;
                let y = self.merge2(r, t)?;
                Some(self.ite(c, x, y))
            }
            _ => None,
        }
    }

    pub fn extract(&mut self, a: Id, lo: u16, len: u16) -> Id {
        if lo == 0 && len == self.w(a) {
            return a;
        }
        let simple = matches!(self.op(a), Op::Const | Op::Var);
        if !simple {
            if let Some(&r) = self.ext.get(&(a, lo, len)) {
                return r;
            }
        }
        let r = self.extract_in(a, lo, len);
        if !simple {
            self.ext.insert((a, lo, len), r);
        }
        r
    }
    fn extract_in(&mut self, a: Id, lo: u16, len: u16) -> Id {
        let n = self.n(a);
        debug_assert!(lo + len <= n.w);
        if (n.kz >> lo) & mask(len) == mask(len) {
            return self.cst(len, 0);
        }
        match n.op {
            Op::Const => {
                let k = n.k >> lo;
                self.cst(len, k)
            }
            Op::Extract => {
                let (x, l) = (n.args[0], n.k as u16);
                self.extract(x, l + lo, len)
            }
            Op::Concat => {
                let args = n.args.clone();
                let mut at = 0u16;
                let mut ps = vec![];
                for &p in args.iter() {
                    let pw = self.w(p);
                    let s = lo.max(at);
                    let e = (lo + len).min(at + pw);
                    if s < e {
                        let x = self.extract(p, s - at, e - s);
                        ps.push(x);
                    }
                    at += pw;
                }
                self.concat(&ps)
            }
            Op::Not => {
                let x = n.args[0];
                let e = self.extract(x, lo, len);
                self.not(e)
            }
            Op::And | Op::Or | Op::Xor => {
                let op = n.op;
                let args = n.args.clone();
                let mut useful = args.len() <= 8 && args.iter().all(|&x| matches!(self.op(x), Op::Concat | Op::Const));
                let mut xs: Vec<Id> = vec![];
                if useful {
                    xs = args.iter().map(|&x| self.extract(x, lo, len)).collect();
                    useful = xs.iter().all(|&x| self.fine(x));
                }
                if useful {
                    match op {
                        Op::And => self.and_n(len, &xs),
                        Op::Or => self.or_n(len, &xs),
                        _ => self.xor_n(len, &xs),
                    }
                } else {
                    self.intern(Op::Extract, len, lo as u128, &[a])
                }
            }
            Op::Ite if len == 1 && (self.is_const(n.args[1]) || self.is_const(n.args[2])) => {
                let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
                let x = self.extract(x, lo, len);
                let y = self.extract(y, lo, len);
                self.ite(c, x, y)
            }
            Op::Sum if lo == 0 && !self.plain => {
                let args = n.args.clone();
                let k = n.k;
                let mut ts = vec![];
                for p in args.chunks(2) {
                    let c = self.n(p[1]).k;
                    let e = self.extract(p[0], 0, len);
                    if !self.fine(e) {
                        return self.intern(Op::Extract, len, lo as u128, &[a]);
                    }
                    ts.push((c, e));
                }
                self.sum(len, &ts, k)
            }
            Op::Mul if lo == 0 && !self.plain => {
                let (x, y) = (n.args[0], n.args[1]);
                let x = self.extract(x, 0, len);
                let y = self.extract(y, 0, len);
                if !self.fine(x) || !self.fine(y) {
                    return self.intern(Op::Extract, len, lo as u128, &[a]);
                }
                self.mul(x, y)
            }
            Op::SExt => {
                let x = n.args[0];
                let xw = self.w(x);
                if lo + len <= xw {
                    self.extract(x, lo, len)
                } else if lo == 0 {
                    self.sext(x, len)
                } else {
                    self.intern(Op::Extract, len, lo as u128, &[a])
                }
            }
            Op::Ite => {
                let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
                if matches!(self.op(x), Op::Concat) || matches!(self.op(y), Op::Concat) || (self.is_const(x) && self.is_const(y)) {
                    let x = self.extract(x, lo, len);
                    let y = self.extract(y, lo, len);
                    self.ite(c, x, y)
                } else {
                    self.intern(Op::Extract, len, lo as u128, &[a])
                }
            }
            _ => self.intern(Op::Extract, len, lo as u128, &[a]),
        }
    }

    pub fn zext(&mut self, a: Id, w: u16) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.cst(w - aw, 0);
        self.concat(&[a, z])
    }
    pub fn sext(&mut self, a: Id, w: u16) -> Id {
        let n = self.n(a);
        let aw = n.w;
        if aw == w {
            return a;
        }
        if (n.kz >> (aw - 1)) & 1 == 1 {
            return self.zext(a, w);
        }
        if let Some(k) = self.as_const(a) {
            let v = if (k >> (aw - 1)) & 1 == 1 { k | !mask(aw) } else { k };
            return self.cst(w, v);
        }
        if self.op(a) == Op::SExt {
            let x = self.n(a).args[0];
            return self.sext(x, w);
        }
        self.intern(Op::SExt, w, 0, &[a])
    }
    pub fn trunc(&mut self, a: Id, w: u16) -> Id {
        self.extract(a, 0, w)
    }

    fn push_sum(&self, w: u16, c: u128, t: Id, ts: &mut Vec<(u128, Id)>, k: &mut u128, force: bool) {
        let m = mask(w);
        let n = self.n(t);
        match n.op {
            Op::Const => *k = k.wrapping_add(c.wrapping_mul(n.k)) & m,
            Op::Sum if force || n.args.len() / 2 <= FLAT => {
                *k = k.wrapping_add(c.wrapping_mul(n.k)) & m;
                for p in n.args.chunks(2) {
                    let cc = self.n(p[1]).k;
                    self.push_sum(w, c.wrapping_mul(cc) & m, p[0], ts, k, false);
                }
            }
            Op::Not => {
                // ~x = -x - 1
                *k = k.wrapping_sub(c) & m;
                self.push_sum(w, c.wrapping_neg() & m, n.args[0], ts, k, false);
            }
            Op::Or | Op::Xor if self.complementary(t) => {
                for &x in n.args.iter() {
                    self.push_sum(w, c, x, ts, k, false);
                }
            }
            _ => ts.push((c & m, t)),
        }
    }
    /// operands pairwise exclude each other bit by bit (x & .., !x & ..)
    fn complementary(&self, t: Id) -> bool {
        let a = &self.n(t).args;
        if a.len() > 3 {
            return false;
        }
        for i in 0..a.len() {
            for j in 0..i {
                if !self.excl(a[i], a[j]) {
                    return false;
                }
            }
        }
        true
    }
    fn excl(&self, x: Id, y: Id) -> bool {
        let lits = |t: Id| -> Vec<Id> {
            if self.op(t) == Op::And {
                self.n(t).args.to_vec()
            } else {
                vec![t]
            }
        };
        let (p, q) = (lits(x), lits(y));
        p.iter().any(|&a| q.iter().any(|&b| (self.op(a) == Op::Not && self.n(a).args[0] == b) || (self.op(b) == Op::Not && self.n(b).args[0] == a)))
    }
    pub fn sum(&mut self, w: u16, xs: &[(u128, Id)], k0: u128) -> Id {
        let m = mask(w);
        let mut k = k0 & m;
        let mut ts: Vec<(u128, Id)> = vec![];
        for &(c, t) in xs {
            debug_assert_eq!(self.w(t), w);
            self.push_sum(w, c & m, t, &mut ts, &mut k, false);
        }
        // shl-like leaves become coefficients
        for i in 0..ts.len() {
            let n = self.n(ts[i].1);
            if n.op == Op::Concat && self.as_const(n.args[0]) == Some(0) {
                let s = self.w(n.args[0]);
                let rest: Vec<Id> = n.args[1..].to_vec();
                // the value is rest << s ; multiplying by 2^s drops the top s bits
                if rest.len() == 1 && !self.plain && self.op(rest[0]) == Op::Extract && self.n(rest[0]).k == 0 && self.w(self.n(rest[0]).args[0]) == w {
                    ts[i] = ((ts[i].0 << s) & m, self.n(rest[0]).args[0]);
                } else {
                    let y = self.concat(&rest);
                    let y = self.zext(y, w);
                    ts[i] = ((ts[i].0 << s) & m, y);
                }
            }
        }
        ts.sort_unstable_by_key(|p| p.1);
        let mut out: Vec<(u128, Id)> = vec![];
        for (c, t) in ts {
            match out.last_mut() {
                Some(l) if l.1 == t => l.0 = l.0.wrapping_add(c) & m,
                _ => out.push((c, t)),
            }
        }
        out.retain(|p| p.0 & m != 0);
        if out.is_empty() {
            return self.cst(w, k);
        }
        if out.len() == 1 && k == 0 {
            let (c, t) = out[0];
            if c == 1 {
                return t;
            }
            if c.is_power_of_two() {
                let s = c.trailing_zeros() as u16;
                let z = self.cst(s, 0);
                let e = self.extract(t, 0, w - s);
                return self.concat(&[z, e]);
            }
        }
        if w == 1 {
            // addition modulo 2 is xor
            let mut v: Vec<Id> = out.iter().map(|p| p.1).collect();
            let c = self.cst(1, k);
            v.push(c);
            return self.xor_n(1, &v);
        }
        if k == m && out.len() == 1 && out[0].0 == m {
            // -1 - x = ~x
            return self.not(out[0].1);
        }
        if k == 0 && out.len() <= 16 && out.iter().all(|p| p.0.is_power_of_two()) {
            let mut used = 0u128;
            let mut ok = true;
            for &(c, t) in &out {
                let s = c.trailing_zeros();
                let p = !self.n(t).kz & m;
                let q = (p << s) & m;
                if q >> s != p || used & q != 0 {
                    ok = false;
                    break;
                }
                used |= q;
            }
            if ok {
                let mut v = vec![];
                for (c, t) in out {
                    let s = c.trailing_zeros() as u16;
                    let x = if s == 0 {
                        t
                    } else {
                        let z = self.cst(s, 0);
                        let e = self.extract(t, 0, w - s);
                        self.concat(&[z, e])
                    };
                    v.push(x);
                }
                return self.or_n(w, &v);
            }
        }
        // a sum that cannot leave the lower word is formed there (addresses are left as they are)
        if w >= 64 && !self.plain && out.len() > 1 && k >> 28 == 0 {
            let top = out.iter().fold(Some(k), |s, &(c, t)| c.checked_mul(self.n(t).hi).and_then(|p| s?.checked_add(p)));
            if top.map_or(false, |t| t >> 32 == 0) {
                let v: Vec<(u128, Id)> = out.iter().map(|&(c, t)| (c, self.extract(t, 0, 32))).collect();
                let s = self.sum(32, &v, k);
                return self.zext(s, w);
            }
        }
        let mut args = vec![];
        for (c, t) in out {
            args.push(t);
            let cc = self.cst(w, c);
            args.push(cc);
        }
        self.intern(Op::Sum, w, k, &args)
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(w, x.wrapping_add(y));
        }
        self.sum(w, &[(1, a), (1, b)], 0)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(w, x.wrapping_sub(y));
        }
        self.sum(w, &[(1, a), (mask(w), b)], 0)
    }
    pub fn neg(&mut self, a: Id) -> Id {
        let w = self.w(a);
        self.sum(w, &[(mask(w), a)], 0)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(w, x.wrapping_mul(y)),
            (Some(x), None) => return self.sum(w, &[(x, b)], 0),
            (None, Some(y)) => return self.sum(w, &[(y, a)], 0),
            _ => {}
        }
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        // boolean factor
        for (x, y) in [(a, b), (b, a)] {
            if self.n(x).hi == 1 {
                let c = self.extract(x, 0, 1);
                let z = self.cst(w, 0);
                return self.ite(c, y, z);
            }
        }
        self.intern(Op::Mul, w, 0, &[a, b])
    }
    pub fn udiv(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(d) = self.as_const(b) {
            if d != 0 {
                if let Some(x) = self.as_const(a) {
                    return self.cst(w, x / d);
                }
                if d.is_power_of_two() {
                    let s = self.cst(w, d.trailing_zeros() as u128);
                    return self.lshr(a, s);
                }
                if self.n(a).hi < d {
                    return self.cst(w, 0);
                }
            }
        }
        self.intern(Op::UDiv, w, 0, &[a, b])
    }
    pub fn urem(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(d) = self.as_const(b) {
            if d != 0 {
                if let Some(x) = self.as_const(a) {
                    return self.cst(w, x % d);
                }
                if d.is_power_of_two() {
                    let m = self.cst(w, d - 1);
                    return self.and(a, m);
                }
                if self.n(a).hi < d {
                    return a;
                }
            }
        }
        self.intern(Op::URem, w, 0, &[a, b])
    }
    pub fn sdiv(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y != 0 {
                return self.cst(w, x.wrapping_div(y) as u128);
            }
        }
        let top = 1u128 << (w - 1);
        if self.n(a).hi < top && self.n(b).hi < top {
            return self.udiv(a, b);
        }
        self.intern(Op::SDiv, w, 0, &[a, b])
    }
    pub fn srem(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y != 0 {
                return self.cst(w, x.wrapping_rem(y) as u128);
            }
        }
        let top = 1u128 << (w - 1);
        if self.n(a).hi < top && self.n(b).hi < top {
            return self.urem(a, b);
        }
        self.intern(Op::SRem, w, 0, &[a, b])
    }
    pub fn shl(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s >= w as u128 {
                return self.cst(w, 0);
            }
            if s == 0 {
                return a;
            }
            let s = s as u16;
            let z = self.cst(s, 0);
            let e = self.extract(a, 0, w - s);
            return self.concat(&[z, e]);
        }
        if let Some(r) = self.shift_cases(Op::Shl, a, b) {
            return r;
        }
        self.intern(Op::Shl, w, 0, &[a, b])
    }
    pub fn lshr(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s >= w as u128 {
                return self.cst(w, 0);
            }
            if s == 0 {
                return a;
            }
            let s = s as u16;
            let e = self.extract(a, s, w - s);
            return self.zext(e, w);
        }
        if let Some(r) = self.shift_cases(Op::Lshr, a, b) {
            return r;
        }
        self.intern(Op::Lshr, w, 0, &[a, b])
    }
    pub fn ashr(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            let s = s.min(w as u128 - 1) as u16;
            if s == 0 {
                return a;
            }
            let e = self.extract(a, s, w - s);
            return self.sext(e, w);
        }
        self.intern(Op::Ashr, w, 0, &[a, b])
    }
    /// shift amount is an ite over constants
    fn shift_cases(&mut self, op: Op, a: Id, b: Id) -> Option<Id> {
        let n = self.n(b);
        if n.op == Op::Ite && self.is_const(n.args[1]) && self.is_const(n.args[2]) {
            let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
            let (p, q) = match op {
                Op::Shl => (self.shl(a, x), self.shl(a, y)),
                _ => (self.lshr(a, x), self.lshr(a, y)),
            };
            return Some(self.ite(c, p, q));
        }
        None
    }

    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if self.op(c) == Op::Not {
            let c = self.n(c).args[0];
            return self.ite(c, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let (Some(1), Some(0)) = (self.as_const(a), self.as_const(b)) {
            return self.zext(c, w);
        }
        if let (Some(0), Some(1)) = (self.as_const(a), self.as_const(b)) {
            let n = self.not(c);
            return self.zext(n, w);
        }
        // nested on the same condition
        let a = if self.op(a) == Op::Ite && self.n(a).args[0] == c { self.n(a).args[1] } else { a };
        let b = if self.op(b) == Op::Ite && self.n(b).args[0] == c { self.n(b).args[2] } else { b };
        if a == b {
            return a;
        }
        // both constant: bit by bit
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let mut ps = vec![];
            let mut i = 0;
            while i < w {
                let k = ((x >> i) & 1, (y >> i) & 1);
                let mut j = i + 1;
                while j < w && ((x >> j) & 1, (y >> j) & 1) == k {
                    j += 1;
                }
                let p = match k {
                    (0, 0) => self.cst(j - i, 0),
                    (1, 1) => self.cst(j - i, u128::MAX),
                    (1, 0) => self.sext(c, j - i),
                    _ => {
                        let n = self.not(c);
                        self.sext(n, j - i)
                    }
                };
                ps.push(p);
                i = j;
            }
            if ps.len() > 1 && ps.len() <= 9 {
                return self.concat(&ps);
            }
        }
        // x ^ d or x
        if self.op(a) == Op::Xor || self.op(b) == Op::Xor {
            let d = self.xor(a, b);
            let len = |t: &Tm, x: Id| if t.op(x) == Op::Xor { t.n(x).args.len() } else { 1 };
            if self.is_const(d) || (len(self, d) < len(self, a).max(len(self, b)) && self.op(d) != Op::Concat) {
                let z = self.cst(w, 0);
                let e = self.ite(c, d, z);
                return self.xor(b, e);
            }
        }
        // common pieces
        if self.op(a) == Op::Concat && self.op(b) == Op::Concat {
            let (x, y) = (self.n(a).args.clone(), self.n(b).args.clone());
            if x.len() == y.len() && x.iter().zip(y.iter()).all(|(&p, &q)| self.w(p) == self.w(q)) {
                let ps: Vec<Id> = x.iter().zip(y.iter()).map(|(&p, &q)| self.ite(c, p, q)).collect();
                return self.concat(&ps);
            }
        }
        self.intern(Op::Ite, w, 0, &[c, a, b])
    }

    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.tru();
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a < b) { (a, b) } else { (b, a) };
        let w = self.w(a);
        if let Some(k) = self.as_const(a) {
            if let Some(l) = self.as_const(b) {
                return self.cst(1, (k == l) as u128);
            }
            let n = self.n(b);
            if k & n.kz != 0 || k > n.hi {
                return self.fls();
            }
            if w == 1 {
                return if k == 1 { b } else { self.not(b) };
            }
            match n.op {
                Op::Concat => {
                    let args = n.args.clone();
                    let mut cs = vec![];
                    let mut at = 0;
                    for &p in args.iter() {
                        let pw = self.w(p);
                        let c = self.cst(pw, k >> at);
                        let e = self.eq(c, p);
                        cs.push(e);
                        at += pw;
                    }
                    return self.and_n(1, &cs);
                }
                Op::Not => {
                    let x = n.args[0];
                    let c = self.cst(w, !k);
                    return self.eq(c, x);
                }
                Op::Sum if n.args.len() == 2 => {
                    let (x, c, k0) = (n.args[0], self.n(n.args[1]).k, n.k);
                    if c == 1 {
                        let c = self.cst(w, k.wrapping_sub(k0));
                        return self.eq(c, x);
                    }
                    if c == mask(w) {
                        let c = self.cst(w, k0.wrapping_sub(k));
                        return self.eq(c, x);
                    }
                }
                Op::Ite => {
                    let (c, x, y) = (n.args[0], n.args[1], n.args[2]);
                    if self.is_const(x) || self.is_const(y) {
                        let p = self.eq(a, x);
                        let q = self.eq(a, y);
                        return self.ite(c, p, q);
                    }
                }
                Op::Xor => {
                    // xor with constant
                    let args = n.args.clone();
                    if let Some(pos) = args.iter().position(|&x| self.is_const(x)) {
                        let kk = self.n(args[pos]).k;
                        let rest: Vec<Id> = args.iter().copied().filter(|&x| x != args[pos]).collect();
                        let r = self.xor_n(w, &rest);
                        let c = self.cst(w, k ^ kk);
                        return self.eq(c, r);
                    }
                    if args.len() == 2 && k == 0 {
                        return self.eq(args[0], args[1]);
                    }
                }
                _ => {}
            }
        } else {
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
            if self.op(a) == Op::Not && self.op(b) == Op::Not {
                let (x, y) = (self.n(a).args[0], self.n(b).args[0]);
                return self.eq(x, y);
            }
            if self.op(a) == Op::Concat && self.op(b) == Op::Concat {
                let (x, y) = (self.n(a).args.clone(), self.n(b).args.clone());
                if x.len() == y.len() && x.iter().zip(y.iter()).all(|(&p, &q)| self.w(p) == self.w(q)) {
                    let cs: Vec<Id> = x.iter().zip(y.iter()).map(|(&p, &q)| self.eq(p, q)).collect();
                    return self.and_n(1, &cs);
                }
            }
            if self.op(a) == Op::Xor && self.op(b) == Op::Xor {
                let (x, y) = (self.n(a).args.to_vec(), self.n(b).args.to_vec());
                if x.iter().any(|p| y.contains(p)) {
                    let p: Vec<Id> = x.iter().copied().filter(|q| !y.contains(q)).collect();
                    let q: Vec<Id> = y.iter().copied().filter(|q| !x.contains(q)).collect();
                    let p = self.xor_n(w, &p);
                    let q = self.xor_n(w, &q);
                    return self.eq(p, q);
                }
            }
            for (x, y) in [(a, b), (b, a)] {
                // parts that differ from the other side by a mask
                if self.op(x) == Op::Concat {
                    let parts = self.n(x).args.clone();
                    let masked = parts.iter().any(|&p| self.op(p) == Op::Xor && self.n(p).args.iter().any(|&q| self.op(q) == Op::Extract));
                    if masked {
                        let mut cs = vec![];
                        let mut at = 0;
                        for &p in parts.iter() {
                            let pw = self.w(p);
                            let q = self.extract(y, at, pw);
                            let e = self.eq(p, q);
                            cs.push(e);
                            at += pw;
                        }
                        return self.and_n(1, &cs);
                    }
                }
                if self.op(x) == Op::Xor {
                    let mut args = self.n(x).args.to_vec();
                    if let Some(i) = args.iter().position(|&q| q == y) {
                        args.remove(i);
                        let r = self.xor_n(w, &args);
                        let z = self.cst(w, 0);
                        return self.eq(z, r);
                    }
                }
            }
            if self.op(a) == Op::Sum || self.op(b) == Op::Sum {
                // x + k = y + k' with equal bodies
                let d = self.sub(a, b);
                if let Some(k) = self.as_const(d) {
                    return self.cst(1, (k == 0) as u128);
                }
            }
        }
        self.intern(Op::Eq, 1, 0, &[a, b])
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.fls();
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(1, (x < y) as u128),
            (_, Some(0)) => return self.fls(),
            (_, Some(1)) => {
                let z = self.cst(w, 0);
                return self.eq(a, z);
            }
            (Some(0), _) => {
                let z = self.cst(w, 0);
                let e = self.eq(b, z);
                return self.not(e);
            }
            (Some(x), _) if x >= self.n(b).hi => return self.fls(),
            (_, Some(y)) if self.n(a).hi < y => return self.tru(),
            _ => {}
        }
        // ites of constants
        for (x, y, left) in [(a, b, true), (b, a, false)] {
            if self.is_const(y) && self.op(x) == Op::Ite {
                let n = self.n(x);
                let (c, p, q) = (n.args[0], n.args[1], n.args[2]);
                if self.is_const(p) || self.is_const(q) {
                    let (u, v) = if left { (self.ult(p, y), self.ult(q, y)) } else { (self.ult(y, p), self.ult(y, q)) };
                    return self.ite(c, u, v);
                }
            }
        }
        // strip common zero high bits
        let (kz1, kz2) = (self.n(a).kz, self.n(b).kz);
        let z = (kz1 & kz2) | !mask(w);
        let lz = z.leading_ones() as u16;
        let eff = 128 - lz;
        if eff < w && eff > 0 {
            let x = self.extract(a, 0, eff);
            let y = self.extract(b, 0, eff);
            return self.ult(x, y);
        }
        self.intern(Op::Ult, 1, 0, &[a, b])
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.fls();
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(1, (sx(x, w) < sx(y, w)) as u128);
        }
        let top = w - 1;
        let sa = (self.n(a).kz >> top) & 1 == 1;
        let sb = (self.n(b).kz >> top) & 1 == 1;
        if sa && sb {
            return self.ult(a, b);
        }
        if self.as_const(b) == Some(0) {
            return self.extract(a, top, 1);
        }
        if let Some(k) = self.as_const(b) {
            if sa && (k >> top) & 1 == 1 {
                return self.fls();
            }
            if k == mask(w) {
                // x < -1
            }
        }
        if let Some(k) = self.as_const(a) {
            if sb && (k >> top) & 1 == 1 {
                return self.tru();
            }
            if k == mask(w) {
                // -1 < x  <=> x >= 0
                let s = self.extract(b, top, 1);
                return self.not(s);
            }
        }
        self.intern(Op::Slt, 1, 0, &[a, b])
    }

    pub fn mk_table(&mut self, w: u16, data: Vec<u128>) -> u32 {
        if let Some(&t) = self.table_map.get(&(w, data.clone())) {
            return t;
        }
        let t = self.tables.len() as u32;
        self.table_map.insert((w, data.clone()), t);
        self.tables.push(Table { w, data });
        t
    }
    /// table lookup; the table has 2^w(index) entries
    pub fn table(&mut self, t: u32, idx: Id) -> Id {
        let w = self.tables[t as usize].w;
        if let Some(k) = self.as_const(idx) {
            let v = self.tables[t as usize].data[k as usize];
            return self.cst(w, v);
        }
        let d = &self.tables[t as usize].data;
        if d.iter().all(|&x| x == d[0]) {
            let v = d[0];
            return self.cst(w, v);
        }
        if d.iter().enumerate().all(|(i, &x)| x == i as u128) {
            return self.zext_or_trunc(idx, w);
        }
        if self.op(idx) == Op::Table {
            let n = self.n(idx);
            let (u, y) = (n.k as usize, n.args[0]);
            if self.tables[u].data.len() <= 256 {
                let data: Vec<u128> = self.tables[u].data.iter().map(|&i| self.tables[t as usize].data[i as usize]).collect();
                let c = self.mk_table(w, data);
                return self.table(c, y);
            }
        }
        if self.op(idx) == Op::Ite {
            let n = self.n(idx);
            let (c, p, q) = (n.args[0], n.args[1], n.args[2]);
            if self.is_const(p) && self.is_const(q) {
                let x = self.table(t, p);
                let y = self.table(t, q);
                return self.ite(c, x, y);
            }
        }
        self.intern(Op::Table, w, t as u128, &[idx])
    }
    pub fn zext_or_trunc(&mut self, a: Id, w: u16) -> Id {
        if self.w(a) < w {
            self.zext(a, w)
        } else {
            self.trunc(a, w)
        }
    }
    pub fn uf(&mut self, fid: u32, chunk: u32, w: u16, args: &[Id]) -> Id {
        let k = ((fid as u128) << 16) | chunk as u128;
        if chunk == 0 {
            if let Some(&g) = self.inv.get(&(fid as u128)) {
                // f(g(x)) = x when the input is the whole output of g
                let a = self.concat_wide(args);
                if let Some(a) = a {
                    let n = self.n(a);
                    if n.op == Op::Uf && n.k == (g << 16) && n.w == w {
                        // drop the common key prefix: the args of g are the input bytes
                        let xs = n.args.clone();
                        if xs.len() == args.len() {
                            return self.concat(&xs);
                        }
                    }
                }
            }
        }
        self.intern(Op::Uf, w, k, args)
    }
    fn concat_wide(&mut self, args: &[Id]) -> Option<Id> {
        let w: u32 = args.iter().map(|&a| self.w(a) as u32).sum();
        if w > 128 || w == 0 {
            None
        } else {
            Some(self.concat(args))
        }
    }

    /// rebuild a node with new arguments through the simplifier
    pub fn rebuild(&mut self, id: Id, a: &[Id]) -> Id {
        let n = self.n(id);
        let (op, w, k) = (n.op, n.w, n.k);
        if &*n.args == a {
            return id;
        }
        match op {
            Op::Const | Op::Var => id,
            Op::Not => self.not(a[0]),
            Op::And => self.and_n(w, a),
            Op::Or => self.or_n(w, a),
            Op::Xor => self.xor_n(w, a),
            Op::Sum => {
                let ts: Vec<(u128, Id)> = a.chunks(2).map(|p| (self.n(p[1]).k, p[0])).collect();
                self.sum(w, &ts, k)
            }
            Op::Mul => self.mul(a[0], a[1]),
            Op::UDiv => self.udiv(a[0], a[1]),
            Op::URem => self.urem(a[0], a[1]),
            Op::SDiv => self.sdiv(a[0], a[1]),
            Op::SRem => self.srem(a[0], a[1]),
            Op::Shl => self.shl(a[0], a[1]),
            Op::Lshr => self.lshr(a[0], a[1]),
            Op::Ashr => self.ashr(a[0], a[1]),
            Op::Concat => self.concat(a),
            Op::Extract => self.extract(a[0], k as u16, w),
            Op::SExt => self.sext(a[0], w),
            Op::Ite => self.ite(a[0], a[1], a[2]),
            Op::Eq => self.eq(a[0], a[1]),
            Op::Ult => self.ult(a[0], a[1]),
            Op::Slt => self.slt(a[0], a[1]),
            Op::Table => self.table(k as u32, a[0]),
            Op::Uf => self.uf((k >> 16) as u32, (k & 0xffff) as u32, w, a),
        }
    }

    /// all nodes the roots depend on, ascending (topological)
    pub fn cone(&self, roots: &[Id]) -> Vec<Id> {
        let mut seen = crate::term::HashSet::default();
        let mut st: Vec<Id> = roots.to_vec();
        let mut out = vec![];
        while let Some(x) = st.pop() {
            if seen.insert(x) {
                out.push(x);
                st.extend_from_slice(&self.n(x).args);
            }
        }
        out.sort_unstable();
        out
    }

    /// value of node from argument values
    pub fn eval1(&self, id: Id, v: &dyn Fn(Id) -> u128, var: &dyn Fn(u32) -> u128) -> u128 {
        let n = self.n(id);
        let w = n.w;
        let m = mask(w);
        let a = &n.args;
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => var(n.k as u32),
            Op::Not => !v(a[0]),
            Op::And => a.iter().fold(m, |s, &x| s & v(x)),
            Op::Or => a.iter().fold(0, |s, &x| s | v(x)),
            Op::Xor => a.iter().fold(0, |s, &x| s ^ v(x)),
            Op::Sum => a.chunks(2).fold(n.k, |s, p| s.wrapping_add(v(p[0]).wrapping_mul(self.n(p[1]).k))),
            Op::Mul => v(a[0]).wrapping_mul(v(a[1])),
            Op::UDiv => {
                let d = v(a[1]);
                if d == 0 {
                    m
                } else {
                    v(a[0]) / d
                }
            }
            Op::URem => {
                let d = v(a[1]);
                if d == 0 {
                    v(a[0])
                } else {
                    v(a[0]) % d
                }
            }
            Op::SDiv => {
                let d = sx(v(a[1]), w);
                if d == 0 {
                    m
                } else {
                    sx(v(a[0]), w).wrapping_div(d) as u128
                }
            }
            Op::SRem => {
                let d = sx(v(a[1]), w);
                if d == 0 {
                    v(a[0])
                } else {
                    sx(v(a[0]), w).wrapping_rem(d) as u128
                }
            }
            Op::Shl => {
                let s = v(a[1]);
                if s >= w as u128 {
                    0
                } else {
                    v(a[0]) << s
                }
            }
            Op::Lshr => {
                let s = v(a[1]);
                if s >= w as u128 {
                    0
                } else {
                    v(a[0]) >> s
                }
            }
            Op::Ashr => {
                let s = v(a[1]).min(w as u128 - 1);
                (sx(v(a[0]), w) >> s) as u128
            }
            Op::Concat => {
                let mut p = 0u32;
                let mut r = 0;
                for &x in a.iter() {
                    r |= v(x) << p;
                    p += self.w(x) as u32;
                }
                r
            }
            Op::Extract => v(a[0]) >> n.k,
            Op::SExt => sx(v(a[0]), self.w(a[0])) as u128,
            Op::Ite => {
                if v(a[0]) == 1 {
                    v(a[1])
                } else {
                    v(a[2])
                }
            }
            Op::Eq => (v(a[0]) == v(a[1])) as u128,
            Op::Ult => (v(a[0]) < v(a[1])) as u128,
            Op::Slt => {
                let aw = self.w(a[0]);
                (sx(v(a[0]), aw) < sx(v(a[1]), aw)) as u128
            }
            Op::Table => self.tables[n.k as usize].data[v(a[0]) as usize],
            Op::Uf => {
                let mut bytes = vec![];
                for &x in a.iter() {
                    let aw = self.w(x);
                    let val = v(x);
                    for i in 0..(aw / 8) {
                        bytes.push((val >> (8 * i)) as u8);
                    }
                }
                uf_eval((n.k >> 16) as u32, (n.k & 0xffff) as u32, w, &bytes)
            }
        };
        r & m
    }

    /// evaluate roots under an assignment of variables
    pub fn eval(&self, cone: &[Id], var: &dyn Fn(u32) -> u128) -> HashMap<Id, u128> {
        let mut vals: HashMap<Id, u128> = HashMap::with_capacity_and_hasher(cone.len(), Default::default());
        for &i in cone {
            let x = self.eval1(i, &|j| vals[&j], var);
            vals.insert(i, x);
        }
        vals
    }
}

pub fn sx(x: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((x << s) as i128) >> s
}

/// maximal runs of equal bits, low to high
pub fn runs(c: u128, w: u16) -> Vec<(u16, u16, bool)> {
    let mut v = vec![];
    let mut i = 0;
    while i < w {
        let b = (c >> i) & 1 == 1;
        let mut j = i + 1;
        while j < w && ((c >> j) & 1 == 1) == b {
            j += 1;
        }
        v.push((i, j - i, b));
        i = j;
    }
    v
}
/// a single covering interval from lowest to highest possible one bit
fn cover(c: u128, w: u16) -> Vec<(u16, u16, bool)> {
    if c == 0 {
        return vec![];
    }
    let lo = c.trailing_zeros() as u16;
    let hi = 128 - c.leading_zeros() as u16;
    let _ = w;
    vec![(lo, hi - lo, true)]
}

// ---- the concrete reading of uninterpreted functions (must match contracts/src/rt.rs) ----
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed ^ (b.len() as u64).wrapping_mul(0x1000193));
    for c in b.chunks(8) {
        let mut x = 0u64;
        for (i, &y) in c.iter().enumerate() {
            x |= (y as u64) << (8 * i);
        }
        h = mix(h ^ x).wrapping_add(h.rotate_left(17));
    }
    mix(h)
}
pub const PERM_BASE: u32 = 0x4000;
pub fn uf_eval(fid: u32, chunk: u32, w: u16, bytes: &[u8]) -> u128 {
    if fid >= PERM_BASE {
        return perm_eval(fid, w, bytes);
    }
    let lo = hash_bytes(((fid as u64) << 32) | ((chunk as u64) << 1), bytes);
    let hi = hash_bytes(((fid as u64) << 32) | ((chunk as u64) << 1) | 1, bytes);
    ((hi as u128) << 64) | lo as u128
}
/// even ids: forward, odd ids: inverse (balanced Feistel network)
fn perm_eval(fid: u32, w: u16, bytes: &[u8]) -> u128 {
    let n = (w / 8) as usize;
    let h = n / 2;
    let key = (fid & !1) as u64;
    let mut l: Vec<u8> = bytes[..h].to_vec();
    let mut r: Vec<u8> = bytes[h..n].to_vec();
    let f = |x: &[u8], rd: u64| hash_bytes(key.wrapping_mul(0x9E37).wrapping_add(rd) | (1 << 63), x);
    if fid & 1 == 0 {
        for rd in 0..6u64 {
            let k = f(&r, rd);
            for i in 0..h {
                l[i] ^= (k >> (8 * (i % 8))) as u8;
            }
            std::mem::swap(&mut l, &mut r);
        }
    } else {
        for rd in (0..6u64).rev() {
            std::mem::swap(&mut l, &mut r);
            let k = f(&r, rd);
            for i in 0..h {
                l[i] ^= (k >> (8 * (i % 8))) as u8;
            }
        }
    }
    let mut v = 0u128;
    for (i, &b) in l.iter().chain(r.iter()).enumerate() {
        v |= (b as u128) << (8 * i);
    }
    v
}
