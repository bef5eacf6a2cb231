//! Symbolic execution of LLVM functions over all values of the symbolic inputs.
use crate::ll::*;
use crate::solve::*;
use crate::term::*;
use crate::term::HashMap;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const UNINIT: Id = u32::MAX;
const GBASE: u64 = 0x1000_0000;
const HBASE: u64 = 0x2000_0000_0000;
const SBASE: u64 = 0x4000_0000_0000;
const FBASE: u64 = 0x6000_0000_0000;

#[derive(Clone, Debug)]
pub enum Val {
    None,
    T(Id),
    Agg(Rc<Vec<Val>>),
}
impl Val {
    fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::None, Val::None) => true,
            (Val::T(a), Val::T(b)) => a == b,
            (Val::Agg(a), Val::Agg(b)) => Rc::ptr_eq(a, b) || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.same(y))),
            _ => false,
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    base: u64,
    data: Vec<Id>,
    ro: bool,
}

pub struct LFunc {
    pub f: Func,
    cv: Vec<Val>,
    ipdom: Vec<Option<u32>>,
    live: Vec<Vec<u64>>,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<LFunc>,
    blk: u32,
    ip: usize,
    regs: Vec<Val>,
    dst: Option<u32>,
    normal: Option<u32>,
    nstack: usize,
    sp: u64,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    globals: Rc<Vec<Rc<Obj>>>,
    stack: Vec<Rc<Obj>>,
    heap: Vec<Rc<Obj>>,
    heap_next: u64,
    sp: u64,
    pub pc: Vec<Id>,
    wit: Vec<u32>,
    done: bool,
    ret: Val,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stop {
    Blk(usize, u32),
    Ret(usize),
}

#[derive(Debug)]
pub struct Failure {
    pub kind: String,
    pub msg: String,
    pub model: Option<BTreeMap<String, u128>>,
    pub ufs: Vec<(String, String)>,
    pub confirmed: bool,
    pub detail: String,
}

#[derive(Default)]
pub struct Stats {
    pub instrs: u64,
    pub paths: u64,
    pub forks: u64,
    pub merges: u64,
    pub asserts: u64,
    pub panics_checked: u64,
    pub mem_checked: u64,
    pub reached: BTreeMap<u32, u64>,
    pub funcs: BTreeSet<String>,
    pub assumes: u64,
    pub max_vars: u64,
    /// functions that stood behind their contract, with the number of calls
    pub replaced: BTreeMap<String, u64>,
}

pub struct Exec {
    pub m: Module,
    pub tm: Tm,
    pub sv: Solver,
    funcs: HashMap<String, Rc<LFunc>>,
    gaddr: HashMap<String, u64>,
    faddr: HashMap<String, u64>,
    fnames: Vec<String>,
    noreturn: crate::term::HashSet<String>,
    pub fails: Vec<Failure>,
    pub stats: Stats,
    pub max_instrs: u64,
    pub max_fails: usize,
    pub fatal: Option<String>,
    pub params: Vec<u64>,
    nfresh: u64,
    depth: usize,
    pub trace: bool,
    live_paths: usize,
    pub aes: crate::aesni::AesTables,
    pub log: Vec<String>,
    pub deadline: std::time::Instant,
    ghost: HashMap<u32, Vec<Id>>,
    pub px: crate::poly::Px,
    /// last component of a function's name -> contract
    replaced: HashMap<String, String>,
}

type R<T> = Result<T, String>;

enum Step {
    Go,
    Fork(Vec<State>),
    Dead,
}

impl Exec {
    pub fn new(m: Module, sv: Solver) -> R<Exec> {
        let mut noret_groups = crate::term::HashSet::default();
        for l in &m.lines {
            if let Some(r) = l.strip_prefix("attributes #") {
                if let Some((n, b)) = r.split_once(" = ") {
                    if b.split(' ').any(|x| x == "noreturn") {
                        noret_groups.insert(n.to_string());
                    }
                }
            }
        }
        let mut noreturn = crate::term::HashSet::default();
        for l in &m.lines {
            if l.starts_with("define") || l.starts_with("declare") {
                if let Some(s) = sym_of(l) {
                    for w in l.split(' ') {
                        if let Some(g) = w.strip_prefix('#') {
                            if noret_groups.contains(g) {
                                noreturn.insert(s.clone());
                            }
                        }
                    }
                }
            }
        }
        let mut tm = Tm::new();
        let aes = crate::aesni::AesTables::new(&mut tm);
        Ok(Exec {
            m,
            tm,
            sv,
            funcs: HashMap::default(),
            gaddr: HashMap::default(),
            faddr: HashMap::default(),
            fnames: vec![],
            noreturn,
            fails: vec![],
            stats: Stats::default(),
            max_instrs: 4_000_000_000,
            max_fails: 4,
            fatal: None,
            params: vec![],
            nfresh: 0,
            depth: 0,
            trace: false,
            live_paths: 0,
            aes,
            log: vec![],
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            ghost: HashMap::default(),
            px: Default::default(),
            replaced: Default::default(),
        })
    }

    fn fresh(&mut self, pre: &str, w: u16) -> Id {
        self.nfresh += 1;
        let n = format!("{}#{}", pre, self.nfresh);
        self.tm.var(&n, w)
    }

    fn fn_addr(&mut self, n: &str) -> u64 {
        if let Some(&a) = self.faddr.get(n) {
            return a;
        }
        let a = FBASE + 16 * self.fnames.len() as u64;
        self.fnames.push(n.to_string());
        self.faddr.insert(n.to_string(), a);
        a
    }

    fn gl_addr(&mut self, g: &str) -> R<u64> {
        let g = self.m.alias.get(g).cloned().unwrap_or(g.to_string());
        if let Some(&a) = self.gaddr.get(&g) {
            return Ok(a);
        }
        if self.m.fsrc.contains_key(&g) || self.m.decls.contains_key(&g) {
            return Ok(self.fn_addr(&g));
        }
        Err(format!("unknown global {}", g))
    }

    fn const_val(&mut self, t: &Ty, c: &C) -> R<Val> {
        Ok(match t {
            Ty::Int(w) => Val::T(self.const_int(*w, t, c)?),
            Ty::Ptr => Val::T(self.const_int(64, t, c)?),
            Ty::Float(w) => Val::T(self.tm.cst(*w, 0)),
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let mut v = vec![];
                match c {
                    C::Agg(xs) => {
                        for (t, c) in xs {
                            v.push(self.const_val(t, c)?);
                        }
                    }
                    C::Bytes(bs) => {
                        for &b in bs {
                            v.push(Val::T(self.tm.cst(8, b as u128)));
                        }
                    }
                    C::Splat(b) => {
                        let x = self.const_val(&b.0, &b.1)?;
                        for _ in 0..*n {
                            v.push(x.clone());
                        }
                    }
                    C::Zero | C::Undef | C::Null => {
                        for _ in 0..*n {
                            v.push(self.const_val(e, c)?);
                        }
                    }
                    _ => return Err(format!("vector constant {:?}", c)),
                }
                Val::Agg(Rc::new(v))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                match c {
                    C::Agg(xs) => {
                        for (t, c) in xs {
                            v.push(self.const_val(t, c)?);
                        }
                    }
                    C::Zero | C::Undef => {
                        for t in f.iter() {
                            v.push(self.const_val(t, c)?);
                        }
                    }
                    _ => return Err(format!("struct constant {:?}", c)),
                }
                Val::Agg(Rc::new(v))
            }
            _ => Val::None,
        })
    }
    fn const_int(&mut self, w: u16, _t: &Ty, c: &C) -> R<Id> {
        Ok(match c {
            C::Int(k) => self.tm.cst(w, *k),
            C::Null | C::Zero => self.tm.cst(w, 0),
            C::Undef => self.tm.cst(w, 0),
            C::Global(g) => {
                let a = self.gl_addr(g)?;
                self.tm.cst(w, a as u128)
            }
            C::Gep(b, off) => {
                let x = self.const_int(64, &Ty::Ptr, b)?;
                let k = self.tm.as_const(x).ok_or("gep const")?;
                self.tm.cst(64, k.wrapping_add(*off as i128 as u128))
            }
            C::Cast(b, _) => {
                let fw = match &b.0 {
                    Ty::Int(w) => *w,
                    Ty::Ptr => 64,
                    _ => return Err("const cast".into()),
                };
                let x = self.const_int(fw, &b.0, &b.1)?;
                self.tm.zext_or_trunc(x, w)
            }
            C::Bin(op, a, b) => {
                let x = self.const_int(w, &a.0, &a.1)?;
                let y = self.const_int(w, &b.0, &b.1)?;
                match &op[..] {
                    "add" => self.tm.add(x, y),
                    "sub" => self.tm.sub(x, y),
                    "mul" => self.tm.mul(x, y),
                    "xor" => self.tm.xor(x, y),
                    "and" => self.tm.and(x, y),
                    "or" => self.tm.or(x, y),
                    "shl" => self.tm.shl(x, y),
                    _ => self.tm.lshr(x, y),
                }
            }
            _ => return Err(format!("constant {:?}", c)),
        })
    }

    fn put_bytes(&mut self, t: &Ty, c: &C, out: &mut Vec<Id>) -> R<()> {
        // append the memory image of a constant
        match (t, c) {
            (_, C::Zero) | (_, C::Null) => {
                let z = self.tm.cst(8, 0);
                for _ in 0..alloc_size(t) {
                    out.push(z);
                }
            }
            (_, C::Undef) => {
                for _ in 0..alloc_size(t) {
                    out.push(UNINIT);
                }
            }
            (_, C::Bytes(b)) => {
                for &x in b {
                    let k = self.tm.cst(8, x as u128);
                    out.push(k);
                }
            }
            (Ty::Struct(f, packed), C::Agg(xs)) => {
                let st = out.len();
                for (i, (t, c)) in xs.iter().enumerate() {
                    let o = field_off(f, *packed, i) as usize;
                    while out.len() < st + o {
                        out.push(UNINIT);
                    }
                    self.put_bytes(t, c, out)?;
                }
                while out.len() < st + alloc_size(t) as usize {
                    out.push(UNINIT);
                }
            }
            (_, C::Agg(xs)) => {
                for (t, c) in xs {
                    self.put_bytes(t, c, out)?;
                }
            }
            (Ty::Int(_), _) | (Ty::Ptr, _) => {
                let w = if let Ty::Int(w) = t { *w } else { 64 };
                let x = self.const_int(w, t, c)?;
                let n = size_of(t);
                let k = self.tm.as_const(x).ok_or("global init")?;
                for i in 0..n {
                    let b = self.tm.cst(8, (k >> (8 * i)) & 0xff);
                    out.push(b);
                }
                for _ in n..alloc_size(t) {
                    out.push(UNINIT);
                }
            }
            (Ty::Float(w), _) => {
                for _ in 0..w / 8 {
                    out.push(UNINIT);
                }
            }
            _ => return Err(format!("global init {:?}", c)),
        }
        Ok(())
    }

    pub fn init_state(&mut self) -> R<State> {
        let n = self.m.globals.len();
        let mut addr = GBASE;
        for i in 0..n {
            let g = &self.m.globals[i];
            let a = g.align.max(16);
            addr = up(addr, a);
            let nm = g.name.clone();
            let sz = alloc_size(&g.ty).max(1);
            self.gaddr.insert(nm, addr);
            addr += sz + 16;
        }
        let mut objs = vec![];
        for i in 0..n {
            let (name, ty, init, constant) = {
                let g = &self.m.globals[i];
                (g.name.clone(), g.ty.clone(), g.init.clone(), g.constant)
            };
            let base = self.gaddr[&name];
            let mut data = vec![];
            match init {
                Some(c) => {
                    if let Err(e) = self.put_bytes(&ty, &c, &mut data) {
                        return Err(format!("global {}: {}", name, e));
                    }
                }
                None => {
                    for _ in 0..alloc_size(&ty) {
                        data.push(UNINIT);
                    }
                }
            }
            objs.push(Rc::new(Obj { base, data, ro: constant }));
        }
        Ok(State {
            frames: vec![],
            globals: Rc::new(objs),
            stack: vec![],
            heap: vec![],
            heap_next: HBASE,
            sp: SBASE,
            pc: vec![],
            wit: self.sv.initial_witnesses(),
            done: false,
            ret: Val::None,
        })
    }

    fn get_func(&mut self, name: &str) -> R<Rc<LFunc>> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(f.clone());
        }
        let f = self.m.func(name)?;
        let mut cv = vec![];
        for (t, c) in &f.consts {
            let v = match self.const_val(t, c) {
                Ok(v) => v,
                Err(e) => {
                    if self.trace {
                        eprintln!("constant in {}: {}", name, e);
                    }
                    Val::None
                }
            };
            cv.push(v);
        }
        let ipdom = ipdoms(&f);
        let live = liveness(&f);
        let pretty = self.m.pretty.get(name).cloned().unwrap_or(name.to_string());
        self.stats.funcs.insert(pretty);
        let lf = Rc::new(LFunc { f, cv, ipdom, live });
        self.funcs.insert(name.to_string(), lf.clone());
        Ok(lf)
    }

    // ---------------------------------------------------------------- memory
    fn find<'a>(&self, st: &'a State, addr: u64) -> Option<&'a Rc<Obj>> {
        let v: &Vec<Rc<Obj>> = if addr >= SBASE {
            &st.stack
        } else if addr >= HBASE {
            &st.heap
        } else {
            &st.globals
        };
        let i = v.partition_point(|o| o.base <= addr);
        if i == 0 {
            return None;
        }
        let o = &v[i - 1];
        if addr < o.base + o.data.len() as u64 || (addr == o.base && o.data.is_empty()) {
            Some(o)
        } else {
            None
        }
    }
    fn find_mut<'a>(&self, st: &'a mut State, addr: u64) -> Option<&'a mut Obj> {
        if addr >= SBASE || addr >= HBASE {
            let v = if addr >= SBASE { &mut st.stack } else { &mut st.heap };
            let i = v.partition_point(|o| o.base <= addr);
            if i == 0 {
                return None;
            }
            let o = &mut v[i - 1];
            if addr < o.base + o.data.len() as u64 {
                return Some(Rc::make_mut(o));
            }
            None
        } else {
            let i = st.globals.partition_point(|o| o.base <= addr);
            if i == 0 {
                return None;
            }
            {
                let o = &st.globals[i - 1];
                if addr >= o.base + o.data.len() as u64 {
                    return None;
                }
            }
            let g = Rc::make_mut(&mut st.globals);
            Some(Rc::make_mut(&mut g[i - 1]))
        }
    }

    fn load_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<Id>> {
        let o = self.find(st, addr).ok_or_else(|| format!("read of invalid address {:#x}", addr))?;
        let off = (addr - o.base) as usize;
        if off + n as usize > o.data.len() {
            return Err(format!("out-of-bounds read of {} bytes at offset {} of a {}-byte object", n, off, o.data.len()));
        }
        Ok(o.data[off..off + n as usize].to_vec())
    }
    fn store_bytes(&mut self, st: &mut State, addr: u64, d: &[Id]) -> R<()> {
        if d.is_empty() {
            return Ok(());
        }
        let o = self.find_mut(st, addr).ok_or_else(|| format!("write to invalid address {:#x}", addr))?;
        let off = (addr - o.base) as usize;
        if off + d.len() > o.data.len() {
            return Err(format!("out-of-bounds write of {} bytes at offset {} of a {}-byte object", d.len(), off, o.data.len()));
        }
        if o.ro {
            return Err("write to constant memory".into());
        }
        o.data[off..off + d.len()].copy_from_slice(d);
        Ok(())
    }
    fn alloc_heap(&mut self, st: &mut State, size: u64, zero: bool) -> u64 {
        let base = up(st.heap_next, 16);
        let z = if zero { self.tm.cst(8, 0) } else { UNINIT };
        st.heap.push(Rc::new(Obj { base, data: vec![z; size as usize], ro: false }));
        st.heap_next = base + size.max(1) + 32;
        base
    }
    fn free_heap(&mut self, st: &mut State, addr: u64) -> R<()> {
        let i = st.heap.partition_point(|o| o.base < addr);
        if i < st.heap.len() && st.heap[i].base == addr {
            st.heap.remove(i);
            Ok(())
        } else {
            Err(format!("invalid free {:#x}", addr))
        }
    }

    fn join(&mut self, b: &[Id]) -> Id {
        // bytes (low first) to a term; uninitialised bytes become arbitrary
        let mut ps = Vec::with_capacity(b.len());
        // fast path: constants
        let mut k = 0u128;
        let mut all = b.len() <= 16;
        if all {
            for (i, &x) in b.iter().enumerate() {
                if x == UNINIT {
                    all = false;
                    break;
                }
                match self.tm.as_const(x) {
                    Some(c) => k |= c << (8 * i),
                    None => {
                        all = false;
                        break;
                    }
                }
            }
        }
        if all {
            return self.tm.cst(8 * b.len() as u16, k);
        }
        for &x in b {
            if x == UNINIT {
                let v = self.fresh("uninit", 8);
                ps.push(v);
            } else {
                ps.push(x);
            }
        }
        self.tm.concat(&ps)
    }
    fn split(&mut self, t: Id, n: u64) -> Vec<Id> {
        let w = self.tm.w(t);
        let tw = 8 * n as u16;
        let t = if w < tw { self.tm.zext(t, tw) } else { t };
        if let Some(k) = self.tm.as_const(t) {
            return (0..n).map(|i| self.tm.cst(8, (k >> (8 * i)) & 0xff)).collect();
        }
        (0..n).map(|i| self.tm.extract(t, 8 * i as u16, 8)).collect()
    }

    fn val_from_bytes(&mut self, ty: &Ty, b: &[Id]) -> R<Val> {
        Ok(match ty {
            Ty::Int(w) => {
                let x = self.join(b);
                Val::T(self.tm.trunc(x, *w))
            }
            Ty::Ptr | Ty::Float(_) => Val::T(self.join(b)),
            Ty::Arr(n, e) => {
                let s = alloc_size(e) as usize;
                let z = size_of(e) as usize;
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.val_from_bytes(e, &b[i * s..i * s + z])?);
                }
                Val::Agg(Rc::new(v))
            }
            Ty::Vec(n, e) => {
                if let Ty::Int(w) = &**e {
                    if w % 8 != 0 {
                        return Err("bit vector load".into());
                    }
                }
                let z = size_of(e) as usize;
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.val_from_bytes(e, &b[i * z..(i + 1) * z])?);
                }
                Val::Agg(Rc::new(v))
            }
            Ty::Struct(f, p) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let o = field_off(f, *p, i) as usize;
                    let z = size_of(&f[i]) as usize;
                    v.push(self.val_from_bytes(&f[i], &b[o..o + z])?);
                }
                Val::Agg(Rc::new(v))
            }
            _ => return Err("load type".into()),
        })
    }
    fn val_to_bytes(&mut self, ty: &Ty, v: &Val, out: &mut [Id]) -> R<()> {
        match (ty, v) {
            (Ty::Int(_), Val::T(t)) | (Ty::Ptr, Val::T(t)) | (Ty::Float(_), Val::T(t)) => {
                let n = size_of(ty);
                let bs = self.split(*t, n);
                out[..n as usize].copy_from_slice(&bs);
            }
            (Ty::Arr(_, e), Val::Agg(xs)) => {
                let s = alloc_size(e) as usize;
                for (i, x) in xs.iter().enumerate() {
                    self.val_to_bytes(e, x, &mut out[i * s..])?;
                }
            }
            (Ty::Vec(_, e), Val::Agg(xs)) => {
                let s = size_of(e) as usize;
                for (i, x) in xs.iter().enumerate() {
                    self.val_to_bytes(e, x, &mut out[i * s..])?;
                }
            }
            (Ty::Struct(f, p), Val::Agg(xs)) => {
                for (i, x) in xs.iter().enumerate() {
                    let o = field_off(f, *p, i) as usize;
                    self.val_to_bytes(&f[i], x, &mut out[o..])?;
                }
            }
            (_, Val::None) => {}
            _ => return Err("store type".into()),
        }
        Ok(())
    }

    /// possible constant addresses of a symbolic pointer, as (index term, cells)
    /// or a fork on an embedded condition
    fn sym_addr(&mut self, st: &State, a: Id, n: u64) -> R<SymAddr> {
        // an if-then-else pointer: split on the condition
        if let Some(c) = self.find_ite_cond(a, 0) {
            return Ok(SymAddr::Split(c));
        }
        let node = self.tm.n(a).clone();
        if node.op != Op::Sum {
            return self.sym_addr_enum(st, a, n);
        }
        let c = node.k as u64;
        let mut ts = vec![];
        for p in node.args.chunks(2) {
            ts.push((self.tm.n(p[1]).k, p[0]));
        }
        // negative coefficients are not expected in addresses
        let rest = self.tm.sum(64, &ts, 0);
        let hi = self.tm.n(rest).hi;
        let kz = self.tm.n(rest).kz;
        let z = (!kz).trailing_zeros() as u16;
        if hi >> z > 70000 {
            return self.sym_addr_enum(st, a, n);
        }
        let bits = (128 - (hi >> z).leading_zeros()) as u16;
        let idx = self.tm.extract(rest, z, bits);
        // which object?
        let o = match self.find(st, c) {
            Some(o) => o.clone(),
            None => return self.sym_addr_enum(st, a, n),
        };
        let end = o.base + o.data.len() as u64;
        let max = hi as u64;
        if c + max + n > end {
            // prove that the accesses stay inside
            let lim = end.saturating_sub(c + n);
            let l = self.tm.cst(64, lim as u128);
            let bad = self.tm.ult(l, rest);
            match self.sv.check_from(&mut self.tm, &st.pc, bad, &st.wit) {
                Sat::Unsat => {}
                Sat::Sat(m) => {
                    return Ok(SymAddr::Oob(bad, Some(m)));
                }
                Sat::Unknown => return Err("undecided bounds of a symbolic access".into()),
            }
        }
        self.stats.mem_checked += 1;
        let cnt = 1usize << bits;
        let mut cells = vec![];
        for i in 0..cnt {
            let d = (i as u64) << z;
            if (d as u128) > hi || (d as u128) & kz != 0 || c + d + n > end {
                cells.push(None);
            } else {
                cells.push(Some(c + d));
            }
        }
        Ok(SymAddr::Idx(idx, cells))
    }
    fn sym_addr_enum(&mut self, st: &State, a: Id, _n: u64) -> R<SymAddr> {
        // enumerate feasible values by solving
        let mut vals = vec![];
        let mut extra = st.pc.clone();
        loop {
            let t = self.tm.tru();
            match self.sv.check(&mut self.tm, &extra, t) {
                Sat::Unsat => break,
                Sat::Sat(m) => {
                    let v = self.sv.eval_in(&self.tm, &m, a);
                    vals.push(v as u64);
                    if vals.len() > 16 {
                        return Err("symbolic pointer with too many targets".into());
                    }
                    let k = self.tm.cst(64, v);
                    let e = self.tm.eq(a, k);
                    let ne = self.tm.not(e);
                    extra.push(ne);
                }
                Sat::Unknown => return Err("undecided symbolic pointer".into()),
            }
        }
        Ok(SymAddr::Vals(vals))
    }
    fn find_ite_cond(&self, a: Id, d: usize) -> Option<Id> {
        let n = self.tm.n(a);
        match n.op {
            Op::Ite => {
                // only pointers / large constants; table indices stay symbolic
                if self.tm.n(n.args[1]).hi > 70000 || self.tm.n(n.args[2]).hi > 70000 {
                    Some(n.args[0])
                } else {
                    None
                }
            }
            Op::Sum if d < 3 => {
                for p in n.args.chunks(2) {
                    if let Some(c) = self.find_ite_cond(p[0], d + 1) {
                        return Some(c);
                    }
                }
                None
            }
            Op::Concat if d < 3 => {
                for &p in n.args.iter() {
                    let m = self.tm.n(p);
                    if m.op == Op::Ite && m.w > 16 {
                        return Some(m.args[0]);
                    }
                }
                None
            }
            _ => None,
        }
    }

    // ---------------------------------------------------------------- operands
    fn op_val(&self, fr: &Frame, o: &Opnd) -> Val {
        match o {
            Opnd::Reg(r) => fr.regs[*r as usize].clone(),
            Opnd::C(c) => fr.f.cv[*c as usize].clone(),
        }
    }
    fn op_t(&self, fr: &Frame, o: &Opnd) -> R<Id> {
        let v = match o {
            Opnd::Reg(r) => &fr.regs[*r as usize],
            Opnd::C(c) => &fr.f.cv[*c as usize],
        };
        match v {
            Val::T(t) => Ok(*t),
            Val::None => Err("use of a dead or unset value".into()),
            _ => Err("scalar expected".into()),
        }
    }

    // ---------------------------------------------------------------- failures
    fn model_map(&self, m: &Model) -> BTreeMap<String, u128> {
        let mut r = BTreeMap::new();
        for (i, (n, w)) in self.tm.vars.iter().enumerate() {
            if n.contains('#') {
                continue;
            }
            r.insert(n.clone(), self.sv.var_in(m, i as u32) & mask(*w));
        }
        r
    }
    fn fail(&mut self, kind: &str, msg: &str, model: Option<Model>, confirmed: bool, detail: String) {
        let mut ufs = vec![];
        if let Some(m) = &model {
            for (f, ch, b, v) in m.ufs.iter() {
                let arg: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                let val: String = v.to_le_bytes().iter().map(|x| format!("{:02x}", x)).collect();
                ufs.push((format!("uf:{}:{}:{}", f, ch, arg), val));
            }
        }
        let mm = model.map(|m| self.model_map(&m));
        if self.fails.iter().filter(|f| f.kind == kind && f.msg == msg).count() < 2 {
            self.fails.push(Failure { kind: kind.into(), msg: msg.into(), model: mm, ufs, confirmed, detail });
        }
        if self.fails.len() >= self.max_fails {
            self.fatal = Some("too many failures".into());
        }
    }
    /// the path condition reaches something that must not happen
    fn bad_path(&mut self, st: &State, kind: &str, msg: &str) {
        self.stats.panics_checked += 1;
        // a witness already satisfies the path?
        if let Some(&w) = st.wit.first() {
            let m = self.sv.witness_model(w);
            self.fail(kind, msg, Some(m), true, String::new());
            return;
        }
        let t = self.tm.tru();
        match self.sv.check(&mut self.tm, &st.pc, t) {
            Sat::Unsat => {}
            Sat::Sat(m) => {
                let ok = self.sv.model_ok(&self.tm, &m, &st.pc);
                self.fail(kind, msg, Some(m), ok, String::new())
            }
            Sat::Unknown => self.fail(kind, msg, None, false, "solver undecided on reachability".into()),
        }
    }

    fn location(&mut self, st: &State, args: &[(Ty, Val)]) -> String {
        // a &'static Location argument: {ptr, len, line, col}
        for (t, v) in args.iter().rev() {
            if *t != Ty::Ptr {
                continue;
            }
            if let Val::T(p) = v {
                if let Some(a) = self.tm.as_const(*p) {
                    if let Ok(b) = self.load_bytes(st, a as u64, 24) {
                        if b.iter().any(|&x| x == UNINIT || !self.tm.is_const(x)) {
                            continue;
                        }
                        let g = |i: usize, n: usize, tm: &Tm| (0..n).fold(0u64, |s, j| s | ((tm.as_const(b[i + j]).unwrap() as u64) << (8 * j)));
                        let (fp, fl, line) = (g(0, 8, &self.tm), g(8, 8, &self.tm), g(16, 4, &self.tm));
                        if fl > 0 && fl < 300 && line < 100000 {
                            if let Ok(s) = self.load_bytes(st, fp, fl) {
                                let s: Option<String> = s.iter().map(|&x| if x == UNINIT { None } else { self.tm.as_const(x).map(|c| c as u8 as char) }).collect();
                                if let Some(s) = s {
                                    if s.contains(".rs") {
                                        return format!("{}:{}", s.trim_end_matches('\0'), line);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }

    // ---------------------------------------------------------------- driver
    pub fn run_entry(&mut self, name: &str) -> R<Vec<State>> {
        let mut st = self.init_state()?;
        let f = self.get_func(name)?;
        let mut regs = vec![Val::None; f.f.nregs as usize];
        for (i, (_, r)) in f.f.params.clone().iter().enumerate() {
            let k = *self.params.get(i).ok_or("missing parameter")?;
            let t = self.tm.cst(64, k as u128);
            regs[*r as usize] = Val::T(t);
        }
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, dst: None, normal: None, nstack: 0, sp: SBASE });
        let out = self.run(st, Stop::Ret(1))?;
        self.stats.paths = out.len() as u64;
        Ok(out)
    }

    fn stopped(&self, st: &State, s: Stop) -> bool {
        match s {
            Stop::Blk(d, b) => st.frames.len() == d && st.frames[d - 1].blk == b && st.frames[d - 1].ip == 0,
            Stop::Ret(d) => st.frames.len() < d,
        }
    }

    fn run(&mut self, st: State, stop: Stop) -> R<Vec<State>> {
        self.depth += 1;
        if self.depth > 3000 {
            return Err("branch nesting too deep".into());
        }
        let r = self.run_in(st, stop);
        self.depth -= 1;
        r
    }
    fn run_in(&mut self, st: State, stop: Stop) -> R<Vec<State>> {
        let mut work = vec![st];
        let mut out = vec![];
        while let Some(mut s) = work.pop() {
            loop {
                if self.fatal.is_some() {
                    return Ok(vec![]);
                }
                let (eb, ei) = {
                    let fr = s.frames.last().unwrap();
                    (fr.blk as usize, fr.ip)
                };
                let r = match self.step(&mut s, stop) {
                    Ok(r) => r,
                    Err(e) if e.contains(" @ ") => return Err(e),
                    Err(e) => {
                        let fr = s.frames.last().unwrap();
                        let ins = fr.f.f.blocks.get(eb).and_then(|b| b.ins.get(ei));
                        return Err(format!("{} @ {} : {:?}", e, self.backtrace(&s), ins));
                    }
                };
                match r {
                    Step::Go => {
                        if self.stopped(&s, stop) {
                            out.push(s);
                            break;
                        }
                    }
                    Step::Fork(v) => {
                        for x in v {
                            if self.stopped(&x, stop) {
                                out.push(x);
                            } else {
                                work.push(x);
                            }
                        }
                        break;
                    }
                    Step::Dead => break,
                }
            }
        }
        Ok(out)
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, _, inc) in &b.phis {
                let o = inc.iter().find(|x| x.0 == from).ok_or("phi without predecessor")?;
                vals.push((*d, match &o.1 {
                    Opnd::Reg(r) => fr.regs[*r as usize].clone(),
                    Opnd::C(c) => f.cv[*c as usize].clone(),
                }));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }

    /// both sides feasible? returns the feasible successors with their conditions added
    fn split_on(&mut self, st: &State, c: Id) -> R<(Option<State>, Option<State>)> {
        let nc = self.tm.not(c);
        if st.pc.contains(&c) {
            return Ok((Some(st.clone()), None));
        }
        if st.pc.contains(&nc) {
            return Ok((None, Some(st.clone())));
        }
        let (mut wt, mut wf) = (vec![], vec![]);
        for &w in &st.wit {
            if self.sv.eval_wit(&self.tm, w, c) == 1 {
                wt.push(w)
            } else {
                wf.push(w)
            }
        }
        let mut res = vec![];
        for (cond, wit) in [(c, wt), (nc, wf)] {
            let mut wit = wit;
            let mut feas = true;
            if wit.is_empty() {
                match self.sv.check_from(&mut self.tm, &st.pc, cond, &st.wit) {
                    Sat::Unsat => feas = false,
                    Sat::Sat(m) => {
                        let mut pc = st.pc.clone();
                        pc.push(cond);
                        if self.sv.model_ok(&self.tm, &m, &pc) {
                            wit.push(self.sv.add_witness(m));
                        }
                    }
                    Sat::Unknown => {}
                }
            }
            if feas {
                let mut s = st.clone();
                self.add_pc(&mut s, cond);
                s.wit = wit;
                res.push(Some(s));
            } else {
                res.push(None);
            }
        }
        let f = res.pop().unwrap();
        let t = res.pop().unwrap();
        Ok((t, f))
    }
    fn add_pc(&mut self, st: &mut State, c: Id) {
        let n = self.tm.n(c);
        if n.op == Op::And {
            for x in n.args.to_vec() {
                self.add_pc(st, x);
            }
        } else if self.tm.as_const(c) != Some(1) && !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }

    fn branch(&mut self, st: &mut State, c: Id, t: u32, f: u32) -> R<Step> {
        if let Some(k) = self.tm.as_const(c) {
            self.jump(st, if k == 1 { t } else { f })?;
            return Ok(Step::Go);
        }
        if t == f {
            self.jump(st, t)?;
            return Ok(Step::Go);
        }
        let (a, b) = self.split_on(st, c)?;
        let d = st.frames.len();
        match (a, b) {
            (None, None) => Ok(Step::Dead),
            (Some(mut a), None) => {
                self.jump(&mut a, t)?;
                // the condition is implied: keep the path condition small
                a.pc = st.pc.clone();
                *st = a;
                Ok(Step::Go)
            }
            (None, Some(mut b)) => {
                self.jump(&mut b, f)?;
                b.pc = st.pc.clone();
                *st = b;
                Ok(Step::Go)
            }
            (Some(mut a), Some(mut b)) => {
                self.stats.forks += 1;
                let fr = st.frames.last().unwrap();
                let stop = match fr.f.ipdom[fr.blk as usize] {
                    Some(p) => Stop::Blk(d, p),
                    None => Stop::Ret(d),
                };
                self.jump(&mut a, t)?;
                self.jump(&mut b, f)?;
                let base = st.pc.len();
                let ra = if self.stopped(&a, stop) { vec![a] } else { self.run(a, stop)? };
                let rb = if self.stopped(&b, stop) { vec![b] } else { self.run(b, stop)? };
                let mut all = ra;
                all.extend(rb);
                let merged = self.merge_all(all, base);
                if merged.is_empty() {
                    return Ok(Step::Dead);
                }
                Ok(Step::Fork(merged))
            }
        }
    }

    fn merge_all(&mut self, mut v: Vec<State>, base: usize) -> Vec<State> {
        if v.len() < 2 {
            return v;
        }
        let force = v.len() > 400;
        let mut out: Vec<State> = vec![];
        for s in v.drain(..) {
            let mut s = Some(s);
            let n = out.len();
            for i in (n.saturating_sub(8)..n).rev() {
                if let Some(m) = self.merge(&out[i], s.as_ref().unwrap(), base, force) {
                    self.stats.merges += 1;
                    out[i] = m;
                    s = None;
                    break;
                }
            }
            if let Some(s) = s {
                out.push(s);
            }
        }
        out
    }

    fn merge(&mut self, a: &State, b: &State, base: usize, force: bool) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.done != b.done {
            return None;
        }
        if a.heap.len() != b.heap.len() || a.stack.len() != b.stack.len() || a.sp != b.sp {
            return None;
        }
        for (x, y) in a.heap.iter().zip(b.heap.iter()).chain(a.stack.iter().zip(b.stack.iter())) {
            if x.base != y.base || x.data.len() != y.data.len() {
                return None;
            }
        }
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if !Rc::ptr_eq(&x.f, &y.f) || x.blk != y.blk || x.ip != y.ip {
                return None;
            }
        }
        // path conditions: common prefix + rest
        let mut i = 0;
        while i < a.pc.len() && i < b.pc.len() && a.pc[i] == b.pc[i] {
            i += 1;
        }
        let i = i.max(base.min(a.pc.len()).min(b.pc.len()).min(i));
        let ra = a.pc[i..].to_vec();
        let rb = b.pc[i..].to_vec();
        let ca = self.tm.and_n(1, &ra);
        let cb = self.tm.and_n(1, &rb);
        let mut m = a.clone();
        m.pc = a.pc[..i].to_vec();
        let or = self.tm.or(ca, cb);
        // the selector: prefer a literal that distinguishes
        let mut sel = ca;
        for &x in &ra {
            let nx = self.tm.not(x);
            if rb.contains(&nx) {
                sel = x;
                break;
            }
        }
        // top frame registers
        let d = m.frames.len();
        let live = if d == 0 {
            vec![]
        } else {
            let fr = &m.frames[d - 1];
            if fr.ip == 0 {
                fr.f.live[fr.blk as usize].clone()
            } else {
                live_from(&fr.f.f, &fr.f.live, fr.blk as usize, fr.ip)
            }
        };
        for k in 0..d {
            let n = m.frames[k].regs.len();
            for r in 0..n {
                if a.frames[k].regs[r].same(&b.frames[k].regs[r]) {
                    continue;
                }
                let keep = k + 1 == d && live[r / 64] >> (r % 64) & 1 != 0;
                if keep {
                    let v = self.merge_val(sel, &a.frames[k].regs[r], &b.frames[k].regs[r], force)?;
                    m.frames[k].regs[r] = v;
                } else {
                    m.frames[k].regs[r] = Val::None;
                }
            }
        }
        // memory
        for j in 0..m.stack.len() {
            if !Rc::ptr_eq(&a.stack[j], &b.stack[j]) {
                let o = self.merge_obj(sel, &a.stack[j], &b.stack[j], force)?;
                m.stack[j] = o;
            }
        }
        for j in 0..m.heap.len() {
            if !Rc::ptr_eq(&a.heap[j], &b.heap[j]) {
                let o = self.merge_obj(sel, &a.heap[j], &b.heap[j], force)?;
                m.heap[j] = o;
            }
        }
        if !Rc::ptr_eq(&a.globals, &b.globals) {
            let mut g = (*a.globals).clone();
            for j in 0..g.len() {
                if !Rc::ptr_eq(&a.globals[j], &b.globals[j]) {
                    g[j] = self.merge_obj(sel, &a.globals[j], &b.globals[j], force)?;
                }
            }
            m.globals = Rc::new(g);
        }
        if !a.ret.same(&b.ret) {
            m.ret = self.merge_val(sel, &a.ret, &b.ret, force)?;
        }
        m.heap_next = a.heap_next.max(b.heap_next);
        self.add_pc(&mut m, or);
        let mut w = a.wit.clone();
        for &x in &b.wit {
            if !w.contains(&x) {
                w.push(x);
            }
        }
        m.wit = w;
        Some(m)
    }
    fn merge_val(&mut self, c: Id, a: &Val, b: &Val, force: bool) -> Option<Val> {
        match (a, b) {
            (Val::T(x), Val::T(y)) => {
                if x != y && !force && self.tm.w(*x) >= 8 && self.tm.is_const(*x) && self.tm.is_const(*y) {
                    return None;
                }
                Some(Val::T(self.tm.ite(c, *x, *y)))
            }
            (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.merge_val(c, p, q, force)?);
                }
                Some(Val::Agg(Rc::new(v)))
            }
            (Val::None, _) | (_, Val::None) => Some(Val::None),
            _ => None,
        }
    }
    fn merge_obj(&mut self, c: Id, a: &Rc<Obj>, b: &Rc<Obj>, force: bool) -> Option<Rc<Obj>> {
        let mut o = (**a).clone();
        for i in 0..o.data.len() {
            let (x, y) = (a.data[i], b.data[i]);
            if x == y {
                continue;
            }
            if x == UNINIT || y == UNINIT {
                // arbitrary on one side
                let f = self.fresh("uninit", 8);
                let (x, y) = (if x == UNINIT { f } else { x }, if y == UNINIT { f } else { y });
                o.data[i] = self.tm.ite(c, x, y);
                continue;
            }
            if !force && self.tm.is_const(x) && self.tm.is_const(y) {
                return None;
            }
            o.data[i] = self.tm.ite(c, x, y);
        }
        Some(Rc::new(o))
    }

    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }

    fn step(&mut self, st: &mut State, _stop: Stop) -> R<Step> {
        self.stats.instrs += 1;
        if self.stats.instrs > self.max_instrs {
            return Err("instruction budget exhausted".into());
        }
        if self.stats.instrs & 0xffff == 0 && std::time::Instant::now() > self.deadline {
            return Err("time budget exhausted".into());
        }
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let ins = &f.f.blocks[fr.blk as usize].ins[fr.ip];
        fr.ip += 1;
        match ins {
            Ins::Nop => {}
            Ins::Alloca { dst, size, align } => {
                let base = up(st.sp, (*align).max(16));
                st.stack.push(Rc::new(Obj { base, data: vec![UNINIT; *size as usize], ro: false }));
                st.sp = base + size + 32;
                let t = self.tm.cst(64, base as u128);
                self.set(st, *dst, Val::T(t));
            }
            Ins::Load { dst, ty, ptr } => {
                let a = self.op_t(st.frames.last().unwrap(), ptr)?;
                return self.do_load(st, *dst, ty, a);
            }
            Ins::Store { ty, val, ptr } => {
                let fr = st.frames.last().unwrap();
                let a = self.op_t(fr, ptr)?;
                let v = self.op_val(fr, val);
                return self.do_store(st, ty, v, a);
            }
            Ins::Gep { dst, base, off, idx } => {
                let fr = st.frames.last().unwrap();
                let b = self.op_t(fr, base)?;
                if idx.is_empty() {
                    let t = if let Some(k) = self.tm.as_const(b) {
                        self.tm.cst(64, k.wrapping_add(*off as i128 as u128))
                    } else {
                        self.tm.sum(64, &[(1, b)], *off as i128 as u128)
                    };
                    self.set(st, *dst, Val::T(t));
                } else {
                    let mut ts = vec![(1u128, b)];
                    for (o, w, sc) in idx {
                        let x = self.op_t(fr, o)?;
                        let x = if *w < 64 { self.tm.sext(x, 64) } else { x };
                        ts.push(((*sc as i128 as u128) & mask(64), x));
                    }
                    let mut all = true;
                    let mut k = *off as i128 as u128;
                    for &(c, t) in &ts {
                        match self.tm.as_const(t) {
                            Some(v) => k = k.wrapping_add(c.wrapping_mul(v)),
                            None => {
                                all = false;
                                break;
                            }
                        }
                    }
                    let t = if all { self.tm.cst(64, k) } else { self.tm.sum(64, &ts, *off as i128 as u128) };
                    self.set(st, *dst, Val::T(t));
                }
            }
            Ins::Bin { dst, op, ty, a, b } => {
                let fr = st.frames.last().unwrap();
                let v = match ty {
                    Ty::Int(_) => {
                        let (x, y) = (self.op_t(fr, a)?, self.op_t(fr, b)?);
                        if matches!(op, Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) {
                            let w = self.tm.w(y);
                            let z = self.tm.cst(w, 0);
                            let bad = self.tm.eq(y, z);
                            if self.tm.as_const(bad) == Some(1) {
                                self.bad_path(st, "panic", "division by zero");
                                return Ok(Step::Dead);
                            }
                            let r = self.bin(*op, x, y);
                            if self.tm.as_const(bad).is_none() {
                                if let Sat::Sat(m) = self.sv.check_from(&mut self.tm, &st.pc, bad, &st.wit) {
                                    let ok = self.sv.model_ok(&self.tm, &m, &[bad]);
                                    self.fail("panic", "division by zero", Some(m), ok, String::new());
                                }
                            }
                            Val::T(r)
                        } else {
                            Val::T(self.bin(*op, x, y))
                        }
                    }
                    Ty::Vec(..) => {
                        let (x, y) = (self.op_val(fr, a), self.op_val(fr, b));
                        self.zip2(&x, &y, &mut |s, p, q| Ok(s.bin(*op, p, q)))?
                    }
                    _ => return Err("floating point arithmetic".into()),
                };
                self.set(st, *dst, v);
            }
            Ins::ICmp { dst, pred, ty, a, b } => {
                let fr = st.frames.last().unwrap();
                let v = match ty {
                    Ty::Vec(..) => {
                        let (x, y) = (self.op_val(fr, a), self.op_val(fr, b));
                        self.zip2(&x, &y, &mut |s, p, q| Ok(s.icmp(*pred, p, q)))?
                    }
                    _ => {
                        let (x, y) = (self.op_t(fr, a)?, self.op_t(fr, b)?);
                        Val::T(self.icmp(*pred, x, y))
                    }
                };
                self.set(st, *dst, v);
            }
            Ins::Cast { dst, op, from, to, a } => {
                let fr = st.frames.last().unwrap();
                let x = self.op_val(fr, a);
                let v = self.cast(*op, from, to, &x)?;
                self.set(st, *dst, v);
            }
            Ins::Select { dst, cty, ty, c, a, b } => {
                let fr = st.frames.last().unwrap();
                let (cv, x, y) = (self.op_val(fr, c), self.op_val(fr, a), self.op_val(fr, b));
                let v = if let Ty::Vec(..) = cty {
                    match (&cv, &x, &y) {
                        (Val::Agg(c), Val::Agg(x), Val::Agg(y)) => {
                            let mut r = vec![];
                            for i in 0..c.len() {
                                let ci = self.sc(&c[i])?;
                                r.push(self.sel_val(ci, &x[i], &y[i])?);
                            }
                            Val::Agg(Rc::new(r))
                        }
                        _ => return Err("select".into()),
                    }
                } else {
                    let ci = self.sc(&cv)?;
                    let _ = ty;
                    match self.tm.as_const(ci) {
                        Some(1) => x,
                        Some(_) => y,
                        None => {
                            // a symbolic choice between two pointers: decide it by forking
                            if *ty == Ty::Ptr && !x.same(&y) {
                                let (s1, s2) = self.split_on(st, ci)?;
                                let mut v = vec![];
                                if let Some(mut s) = s1 {
                                    self.set(&mut s, *dst, x.clone());
                                    v.push(s);
                                }
                                if let Some(mut s) = s2 {
                                    self.set(&mut s, *dst, y.clone());
                                    v.push(s);
                                }
                                if v.len() == 1 {
                                    let pc = st.pc.clone();
                                    *st = v.pop().unwrap();
                                    st.pc = pc;
                                    return Ok(Step::Go);
                                }
                                self.stats.forks += 1;
                                return Ok(if v.is_empty() { Step::Dead } else { Step::Fork(v) });
                            }
                            self.sel_val(ci, &x, &y)?
                        }
                    }
                };
                self.set(st, *dst, v);
            }
            Ins::ExtractValue { dst, agg, idx } => {
                let mut v = self.op_val(st.frames.last().unwrap(), agg);
                for &i in idx {
                    v = match &v {
                        Val::Agg(x) => x[i].clone(),
                        _ => return Err("extractvalue".into()),
                    };
                }
                self.set(st, *dst, v);
            }
            Ins::InsertValue { dst, agg, val, idx } => {
                let fr = st.frames.last().unwrap();
                let a = self.op_val(fr, agg);
                let x = self.op_val(fr, val);
                let v = ins_val(&a, &x, idx)?;
                self.set(st, *dst, v);
            }
            Ins::ExtractElement { dst, v, i } => {
                let fr = st.frames.last().unwrap();
                let i = self.op_t(fr, i)?;
                let k = self.tm.as_const(i).ok_or("symbolic element index")? as usize;
                let x = match self.op_val(fr, v) {
                    Val::Agg(x) => x[k].clone(),
                    _ => return Err("extractelement".into()),
                };
                self.set(st, *dst, x);
            }
            Ins::InsertElement { dst, v, e, i } => {
                let fr = st.frames.last().unwrap();
                let i = self.op_t(fr, i)?;
                let k = self.tm.as_const(i).ok_or("symbolic element index")? as usize;
                let e = self.op_val(fr, e);
                let x = match self.op_val(fr, v) {
                    Val::Agg(x) => {
                        let mut y = (*x).clone();
                        y[k] = e;
                        Val::Agg(Rc::new(y))
                    }
                    _ => return Err("insertelement".into()),
                };
                self.set(st, *dst, x);
            }
            Ins::Shuffle { dst, a, b, n, mask } => {
                let fr = st.frames.last().unwrap();
                let (x, y, m) = (self.op_val(fr, a), self.op_val(fr, b), self.op_val(fr, mask));
                match (&x, &y, &m) {
                    (Val::Agg(x), Val::Agg(y), Val::Agg(m)) => {
                        let mut r = vec![];
                        for k in m.iter() {
                            let k = self.sc(k)?;
                            let k = self.tm.as_const(k).ok_or("shuffle mask")? as u64;
                            r.push(if k < *n { x[k as usize].clone() } else { y[(k - n) as usize].clone() });
                        }
                        self.set(st, *dst, Val::Agg(Rc::new(r)));
                    }
                    _ => return Err("shuffle".into()),
                }
            }
            Ins::Freeze { dst, a } => {
                let v = self.op_val(st.frames.last().unwrap(), a);
                self.set(st, *dst, v);
            }
            Ins::AtomicRmw { dst, op, ty, ptr, val } => {
                let fr = st.frames.last().unwrap();
                let (p, v) = (self.op_t(fr, ptr)?, self.op_t(fr, val)?);
                let a = self.tm.as_const(p).ok_or("symbolic atomic")? as u64;
                let n = size_of(ty);
                let b = self.load_bytes(st, a, n)?;
                let old = self.join(&b);
                let new = match &op[..] {
                    "add" => self.tm.add(old, v),
                    "sub" => self.tm.sub(old, v),
                    "xchg" => v,
                    "and" => self.tm.and(old, v),
                    "or" => self.tm.or(old, v),
                    "xor" => self.tm.xor(old, v),
                    _ => return Err("atomicrmw".into()),
                };
                let bs = self.split(new, n);
                self.store_bytes(st, a, &bs)?;
                self.set(st, *dst, Val::T(old));
            }
            Ins::CmpXchg { dst, ty, ptr, cmp, new } => {
                let fr = st.frames.last().unwrap();
                let (p, c, n) = (self.op_t(fr, ptr)?, self.op_t(fr, cmp)?, self.op_t(fr, new)?);
                let a = self.tm.as_const(p).ok_or("symbolic atomic")? as u64;
                let z = size_of(ty);
                let b = self.load_bytes(st, a, z)?;
                let old = self.join(&b);
                let e = self.tm.eq(old, c);
                let r = self.tm.ite(e, n, old);
                let bs = self.split(r, z);
                self.store_bytes(st, a, &bs)?;
                self.set(st, *dst, Val::Agg(Rc::new(vec![Val::T(old), Val::T(e)])));
            }
            Ins::Br(t) => {
                self.jump(st, *t)?;
            }
            Ins::CondBr { c, t, f } => {
                let c = self.op_t(st.frames.last().unwrap(), c)?;
                return self.branch(st, c, *t, *f);
            }
            Ins::Switch { v, def, cases, .. } => {
                let x = self.op_t(st.frames.last().unwrap(), v)?;
                if let Some(k) = self.tm.as_const(x) {
                    let to = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                    self.jump(st, to)?;
                } else {
                    let w = self.tm.w(x);
                    let mut rest = st.clone();
                    let mut alive = true;
                    let mut outs = vec![];
                    for (k, l) in cases {
                        let kk = self.tm.cst(w, *k);
                        let e = self.tm.eq(x, kk);
                        match self.tm.as_const(e) {
                            Some(0) => continue,
                            Some(_) => {
                                self.jump(&mut rest, *l)?;
                                outs.push(rest.clone());
                                alive = false;
                                break;
                            }
                            None => {}
                        }
                        let (a, b) = self.split_on(&rest, e)?;
                        if let Some(mut a) = a {
                            self.jump(&mut a, *l)?;
                            outs.push(a);
                        }
                        match b {
                            Some(b) => rest = b,
                            None => {
                                alive = false;
                                break;
                            }
                        }
                    }
                    if alive {
                        self.jump(&mut rest, *def)?;
                        outs.push(rest);
                    }
                    self.stats.forks += 1;
                    let d = st.frames.len();
                    let fr = st.frames.last().unwrap();
                    let stop = match fr.f.ipdom[fr.blk as usize] {
                        Some(p) => Stop::Blk(d, p),
                        None => Stop::Ret(d),
                    };
                    let base = st.pc.len();
                    let mut all = vec![];
                    for s in outs {
                        if self.stopped(&s, stop) {
                            all.push(s);
                        } else {
                            all.extend(self.run(s, stop)?);
                        }
                    }
                    let m = self.merge_all(all, base);
                    return Ok(if m.is_empty() { Step::Dead } else { Step::Fork(m) });
                }
            }
            Ins::Ret(v) => {
                let val = match v {
                    Some((_, o)) => self.op_val(st.frames.last().unwrap(), o),
                    None => Val::None,
                };
                self.do_ret(st, val)?;
            }
            Ins::Unreachable => {
                self.bad_path(st, "unreachable", "execution reaches a point the compiler assumes unreachable");
                return Ok(Step::Dead);
            }
            Ins::Unsupported(s) => return Err(format!("unsupported instruction: {}", s)),
            Ins::Call { dst, callee, args, ret, normal } => {
                let fr = st.frames.last().unwrap();
                let name = match callee {
                    Callee::Sym(s) => self.m.alias.get(s).cloned().unwrap_or_else(|| s.clone()),
                    Callee::Opnd(o) => {
                        let t = self.op_t(fr, o)?;
                        match self.tm.as_const(t) {
                            Some(a) => {
                                let a = a as u64;
                                if a < FBASE || ((a - FBASE) / 16) as usize >= self.fnames.len() {
                                    return Err(format!("call through invalid pointer {:#x}", a));
                                }
                                self.fnames[((a - FBASE) / 16) as usize].clone()
                            }
                            None => {
                                if let Some(c) = self.find_ite_cond(t, 0) {
                                    return self.refork(st, c);
                                }
                                return Err("symbolic function pointer".into());
                            }
                        }
                    }
                };
                let av: Vec<(Ty, Val)> = args.iter().map(|(t, o)| (t.clone(), self.op_val(fr, o))).collect();
                return self.call(st, *dst, &name, av, ret, *normal);
            }
        }
        Ok(Step::Go)
    }

    fn do_ret(&mut self, st: &mut State, val: Val) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.stack.truncate(fr.nstack);
        st.sp = fr.sp;
        if st.frames.is_empty() {
            st.done = true;
            st.ret = val;
            return Ok(());
        }
        if let Some(d) = fr.dst {
            self.set(st, d, val);
        }
        if let Some(n) = fr.normal {
            self.jump(st, n)?;
        }
        Ok(())
    }

    /// retry the current instruction separately under c and not c
    fn refork(&mut self, st: &mut State, c: Id) -> R<Step> {
        st.frames.last_mut().unwrap().ip -= 1;
        let (a, b) = self.split_on(st, c)?;
        self.stats.forks += 1;
        let mut v = vec![];
        for (s, k) in [(a, 1u128), (b, 0)] {
            if let Some(mut s) = s {
                self.assume_in(&mut s, c, k);
                v.push(s);
            }
        }
        if v.is_empty() {
            return Ok(Step::Dead);
        }
        Ok(Step::Fork(v))
    }
    /// rewrite all registers of the top frame and memory under the decision c = k
    fn assume_in(&mut self, st: &mut State, c: Id, k: u128) {
        let kk = self.tm.cst(1, k);
        let mut memo: HashMap<Id, Id> = HashMap::default();
        memo.insert(c, kk);
        for fr in st.frames.iter_mut() {
            for r in 0..fr.regs.len() {
                let v = fr.regs[r].clone();
                fr.regs[r] = self.subst_val(&v, &mut memo);
            }
        }
        for v in [&mut st.stack, &mut st.heap] {
            for o in v.iter_mut() {
                let needs = o.data.iter().any(|&x| x != UNINIT && !self.tm.is_const(x));
                if !needs {
                    continue;
                }
                let nd: Vec<Id> = o.data.iter().map(|&x| if x == UNINIT { x } else { self.subst(x, &mut memo, 0) }).collect();
                if nd != o.data {
                    Rc::make_mut(o).data = nd;
                }
            }
        }
    }
    fn subst_val(&mut self, v: &Val, memo: &mut HashMap<Id, Id>) -> Val {
        match v {
            Val::None => Val::None,
            Val::T(t) => Val::T(self.subst(*t, memo, 0)),
            Val::Agg(x) => {
                let y: Vec<Val> = x.iter().map(|p| self.subst_val(p, memo)).collect();
                Val::Agg(Rc::new(y))
            }
        }
    }
    fn subst(&mut self, t: Id, memo: &mut HashMap<Id, Id>, d: usize) -> Id {
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let n = self.tm.n(t);
        // only the control skeleton: ites, sums, concats and extracts near the root
        if d > 12 || !matches!(n.op, Op::Ite | Op::Sum | Op::Concat | Op::Extract | Op::And | Op::Or | Op::Not | Op::Eq | Op::Ult | Op::Slt) {
            return t;
        }
        let args = n.args.clone();
        let na: Vec<Id> = args.iter().map(|&x| self.subst(x, memo, d + 1)).collect();
        let r = self.tm.rebuild(t, &na);
        memo.insert(t, r);
        r
    }

    fn do_load(&mut self, st: &mut State, dst: u32, ty: &Ty, a: Id) -> R<Step> {
        let n = size_of(ty);
        if n == 0 {
            self.set(st, dst, Val::Agg(Rc::new(vec![])));
            return Ok(Step::Go);
        }
        if let Some(k) = self.tm.as_const(a) {
            // fast path for scalars
            let o = match self.find(st, k as u64) {
                Some(o) => o,
                None => {
                    self.bad_path(st, "memory", &format!("read of invalid address {:#x}", k));
                    return Ok(Step::Dead);
                }
            };
            let off = (k as u64 - o.base) as usize;
            if off + n as usize > o.data.len() {
                let msg = format!("out-of-bounds read: {} bytes at offset {} of a {}-byte object", n, off, o.data.len());
                let msg = format!("{} in {}", msg, self.here(st));
                self.bad_path(st, "memory", &msg);
                return Ok(Step::Dead);
            }
            if n == 1 && *ty == Ty::Int(8) && o.data[off] != UNINIT {
                let v = Val::T(o.data[off]);
                self.set(st, dst, v);
                return Ok(Step::Go);
            }
            let b = o.data[off..off + n as usize].to_vec();
            let v = self.val_from_bytes(ty, &b)?;
            self.set(st, dst, v);
            return Ok(Step::Go);
        }
        match self.sym_addr(st, a, n)? {
            SymAddr::Split(c) => self.refork(st, c),
            SymAddr::Oob(_, m) => {
                let h = self.here(st);
                let ok = m.as_ref().map(|m| self.sv.model_ok(&self.tm, m, &st.pc)).unwrap_or(false);
                self.fail("memory", &format!("out-of-bounds read in {}", h), m, ok, String::new());
                Ok(Step::Dead)
            }
            SymAddr::Vals(vs) => self.fork_vals(st, a, &vs),
            SymAddr::Idx(idx, cells) => {
                let w = match ty {
                    Ty::Int(w) => *w,
                    Ty::Ptr => 64,
                    _ => return Err("symbolic load of an aggregate".into()),
                };
                let mut vals = vec![];
                let mut all_const = true;
                for c in &cells {
                    match c {
                        None => vals.push(None),
                        Some(p) => {
                            let b = self.load_bytes(st, *p, n)?;
                            let x = self.join(&b);
                            let x = self.tm.trunc(x, w);
                            if !self.tm.is_const(x) {
                                all_const = false;
                            }
                            vals.push(Some(x));
                        }
                    }
                }
                let t = if all_const {
                    let d: Vec<u128> = vals.iter().map(|v| v.map(|x| self.tm.as_const(x).unwrap()).unwrap_or(0)).collect();
                    let tb = self.tm.mk_table(w, d);
                    self.tm.table(tb, idx)
                } else {
                    if vals.len() > 1024 {
                        return Err("symbolic load from a large symbolic object".into());
                    }
                    self.tree(idx, &vals)
                };
                self.set(st, dst, Val::T(t));
                Ok(Step::Go)
            }
        }
    }
    /// binary selection tree over index bits
    fn tree(&mut self, idx: Id, vals: &[Option<Id>]) -> Id {
        fn go(s: &mut Exec, idx: Id, bit: i32, vals: &[Option<Id>]) -> Option<Id> {
            if vals.len() == 1 {
                return vals[0];
            }
            let h = vals.len() / 2;
            let lo = go(s, idx, bit - 1, &vals[..h]);
            let hi = go(s, idx, bit - 1, &vals[h..]);
            match (lo, hi) {
                (None, x) | (x, None) => x,
                (Some(x), Some(y)) => {
                    let b = s.tm.extract(idx, bit as u16, 1);
                    Some(s.tm.ite(b, y, x))
                }
            }
        }
        let bits = self.tm.w(idx) as i32;
        go(self, idx, bits - 1, vals).unwrap()
    }
    fn fork_vals(&mut self, st: &mut State, a: Id, vs: &[u64]) -> R<Step> {
        st.frames.last_mut().unwrap().ip -= 1;
        let mut out = vec![];
        for &v in vs {
            let k = self.tm.cst(64, v as u128);
            let e = self.tm.eq(a, k);
            let (s, _) = self.split_on(st, e)?;
            if let Some(mut s) = s {
                let mut memo = HashMap::default();
                memo.insert(a, k);
                for fr in s.frames.iter_mut() {
                    for r in 0..fr.regs.len() {
                        let v = fr.regs[r].clone();
                        fr.regs[r] = self.subst_val(&v, &mut memo);
                    }
                }
                out.push(s);
            }
        }
        self.stats.forks += 1;
        Ok(if out.is_empty() { Step::Dead } else { Step::Fork(out) })
    }

    fn do_store(&mut self, st: &mut State, ty: &Ty, v: Val, a: Id) -> R<Step> {
        let n = size_of(ty);
        if n == 0 {
            return Ok(Step::Go);
        }
        if let Some(k) = self.tm.as_const(a) {
            let mut b = match &v {
                Val::T(t) if !matches!(ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) => self.split(*t, n),
                _ => {
                    let mut b = vec![UNINIT; alloc_size(ty) as usize];
                    self.val_to_bytes(ty, &v, &mut b)?;
                    b
                }
            };
            b.truncate(n as usize);
            if let Err(e) = self.store_bytes(st, k as u64, &b) {
                let e = format!("{} in {}", e, self.here(st));
                self.bad_path(st, "memory", &e);
                return Ok(Step::Dead);
            }
            return Ok(Step::Go);
        }
        match self.sym_addr(st, a, n)? {
            SymAddr::Split(c) => self.refork(st, c),
            SymAddr::Oob(_, m) => {
                let h = self.here(st);
                let ok = m.as_ref().map(|m| self.sv.model_ok(&self.tm, m, &st.pc)).unwrap_or(false);
                self.fail("memory", &format!("out-of-bounds write in {}", h), m, ok, String::new());
                Ok(Step::Dead)
            }
            SymAddr::Vals(vs) => self.fork_vals(st, a, &vs),
            SymAddr::Idx(idx, cells) => {
                let t = match v {
                    Val::T(t) => t,
                    _ => return Err("symbolic store of an aggregate".into()),
                };
                let bs = self.split(t, n);
                let w = self.tm.w(idx);
                for (i, c) in cells.iter().enumerate() {
                    if let Some(p) = c {
                        let k = self.tm.cst(w, i as u128);
                        let e = self.tm.eq(idx, k);
                        if self.tm.as_const(e) == Some(0) {
                            continue;
                        }
                        let old = self.load_bytes(st, *p, n)?;
                        let mut nb = vec![];
                        for j in 0..n as usize {
                            if old[j] == UNINIT {
                                let f = self.fresh("uninit", 8);
                                nb.push(self.tm.ite(e, bs[j], f));
                            } else {
                                nb.push(self.tm.ite(e, bs[j], old[j]));
                            }
                        }
                        self.store_bytes(st, *p, &nb)?;
                    }
                }
                Ok(Step::Go)
            }
        }
    }

    fn here(&self, st: &State) -> String {
        let n = &st.frames.last().unwrap().f.f.name;
        self.m.pretty.get(n).cloned().unwrap_or(n.clone())
    }
    pub fn backtrace(&self, st: &State) -> String {
        st.frames.iter().rev().take(8).map(|f| self.m.pretty.get(&f.f.f.name).cloned().unwrap_or(f.f.f.name.clone())).collect::<Vec<_>>().join(" <- ")
    }

    // ---------------------------------------------------------------- scalar ops
    fn sc(&self, v: &Val) -> R<Id> {
        match v {
            Val::T(t) => Ok(*t),
            _ => Err("scalar expected".into()),
        }
    }
    fn sel_val(&mut self, c: Id, a: &Val, b: &Val) -> R<Val> {
        Ok(match (a, b) {
            (Val::T(x), Val::T(y)) => Val::T(self.tm.ite(c, *x, *y)),
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.sel_val(c, p, q)?);
                }
                Val::Agg(Rc::new(v))
            }
            (x, Val::None) => x.clone(),
            (Val::None, y) => y.clone(),
            _ => return Err("select".into()),
        })
    }
    fn zip2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Exec, Id, Id) -> R<Id>) -> R<Val> {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    let (p, q) = (self.sc(p)?, self.sc(q)?);
                    v.push(Val::T(f(self, p, q)?));
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            (Val::T(p), Val::T(q)) => Ok(Val::T(f(self, *p, *q)?)),
            _ => Err("vector operands".into()),
        }
    }
    fn bin(&mut self, op: Bop, x: Id, y: Id) -> Id {
        let t = &mut self.tm;
        if let (Some(a), Some(b)) = (t.as_const(x), t.as_const(y)) {
            let w = t.w(x);
            let r = match op {
                Bop::Add => Some(a.wrapping_add(b)),
                Bop::Sub => Some(a.wrapping_sub(b)),
                Bop::Mul => Some(a.wrapping_mul(b)),
                Bop::And => Some(a & b),
                Bop::Or => Some(a | b),
                Bop::Xor => Some(a ^ b),
                Bop::Shl if b < w as u128 => Some(a << b),
                Bop::Lshr if b < w as u128 => Some(a >> b),
                _ => None,
            };
            if let Some(r) = r {
                return t.cst(w, r);
            }
        }
        match op {
            Bop::Add => t.add(x, y),
            Bop::Sub => t.sub(x, y),
            Bop::Mul => t.mul(x, y),
            Bop::UDiv => t.udiv(x, y),
            Bop::URem => t.urem(x, y),
            Bop::SDiv => t.sdiv(x, y),
            Bop::SRem => t.srem(x, y),
            Bop::And => t.and(x, y),
            Bop::Or => t.or(x, y),
            Bop::Xor => t.xor(x, y),
            Bop::Shl => t.shl(x, y),
            Bop::Lshr => t.lshr(x, y),
            Bop::Ashr => t.ashr(x, y),
        }
    }
    fn icmp(&mut self, p: Pred, x: Id, y: Id) -> Id {
        let t = &mut self.tm;
        match p {
            Pred::Eq => t.eq(x, y),
            Pred::Ne => {
                let e = t.eq(x, y);
                t.not(e)
            }
            Pred::Ult => t.ult(x, y),
            Pred::Ugt => t.ult(y, x),
            Pred::Ule => {
                let e = t.ult(y, x);
                t.not(e)
            }
            Pred::Uge => {
                let e = t.ult(x, y);
                t.not(e)
            }
            Pred::Slt => t.slt(x, y),
            Pred::Sgt => t.slt(y, x),
            Pred::Sle => {
                let e = t.slt(y, x);
                t.not(e)
            }
            Pred::Sge => {
                let e = t.slt(x, y);
                t.not(e)
            }
        }
    }
    fn flatten(&mut self, ty: &Ty, v: &Val) -> R<Vec<Id>> {
        // to bytes
        let n = size_of(ty) as usize;
        let mut b = vec![UNINIT; n];
        self.val_to_bytes(ty, v, &mut b)?;
        Ok(b)
    }
    fn cast(&mut self, op: Cop, from: &Ty, to: &Ty, x: &Val) -> R<Val> {
        if op == Cop::Bitcast {
            // between vectors and integers
            let bits = |t: &Ty| -> Option<(u64, u16)> {
                match t {
                    Ty::Vec(n, e) => match &**e {
                        Ty::Int(w) => Some((*n, *w)),
                        _ => None,
                    },
                    _ => None,
                }
            };
            if let (Some((n, 1)), Ty::Int(w)) = (bits(from), to) {
                // <n x i1> to iN
                if let Val::Agg(v) = x {
                    let mut ps = vec![];
                    for p in v.iter() {
                        ps.push(self.sc(p)?);
                    }
                    let _ = n;
                    let c = self.tm.concat(&ps);
                    debug_assert_eq!(self.tm.w(c), *w);
                    return Ok(Val::T(c));
                }
            }
            if let (Ty::Int(_), Some((n, 1))) = (from, bits(to)) {
                let t = self.sc(x)?;
                let v = (0..n).map(|i| Val::T(self.tm.extract(t, i as u16, 1))).collect();
                return Ok(Val::Agg(Rc::new(v)));
            }
            let b = self.flatten(from, x)?;
            return self.val_from_bytes(to, &b);
        }
        if let (Ty::Vec(_, f), Ty::Vec(_, t), Val::Agg(v)) = (from, to, x) {
            let mut r = vec![];
            for p in v.iter() {
                r.push(self.cast(op, f, t, p)?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        let t = self.sc(x)?;
        let w = match to {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => return Err("cast type".into()),
        };
        Ok(Val::T(match op {
            Cop::Trunc => self.tm.trunc(t, w),
            Cop::Zext => self.tm.zext(t, w),
            Cop::Sext => self.tm.sext(t, w),
            Cop::PtrToInt | Cop::IntToPtr => self.tm.zext_or_trunc(t, w),
            Cop::Bitcast => unreachable!(),
        }))
    }

    // ---------------------------------------------------------------- calls
    fn call(&mut self, st: &mut State, dst: Option<u32>, name: &str, args: Vec<(Ty, Val)>, ret: &Ty, normal: Option<u32>) -> R<Step> {
        if let Some(r) = name.strip_prefix("llvm.") {
            if r.starts_with("trap") {
                self.bad_path(st, "panic", "trap");
                return Ok(Step::Dead);
            }
            return self.llvm(st, dst, r, args, ret, normal);
        }
        if let Some(r) = name.strip_prefix("irv_") {
            return self.intrinsic(st, dst, r, args, normal);
        }
        if self.noreturn.contains(name) || is_panic(name) {
            let loc = self.location(st, &args);
            let short = self.m.pretty.get(name).cloned().unwrap_or(name.to_string());
            let msg = format!("panic {} at {} in {}", short, loc, self.here(st));
            self.bad_path(st, "panic", &msg);
            return Ok(Step::Dead);
        }
        if let Some(v) = self.libc(st, name, &args)? {
            match v {
                LibRes::Val(v) => {
                    if let Some(d) = dst {
                        self.set(st, d, v);
                    }
                    if let Some(n) = normal {
                        self.jump(st, n)?;
                    }
                    return Ok(Step::Go);
                }
                LibRes::Split(c) => return self.refork(st, c),
                LibRes::Vals(t, vs) => return self.fork_vals(st, t, &vs),
                LibRes::Bad(msg) => {
                    self.bad_path(st, "memory", &msg);
                    return Ok(Step::Dead);
                }
            }
        }
        if !self.m.fsrc.contains_key(name) {
            return Err(format!("call of external function {}", name));
        }
        // a function stands behind its contract, unless the contract itself is what calls it
        if !self.replaced.is_empty() {
            let by = self.m.pretty.get(name).and_then(|p| p.rsplit("::").next()).and_then(|p| self.replaced.get(p)).cloned();
            if let Some(by) = by {
                if by != name && self.get_func(&by)?.f.params.len() == args.len() {
                    *self.stats.replaced.entry(self.m.pretty[name].clone()).or_insert(0) += 1;
                    return self.call(st, dst, &by, args, ret, normal);
                }
            }
        }
        if st.frames.len() > 200 {
            return Err("call depth".into());
        }
        let f = self.get_func(name)?;
        let mut regs = vec![Val::None; f.f.nregs as usize];
        if args.len() < f.f.params.len() {
            return Err("argument count".into());
        }
        let (nstack, sp) = (st.stack.len(), st.sp);
        for (i, (_, r)) in f.f.params.iter().enumerate() {
            if let Some(sz) = f.f.byval[i] {
                let p = self.sc(&args[i].1)?;
                let a = self.tm.as_const(p).ok_or("symbolic byval")? as u64;
                let b = self.load_bytes(st, a, sz)?;
                let base = up(st.sp, 16);
                st.stack.push(Rc::new(Obj { base, data: b, ro: false }));
                st.sp = base + sz + 32;
                let t = self.tm.cst(64, base as u128);
                regs[*r as usize] = Val::T(t);
            } else {
                regs[*r as usize] = args[i].1.clone();
            }
        }
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, dst, normal, nstack, sp });
        Ok(Step::Go)
    }

    fn addr_arg(&mut self, v: &Val) -> R<Result<u64, Id>> {
        let t = self.sc(v)?;
        Ok(match self.tm.as_const(t) {
            Some(k) => Ok(k as u64),
            None => Err(t),
        })
    }

    fn libc(&mut self, st: &mut State, name: &str, args: &[(Ty, Val)]) -> R<Option<LibRes>> {
        let short = if name.starts_with("_R") { name.rfind("___rust").map(|i| &name[i + 1..]).unwrap_or("") } else { name };
        macro_rules! con {
            ($i:expr) => {{
                let t = self.sc(&args[$i].1)?;
                match self.tm.as_const(t) {
                    Some(k) => k as u64,
                    None => {
                        if let Some(c) = self.first_cond(t, 0) {
                            return Ok(Some(LibRes::Split(c)));
                        }
                        match self.sym_addr_enum(st, t, 0)? {
                            SymAddr::Vals(v) => return Ok(Some(LibRes::Vals(t, v))),
                            _ => return Err(format!("symbolic argument of {}", name)),
                        }
                    }
                }
            }};
        }
        Ok(Some(match short {
            "__rust_alloc" | "malloc" => {
                let n = con!(0);
                if n > 1 << 30 {
                    return Err("huge allocation".into());
                }
                let a = self.alloc_heap(st, n, false);
                LibRes::Val(Val::T(self.tm.cst(64, a as u128)))
            }
            "__rust_alloc_zeroed" => {
                let n = con!(0);
                if n > 1 << 30 {
                    return Err("huge allocation".into());
                }
                let a = self.alloc_heap(st, n, true);
                LibRes::Val(Val::T(self.tm.cst(64, a as u128)))
            }
            "__rust_dealloc" | "free" => {
                let a = con!(0);
                self.free_heap(st, a)?;
                LibRes::Val(Val::None)
            }
            "__rust_realloc" => {
                let a = con!(0);
                let old = con!(1);
                let new = con!(3);
                if new > 1 << 30 {
                    return Err("huge allocation".into());
                }
                let n = old.min(new);
                let b = self.load_bytes(st, a, n)?;
                self.free_heap(st, a)?;
                let p = self.alloc_heap(st, new, false);
                self.store_bytes(st, p, &b)?;
                LibRes::Val(Val::T(self.tm.cst(64, p as u128)))
            }
            "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" => LibRes::Val(Val::None),
            "memcpy" | "memmove" => {
                let n = con!(2);
                let (d, s) = (con!(0), con!(1));
                if n > 0 {
                    let b = match self.load_bytes(st, s, n) {
                        Ok(b) => b,
                        Err(e) => return Ok(Some(LibRes::Bad(format!("{} in {}", e, self.here(st))))),
                    };
                    if let Err(e) = self.store_bytes(st, d, &b) {
                        return Ok(Some(LibRes::Bad(format!("{} in {}", e, self.here(st)))));
                    }
                }
                LibRes::Val(args[0].1.clone())
            }
            "memset" => {
                let n = con!(2);
                let d = con!(0);
                let v = self.sc(&args[1].1)?;
                let v = self.tm.trunc(v, 8);
                if n > 0 {
                    if let Err(e) = self.store_bytes(st, d, &vec![v; n as usize]) {
                        return Ok(Some(LibRes::Bad(format!("{} in {}", e, self.here(st)))));
                    }
                }
                LibRes::Val(args[0].1.clone())
            }
            "bcmp" | "memcmp" => {
                let n = con!(2);
                let (a, b) = (con!(0), con!(1));
                if n == 0 {
                    return Ok(Some(LibRes::Val(Val::T(self.tm.cst(32, 0)))));
                }
                let (x, y) = match (self.load_bytes(st, a, n), self.load_bytes(st, b, n)) {
                    (Ok(x), Ok(y)) => (x, y),
                    _ => return Ok(Some(LibRes::Bad(format!("memcmp out of bounds in {}", self.here(st))))),
                };
                if short == "bcmp" {
                    let mut cs = vec![];
                    for ch in (0..n as usize).step_by(8) {
                        let e = (ch + 8).min(n as usize);
                        let p = self.join(&x[ch..e]);
                        let q = self.join(&y[ch..e]);
                        cs.push(self.tm.eq(p, q));
                    }
                    let all = self.tm.and_n(1, &cs);
                    let ne = self.tm.not(all);
                    LibRes::Val(Val::T(self.tm.zext(ne, 32)))
                } else {
                    let mut r = self.tm.cst(32, 0);
                    for i in (0..n as usize).rev() {
                        let p = self.join(&x[i..i + 1]);
                        let q = self.join(&y[i..i + 1]);
                        let e = self.tm.eq(p, q);
                        let l = self.tm.ult(p, q);
                        let m1 = self.tm.cst(32, u32::MAX as u128);
                        let p1 = self.tm.cst(32, 1);
                        let d = self.tm.ite(l, m1, p1);
                        r = self.tm.ite(e, r, d);
                    }
                    LibRes::Val(Val::T(r))
                }
            }
            "strlen" => {
                let a = con!(0);
                let mut n = 0;
                loop {
                    let b = self.load_bytes(st, a + n, 1)?;
                    match self.tm.as_const(b[0]) {
                        Some(0) => break,
                        Some(_) => n += 1,
                        None => return Err("strlen of symbolic data".into()),
                    }
                }
                LibRes::Val(Val::T(self.tm.cst(64, n as u128)))
            }
            _ => return Ok(None),
        }))
    }
    /// a condition inside a length/pointer term on which splitting makes progress
    fn first_cond(&self, t: Id, d: usize) -> Option<Id> {
        let n = self.tm.n(t);
        match n.op {
            Op::Ite => Some(n.args[0]),
            Op::Sum | Op::Concat | Op::Extract | Op::And | Op::Or | Op::Xor | Op::Not if d < 8 => n.args.iter().find_map(|&x| self.first_cond(x, d + 1)),
            _ if n.w == 1 && n.op != Op::Const => Some(t),
            _ => None,
        }
    }

    fn llvm(&mut self, st: &mut State, dst: Option<u32>, r: &str, args: Vec<(Ty, Val)>, ret: &Ty, normal: Option<u32>) -> R<Step> {
        let base: &str = {
            // strip type suffixes
            let cut = r.find(|c: char| c == '.').map(|i| &r[..i]).unwrap_or(r);
            cut
        };
        let w = match ret {
            Ty::Int(w) => *w,
            _ => 0,
        };
        let v: Val = if r.starts_with("lifetime") || r.starts_with("experimental.noalias") || base == "assume" || base == "dbg" || base == "prefetch" || base == "donothing" || r.starts_with("x86.sse2.pause") {
            Val::None
        } else if r.starts_with("memcpy") || r.starts_with("memmove") {
            let a = vec![args[0].clone(), args[1].clone(), args[2].clone()];
            return self.call(st, None, "memmove", a, &Ty::Ptr, normal);
        } else if r.starts_with("memset") {
            let a = vec![args[0].clone(), args[1].clone(), args[2].clone()];
            return self.call(st, None, "memset", a, &Ty::Ptr, normal);
        } else if r.starts_with("is.constant") {
            Val::T(self.tm.cst(1, 0))
        } else if base == "expect" || base == "threadlocal" || r.starts_with("ssa.copy") || base == "launder" || r.starts_with("ptrmask") {
            if r.starts_with("ptrmask") {
                let (p, m) = (self.sc(&args[0].1)?, self.sc(&args[1].1)?);
                Val::T(self.tm.and(p, m))
            } else {
                args[0].1.clone()
            }
        } else if r.contains(".with.overflow") {
            let (x, y) = (self.sc(&args[0].1)?, self.sc(&args[1].1)?);
            let (res, ov) = self.with_overflow(&r[..4], x, y)?;
            Val::Agg(Rc::new(vec![Val::T(res), Val::T(ov)]))
        } else if r.starts_with("x86.") {
            self.x86(r, &args)?
        } else if r.starts_with("vector.reduce.") {
            let op = &r["vector.reduce.".len()..];
            let op = &op[..op.find('.').unwrap_or(op.len())];
            let xs = match &args[0].1 {
                Val::Agg(v) => v.clone(),
                _ => return Err("reduce".into()),
            };
            let mut acc = self.sc(&xs[0])?;
            for x in xs.iter().skip(1) {
                let x = self.sc(x)?;
                acc = match op {
                    "add" => self.tm.add(acc, x),
                    "xor" => self.tm.xor(acc, x),
                    "or" => self.tm.or(acc, x),
                    "and" => self.tm.and(acc, x),
                    "mul" => self.tm.mul(acc, x),
                    _ => return Err(format!("reduce {}", op)),
                };
            }
            Val::T(acc)
        } else if r.starts_with("ucmp") || r.starts_with("scmp") {
            let (x, y) = (self.sc(&args[0].1)?, self.sc(&args[1].1)?);
            let lt = if r.starts_with('u') { self.tm.ult(x, y) } else { self.tm.slt(x, y) };
            let gt = if r.starts_with('u') { self.tm.ult(y, x) } else { self.tm.slt(y, x) };
            let (m1, z, p1) = (self.tm.cst(w, u128::MAX), self.tm.cst(w, 0), self.tm.cst(w, 1));
            let a = self.tm.ite(gt, p1, z);
            Val::T(self.tm.ite(lt, m1, a))
        } else {
            let key = if r.starts_with("uadd.sat") || r.starts_with("usub.sat") || r.starts_with("sadd.sat") || r.starts_with("ssub.sat") { &r[..8] } else { base };
            match ret {
                Ty::Vec(n, e) => {
                    let ew = match &**e {
                        Ty::Int(w) => *w,
                        _ => return Err(format!("llvm.{}", r)),
                    };
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        let mut a = vec![];
                        for (_, x) in &args {
                            a.push(match x {
                                Val::Agg(v) => self.sc(&v[i])?,
                                Val::T(t) => *t,
                                _ => return Err("vector intrinsic".into()),
                            });
                        }
                        out.push(Val::T(self.scalar_intr(key, ew, &a)?));
                    }
                    Val::Agg(Rc::new(out))
                }
                _ => {
                    let mut a = vec![];
                    for (_, x) in &args {
                        a.push(self.sc(x)?);
                    }
                    Val::T(self.scalar_intr(key, w, &a)?)
                }
            }
        };
        if let Some(d) = dst {
            self.set(st, d, v);
        }
        if let Some(n) = normal {
            self.jump(st, n)?;
        }
        Ok(Step::Go)
    }
    fn scalar_intr(&mut self, key: &str, w: u16, a: &[Id]) -> R<Id> {
        let t = &mut self.tm;
        Ok(match key {
            "umin" => {
                let c = t.ult(a[0], a[1]);
                t.ite(c, a[0], a[1])
            }
            "umax" => {
                let c = t.ult(a[0], a[1]);
                t.ite(c, a[1], a[0])
            }
            "smin" => {
                let c = t.slt(a[0], a[1]);
                t.ite(c, a[0], a[1])
            }
            "smax" => {
                let c = t.slt(a[0], a[1]);
                t.ite(c, a[1], a[0])
            }
            "abs" => {
                let z = t.cst(w, 0);
                let c = t.slt(a[0], z);
                let n = t.neg(a[0]);
                t.ite(c, n, a[0])
            }
            "bswap" => {
                let n = w / 8;
                let ps: Vec<Id> = (0..n).rev().map(|i| t.extract(a[0], 8 * i, 8)).collect();
                t.concat(&ps)
            }
            "bitreverse" => {
                let ps: Vec<Id> = (0..w).rev().map(|i| t.extract(a[0], i, 1)).collect();
                t.concat(&ps)
            }
            "ctpop" => {
                let mut s = t.cst(w, 0);
                for i in 0..w {
                    let b = t.extract(a[0], i, 1);
                    let b = t.zext(b, w);
                    s = t.add(s, b);
                }
                s
            }
            "ctlz" => {
                let mut r = t.cst(w, w as u128);
                for i in 0..w {
                    let b = t.extract(a[0], i, 1);
                    let k = t.cst(w, (w - 1 - i) as u128);
                    r = t.ite(b, k, r);
                }
                r
            }
            "cttz" => {
                let mut r = t.cst(w, w as u128);
                for i in (0..w).rev() {
                    let b = t.extract(a[0], i, 1);
                    let k = t.cst(w, i as u128);
                    r = t.ite(b, k, r);
                }
                r
            }
            "fshl" | "fshr" => {
                let s = match t.as_const(a[2]) {
                    Some(k) => (k % w as u128) as u16,
                    None => {
                        // symbolic rotate: shifts
                        let wc = t.cst(w, w as u128);
                        let s = t.urem(a[2], wc);
                        let inv = t.sub(wc, s);
                        let (x, y) = if key == "fshl" { (s, inv) } else { (inv, s) };
                        let p = t.shl(a[0], x);
                        let q = t.lshr(a[1], y);
                        return Ok(t.or(p, q));
                    }
                };
                if key == "fshl" {
                    if s == 0 {
                        a[0]
                    } else {
                        let lo = t.extract(a[1], w - s, s);
                        let hi = t.extract(a[0], 0, w - s);
                        t.concat(&[lo, hi])
                    }
                } else if s == 0 {
                    a[1]
                } else {
                    let lo = t.extract(a[1], s, w - s);
                    let hi = t.extract(a[0], 0, s);
                    t.concat(&[lo, hi])
                }
            }
            "usub.sat" => {
                let c = t.ult(a[0], a[1]);
                let z = t.cst(w, 0);
                let d = t.sub(a[0], a[1]);
                t.ite(c, z, d)
            }
            "uadd.sat" => {
                let s = t.add(a[0], a[1]);
                let c = t.ult(s, a[0]);
                let m = t.cst(w, u128::MAX);
                t.ite(c, m, s)
            }
            _ => return Err(format!("intrinsic llvm.{}", key)),
        })
    }
    fn with_overflow(&mut self, k: &str, x: Id, y: Id) -> R<(Id, Id)> {
        let t = &mut self.tm;
        let w = t.w(x);
        if let (Some(a), Some(b)) = (t.as_const(x), t.as_const(y)) {
            let m = mask(w);
            let (r, o) = match k {
                "uadd" => {
                    let (s, c) = a.overflowing_add(b);
                    (s & m, c || s > m)
                }
                "usub" => (a.wrapping_sub(b) & m, a < b),
                "umul" => {
                    let (s, c) = a.overflowing_mul(b);
                    (s & m, c || s > m)
                }
                _ => {
                    let (p, q) = (sx(a, w), sx(b, w));
                    let (s, c) = match k {
                        "sadd" => p.overflowing_add(q),
                        "ssub" => p.overflowing_sub(q),
                        _ => p.overflowing_mul(q),
                    };
                    let r = s as u128 & m;
                    (r, c || sx(r, w) != s)
                }
            };
            return Ok((t.cst(w, r), t.cst(1, o as u128)));
        }
        Ok(match k {
            "uadd" => {
                let s = t.add(x, y);
                if let Some(h) = t.n(x).hi.checked_add(t.n(y).hi) {
                    if h <= mask(w) {
                        return Ok((s, t.fls()));
                    }
                }
                let c = t.ult(s, x);
                (s, c)
            }
            "usub" => {
                let s = t.sub(x, y);
                let c = t.ult(x, y);
                (s, c)
            }
            "umul" => {
                let s = t.mul(x, y);
                if let Some(h) = t.n(x).hi.checked_mul(t.n(y).hi) {
                    if h <= mask(w) {
                        return Ok((s, t.fls()));
                    }
                }
                if 2 * w > 128 {
                    return Err("wide symbolic multiplication overflow".into());
                }
                let xe = t.zext(x, 2 * w);
                let ye = t.zext(y, 2 * w);
                let p = t.mul(xe, ye);
                let h = t.extract(p, w, w);
                let z = t.cst(w, 0);
                let e = t.eq(h, z);
                (s, t.not(e))
            }
            _ => {
                if 2 * w > 128 {
                    return Err("wide signed overflow".into());
                }
                let xe = t.sext(x, 2 * w);
                let ye = t.sext(y, 2 * w);
                let (s, f) = match k {
                    "sadd" => (t.add(x, y), t.add(xe, ye)),
                    "ssub" => (t.sub(x, y), t.sub(xe, ye)),
                    _ => (t.mul(x, y), t.mul(xe, ye)),
                };
                let se = t.sext(s, 2 * w);
                let e = t.eq(se, f);
                (s, t.not(e))
            }
        })
    }
    fn vec_bytes(&mut self, ty: &Ty, v: &Val) -> R<Vec<Id>> {
        self.flatten(ty, v)
    }
    fn x86(&mut self, r: &str, args: &[(Ty, Val)]) -> R<Val> {
        let a = self.vec_bytes(&args[0].0, &args[0].1)?;
        let two = |s: &mut Exec, b: &[Id]| -> Val {
            let lo = s.join(&b[..8]);
            let hi = s.join(&b[8..]);
            Val::Agg(Rc::new(vec![Val::T(lo), Val::T(hi)]))
        };
        match r {
            "x86.aesni.aesenc" | "x86.aesni.aesenclast" | "x86.aesni.aesdec" | "x86.aesni.aesdeclast" => {
                let k = self.vec_bytes(&args[1].0, &args[1].1)?;
                let o = self.aes.round(&mut self.tm, &r["x86.aesni.".len()..], &a, &k);
                Ok(two(self, &o))
            }
            "x86.aesni.aesimc" => {
                let o = self.aes.imc(&mut self.tm, &a);
                Ok(two(self, &o))
            }
            "x86.aesni.aeskeygenassist" => {
                let rc = self.sc(&args[1].1)?;
                let rc = self.tm.as_const(rc).ok_or("rcon")? as u8;
                let o = self.aes.keygen(&mut self.tm, &a, rc);
                Ok(two(self, &o))
            }
            _ => Err(format!("intrinsic llvm.{}", r)),
        }
    }

    // ---------------------------------------------------------------- contract intrinsics
    fn str_arg(&mut self, st: &State, p: &Val, n: &Val) -> R<String> {
        let (p, n) = (self.sc(p)?, self.sc(n)?);
        let a = self.tm.as_const(p).ok_or("symbolic string")? as u64;
        let l = self.tm.as_const(n).ok_or("symbolic string")? as u64;
        if l == 0 {
            return Ok(String::new());
        }
        let b = self.load_bytes(st, a, l)?;
        Ok(b.iter().map(|&x| if x == UNINIT { '?' } else { self.tm.as_const(x).map(|c| c as u8 as char).unwrap_or('?') }).collect())
    }
    fn const_bytes(&mut self, st: &State, p: u64, n: u64) -> R<Vec<u8>> {
        let b = self.load_bytes(st, p, n)?;
        b.iter().map(|&x| if x == UNINIT { None } else { self.tm.as_const(x).map(|c| c as u8) }).collect::<Option<Vec<u8>>>().ok_or("symbolic constant".into())
    }
    fn intrinsic(&mut self, st: &mut State, dst: Option<u32>, r: &str, args: Vec<(Ty, Val)>, normal: Option<u32>) -> R<Step> {
        macro_rules! con {
            ($i:expr) => {{
                let t = self.sc(&args[$i].1)?;
                match self.tm.as_const(t) {
                    Some(k) => k as u64,
                    None => {
                        if let Some(c) = self.first_cond(t, 0) {
                            return self.refork(st, c);
                        }
                        match self.sym_addr_enum(st, t, 0)? {
                            SymAddr::Vals(v) => return self.fork_vals(st, t, &v),
                            _ => return Err(format!("symbolic argument of irv_{}", r)),
                        }
                    }
                }
            }};
        }
        let mut out = Val::None;
        match r {
            // sym(ptr, len, name, namelen)
            "sym" => {
                let (p, n) = (con!(0), con!(1));
                let nm = self.str_arg(st, &args[2].1, &args[3].1)?;
                let mut b = vec![];
                for i in 0..n {
                    let name = format!("{}[{}]", nm, i);
                    b.push(self.tm.var(&name, 8));
                }
                self.store_bytes(st, p, &b)?;
            }
            "assume" => {
                let c = self.sc(&args[0].1)?;
                self.stats.assumes += 1;
                match self.tm.as_const(c) {
                    Some(1) => {}
                    Some(_) => return Ok(Step::Dead),
                    None => {
                        let (a, _) = self.split_on(st, c)?;
                        match a {
                            Some(s) => *st = s,
                            None => return Ok(Step::Dead),
                        }
                    }
                }
            }
            // assert(cond, msg, len)
            "assert" => {
                let c = self.sc(&args[0].1)?;
                let msg = self.str_arg(st, &args[1].1, &args[2].1)?;
                self.stats.asserts += 1;
                let t0 = std::time::Instant::now();
                let res = self.sv.discharge(&mut self.tm, &st.pc, c, &st.wit);
                if self.trace {
                    eprintln!("assert {} : {:?} in {:.2}s", msg, res.tag(), t0.elapsed().as_secs_f64());
                }
                match res {
                    Verdict::Proved => {}
                    Verdict::Refuted(m) => self.fail("assert", &msg, Some(m), true, String::new()),
                    Verdict::Abstract(m, d) => self.fail("assert", &msg, Some(m), false, d),
                    Verdict::Unknown(d) => self.fail("undecided", &msg, None, false, d),
                }
                // continue under the asserted condition
                if self.tm.as_const(c) == Some(0) {
                    return Ok(Step::Dead);
                }
            }
            // below(x, bound, msg, len): x <= bound
            "below" => {
                let x = self.sc(&args[0].1)?;
                let k = con!(1);
                let msg = self.str_arg(st, &args[2].1, &args[3].1)?;
                self.stats.asserts += 1;
                let t0 = std::time::Instant::now();
                let c = self.tm.cst(64, k as u128);
                let c = self.tm.ult(c, x);
                let c = self.tm.not(c);
                let mut bad = None;
                for &w in &st.wit {
                    if self.sv.eval_wit(&self.tm, w, c) == 0 {
                        bad = Some(self.sv.witness_model(w));
                        break;
                    }
                }
                self.px.verbose = self.trace;
                self.sv.st.obligations += 1;
                if let Some(m) = bad {
                    let sure = !self.px.has_defs();
                    self.fail("assert", &msg, Some(m), sure, "".into());
                } else if self.tm.as_const(c) == Some(1) {
                    self.sv.st.by_syntax += 1;
                } else if self.px.below(&mut self.tm, &mut self.sv, x, k) {
                    self.sv.st.by_poly += 1;
                } else {
                    self.fail("undecided", &msg, None, false, format!("no bound {} by intervals and linear arithmetic", k));
                }
                if self.trace {
                    eprintln!("below {} in {:.2}s", msg, t0.elapsed().as_secs_f64());
                }
            }
            // limbs(ptr, n, shifts) -> ghost
            "g_limbs" => {
                let (p, n, s) = (con!(0), con!(1), con!(2));
                let mut l = vec![];
                for i in 0..n {
                    let b = self.load_bytes(st, p + 4 * i, 4)?;
                    let b: Vec<Id> = b.iter().map(|&x| if x == UNINIT { self.fresh("uninit", 8) } else { x }).collect();
                    let t = self.tm.concat(&b);
                    let sh = self.load_bytes(st, s + 4 * i, 4)?;
                    let sh = self.tm.concat(&sh);
                    let sh = self.tm.as_const(sh).ok_or("symbolic limb position")?;
                    l.push((t, sh as u32));
                }
                let h = self.px.ghost(crate::poly::G::Limbs(l));
                out = Val::T(self.tm.cst(64, h as u128));
            }
            "g_const" => {
                let (p, n) = (con!(0), con!(1));
                let b = self.const_bytes(st, p, n)?;
                let h = self.px.ghost(crate::poly::G::Const(b));
                out = Val::T(self.tm.cst(64, h as u128));
            }
            // op(0 add | 1 sub | 2 mul, a, b) -> ghost
            "g_op" => {
                let (o, a, b) = (con!(0), con!(1), con!(2));
                let h = self.px.ghost(crate::poly::G::Op(o, a as usize, b as usize));
                out = Val::T(self.tm.cst(64, h as u128));
            }
            // def(limbs, value): fresh limbs with a given residue
            "g_def" => {
                let (a, b) = (con!(0), con!(1));
                self.px.define(&mut self.tm, &mut self.sv, a as usize, b as usize)?;
            }
            // zero(ghost, modulus, len, msg, len): an obligation
            "g_zero" => {
                let (h, p, n) = (con!(0), con!(1), con!(2));
                let md = self.const_bytes(st, p, n)?;
                let msg = self.str_arg(st, &args[3].1, &args[4].1)?;
                self.stats.asserts += 1;
                self.sv.st.obligations += 1;
                self.px.verbose = self.trace;
                let t0 = std::time::Instant::now();
                let mut bad = None;
                if !self.px.has_defs() {
                    let m = crate::poly::Md::new(&md);
                    for &w in &st.wit {
                        let (sv, tm) = (&mut self.sv, &self.tm);
                        let v = self.px.eval_ghost(h as usize, &m, &mut |t| sv.eval_wit(tm, w, t));
                        if v.iter().any(|&x| x != 0) {
                            bad = Some(self.sv.witness_model(w));
                            break;
                        }
                    }
                }
                if let Some(m) = bad {
                    self.fail("assert", &msg, Some(m), true, "".into());
                } else {
                    match self.px.zero(&mut self.tm, &mut self.sv, h as usize, &md, &st.wit) {
                        Ok(()) => self.sv.st.by_poly += 1,
                        Err(e) => self.fail("undecided", &msg, None, false, e),
                    }
                }
                if self.trace {
                    eprintln!("zero {} in {:.2}s", msg, t0.elapsed().as_secs_f64());
                }
            }
            // limb(bits, name, namelen): a number of that many bits
            "limb" => {
                let n = con!(0) as u16;
                let nm = self.str_arg(st, &args[1].1, &args[2].1)?;
                let name = format!("{}[*{}]", nm, 4);
                let v = self.tm.var(&name, n);
                out = Val::T(self.tm.zext(v, 32));
            }
            // a number of that many bits that occurs nowhere else
            "fresh" => {
                let n = con!(0) as u16;
                let v = self.fresh("limb", n);
                out = Val::T(self.tm.zext(v, 32));
            }
            // fits(x, bound): provably x <= bound
            "fits" => {
                let x = self.sc(&args[0].1)?;
                let k = con!(1);
                let r = self.px.below(&mut self.tm, &mut self.sv, x, k);
                out = Val::T(self.tm.cst(64, r as u128));
            }
            // replace(name, len, by, len): calls of the function go to its contract
            "replace" => {
                let nm = self.str_arg(st, &args[0].1, &args[1].1)?;
                let by = self.str_arg(st, &args[2].1, &args[3].1)?;
                self.replaced.insert(nm, by);
            }
            // sym(limbs): fresh limbs as one unknown
            "g_sym" => {
                let a = con!(0);
                let t = self.fresh("residue", 64);
                let h = self.px.ghost(crate::poly::G::Limbs(vec![(t, 0)]));
                self.px.define(&mut self.tm, &mut self.sv, a as usize, h as usize)?;
            }
            // is_zero(ghost, modulus, len): provably a multiple of the modulus
            "g_is_zero" => {
                let (h, p, n) = (con!(0), con!(1), con!(2));
                let md = self.const_bytes(st, p, n)?;
                let r = self.px.zero(&mut self.tm, &mut self.sv, h as usize, &md, &[]).is_ok();
                out = Val::T(self.tm.cst(64, r as u128));
            }
            "plain" => self.tm.plain = true,
            "native" => {
                out = Val::T(self.tm.cst(64, 0));
            }
            // uf(fid, in, inlen, out, outlen)
            "uf" => {
                let fid = con!(0) as u32;
                let (ip, il, op, ol) = (con!(1), con!(2), con!(3), con!(4));
                let input = if il > 0 { self.load_bytes(st, ip, il)? } else { vec![] };
                let input: Vec<Id> = input.iter().map(|&x| if x == UNINIT { self.fresh("uninit", 8) } else { x }).collect();
                let mut o = vec![];
                let mut ch = 0u32;
                while (o.len() as u64) < ol {
                    let n = (ol - o.len() as u64).min(16);
                    let t = self.tm.uf(fid, ch, 128, &input);
                    let bs = self.split(t, 16);
                    o.extend_from_slice(&bs[..n as usize]);
                    ch += 1;
                }
                self.store_bytes(st, op, &o)?;
            }
            // perm(fid, dir, in, out, len): an arbitrary permutation and its inverse
            "perm" => {
                let fid = PERM_BASE + 2 * con!(0) as u32 + con!(1) as u32;
                let (ip, op, n) = (con!(2), con!(3), con!(4));
                self.tm.inv.insert(fid as u128, (fid ^ 1) as u128);
                let input = self.load_bytes(st, ip, n)?;
                let t = self.tm.uf(fid, 0, 8 * n as u16, &input);
                let bs = self.split(t, n);
                self.store_bytes(st, op, &bs)?;
            }
            "reach" => {
                let k = con!(0) as u32;
                // the path must be possible: witnesses or solver
                let mut ok = !st.wit.is_empty();
                if !ok {
                    let t = self.tm.tru();
                    ok = matches!(self.sv.check(&mut self.tm, &st.pc, t), Sat::Sat(_));
                }
                if ok {
                    *self.stats.reached.entry(k).or_insert(0) += 1;
                }
            }
            // is the value a constant on this path (used by ghost code)
            "is_const" => {
                let t = self.sc(&args[0].1)?;
                let k = self.tm.is_const(t) as u128;
                out = Val::T(self.tm.cst(1, k));
            }
            // concretise: fork over the feasible values
            "concrete" => {
                let k = con!(0);
                out = Val::T(self.tm.cst(64, k as u128));
            }
            // a fresh arbitrary u64
            "any" => {
                let t = self.fresh("any", 64);
                out = Val::T(t);
            }
            "log" => {
                let s = self.str_arg(st, &args[0].1, &args[1].1)?;
                if self.trace {
                    eprintln!("log: {}", s);
                }
                self.log.push(s);
            }
            "show" => {
                // show(ptr,len): debugging aid
                let (p, n) = (con!(0), con!(1));
                let b = self.load_bytes(st, p, n)?;
                let s: Vec<String> = b.iter().map(|&x| if x == UNINIT { "??".into() } else { self.tm.as_const(x).map(|k| format!("{:02x}", k)).unwrap_or_else(|| format!("<{}>", x)) }).collect();
                eprintln!("show {}", s.join(" "));
            }
            _ => return Err(format!("unknown intrinsic irv_{}", r)),
        }
        if let Some(d) = dst {
            self.set(st, d, out);
        }
        if let Some(n) = normal {
            self.jump(st, n)?;
        }
        Ok(Step::Go)
    }
}

enum LibRes {
    Val(Val),
    Split(Id),
    Vals(Id, Vec<u64>),
    Bad(String),
}
enum SymAddr {
    Split(Id),
    Oob(Id, Option<Model>),
    Vals(Vec<u64>),
    Idx(Id, Vec<Option<u64>>),
}

fn is_panic(n: &str) -> bool {
    n.contains("4core9panicking") || n.contains("slice_index_fail") || n.contains("unwrap_failed") || n.contains("expect_failed") || n.contains("handle_alloc_error") || n.contains("capacity_overflow") || n.contains("begin_panic") || n.contains("rust_panic") || n == "abort"
}

fn ins_val(a: &Val, x: &Val, idx: &[usize]) -> Result<Val, String> {
    if idx.is_empty() {
        return Ok(x.clone());
    }
    match a {
        Val::Agg(v) => {
            let mut w = (**v).clone();
            w[idx[0]] = ins_val(&w[idx[0]], x, &idx[1..])?;
            Ok(Val::Agg(Rc::new(w)))
        }
        _ => Err("insertvalue".into()),
    }
}

fn succs(b: &Block) -> Vec<u32> {
    match b.ins.last() {
        Some(Ins::Br(t)) => vec![*t],
        Some(Ins::CondBr { t, f, .. }) => vec![*t, *f],
        Some(Ins::Switch { def, cases, .. }) => {
            let mut v = vec![*def];
            v.extend(cases.iter().map(|c| c.1));
            v
        }
        Some(Ins::Call { normal: Some(n), .. }) => vec![*n],
        _ => vec![],
    }
}

/// immediate post-dominators, ignoring blocks that cannot reach a return
fn ipdoms(f: &Func) -> Vec<Option<u32>> {
    let n = f.blocks.len();
    let su: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    let mut pred = vec![vec![]; n];
    for (i, s) in su.iter().enumerate() {
        for &t in s {
            pred[t as usize].push(i);
        }
    }
    let exits: Vec<usize> = (0..n).filter(|&i| matches!(f.blocks[i].ins.last(), Some(Ins::Ret(_)))).collect();
    let mut live = vec![false; n];
    let mut st = exits.clone();
    while let Some(i) = st.pop() {
        if !live[i] {
            live[i] = true;
            st.extend(pred[i].iter().copied());
        }
    }
    // post-dominators by the iterative algorithm on the reverse graph; node n = virtual exit
    let mut order = vec![];
    let mut seen = vec![false; n];
    // reverse postorder of the reverse graph
    fn dfs(i: usize, pred: &Vec<Vec<usize>>, seen: &mut Vec<bool>, order: &mut Vec<usize>) {
        let mut st = vec![(i, 0usize)];
        seen[i] = true;
        while let Some((x, k)) = st.pop() {
            if k < pred[x].len() {
                st.push((x, k + 1));
                let p = pred[x][k];
                if !seen[p] {
                    seen[p] = true;
                    st.push((p, 0));
                }
            } else {
                order.push(x);
            }
        }
    }
    for &e in &exits {
        if !seen[e] {
            dfs(e, &pred, &mut seen, &mut order);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    num[n] = 0;
    for (k, &i) in order.iter().enumerate() {
        num[i] = k + 1;
    }
    let mut ip: Vec<Option<usize>> = vec![None; n + 1];
    ip[n] = Some(n);
    let inter = |ip: &Vec<Option<usize>>, mut a: usize, mut b: usize| {
        while a != b {
            while num[a] > num[b] {
                a = ip[a].unwrap();
            }
            while num[b] > num[a] {
                b = ip[b].unwrap();
            }
        }
        a
    };
    let mut ch = true;
    while ch {
        ch = false;
        for &i in &order {
            let mut cand: Option<usize> = None;
            let mut ss: Vec<usize> = su[i].iter().map(|&x| x as usize).filter(|&x| live[x]).collect();
            if matches!(f.blocks[i].ins.last(), Some(Ins::Ret(_))) {
                ss.push(n);
            }
            for s in ss {
                if ip[s].is_some() {
                    cand = Some(match cand {
                        None => s,
                        Some(c) => inter(&ip, c, s),
                    });
                }
            }
            if cand.is_some() && ip[i] != cand {
                ip[i] = cand;
                ch = true;
            }
        }
    }
    (0..n).map(|i| ip[i].and_then(|p| if p == n { None } else { Some(p as u32) })).collect()
}
fn regs_of(i: &Ins, f: &mut dyn FnMut(u32)) {
    let mut u = |o: &Opnd| {
        if let Opnd::Reg(r) = o {
            f(*r)
        }
    };
    match i {
        Ins::Load { ptr, .. } => u(ptr),
        Ins::Store { val, ptr, .. } => {
            u(val);
            u(ptr)
        }
        Ins::Gep { base, idx, .. } => {
            u(base);
            for x in idx {
                u(&x.0)
            }
        }
        Ins::Bin { a, b, .. } | Ins::ICmp { a, b, .. } => {
            u(a);
            u(b)
        }
        Ins::Cast { a, .. } | Ins::Freeze { a, .. } => u(a),
        Ins::Select { c, a, b, .. } => {
            u(c);
            u(a);
            u(b)
        }
        Ins::Call { callee, args, .. } => {
            if let Callee::Opnd(o) = callee {
                u(o)
            }
            for a in args {
                u(&a.1)
            }
        }
        Ins::ExtractValue { agg, .. } => u(agg),
        Ins::InsertValue { agg, val, .. } => {
            u(agg);
            u(val)
        }
        Ins::ExtractElement { v, i, .. } => {
            u(v);
            u(i)
        }
        Ins::InsertElement { v, e, i, .. } => {
            u(v);
            u(e);
            u(i)
        }
        Ins::Shuffle { a, b, mask, .. } => {
            u(a);
            u(b);
            u(mask)
        }
        Ins::AtomicRmw { ptr, val, .. } => {
            u(ptr);
            u(val)
        }
        Ins::CmpXchg { ptr, cmp, new, .. } => {
            u(ptr);
            u(cmp);
            u(new)
        }
        Ins::CondBr { c, .. } => u(c),
        Ins::Switch { v, .. } => u(v),
        Ins::Ret(Some((_, o))) => u(o),
        Ins::Alloca { .. } | Ins::Nop | Ins::Br(_) | Ins::Ret(None) | Ins::Unreachable | Ins::Unsupported(_) => {}
    }
}
fn def_of(i: &Ins) -> Option<u32> {
    match i {
        Ins::Alloca { dst, .. }
        | Ins::Load { dst, .. }
        | Ins::Gep { dst, .. }
        | Ins::Bin { dst, .. }
        | Ins::ICmp { dst, .. }
        | Ins::Cast { dst, .. }
        | Ins::Select { dst, .. }
        | Ins::ExtractValue { dst, .. }
        | Ins::InsertValue { dst, .. }
        | Ins::ExtractElement { dst, .. }
        | Ins::InsertElement { dst, .. }
        | Ins::Shuffle { dst, .. }
        | Ins::Freeze { dst, .. }
        | Ins::AtomicRmw { dst, .. }
        | Ins::CmpXchg { dst, .. } => Some(*dst),
        Ins::Call { dst, .. } => *dst,
        _ => None,
    }
}
fn live_from(f: &Func, live: &Vec<Vec<u64>>, b: usize, ip: usize) -> Vec<u64> {
    let mut l = vec![0u64; (f.nregs as usize + 63) / 64];
    let bl = &f.blocks[b];
    for s in succs(bl) {
        let sb = &f.blocks[s as usize];
        let mut t = live[s as usize].clone();
        for p in &sb.phis {
            t[p.0 as usize / 64] &= !(1 << (p.0 % 64));
        }
        for (x, y) in l.iter_mut().zip(t.iter()) {
            *x |= *y;
        }
        for p in &sb.phis {
            for (from, o) in &p.2 {
                if *from as usize == b {
                    if let Opnd::Reg(r) = o {
                        l[*r as usize / 64] |= 1 << (*r % 64);
                    }
                }
            }
        }
    }
    for i in bl.ins[ip..].iter().rev() {
        if let Some(d) = def_of(i) {
            l[d as usize / 64] &= !(1 << (d % 64));
        }
        regs_of(i, &mut |r| l[r as usize / 64] |= 1 << (r % 64));
    }
    l
}
/// registers live at the start of each block, after its phis
fn liveness(f: &Func) -> Vec<Vec<u64>> {
    let n = f.blocks.len();
    let mut live = vec![vec![0u64; (f.nregs as usize + 63) / 64]; n];
    let mut pred = vec![vec![]; n];
    for i in 0..n {
        for s in succs(&f.blocks[i]) {
            pred[s as usize].push(i);
        }
    }
    let mut todo: Vec<usize> = (0..n).collect();
    let mut queued = vec![true; n];
    while let Some(b) = todo.pop() {
        queued[b] = false;
        let l = live_from(f, &live, b, 0);
        if l != live[b] {
            live[b] = l;
            for &p in &pred[b] {
                if !queued[p] {
                    queued[p] = true;
                    todo.push(p);
                }
            }
        }
    }
    live
}
