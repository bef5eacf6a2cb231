//! Parser for the textual LLVM IR that rustc emits.
use crate::term::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

pub fn align_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => {
            let b = ((*w as u64) + 7) / 8;
            b.next_power_of_two().min(16)
        }
        Ty::Ptr => 8,
        Ty::Float(w) => *w as u64 / 8,
        Ty::Arr(_, e) => align_of(e),
        Ty::Vec(..) => size_of(t).next_power_of_two(),
        Ty::Struct(f, packed) => {
            if *packed {
                1
            } else {
                f.iter().map(align_of).max().unwrap_or(1)
            }
        }
        _ => 1,
    }
}
pub fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
/// store size
pub fn size_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => ((*w as u64) + 7) / 8,
        Ty::Ptr => 8,
        Ty::Float(w) => *w as u64 / 8,
        Ty::Arr(n, e) => n * alloc_size(e),
        Ty::Vec(n, e) => match &**e {
            Ty::Int(w) => (n * *w as u64 + 7) / 8,
            e => n * size_of(e),
        },
        Ty::Struct(f, packed) => {
            let mut o = 0;
            for x in f.iter() {
                if !packed {
                    o = up(o, align_of(x));
                }
                o += alloc_size(x);
            }
            if *packed {
                o
            } else {
                up(o, align_of(t))
            }
        }
        _ => 0,
    }
}
pub fn alloc_size(t: &Ty) -> u64 {
    up(size_of(t), align_of(t))
}
pub fn field_off(f: &[Ty], packed: bool, i: usize) -> u64 {
    let mut o = 0;
    for (j, x) in f.iter().enumerate() {
        if !packed {
            o = up(o, align_of(x));
        }
        if j == i {
            return o;
        }
        o += alloc_size(x);
    }
    o
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Null,
    Undef,
    Zero,
    Global(String),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, C)>),
    Splat(Box<(Ty, C)>),
    /// base + constant offset
    Gep(Box<C>, i64),
    Cast(Box<(Ty, C)>, Ty),
    Bin(String, Box<(Ty, C)>, Box<(Ty, C)>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    C(u32), // index into function constant pool
}

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { dst: u32, size: u64, align: u64 },
    Load { dst: u32, ty: Ty, ptr: Opnd },
    Store { ty: Ty, val: Opnd, ptr: Opnd },
    Gep { dst: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u16, i64)> },
    Bin { dst: u32, op: Bop, ty: Ty, a: Opnd, b: Opnd },
    ICmp { dst: u32, pred: Pred, ty: Ty, a: Opnd, b: Opnd },
    Cast { dst: u32, op: Cop, from: Ty, to: Ty, a: Opnd },
    Select { dst: u32, cty: Ty, ty: Ty, c: Opnd, a: Opnd, b: Opnd },
    Call { dst: Option<u32>, callee: Callee, args: Vec<(Ty, Opnd)>, ret: Ty, normal: Option<u32> },
    ExtractValue { dst: u32, agg: Opnd, idx: Vec<usize> },
    InsertValue { dst: u32, agg: Opnd, val: Opnd, idx: Vec<usize> },
    ExtractElement { dst: u32, v: Opnd, i: Opnd },
    InsertElement { dst: u32, v: Opnd, e: Opnd, i: Opnd },
    Shuffle { dst: u32, a: Opnd, b: Opnd, n: u64, mask: Opnd },
    Freeze { dst: u32, a: Opnd },
    AtomicRmw { dst: u32, op: String, ty: Ty, ptr: Opnd, val: Opnd },
    CmpXchg { dst: u32, ty: Ty, ptr: Opnd, cmp: Opnd, new: Opnd },
    Nop,
    Br(u32),
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { ty: Ty, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Unsupported(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, Lshr, Ashr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cop { Trunc, Zext, Sext, PtrToInt, IntToPtr, Bitcast }
#[derive(Clone, Debug)]
pub enum Callee { Sym(String), Opnd(Opnd) }

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, Vec<(u32, Opnd)>)>,
    pub ins: Vec<Ins>,
}
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub byval: Vec<Option<u64>>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub consts: Vec<(Ty, C)>,
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<C>,
    pub constant: bool,
    pub align: u64,
}
pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub fsrc: HashMap<String, (usize, usize)>, // line range of definition
    pub decls: HashMap<String, bool>,
    pub lines: Vec<&'static str>,
    pub pretty: HashMap<String, String>,
    pub alias: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String),
    L(String),
    G(String),
    S(Vec<u8>),
    P(char),
    M(String),
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                v.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 2;
                let mut d = vec![];
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            d.push(b'\\');
                            i += 2;
                        } else {
                            d.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                            i += 3;
                        }
                    } else {
                        d.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                v.push(Tok::S(d));
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                v.push(Tok::W(format!("\"{}", &s[st..i])));
                i += 1;
            }
            b'!' | b'#' => {
                let st = i;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                v.push(Tok::M(s[st..i].to_string()));
            }
            _ if idc(c) => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                v.push(Tok::W(s[st..i].to_string()));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

pub struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a HashMap<String, Ty>,
}
type R<T> = Result<T, String>;

impl<'a> P<'a> {
    pub fn new(s: &str, m: &'a HashMap<String, Ty>) -> P<'a> {
        P { t: lex(s), i: 0, m }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn peek_w(&self) -> &str {
        match self.t.get(self.i) {
            Some(Tok::W(w)) => w,
            _ => "",
        }
    }
    fn next(&mut self) -> Option<Tok> {
        let x = self.t.get(self.i).cloned();
        self.i += 1;
        x
    }
    fn p(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.p(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, &self.t[self.i.min(self.t.len())..(self.i + 4).min(self.t.len())]))
        }
    }
    fn w(&mut self, s: &str) -> bool {
        if self.peek_w() == s {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next() {
            Some(Tok::W(w)) => w.parse::<i128>().map_err(|_| format!("number {}", w)),
            t => Err(format!("number {:?}", t)),
        }
    }
    fn skip_parens(&mut self) {
        if self.p('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Some(Tok::P('(')) => d += 1,
                    Some(Tok::P(')')) => d -= 1,
                    None => break,
                    _ => {}
                }
            }
        }
    }
    fn is_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => {
                matches!(&w[..], "void" | "ptr" | "half" | "float" | "double" | "x86_fp80" | "fp128" | "metadata" | "label" | "token" | "bfloat")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('[')) | Some(Tok::P('<')) | Some(Tok::P('{')) => true,
            Some(Tok::L(_)) => false,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        match self.next() {
            Some(Tok::W(w)) => Ok(match &w[..] {
                "void" => Ty::Void,
                "ptr" => {
                    if self.w("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "half" | "bfloat" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "x86_fp80" | "fp128" => Ty::Float(128),
                "metadata" | "label" | "token" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                _ => return Err(format!("type {}", w)),
            }),
            Some(Tok::L(n)) => self.m.get(&n).cloned().ok_or(format!("named type {}", n)),
            Some(Tok::P('[')) => {
                let n = self.num()? as u64;
                if !self.w("x") {
                    return Err("array".into());
                }
                let e = self.ty()?;
                self.exp(']')?;
                Ok(Ty::Arr(n, Rc::new(e)))
            }
            Some(Tok::P('<')) => {
                if self.p('{') {
                    let f = self.fields()?;
                    self.exp('>')?;
                    return Ok(Ty::Struct(Rc::new(f), true));
                }
                let n = self.num()? as u64;
                if !self.w("x") {
                    return Err("vector".into());
                }
                let e = self.ty()?;
                self.exp('>')?;
                Ok(Ty::Vec(n, Rc::new(e)))
            }
            Some(Tok::P('{')) => {
                let f = self.fields()?;
                Ok(Ty::Struct(Rc::new(f), false))
            }
            t => Err(format!("type {:?}", t)),
        }
    }
    fn fields(&mut self) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.p('}') {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.p('}') {
                return Ok(v);
            }
            self.exp(',')?;
        }
    }
    fn attrs(&mut self) -> Option<u64> {
        // skip parameter / return attributes; returns the size of a byval type
        let mut byval = None;
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = w.clone();
                    if matches!(&w[..], "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "add" | "sub" | "xor" | "trunc" | "asm")
                        || w.starts_with(|c: char| c.is_ascii_digit() || c == '-')
                        || self.is_type()
                    {
                        return byval;
                    }
                    self.i += 1;
                    if w == "align" {
                        if self.peek() == Some(&Tok::P('(')) {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    } else if w == "byval" {
                        self.i += 1;
                        if let Ok(t) = self.ty() {
                            byval = Some(alloc_size(&t));
                        }
                        self.p(')');
                    } else if self.peek() == Some(&Tok::P('(')) {
                        self.skip_parens();
                    } else if self.p('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::M(_)) => {
                    self.i += 1;
                }
                _ => return byval,
            }
        }
    }
    pub fn cst(&mut self, ty: &Ty) -> R<C> {
        match self.next() {
            Some(Tok::W(w)) => match &w[..] {
                "true" => Ok(C::Int(1)),
                "false" => Ok(C::Int(0)),
                "null" | "none" => Ok(C::Null),
                "undef" | "poison" => Ok(C::Undef),
                "zeroinitializer" => Ok(C::Zero),
                "splat" => {
                    self.exp('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.exp(')')?;
                    Ok(C::Splat(Box::new((t, c))))
                }
                "getelementptr" => {
                    while matches!(self.peek_w(), "inbounds" | "nuw" | "nusw" | "inrange") {
                        self.i += 1;
                        if self.t.get(self.i - 1) == Some(&Tok::W("inrange".into())) {
                            self.skip_parens();
                        }
                    }
                    self.exp('(')?;
                    let et = self.ty()?;
                    self.exp(',')?;
                    let bt = self.ty()?;
                    let base = self.cst(&bt)?;
                    let mut off = 0i64;
                    let mut cur = et;
                    let mut first = true;
                    while self.p(',') {
                        self.w("inrange");
                        let t = self.ty()?;
                        let i = match self.cst(&t)? {
                            C::Int(k) => sign(k, &t),
                            C::Zero => 0,
                            _ => return Err("gep constant index".into()),
                        };
                        if first {
                            off += i * alloc_size(&cur) as i64;
                            first = false;
                        } else {
                            let (o, t) = step(&cur, i)?;
                            off += o;
                            cur = t;
                        }
                    }
                    self.exp(')')?;
                    Ok(C::Gep(Box::new(base), off))
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" => {
                    self.exp('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    if !self.w("to") {
                        return Err("cast".into());
                    }
                    let to = self.ty()?;
                    self.exp(')')?;
                    Ok(C::Cast(Box::new((t, c)), to))
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                    while matches!(self.peek_w(), "nuw" | "nsw" | "exact" | "disjoint") {
                        self.i += 1;
                    }
                    self.exp('(')?;
                    let t = self.ty()?;
                    let a = self.cst(&t)?;
                    self.exp(',')?;
                    let t2 = self.ty()?;
                    let b = self.cst(&t2)?;
                    self.exp(')')?;
                    Ok(C::Bin(w, Box::new((t, a)), Box::new((t2, b))))
                }
                _ => {
                    if let Ty::Float(_) = ty {
                        return Ok(C::Undef);
                    }
                    if let Ok(k) = w.parse::<i128>() {
                        return Ok(C::Int(k as u128));
                    }
                    if let Ok(k) = w.parse::<u128>() {
                        return Ok(C::Int(k));
                    }
                    Err(format!("constant {}", w))
                }
            },
            Some(Tok::G(g)) => Ok(C::Global(g)),
            Some(Tok::S(s)) => Ok(C::Bytes(s)),
            Some(Tok::P('[')) => self.agg(']'),
            Some(Tok::P('{')) => self.agg('}'),
            Some(Tok::P('<')) => {
                if self.p('{') {
                    let c = self.agg('}')?;
                    self.exp('>')?;
                    Ok(c)
                } else {
                    self.agg('>')
                }
            }
            t => Err(format!("constant {:?}", t)),
        }
    }
    fn agg(&mut self, end: char) -> R<C> {
        let mut v = vec![];
        if self.p(end) {
            return Ok(C::Agg(v));
        }
        loop {
            let t = self.ty()?;
            let c = self.cst(&t)?;
            v.push((t, c));
            if self.p(end) {
                return Ok(C::Agg(v));
            }
            self.exp(',')?;
        }
    }
}
fn sign(k: u128, t: &Ty) -> i64 {
    match t {
        Ty::Int(w) if *w < 64 => {
            let s = 64 - *w as u32;
            ((k as i64) << s) >> s
        }
        _ => k as i64,
    }
}
fn step(cur: &Ty, i: i64) -> R<(i64, Ty)> {
    match cur {
        Ty::Struct(f, p) => Ok((field_off(f, *p, i as usize) as i64, f[i as usize].clone())),
        Ty::Arr(_, e) | Ty::Vec(_, e) => Ok((i * alloc_size(e) as i64, (**e).clone())),
        _ => Err("gep step".into()),
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).map_err(|e| e.to_string())?.into_boxed_str());
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            types: HashMap::default(),
            globals: vec![],
            gidx: HashMap::default(),
            fsrc: HashMap::default(),
            decls: HashMap::default(),
            lines,
            pretty: HashMap::default(),
            alias: HashMap::default(),
        };
        // named types first (they may refer to each other)
        for _ in 0..4 {
            for l in &m.lines {
                if l.starts_with('%') && l.contains(" = type ") {
                    let (n, r) = l.split_once(" = type ").unwrap();
                    let n = n[1..].trim_matches('"').to_string();
                    let mut p = P::new(r, &m.types);
                    if let Ok(t) = p.ty() {
                        m.types.insert(n, t);
                    }
                }
            }
        }
        let mut i = 0;
        while i < m.lines.len() {
            let l = m.lines[i];
            if l.starts_with('@') {
                m.global(l)?;
            } else if l.starts_with("define") {
                let st = i;
                while m.lines[i] != "}" {
                    i += 1;
                }
                let name = sym_of(l).ok_or("define name")?;
                m.fsrc.insert(name, (st, i));
            } else if l.starts_with("declare") {
                let name = sym_of(l).ok_or("declare name")?;
                m.decls.insert(name, true);
            }
            i += 1;
        }
        for i in 1..m.lines.len() {
            let c = m.lines[i - 1];
            if let Some(r) = c.strip_prefix("; call ").or(c.strip_prefix("; invoke ")) {
                if let Some(s) = sym_of(m.lines[i]) {
                    m.pretty.entry(s).or_insert(r.to_string());
                }
            }
        }
        Ok(m)
    }
    fn global(&mut self, l: &str) -> R<()> {
        let mut p = P::new(l, &self.types);
        let name = match p.next() {
            Some(Tok::G(g)) => g,
            _ => return Err(format!("global {}", &l[..l.len().min(80)])),
        };
        p.exp('=')?;
        let mut ext = false;
        let constant;
        loop {
            match p.next() {
                Some(Tok::W(w)) => match &w[..] {
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "global" => {
                        constant = false;
                        break;
                    }
                    "external" | "extern_weak" => ext = true,
                    "alias" => {
                        let _ = p.ty()?;
                        p.p(',');
                        let t = p.ty()?;
                        if let C::Global(g) = p.cst(&t)? {
                            self.alias.insert(name, g);
                        }
                        return Ok(());
                    }
                    _ => {
                        if p.peek() == Some(&Tok::P('(')) {
                            p.skip_parens();
                        }
                    }
                },
                _ => return Err(format!("global {}", &l[..l.len().min(80)])),
            }
        }
        let ty = p.ty()?;
        let init = if ext { None } else { Some(p.cst(&ty).map_err(|e| format!("{} in {}", e, &l[..l.len().min(200)]))?) };
        let mut align = 1;
        while p.p(',') {
            if p.w("align") {
                align = p.num()? as u64;
            } else {
                break;
            }
        }
        self.gidx.insert(name.clone(), self.globals.len());
        self.globals.push(Global { name, ty, init, constant, align });
        Ok(())
    }

    pub fn func(&self, name: &str) -> R<Func> {
        let &(st, en) = self.fsrc.get(name).ok_or(format!("no function {}", name))?;
        FuncParser::new(self).parse(st, en).map_err(|e| format!("in {}: {}", name, e))
    }
}

pub fn sym_of(l: &str) -> Option<String> {
    let i = l.find('@')?;
    let r = &l[i + 1..];
    if let Some(q) = r.strip_prefix('"') {
        return Some(q[..q.find('"')?].to_string());
    }
    let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(r.len());
    Some(r[..e].to_string())
}

struct FuncParser<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    blks: HashMap<String, u32>,
    consts: Vec<(Ty, C)>,
}
impl<'a> FuncParser<'a> {
    fn new(m: &'a Module) -> Self {
        FuncParser { m, regs: HashMap::default(), blks: HashMap::default(), consts: vec![] }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> R<u32> {
        self.blks.get(n).copied().ok_or(format!("label {}", n))
    }
    fn label(&mut self, p: &mut P) -> R<u32> {
        if !p.w("label") {
            return Err(format!("label expected {:?}", p.peek()));
        }
        match p.next() {
            Some(Tok::L(n)) => self.blk(&n),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn opnd(&mut self, p: &mut P, ty: &Ty) -> R<Opnd> {
        if let Some(Tok::L(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            return Ok(Opnd::Reg(self.reg(&n)));
        }
        let c = p.cst(ty)?;
        self.consts.push((ty.clone(), c));
        Ok(Opnd::C(self.consts.len() as u32 - 1))
    }
    fn topnd(&mut self, p: &mut P) -> R<(Ty, Opnd)> {
        let t = p.ty()?;
        let o = self.opnd(p, &t)?;
        Ok((t, o))
    }
    fn parse(mut self, st: usize, en: usize) -> R<Func> {
        let head = self.m.lines[st];
        let mut p = P::new(head, &self.m.types);
        p.i += 1; // define
        // linkage, cc, return attributes
        let ret;
        loop {
            if p.is_type() {
                ret = p.ty()?;
                break;
            }
            match p.peek() {
                Some(Tok::L(_)) => {
                    ret = p.ty()?;
                    break;
                }
                Some(Tok::W(_)) => {
                    let w = p.peek_w().to_string();
                    p.i += 1;
                    if w == "align" || w == "cc" {
                        p.i += 1;
                    } else if p.peek() == Some(&Tok::P('(')) {
                        p.skip_parens();
                    }
                }
                _ => return Err("define header".into()),
            }
        }
        let name = match p.next() {
            Some(Tok::G(g)) => g,
            t => return Err(format!("name {:?}", t)),
        };
        p.exp('(')?;
        let mut params = vec![];
        let mut byval = vec![];
        let mut unnamed = 0;
        if !p.p(')') {
            loop {
                if p.p('.') {
                    // varargs
                    while !p.p(')') {
                        p.i += 1;
                    }
                    break;
                }
                if p.peek_w() == "..." {
                    p.i += 1;
                    p.exp(')')?;
                    break;
                }
                let t = p.ty()?;
                let bv = p.attrs();
                let n = match p.peek() {
                    Some(Tok::L(n)) => {
                        let n = n.clone();
                        p.i += 1;
                        n
                    }
                    _ => format!("{}", unnamed),
                };
                if n.parse::<u32>().is_ok() {
                    unnamed += 1;
                }
                let r = self.reg(&n);
                params.push((t, r));
                byval.push(bv);
                if p.p(')') {
                    break;
                }
                p.exp(',')?;
            }
        }
        // split blocks
        let mut raw: Vec<(String, Vec<String>)> = vec![];
        let mut i = st + 1;
        let mut cur: Option<(String, Vec<String>)> = None;
        while i < en {
            let l = self.m.lines[i];
            i += 1;
            if l.is_empty() || l.trim_start().starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if let Some(q) = l.strip_prefix('"') { q[..q.find('"').unwrap()].to_string() } else { l[..l.find(':').ok_or("label line")?].to_string() };
                if let Some(c) = cur.take() {
                    raw.push(c);
                }
                cur = Some((lab, vec![]));
                continue;
            }
            if l.trim_start().starts_with("#dbg_") {
                continue;
            }
            let mut s = l.trim().to_string();
            if s.starts_with("switch ") && !s.contains(']') {
                while !s.contains(']') {
                    s.push(' ');
                    s.push_str(self.m.lines[i].trim());
                    i += 1;
                }
            }
            while i < en {
                let nx = self.m.lines[i].trim();
                if (nx.starts_with("to label ") && s.contains("invoke ")) || ((nx.starts_with("cleanup") || nx.starts_with("catch ") || nx.starts_with("filter ")) && s.contains("landingpad")) {
                    s.push(' ');
                    s.push_str(nx);
                    i += 1;
                } else {
                    break;
                }
            }
            if cur.is_none() {
                cur = Some((format!("{}", unnamed), vec![]));
            }
            cur.as_mut().unwrap().1.push(s);
        }
        if let Some(c) = cur.take() {
            raw.push(c);
        }
        for (k, (n, _)) in raw.iter().enumerate() {
            self.blks.insert(n.clone(), k as u32);
        }
        let mut blocks = vec![];
        for (n, ls) in &raw {
            let mut b = Block { name: n.clone(), phis: vec![], ins: vec![] };
            for l in ls {
                match self.ins(l, &mut b) {
                    Ok(()) => {}
                    Err(e) => b.ins.push(Ins::Unsupported(format!("{} [{}]", l.chars().take(160).collect::<String>(), e))),
                }
            }
            blocks.push(b);
        }
        Ok(Func { name, ret, params, byval, nregs: self.regs.len() as u32, blocks, consts: self.consts })
    }

    fn ins(&mut self, l: &str, b: &mut Block) -> R<()> {
        let types = &self.m.types;
        let mut p = P::new(l, types);
        let mut dst = None;
        if let Some(Tok::L(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            p.exp('=')?;
            dst = Some(self.reg(&n));
        }
        let op = match p.next() {
            Some(Tok::W(w)) => w,
            t => return Err(format!("opcode {:?}", t)),
        };
        let d = dst.unwrap_or(0);
        let bop = |s: &str| {
            Some(match s {
                "add" => Bop::Add,
                "sub" => Bop::Sub,
                "mul" => Bop::Mul,
                "udiv" => Bop::UDiv,
                "urem" => Bop::URem,
                "sdiv" => Bop::SDiv,
                "srem" => Bop::SRem,
                "and" => Bop::And,
                "or" => Bop::Or,
                "xor" => Bop::Xor,
                "shl" => Bop::Shl,
                "lshr" => Bop::Lshr,
                "ashr" => Bop::Ashr,
                _ => return None,
            })
        };
        if let Some(bo) = bop(&op) {
            while matches!(p.peek_w(), "nuw" | "nsw" | "exact" | "disjoint") {
                p.i += 1;
            }
            let (ty, a) = self.topnd(&mut p)?;
            p.exp(',')?;
            let bb = self.opnd(&mut p, &ty)?;
            b.ins.push(Ins::Bin { dst: d, op: bo, ty, a, b: bb });
            return Ok(());
        }
        match &op[..] {
            "alloca" => {
                p.w("inalloca");
                let ty = p.ty()?;
                let mut n = 1u64;
                let mut align = align_of(&ty);
                while p.p(',') {
                    if p.w("align") {
                        align = p.num()? as u64;
                    } else if p.is_type() {
                        let t = p.ty()?;
                        match p.cst(&t)? {
                            C::Int(k) => n = k as u64,
                            _ => return Err("alloca count".into()),
                        }
                    } else {
                        break;
                    }
                }
                b.ins.push(Ins::Alloca { dst: d, size: n * alloc_size(&ty), align });
            }
            "load" => {
                while matches!(p.peek_w(), "atomic" | "volatile") {
                    p.i += 1;
                }
                let ty = p.ty()?;
                p.exp(',')?;
                let (_, ptr) = self.topnd(&mut p)?;
                b.ins.push(Ins::Load { dst: d, ty, ptr });
            }
            "store" => {
                while matches!(p.peek_w(), "atomic" | "volatile") {
                    p.i += 1;
                }
                let (ty, val) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (_, ptr) = self.topnd(&mut p)?;
                b.ins.push(Ins::Store { ty, val, ptr });
            }
            "getelementptr" => {
                while matches!(p.peek_w(), "inbounds" | "nuw" | "nusw") {
                    p.i += 1;
                }
                let et = p.ty()?;
                p.exp(',')?;
                let (bt, base) = self.topnd(&mut p)?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while p.p(',') {
                    if !p.is_type() {
                        break;
                    }
                    let t = p.ty()?;
                    let w = match t {
                        Ty::Int(w) => w,
                        _ => return Err("gep index type".into()),
                    };
                    let o = self.opnd(&mut p, &t)?;
                    let k = match &o {
                        Opnd::C(i) => match &self.consts[*i as usize].1 {
                            C::Int(k) => Some(sign(*k, &t)),
                            C::Zero => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    let sz = if first { alloc_size(&cur) as i64 } else { 0 };
                    if first {
                        match k {
                            Some(k) => off += k * sz,
                            None => idx.push((o, w, sz)),
                        }
                        first = false;
                    } else {
                        match k {
                            Some(k) => {
                                let (o, t) = step(&cur, k)?;
                                off += o;
                                cur = t;
                            }
                            None => {
                                let (o1, t) = step(&cur, 1)?;
                                if let Ty::Struct(..) = cur {
                                    return Err("gep struct index".into());
                                }
                                idx.push((o, w, o1));
                                cur = t;
                            }
                        }
                    }
                }
                b.ins.push(Ins::Gep { dst: d, base, off, idx });
            }
            "icmp" => {
                p.w("samesign");
                let pr = match p.next() {
                    Some(Tok::W(w)) => w,
                    _ => return Err("pred".into()),
                };
                let pred = match &pr[..] {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err("pred".into()),
                };
                let (ty, a) = self.topnd(&mut p)?;
                p.exp(',')?;
                let bb = self.opnd(&mut p, &ty)?;
                b.ins.push(Ins::ICmp { dst: d, pred, ty, a, b: bb });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => {
                while matches!(p.peek_w(), "nuw" | "nsw" | "nneg") {
                    p.i += 1;
                }
                let (from, a) = self.topnd(&mut p)?;
                if !p.w("to") {
                    return Err("cast to".into());
                }
                let to = p.ty()?;
                let op = match &op[..] {
                    "trunc" => Cop::Trunc,
                    "zext" => Cop::Zext,
                    "sext" => Cop::Sext,
                    "ptrtoint" | "ptrtoaddr" => Cop::PtrToInt,
                    "inttoptr" => Cop::IntToPtr,
                    _ => Cop::Bitcast,
                };
                b.ins.push(Ins::Cast { dst: d, op, from, to, a });
            }
            "select" => {
                let (cty, c) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (ty, a) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (_, bb) = self.topnd(&mut p)?;
                b.ins.push(Ins::Select { dst: d, cty, ty, c, a, b: bb });
            }
            "phi" => {
                let ty = p.ty()?;
                let mut v = vec![];
                loop {
                    p.exp('[')?;
                    let o = self.opnd(&mut p, &ty)?;
                    p.exp(',')?;
                    let n = match p.next() {
                        Some(Tok::L(n)) => n,
                        _ => return Err("phi".into()),
                    };
                    let k = self.blk(&n)?;
                    v.push((k, o));
                    p.exp(']')?;
                    if !(p.peek() == Some(&Tok::P(',')) && p.t.get(p.i + 1) == Some(&Tok::P('['))) {
                        break;
                    }
                    p.i += 1;
                }
                b.phis.push((d, ty, v));
            }
            "br" => {
                if p.peek_w() == "label" {
                    let t = self.label(&mut p)?;
                    b.ins.push(Ins::Br(t));
                } else {
                    let (_, c) = self.topnd(&mut p)?;
                    p.exp(',')?;
                    let t = self.label(&mut p)?;
                    p.exp(',')?;
                    let f = self.label(&mut p)?;
                    b.ins.push(Ins::CondBr { c, t, f });
                }
            }
            "switch" => {
                let (ty, v) = self.topnd(&mut p)?;
                p.exp(',')?;
                let def = self.label(&mut p)?;
                p.exp('[')?;
                let mut cases = vec![];
                while !p.p(']') {
                    let t = p.ty()?;
                    let k = match p.cst(&t)? {
                        C::Int(k) => k,
                        C::Zero => 0,
                        _ => return Err("case".into()),
                    };
                    p.exp(',')?;
                    let l = self.label(&mut p)?;
                    let k = match t {
                        Ty::Int(w) => k & crate::term::mask(w),
                        _ => k,
                    };
                    cases.push((k, l));
                }
                b.ins.push(Ins::Switch { ty, v, def, cases });
            }
            "ret" => {
                if p.w("void") {
                    b.ins.push(Ins::Ret(None));
                } else {
                    let x = self.topnd(&mut p)?;
                    b.ins.push(Ins::Ret(Some(x)));
                }
            }
            "unreachable" => b.ins.push(Ins::Unreachable),
            "fence" => b.ins.push(Ins::Nop),
            "freeze" => {
                let (_, a) = self.topnd(&mut p)?;
                b.ins.push(Ins::Freeze { dst: d, a });
            }
            "extractvalue" => {
                let (_, agg) = self.topnd(&mut p)?;
                let mut idx = vec![];
                while p.p(',') {
                    if let Some(Tok::M(_)) = p.peek() {
                        break;
                    }
                    idx.push(p.num()? as usize);
                }
                b.ins.push(Ins::ExtractValue { dst: d, agg, idx });
            }
            "insertvalue" => {
                let (_, agg) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (_, val) = self.topnd(&mut p)?;
                let mut idx = vec![];
                while p.p(',') {
                    if let Some(Tok::M(_)) = p.peek() {
                        break;
                    }
                    idx.push(p.num()? as usize);
                }
                b.ins.push(Ins::InsertValue { dst: d, agg, val, idx });
            }
            "extractelement" => {
                let (_, v) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (_, i) = self.topnd(&mut p)?;
                b.ins.push(Ins::ExtractElement { dst: d, v, i });
            }
            "insertelement" => {
                let (_, v) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (_, e) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (_, i) = self.topnd(&mut p)?;
                b.ins.push(Ins::InsertElement { dst: d, v, e, i });
            }
            "shufflevector" => {
                let (t, a) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (_, bb) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (_, mask) = self.topnd(&mut p)?;
                let n = match t {
                    Ty::Vec(n, _) => n,
                    _ => return Err("shuffle".into()),
                };
                b.ins.push(Ins::Shuffle { dst: d, a, b: bb, n, mask });
            }
            "atomicrmw" => {
                p.w("volatile");
                let o = match p.next() {
                    Some(Tok::W(w)) => w,
                    _ => return Err("rmw".into()),
                };
                let (_, ptr) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (ty, val) = self.topnd(&mut p)?;
                b.ins.push(Ins::AtomicRmw { dst: d, op: o, ty, ptr, val });
            }
            "cmpxchg" => {
                while matches!(p.peek_w(), "weak" | "volatile") {
                    p.i += 1;
                }
                let (_, ptr) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (ty, cmp) = self.topnd(&mut p)?;
                p.exp(',')?;
                let (_, new) = self.topnd(&mut p)?;
                b.ins.push(Ins::CmpXchg { dst: d, ty, ptr, cmp, new });
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" {
                    p.i += 1;
                }
                // fast-math flags, cc, return attributes
                let ret;
                loop {
                    if p.is_type() {
                        ret = p.ty()?;
                        break;
                    }
                    match p.peek() {
                        Some(Tok::W(_)) => {
                            let w = p.peek_w().to_string();
                            p.i += 1;
                            if w == "align" || w == "cc" {
                                p.i += 1;
                            } else if p.peek() == Some(&Tok::P('(')) {
                                p.skip_parens();
                            }
                        }
                        Some(Tok::L(_)) => {
                            ret = p.ty()?;
                            break;
                        }
                        _ => return Err("call".into()),
                    }
                }
                // optional function type for varargs
                if p.peek() == Some(&Tok::P('(')) {
                    p.skip_parens();
                }
                let callee = match p.next() {
                    Some(Tok::G(g)) => Callee::Sym(g),
                    Some(Tok::L(n)) => Callee::Opnd(Opnd::Reg(self.reg(&n))),
                    Some(Tok::W(w)) if w == "asm" => {
                        return Err("inline asm".into());
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                p.exp('(')?;
                let mut args = vec![];
                if !p.p(')') {
                    loop {
                        if p.peek_w() == "metadata" {
                            // skip metadata operands
                            p.i += 1;
                            while !matches!(p.peek(), Some(Tok::P(',')) | Some(Tok::P(')')) | None) {
                                p.i += 1;
                            }
                        } else {
                            let t = p.ty()?;
                            p.attrs();
                            let o = self.opnd(&mut p, &t)?;
                            args.push((t, o));
                        }
                        if p.p(')') {
                            break;
                        }
                        p.exp(',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while p.peek().is_some() && p.peek_w() != "to" {
                        p.i += 1;
                    }
                    p.i += 1;
                    normal = Some(self.label(&mut p)?);
                }
                b.ins.push(Ins::Call { dst, callee, args, ret, normal });
            }
            _ => return Err("opcode".into()),
        }
        Ok(())
    }
}
