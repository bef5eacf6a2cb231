//! Discharging obligations: simulation, word-level equivalence sweeping, SMT.
use crate::term::*;
use crate::term::{HashMap, HashSet};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Model {
    pub vals: Rc<HashMap<u32, u128>>,
    /// how variables without a value are read: 0 zero, 1 all ones, n pseudo-random
    pub mode: u64,
    /// values of abstracted functions: function, chunk, argument, value
    pub ufs: Rc<Vec<(u32, u32, Vec<u8>, u128)>>,
}
pub enum Sat {
    Unsat,
    Sat(Model),
    Unknown,
}
pub enum Verdict {
    Proved,
    Refuted(Model),
    Abstract(Model, String),
    Unknown(String),
}
impl Verdict {
    pub fn tag(&self) -> &'static str {
        match self {
            Verdict::Proved => "proved",
            Verdict::Refuted(_) => "refuted",
            Verdict::Abstract(..) => "not proved (abstract counterexample)",
            Verdict::Unknown(_) => "undecided",
        }
    }
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

#[derive(Default)]
pub struct SStats {
    pub smt_calls: u64,
    pub smt_time: f64,
    pub smt_unsat: u64,
    pub smt_sat: u64,
    pub smt_unknown: u64,
    pub by_syntax: u64,
    pub by_sweep: u64,
    pub by_smt: u64,
    pub by_exhaustive: u64,
    pub obligations: u64,
    pub sweep_merges: u64,
    pub merges_affine: u64,
    pub merges_norm: u64,
    pub merges_exh: u64,
    pub merges_smt: u64,
    pub by_poly: u64,
    pub sweep_time: f64,
    pub max_cone: usize,
}

pub struct Solver {
    cmd: Vec<String>,
    proc_: Option<Proc>,
    wits: Vec<(Model, HashMap<Id, u128>)>,
    vars_memo: HashMap<Id, Rc<Vec<u32>>>,
    want_ufs: bool,
    logic: &'static str,
    cache: HashMap<(Vec<Id>, Id), bool>,
    pub st: SStats,
    pub check_ms: u64,
    pub final_ms: u64,
    pub seed: u64,
    /// sums known under another form, by their first term
    parts: HashMap<Id, Vec<Id>>,
    fbasis: HashMap<Id, Basis>,
    vleaf: u32,
    aff: HashMap<Id, Rc<Vec<Lin>>>,
    aff_size: usize,
    proved_eq: HashSet<(Id, Id)>,
    failed_eq: HashMap<(Id, Id), u8>,
    /// 0: only what the solver settles at once, 1: with patience
    tier: u8,
    pub deadline: Instant,
    rep: HashMap<Id, Id>,
    pub verbose: bool,
}

impl Solver {
    pub fn new(cmd: Vec<String>, seed: u64) -> Solver {
        let mut wits = vec![];
        for mode in [0u64, 1] {
            wits.push((Model { vals: Rc::new(HashMap::default()), mode, ufs: Default::default() }, HashMap::default()));
        }
        for k in 0..4 {
            wits.push((Model { vals: Rc::new(HashMap::default()), mode: 100 + seed * 1000 + k, ufs: Default::default() }, HashMap::default()));
        }
        Solver {
            cmd,
            proc_: None,
            wits,
            vars_memo: HashMap::default(),
            want_ufs: false,
            logic: "QF_BV",
            cache: HashMap::default(),
            st: SStats::default(),
            check_ms: 20000,
            final_ms: 120000,
            seed,
            parts: HashMap::default(),
            fbasis: HashMap::default(),
            vleaf: u32::MAX,
            aff: HashMap::default(),
            aff_size: 0,
            proved_eq: HashSet::default(),
            failed_eq: HashMap::default(),
            tier: 1,
            deadline: Instant::now() + Duration::from_secs(3600),
            rep: HashMap::default(),
            verbose: false,
        }
    }
    pub fn initial_witnesses(&self) -> Vec<u32> {
        (0..self.wits.len() as u32).collect()
    }
    pub fn add_witness(&mut self, m: Model) -> u32 {
        self.wits.push((m, HashMap::default()));
        self.wits.len() as u32 - 1
    }
    pub fn witness_model(&self, w: u32) -> Model {
        self.wits[w as usize].0.clone()
    }
    pub fn var_in(&self, m: &Model, v: u32) -> u128 {
        if let Some(&x) = m.vals.get(&v) {
            return x;
        }
        match m.mode {
            0 => 0,
            1 => u128::MAX,
            // mostly ones: carries run far
            s if s >> 40 == 1 => {
                let h = mix(s ^ ((v as u64) << 22));
                let few = (h >> 8 & 3) as u128;
                match (s & 255, h & 15) {
                    // one variable in sixteen is not all ones, and by chance a second
                    (k, r) if k < 48 => match v as u64 & 15 == k & 15 {
                        true => u128::MAX - if k < 16 { h as u128 } else { 1 + few },
                        false => u128::MAX - if k >= 32 && r == 0 { 1 + few } else { 0 },
                    },
                    (_, 0) => h as u128,
                    (_, 1) => u128::MAX - few,
                    _ => u128::MAX,
                }
            }
            s => ((mix(s ^ ((v as u64) << 20)) as u128) << 64) | mix(s.wrapping_mul(31) ^ ((v as u64) << 21) ^ 7) as u128,
        }
    }
    pub fn eval_wit(&mut self, tm: &Tm, w: u32, t: Id) -> u128 {
        let m = self.wits[w as usize].0.clone();
        let mut memo = std::mem::take(&mut self.wits[w as usize].1);
        let r = self.eval_memo(tm, &m, t, &mut memo);
        self.wits[w as usize].1 = memo;
        r
    }
    fn eval_memo(&self, tm: &Tm, m: &Model, t: Id, memo: &mut HashMap<Id, u128>) -> u128 {
        if let Some(&v) = memo.get(&t) {
            return v;
        }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let mut ready = true;
            for &a in tm.n(x).args.iter() {
                if !memo.contains_key(&a) {
                    st.push(a);
                    ready = false;
                }
            }
            if ready {
                let v = tm.eval1(x, &|j| memo[&j], &|k| self.var_in(m, k) & mask(tm.vars[k as usize].1));
                memo.insert(x, v);
                st.pop();
            }
        }
        memo[&t]
    }
    pub fn eval_in(&self, tm: &Tm, m: &Model, t: Id) -> u128 {
        let mut memo = HashMap::default();
        self.eval_memo(tm, m, t, &mut memo)
    }
    pub fn model_ok(&self, tm: &Tm, m: &Model, pc: &[Id]) -> bool {
        let mut memo = HashMap::default();
        pc.iter().all(|&p| self.eval_memo(tm, m, p, &mut memo) == 1)
    }

    // ------------------------------------------------------------ SMT process
    fn start(&mut self) -> Result<(), String> {
        let mut c = Command::new(&self.cmd[0]).args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{}: {}", self.cmd[0], e))?;
        let stdin = c.stdin.take().unwrap();
        let out = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(out);
            loop {
                let mut s = String::new();
                match r.read_line(&mut s) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {
                        if tx.send(s).is_err() {
                            break;
                        }
                    }
                }
            }
        });
        self.proc_ = Some(Proc { child: c, stdin, rx });
        Ok(())
    }
    fn kill(&mut self) {
        if let Some(mut p) = self.proc_.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    /// run a script ending in check-sat; when sat, ask for the listed symbols
    fn smt(&mut self, script: &str, want: &[String], ms: u64) -> Option<Option<Vec<u128>>> {
        self.st.smt_calls += 1;
        let t0 = Instant::now();
        let r = self.smt_in(script, want, ms);
        self.st.smt_time += t0.elapsed().as_secs_f64();
        match &r {
            None => self.st.smt_unknown += 1,
            Some(None) => self.st.smt_unsat += 1,
            Some(Some(_)) => self.st.smt_sat += 1,
        }
        r
    }
    /// is the script over integers satisfiable
    pub fn lia(&mut self, script: &str, ms: u64) -> Option<bool> {
        self.logic = "QF_LIA";
        let r = self.smt(script, &[], ms);
        self.logic = "QF_BV";
        r.map(|x| x.is_some())
    }
    fn smt_in(&mut self, script: &str, want: &[String], ms: u64) -> Option<Option<Vec<u128>>> {
        if self.proc_.is_none() && self.start().is_err() {
            return None;
        }
        let p = self.proc_.as_mut().unwrap();
        let mut full = String::with_capacity(script.len() + 200);
        full.push_str("(reset)\n(set-option :print-success false)\n");
        full.push_str(&format!("(set-option :timeout {})\n(set-option :produce-models true)\n(set-logic {})\n", ms, self.logic));
        full.push_str(script);
        full.push_str("(check-sat)\n(echo \"@done\")\n");
        if p.stdin.write_all(full.as_bytes()).is_err() || p.stdin.flush().is_err() {
            self.kill();
            return None;
        }
        let deadline = Instant::now() + Duration::from_millis(ms + 3000);
        let mut ans = String::new();
        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            match self.proc_.as_ref().unwrap().rx.recv_timeout(left) {
                Ok(s) => {
                    if s.contains("@done") {
                        break;
                    }
                    ans.push_str(&s);
                }
                Err(_) => {
                    self.kill();
                    return None;
                }
            }
        }
        let a = ans.trim();
        if a.contains("error") {
            eprintln!("smt error: {}", &a[..a.len().min(400)]);
            return None;
        }
        if a.ends_with("unsat") {
            return Some(None);
        }
        if !a.ends_with("sat") {
            return None;
        }
        if want.is_empty() {
            return Some(Some(vec![]));
        }
        let p = self.proc_.as_mut().unwrap();
        let q = format!("(get-value ({}))\n(echo \"@done\")\n", want.join(" "));
        if p.stdin.write_all(q.as_bytes()).is_err() || p.stdin.flush().is_err() {
            self.kill();
            return None;
        }
        let mut txt = String::new();
        let deadline = Instant::now() + Duration::from_millis(60000);
        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            match self.proc_.as_ref().unwrap().rx.recv_timeout(left) {
                Ok(s) => {
                    if s.contains("@done") {
                        break;
                    }
                    txt.push_str(&s);
                }
                Err(_) => {
                    self.kill();
                    return None;
                }
            }
        }
        let mut map = HashMap::default();
        let toks: Vec<&str> = txt.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
        let mut i = 0;
        while i + 1 < toks.len() {
            let v = toks[i + 1];
            let k = if let Some(h) = v.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()
            } else if let Some(b) = v.strip_prefix("#b") {
                u128::from_str_radix(b, 2).ok()
            } else {
                None
            };
            if let Some(k) = k {
                map.insert(toks[i], k);
            }
            i += 2;
        }
        Some(Some(want.iter().map(|w| *map.get(&w[..]).unwrap_or(&0)).collect()))
    }

    /// SMT text of a set of nodes; nodes in `cut` and variables / function applications are free
    fn smt_text(&mut self, tm: &Tm, nodes: &[Id], cut: &dyn Fn(Id) -> bool, free: &mut Vec<Id>) -> String {
        let mut s = String::new();
        let mut tabs = HashSet::default();
        for &i in nodes {
            let n = tm.n(i);
            if n.op == Op::Table && !cut(i) && tabs.insert(n.k) {
                let t = &tm.tables[n.k as usize];
                let iw = tm.w(n.args[0]);
                s.push_str(&format!("(define-fun tb{}w{} ((x (_ BitVec {}))) (_ BitVec {}) ", n.k, iw, iw, t.w));
                fn go(s: &mut String, d: &[u128], bit: i32, w: u16) {
                    if bit < 0 || d.iter().all(|x| *x == d[0]) {
                        bv(s, d.first().copied().unwrap_or(0), w);
                        return;
                    }
                    let h = 1usize << bit;
                    let (lo, hi) = if d.len() > h { (&d[..h], &d[h..]) } else { (d, &d[..0]) };
                    if hi.is_empty() {
                        go(s, lo, bit - 1, w);
                        return;
                    }
                    s.push_str(&format!("(ite (= ((_ extract {} {}) x) #b1) ", bit, bit));
                    go(s, hi, bit - 1, w);
                    s.push(' ');
                    go(s, lo, bit - 1, w);
                    s.push(')');
                }
                go(&mut s, &t.data, iw as i32 - 1, t.w);
                s.push_str(")\n");
            }
        }
        for &i in nodes {
            let n = tm.n(i);
            if n.op == Op::Const {
                continue;
            }
            if n.op == Op::Var || n.op == Op::Uf || cut(i) {
                s.push_str(&format!("(declare-const n{} (_ BitVec {}))\n", i, n.w));
                free.push(i);
                if n.hi < mask(n.w) {
                    s.push_str(&format!("(assert (bvule n{} ", i));
                    bv(&mut s, n.hi, n.w);
                    s.push_str("))\n");
                }
                let kz = n.kz & mask(n.w);
                if kz != 0 {
                    s.push_str(&format!("(assert (= (bvand n{} ", i));
                    bv(&mut s, kz, n.w);
                    s.push_str(") ");
                    bv(&mut s, 0, n.w);
                    s.push_str("))\n");
                }
                continue;
            }
            s.push_str(&format!("(define-fun n{} () (_ BitVec {}) ", i, n.w));
            let r = |x: Id| -> String {
                let m = tm.n(x);
                if m.op == Op::Const {
                    let mut t = String::new();
                    bv(&mut t, m.k, m.w);
                    t
                } else {
                    format!("n{}", x)
                }
            };
            let nary = |s: &mut String, o: &str, a: &[Id]| {
                s.push('(');
                s.push_str(o);
                for &x in a {
                    s.push(' ');
                    s.push_str(&r(x));
                }
                s.push(')');
            };
            match n.op {
                Op::Not => nary(&mut s, "bvnot", &n.args),
                Op::And => nary(&mut s, "bvand", &n.args),
                Op::Or => nary(&mut s, "bvor", &n.args),
                Op::Xor => nary(&mut s, "bvxor", &n.args),
                Op::Sum => {
                    s.push_str("(bvadd ");
                    bv(&mut s, n.k, n.w);
                    for p in n.args.chunks(2) {
                        let c = tm.n(p[1]).k;
                        if c == 1 {
                            s.push_str(&format!(" {}", r(p[0])));
                        } else if c == mask(n.w) {
                            s.push_str(&format!(" (bvneg {})", r(p[0])));
                        } else {
                            s.push_str(" (bvmul ");
                            bv(&mut s, c, n.w);
                            s.push_str(&format!(" {})", r(p[0])));
                        }
                    }
                    s.push(')');
                }
                Op::Mul => nary(&mut s, "bvmul", &n.args),
                Op::UDiv => nary(&mut s, "bvudiv", &n.args),
                Op::URem => nary(&mut s, "bvurem", &n.args),
                Op::SDiv => nary(&mut s, "bvsdiv", &n.args),
                Op::SRem => nary(&mut s, "bvsrem", &n.args),
                Op::Shl => nary(&mut s, "bvshl", &n.args),
                Op::Lshr => nary(&mut s, "bvlshr", &n.args),
                Op::Ashr => nary(&mut s, "bvashr", &n.args),
                Op::Concat => {
                    let mut a = n.args.to_vec();
                    a.reverse();
                    nary(&mut s, "concat", &a)
                }
                Op::Extract => s.push_str(&format!("((_ extract {} {}) {})", n.k + n.w as u128 - 1, n.k, r(n.args[0]))),
                Op::SExt => s.push_str(&format!("((_ sign_extend {}) {})", n.w - tm.w(n.args[0]), r(n.args[0]))),
                Op::Ite => s.push_str(&format!("(ite (= {} #b1) {} {})", r(n.args[0]), r(n.args[1]), r(n.args[2]))),
                Op::Eq => s.push_str(&format!("(ite (= {} {}) #b1 #b0)", r(n.args[0]), r(n.args[1]))),
                Op::Ult => s.push_str(&format!("(ite (bvult {} {}) #b1 #b0)", r(n.args[0]), r(n.args[1]))),
                Op::Slt => s.push_str(&format!("(ite (bvslt {} {}) #b1 #b0)", r(n.args[0]), r(n.args[1]))),
                Op::Table => s.push_str(&format!("(tb{}w{} {})", n.k, tm.w(n.args[0]), r(n.args[0]))),
                Op::Const | Op::Var | Op::Uf => unreachable!(),
            }
            s.push_str(")\n");
        }
        s
    }

    /// satisfiability of pc and c
    pub fn check(&mut self, tm: &mut Tm, pc: &[Id], c: Id) -> Sat {
        self.check_ms_(tm, pc, c, self.check_ms)
    }
    /// the same, given inputs that satisfy pc: only the conjuncts connected with c matter
    pub fn check_from(&mut self, tm: &mut Tm, pc: &[Id], c: Id, wit: &[u32]) -> Sat {
        let w = match wit.first() {
            Some(&w) => w,
            None => return self.check(tm, pc, c),
        };
        let part = self.slice(tm, pc, c);
        match self.check_ms_(tm, &part, c, self.check_ms) {
            Sat::Sat(m) if part.len() < pc.len() => {
                let base = self.wits[w as usize].0.clone();
                let mut vals = (*base.vals).clone();
                for (k, v) in m.vals.iter() {
                    vals.insert(*k, *v);
                }
                Sat::Sat(Model { vals: Rc::new(vals), mode: base.mode, ufs: m.ufs.clone() })
            }
            r => r,
        }
    }
    fn vars_of(&mut self, tm: &Tm, c: Id) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&c) {
            return v.clone();
        }
        let mut v: Vec<u32> = tm.cone(&[c]).into_iter().filter(|&i| tm.op(i) == Op::Var).map(|i| tm.n(i).k as u32).collect();
        v.sort_unstable();
        v.dedup();
        let v = Rc::new(v);
        self.vars_memo.insert(c, v.clone());
        v
    }
    /// conjuncts of pc that share variables with c, directly or through others
    fn slice(&mut self, tm: &Tm, pc: &[Id], c: Id) -> Vec<Id> {
        let mut vars: HashSet<u32> = self.vars_of(tm, c).iter().copied().collect();
        let sets: Vec<Rc<Vec<u32>>> = pc.iter().map(|&p| self.vars_of(tm, p)).collect();
        let mut take = vec![false; pc.len()];
        loop {
            let mut more = false;
            for i in 0..pc.len() {
                if !take[i] && sets[i].iter().any(|v| vars.contains(v)) {
                    take[i] = true;
                    more = true;
                    vars.extend(sets[i].iter().copied());
                }
            }
            if !more {
                break;
            }
        }
        (0..pc.len()).filter(|&i| take[i]).map(|i| pc[i]).collect()
    }
    fn check_ms_(&mut self, tm: &mut Tm, pc: &[Id], c: Id, ms: u64) -> Sat {
        if tm.as_const(c) == Some(0) {
            return Sat::Unsat;
        }
        let mut roots = pc.to_vec();
        if tm.as_const(c) != Some(1) {
            roots.push(c);
        }
        // independent conjuncts that share no variables with c could be dropped, but the
        // path condition itself must stay satisfiable, so keep everything when models are needed
        let key = (pc.to_vec(), c);
        if let Some(true) = self.cache.get(&key) {
            return Sat::Unsat;
        }
        let cone = tm.cone(&roots);
        if cone.len() < 200 && !cone.iter().any(|&i| tm.op(i) == Op::Uf) {
            // few input bits: try all of them
            let vs: Vec<Id> = cone.iter().copied().filter(|&i| tm.op(i) == Op::Var).collect();
            let bits: u32 = vs.iter().map(|&i| tm.w(i) as u32).sum();
            if bits <= 10 {
                for x in 0..1u128 << bits {
                    let mut m = HashMap::default();
                    let mut at = 0;
                    for &i in &vs {
                        m.insert(tm.n(i).k as u32, (x >> at) & mask(tm.w(i)));
                        at += tm.w(i) as u32;
                    }
                    let m = Model { vals: Rc::new(m), mode: 0, ufs: Default::default() };
                    if self.model_ok(tm, &m, &roots) {
                        return Sat::Sat(m);
                    }
                }
                self.cache.insert(key, true);
                return Sat::Unsat;
            }
        }
        let mut free = vec![];
        let mut txt = self.smt_text(tm, &cone, &|_| false, &mut free);
        for &r in &roots {
            if let Some(k) = tm.as_const(r) {
                if k == 0 {
                    return Sat::Unsat;
                }
                continue;
            }
            txt.push_str(&format!("(assert (= n{} #b1))\n", r));
        }
        let vars: Vec<Id> = free.iter().copied().filter(|&i| tm.op(i) == Op::Var).collect();
        let mut want: Vec<String> = vars.iter().map(|i| format!("n{}", i)).collect();
        // functions with their arguments, for a counterexample that can be run
        let mut fns: Vec<(Id, usize)> = vec![];
        if self.want_ufs {
            for &u in free.iter().filter(|&&i| tm.op(i) == Op::Uf) {
                fns.push((u, want.len()));
                want.push(format!("n{}", u));
                for &a in tm.n(u).args.iter() {
                    if !tm.is_const(a) {
                        want.push(format!("n{}", a));
                    }
                }
            }
        }
        let t0 = Instant::now();
        let mut res = self.smt(&txt, &want, ms);
        if self.verbose && t0.elapsed().as_millis() >= 20 {
            eprintln!("slow query ({:.1} s, {} terms): {}", t0.elapsed().as_secs_f64(), cone.len(), self.show(tm, c, 5));
        }
        if let Some(Some(_)) = res {
            // the answer may rest on different values of a function for equal arguments
            let ufs: Vec<Id> = free.iter().copied().filter(|&i| tm.op(i) == Op::Uf).collect();
            let mut extra = String::new();
            let mut pairs = 0;
            for (a, &x) in ufs.iter().enumerate() {
                for &y in &ufs[..a] {
                    let (p, q) = (tm.n(x), tm.n(y));
                    if p.k != q.k || p.w != q.w || p.args.len() != q.args.len() || pairs > 400 {
                        continue;
                    }
                    let mut eqs = String::new();
                    let mut never = false;
                    for (&u, &v) in p.args.iter().zip(q.args.iter()) {
                        if u == v {
                            continue;
                        }
                        if tm.is_const(u) && tm.is_const(v) {
                            never = true;
                            break;
                        }
                        let r = |x: Id| {
                            let mut t = String::new();
                            match tm.as_const(x) {
                                Some(k) => bv(&mut t, k, tm.w(x)),
                                None => t = format!("n{}", x),
                            }
                            t
                        };
                        eqs.push_str(&format!(" (= {} {})", r(u), r(v)));
                    }
                    if !never {
                        pairs += 1;
                        extra.push_str(&format!("(assert (=> (and true{}) (= n{} n{})))\n", eqs, x, y));
                    }
                }
            }
            if pairs > 0 {
                txt.push_str(&extra);
                res = self.smt(&txt, &want, ms);
            }
        }
        match res {
            None => Sat::Unknown,
            Some(None) => {
                self.cache.insert(key, true);
                Sat::Unsat
            }
            Some(Some(v)) => {
                let mut ufs = vec![];
                for &(u, at) in &fns {
                    let n = tm.n(u);
                    let mut b = vec![];
                    let mut j = at + 1;
                    for &a in n.args.iter() {
                        let x = match tm.as_const(a) {
                            Some(k) => k,
                            None => {
                                j += 1;
                                v[j - 1]
                            }
                        };
                        for i in 0..tm.w(a) / 8 {
                            b.push((x >> (8 * i)) as u8);
                        }
                    }
                    ufs.push(((n.k >> 16) as u32, (n.k & 0xffff) as u32, b, v[at]));
                }
                let mut m = HashMap::default();
                for (i, x) in vars.iter().zip(v) {
                    m.insert(tm.n(*i).k as u32, x);
                }
                Sat::Sat(Model { vals: Rc::new(m), mode: 0, ufs: Rc::new(ufs) })
            }
        }
    }

    // ------------------------------------------------------------ discharge
    pub fn discharge(&mut self, tm: &mut Tm, pc: &[Id], c: Id, wit: &[u32]) -> Verdict {
        self.st.obligations += 1;
        if tm.as_const(c) == Some(1) {
            self.st.by_syntax += 1;
            return Verdict::Proved;
        }
        // concrete evaluation on the inputs known to follow this path
        for &w in wit {
            if self.eval_wit(tm, w, c) == 0 {
                return Verdict::Refuted(self.witness_model(w));
            }
        }
        // and on a few more that satisfy the path condition
        for k in 0..10u64 {
            let m = Model { vals: Rc::new(HashMap::default()), mode: 5000 + self.seed * 77 + k, ufs: Default::default() };
            let mut memo = HashMap::default();
            if pc.iter().all(|&p| self.eval_memo(tm, &m, p, &mut memo) == 1) && self.eval_memo(tm, &m, c, &mut memo) == 0 {
                return Verdict::Refuted(m);
            }
            if pc.is_empty() && k >= 3 {
                break;
            }
        }
        let mut roots = pc.to_vec();
        roots.push(c);
        let cone = tm.cone(&roots);
        self.st.max_cone = self.st.max_cone.max(cone.len());
        // small conditions go straight to the solver
        if cone.len() < 60 {
            let nc = tm.not(c);
            match self.check_ms_(tm, pc, nc, 2000) {
                Sat::Unsat => {
                    self.st.by_smt += 1;
                    return Verdict::Proved;
                }
                Sat::Sat(m) => {
                    let mut all = pc.to_vec();
                    all.push(nc);
                    if self.model_ok(tm, &m, &all) {
                        return Verdict::Refuted(m);
                    }
                }
                Sat::Unknown => {}
            }
        }
        let (mut npc, mut nc) = (pc.to_vec(), c);
        for tier in 0..2 {
            self.tier = tier;
            let mut roots = npc.clone();
            roots.push(nc);
            let t0 = Instant::now();
            if tier == 0 && sides(tm, nc).is_empty() {
                if self.verbose {
                    eprintln!("no sides: {}", self.show(tm, nc, 5));
                }
                continue;
            }
            let map = self.sweep(tm, &roots);
            self.tier = 1;
            self.st.sweep_time += t0.elapsed().as_secs_f64();
            npc = npc.iter().map(|p| map[p]).collect();
            nc = map[&nc];
            if tm.as_const(nc) == Some(1) || npc.iter().any(|&p| tm.as_const(p) == Some(0)) {
                self.st.by_sweep += 1;
                return Verdict::Proved;
            }
        }
        if Instant::now() > self.deadline {
            return Verdict::Unknown("verifier time limit".into());
        }
        // remaining conjuncts by SMT
        let mut cs = vec![];
        conj(tm, nc, &mut cs);
        let npc: Vec<Id> = npc.into_iter().filter(|&p| tm.as_const(p) != Some(1)).collect();
        let mut seen_sat = None;
        for x in cs {
            if tm.as_const(x) == Some(1) || npc.contains(&x) {
                continue;
            }
            let nx = tm.not(x);
            let part = self.slice(tm, &npc, nx);
            if part.len() < npc.len() {
                if let Sat::Unsat = self.check_ms_(tm, &part, nx, self.final_ms) {
                    continue;
                }
            }
            match self.check_ms_(tm, &npc, nx, self.final_ms) {
                Sat::Unsat => {}
                Sat::Sat(m) => {
                    let mut all = pc.to_vec();
                    let n = tm.not(c);
                    all.push(n);
                    if self.model_ok(tm, &m, &all) {
                        return Verdict::Refuted(m);
                    }
                    if self.verbose {
                        eprintln!("abstract cex for {}", self.show(tm, x, 6));
                    }
                    seen_sat = Some(m);
                }
                Sat::Unknown => {
                    if self.verbose {
                        eprintln!("undecided: {}", self.show(tm, x, 6));
                    }
                    return Verdict::Unknown(format!("solver limit reached on a condition of {} terms (pc {})", tm.cone(&[x]).len(), npc.len()));
                }
            }
        }
        match seen_sat {
            Some(mut m) => {
                let nc = tm.not(c);
                self.want_ufs = true;
                if let Sat::Sat(x) = self.check_ms_(tm, pc, nc, self.final_ms) {
                    m = x;
                }
                self.want_ufs = false;
                Verdict::Abstract(m, "the counterexample depends on an abstracted function".into())
            }
            None => {
                self.st.by_smt += 1;
                Verdict::Proved
            }
        }
    }

    pub fn show(&self, tm: &Tm, i: Id, d: usize) -> String {
        show(tm, i, d)
    }

    /// map every node of the cone to an equal representative
    pub fn sweep(&mut self, tm: &mut Tm, roots: &[Id]) -> HashMap<Id, Id> {
        let cone = tm.cone(roots);
        let models_wanted = if cone.len() < 5000 { 116 } else { 52 };
        // simulate
        let mut pos: HashMap<Id, usize> = HashMap::with_capacity_and_hasher(cone.len(), Default::default());
        for (i, &x) in cone.iter().enumerate() {
            pos.insert(x, i);
        }
        let mut models: Vec<Model> = vec![];
        for k in 0..models_wanted as u64 {
            let mode = match k {
                0 => 0,
                1 => 1,
                _ if k >= 52 => (1 << 40) + (self.seed << 8) % (1 << 40) + k - 52,
                _ => 900 + k + self.seed * 101,
            };
            models.push(Model { vals: Rc::new(HashMap::default()), mode, ufs: Default::default() });
        }
        // recent witnesses make conditions less one-sided
        for (m, _) in self.wits.iter().rev().take(8) {
            if !m.vals.is_empty() {
                models.push(m.clone());
            }
        }
        let mut sig: Vec<u64> = vec![0; cone.len()];
        let mut first: Vec<u128> = vec![0; cone.len()];
        let mut cst: Vec<bool> = vec![true; cone.len()];
        let mut vals: Vec<u128> = vec![0; cone.len()];
        for (mi, m) in models.iter().enumerate() {
            for (i, &x) in cone.iter().enumerate() {
                let v = tm.eval1(x, &|j| vals[pos[&j]], &|k| self.var_in(m, k) & mask(tm.vars[k as usize].1));
                vals[i] = v;
                sig[i] = mix(sig[i] ^ mix(v as u64 ^ (v >> 64) as u64).wrapping_add(mi as u64));
                if mi == 0 {
                    first[i] = v;
                } else if v != first[i] {
                    cst[i] = false;
                }
            }
        }
        drop(vals);
        let mut map: HashMap<Id, Id> = HashMap::with_capacity_and_hasher(cone.len(), Default::default());
        // which equations of the condition a term stands left and right of
        let mut side: Vec<(u128, u128)> = vec![(0, 0); cone.len()];
        if self.tier == 0 {
            for (k, (a, b)) in sides(tm, *roots.last().unwrap()).into_iter().enumerate() {
                for x in a {
                    side[pos[&x]].0 |= 1 << (k % 128);
                }
                for x in b {
                    side[pos[&x]].1 |= 1 << (k % 128);
                }
            }
            for i in (0..cone.len()).rev() {
                let m = side[i];
                if m != (0, 0) {
                    for a in tm.n(cone[i]).args.iter() {
                        let q = &mut side[pos[a]];
                        *q = (q.0 | m.0, q.1 | m.1);
                    }
                }
            }
        }
        let mut class: HashMap<(u64, u16), Vec<(Id, u128, u128)>> = HashMap::default();
        let mut known: HashSet<Id> = HashSet::default();
        let t0 = Instant::now();
        let mut lastlog = Instant::now();
        for (i, &x) in cone.iter().enumerate() {
            if self.verbose && lastlog.elapsed().as_secs() >= 5 {
                lastlog = Instant::now();
                eprintln!("sweep {}/{} {:.0}s merges {} smt {} ({:.1}s) at {}", i, cone.len(), t0.elapsed().as_secs_f64(), self.st.sweep_merges, self.st.smt_calls, self.st.smt_time, self.show(tm, x, 2));
            }
            let n = tm.n(x);
            if n.op == Op::Const || n.op == Op::Var {
                map.insert(x, x);
                if n.op == Op::Var {
                    class.entry((sig[i], n.w)).or_default().push((x, side[i].0, side[i].1));
                    known.insert(x);
                }
                continue;
            }
            let args: Vec<Id> = n.args.iter().map(|a| map[a]).collect();
            let w = n.w;
            let mut r = tm.rebuild(x, &args);
            while let Some(&q) = self.rep.get(&r) {
                r = q;
            }
            if tm.op(r) == Op::Sum {
                r = self.sum_by_parts(tm, r);
                while let Some(&q) = self.rep.get(&r) {
                    r = q;
                }
            }
            if tm.is_const(r) || known.contains(&r) {
                map.insert(x, r);
                continue;
            }
            // constant?
            if cst[i] && self.tier > 0 {
                let k = tm.cst(w, first[i]);
                if self.prove_eq(tm, r, k, w == 1) {
                    self.st.sweep_merges += 1;
                    self.rep.insert(r, k);
                    map.insert(x, k);
                    continue;
                }
            }
            let mut done = false;
            let (l, g) = side[i];
            if !(cst[i] && w == 1) && (self.tier > 0 || l != g) {
                let mut cands: Vec<Id> = vec![];
                if let Some(v) = class.get(&(sig[i], w)) {
                    if self.tier > 0 {
                        cands.extend(v.iter().take(3).map(|c| c.0));
                    } else {
                        // terms of the other side, the same operation first
                        let o: Vec<Id> = v.iter().filter(|c| l & c.2 | g & c.1 != 0).map(|c| c.0).collect();
                        cands.extend(o.iter().copied().filter(|&q| tm.op(q) == tm.op(r)).take(2));
                        cands.extend(o.iter().copied().filter(|&q| tm.op(q) != tm.op(r)).take(2));
                    }
                }
                for q in cands {
                    if self.prove_eq(tm, r, q, w == 1) {
                        self.st.sweep_merges += 1;
                        if self.verbose && self.st.sweep_merges < 40 {
                            eprintln!("merge {} == {}", self.show(tm, r, 3), self.show(tm, q, 3));
                        }
                        // keep the structurally earlier one
                        self.rep.insert(r, q);
                        if tm.op(r) == Op::Sum && tm.op(q) != Op::Sum {
                            self.parts.entry(tm.n(r).args[0]).or_default().push(r);
                        }
                        map.insert(x, q);
                        done = true;
                        break;
                    }
                }
            }
            if !done {
                class.entry((sig[i], w)).or_default().push((r, l, g));
                known.insert(r);
                map.insert(x, r);
            }
        }
        map
    }

    /// a sum some of whose terms add up to a term known under another form
    fn sum_by_parts(&mut self, tm: &mut Tm, x: Id) -> Id {
        let n = tm.n(x).clone();
        for c in n.args.chunks(2) {
            let v = match self.parts.get(&c[0]) {
                Some(v) => v,
                None => continue,
            };
            for &s in v.iter().rev() {
                let m = tm.n(s);
                if s == x || m.w != n.w || m.args.len() > n.args.len() {
                    continue;
                }
                let part: Vec<(Id, Id)> = m.args.chunks(2).map(|p| (p[0], p[1])).collect();
                if !part.iter().all(|p| n.args.chunks(2).any(|q| (q[0], q[1]) == *p)) {
                    continue;
                }
                let mut ts = vec![(1, self.rep[&s])];
                for q in n.args.chunks(2) {
                    if !part.contains(&(q[0], q[1])) {
                        ts.push((tm.n(q[1]).k, q[0]));
                    }
                }
                let k = n.k.wrapping_sub(m.k) & mask(n.w);
                let r = tm.sum(n.w, &ts, k);
                return if tm.op(r) == Op::Sum && terms(tm, r) < terms(tm, x) { self.sum_by_parts(tm, r) } else { r };
            }
        }
        x
    }

    fn prove_eq(&mut self, tm: &mut Tm, a: Id, b: Id, cheap: bool) -> bool {
        if a == b {
            return true;
        }
        let key = (a.min(b), a.max(b));
        if self.proved_eq.contains(&key) {
            return true;
        }
        if self.failed_eq.get(&key).map_or(false, |&t| t >= self.tier) || Instant::now() > self.deadline {
            return false;
        }
        let r = self.prove_eq_in(tm, a, b, cheap);
        if r {
            self.proved_eq.insert(key);
        } else {
            self.failed_eq.insert(key, self.tier);
        }
        r
    }
    fn prove_eq_in(&mut self, tm: &mut Tm, a: Id, b: Id, cheap: bool) -> bool {
        let e = tm.eq(a, b);
        if tm.as_const(e) == Some(1) {
            self.st.merges_norm += 1;
            return true;
        }
        if tm.as_const(e) == Some(0) {
            return false;
        }
        // sums: cancel what both have in common
        if tm.op(a) == Op::Sum || tm.op(b) == Op::Sum {
            let w = tm.w(a);
            let d = tm.sub(a, b);
            if let Some(k) = tm.as_const(d) {
                if k == 0 {
                    self.st.merges_norm += 1;
                }
                return k == 0;
            }
            {
                let mut all: BTreeMap<Id, u128> = BTreeMap::new();
                let mut k0 = 0u128;
                for (t, s) in [(a, 1u128), (b, u128::MAX)] {
                    let n = tm.n(t);
                    if n.op == Op::Sum {
                        k0 = k0.wrapping_add(n.k.wrapping_mul(s)) & mask(w);
                        for c in n.args.chunks(2) {
                            let e = all.entry(c[0]).or_insert(0);
                            *e = e.wrapping_add(tm.n(c[1]).k.wrapping_mul(s)) & mask(w);
                        }
                    } else {
                        let e = all.entry(t).or_insert(0);
                        *e = e.wrapping_add(s) & mask(w);
                    }
                }
                let (mut p, mut q) = (vec![], vec![]);
                for (t, k) in all {
                    if k == 0 {
                        continue;
                    }
                    if k >> (w - 1) & 1 == 0 {
                        p.push((k, t));
                    } else {
                        q.push((k.wrapping_neg() & mask(w), t));
                    }
                }
                let x = tm.sum(w, &p, k0);
                let y = tm.sum(w, &q, 0);
                if (x, y) != (a, b) && (x, y) != (b, a) && terms(tm, x) + terms(tm, y) < terms(tm, a) + terms(tm, b) {
                    return self.prove_eq(tm, x, y, cheap);
                }
            }
        }
        // affine normal form over GF(2)
        {
            if self.aff_size > 80_000_000 {
                self.aff.clear();
                self.aff_size = 0;
            }
            let mut memo = std::mem::take(&mut self.aff);
            let x = self.affine(tm, a, &mut memo);
            let y = self.affine(tm, b, &mut memo);
            self.aff = memo;
            if *x == *y {
                self.st.merges_affine += 1;
                return true;
            }
        }
        // bit by bit the same truth table
        if tm.w(a) > 1 && same_bitwise(tm, a, b) {
            self.st.merges_exh += 1;
            return true;
        }
        // cut
        let mut limit = 60usize;
        let rounds = if cheap || self.tier == 0 { 2 } else { 3 };
        for round in 0..rounds {
            let (nodes, leaves) = private_cone(tm, a, b, limit);
            let bits: u32 = leaves.iter().map(|&l| tm.w(l) as u32).sum();
            let has_table = nodes.iter().any(|&n| tm.op(n) == Op::Table);
            let has_mul = nodes.iter().any(|&n| matches!(tm.op(n), Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem));
            let leafset: HashSet<Id> = leaves.iter().copied().collect();
            if bits <= 13 {
                // all values
                let mut order: Vec<Id> = nodes.clone();
                order.sort_unstable();
                let mut ok = true;
                let mut vals: HashMap<Id, u128> = HashMap::default();
                let inner: Vec<Id> = order.iter().copied().filter(|x| !leafset.contains(x)).collect();
                'o: for v in 0..(1u64 << bits) {
                    let mut p = 0;
                    let mut skip = false;
                    for &l in &leaves {
                        let lw = tm.w(l) as u32;
                        let val = ((v >> p) & ((1u64 << lw) - 1)) as u128;
                        let n = tm.n(l);
                        if val > n.hi || val & n.kz != 0 {
                            skip = true;
                        }
                        vals.insert(l, val);
                        p += lw;
                    }
                    if skip {
                        continue;
                    }
                    for &x in &inner {
                        let r = tm.eval1(x, &|j| vals.get(&j).copied().unwrap_or_else(|| tm.n(j).k), &|_| 0);
                        vals.insert(x, r);
                    }
                    let get = |x: Id| vals.get(&x).copied().unwrap_or_else(|| tm.n(x).k);
                    if get(a) != get(b) {
                        ok = false;
                        break 'o;
                    }
                }
                if ok {
                    self.st.merges_exh += 1;
                    return true;
                }
            } else {
                let mut all: Vec<Id> = nodes.clone();
                all.sort_unstable();
                all.dedup();
                let mut free = vec![];
                let mut txt = self.smt_text(tm, &all, &|x| leafset.contains(&x), &mut free);
                let nm = |x: Id| {
                    let n = tm.n(x);
                    if n.op == Op::Const {
                        let mut s = String::new();
                        bv(&mut s, n.k, n.w);
                        s
                    } else {
                        format!("n{}", x)
                    }
                };
                txt.push_str(&format!("(assert (not (= {} {})))\n", nm(a), nm(b)));
                let ms = match (cheap, has_mul || has_table) {
                    (true, _) if self.tier == 0 => 100,
                    (false, _) if self.tier == 0 => 1000,
                    (true, _) => 150,
                    (false, true) => 1500 + 1500 * round as u64,
                    (false, false) => 1000 + 2000 * round as u64,
                };
                match self.smt(&txt, &[], ms) {
                    Some(None) => {
                        self.st.merges_smt += 1;
                        return true;
                    }
                    Some(Some(_)) => {}
                    None => {
                        if self.verbose {
                            eprintln!("timeout on {} nodes: {} == {}", all.len(), self.show(tm, a, 3), self.show(tm, b, 3));
                        }
                        return false;
                    }
                }
            }
            // nothing left to open?
            if leaves.iter().all(|&l| matches!(tm.op(l), Op::Var | Op::Uf)) {
                return false;
            }
            limit *= 4;
        }
        false
    }

    /// every bit as a xor of (leaf, bit) pairs; non-linear nodes are leaves
    fn affine(&mut self, tm: &Tm, x: Id, memo: &mut HashMap<Id, Rc<Vec<Lin>>>) -> Rc<Vec<Lin>> {
        if let Some(r) = memo.get(&x) {
            return r.clone();
        }
        let n = tm.n(x);
        let w = n.w as usize;
        assert!((x as u64) * 128 + 128 < self.vleaf as u64);
        let leaf = |x: Id| -> Vec<Lin> { (0..w).map(|i| Lin { c: false, v: vec![x * 128 + i as u32] }).collect() };
        let r: Vec<Lin> = match n.op {
            Op::Const => (0..w).map(|i| Lin { c: (n.k >> i) & 1 == 1, v: vec![] }).collect(),
            Op::Not => {
                let a = self.affine(tm, n.args[0], memo);
                a.iter().map(|l| Lin { c: !l.c, v: l.v.clone() }).collect()
            }
            Op::Xor => {
                let mut acc: Vec<Lin> = vec![Lin { c: false, v: vec![] }; w];
                for &q in n.args.iter() {
                    let a = self.affine(tm, q, memo);
                    for i in 0..w {
                        acc[i] = acc[i].xor(&a[i]);
                    }
                }
                acc
            }
            Op::And | Op::Or if n.args.iter().filter(|&&q| !tm.is_const(q)).count() == 1 => {
                let mut k = if n.op == Op::And { mask(n.w) } else { 0 };
                let mut v = 0;
                for &q in n.args.iter() {
                    match tm.as_const(q) {
                        Some(c) => {
                            if n.op == Op::And {
                                k &= c
                            } else {
                                k |= c
                            }
                        }
                        None => v = q,
                    }
                }
                let a = self.affine(tm, v, memo);
                (0..w)
                    .map(|i| {
                        let b = (k >> i) & 1 == 1;
                        if b == (n.op == Op::And) {
                            a[i].clone()
                        } else {
                            Lin { c: b, v: vec![] }
                        }
                    })
                    .collect()
            }
            Op::Concat => {
                let mut o = vec![];
                for &q in n.args.iter() {
                    let a = self.affine(tm, q, memo);
                    o.extend(a.iter().cloned());
                }
                o
            }
            Op::Extract => {
                let a = self.affine(tm, n.args[0], memo);
                a[n.k as usize..n.k as usize + w].to_vec()
            }
            Op::SExt => {
                let a = self.affine(tm, n.args[0], memo);
                let mut o = (*a).clone();
                let top = o.last().unwrap().clone();
                while o.len() < w {
                    o.push(top.clone());
                }
                o
            }
            Op::Ite if tm.is_const(n.args[1]) && tm.is_const(n.args[2]) => {
                let c = self.affine(tm, n.args[0], memo);
                let (p, q) = (tm.n(n.args[1]).k, tm.n(n.args[2]).k);
                (0..w)
                    .map(|i| {
                        let (x, y) = ((p >> i) & 1 == 1, (q >> i) & 1 == 1);
                        if x == y {
                            Lin { c: x, v: vec![] }
                        } else if x {
                            c[0].clone()
                        } else {
                            Lin { c: !c[0].c, v: c[0].v.clone() }
                        }
                    })
                    .collect()
            }
            Op::Table if tm.tables[n.k as usize].data.len() <= 256 => {
                // every output bit as a xor of a basis of the functions of this index
                let (t, idx) = (n.k as usize, n.args[0]);
                let a = self.affine(tm, idx, memo);
                let len = tm.tables[t].data.len();
                if !self.fbasis.contains_key(&idx) {
                    let mut b = Basis { rows: vec![] };
                    let all: [u64; 4] = std::array::from_fn(|q| if q * 64 >= len { 0 } else if len - q * 64 >= 64 { !0 } else { (1u64 << (len - q * 64)) - 1 });
                    b.add(all, Lin { c: true, v: vec![] });
                    for (j, l) in a.iter().enumerate() {
                        let mut v = [0u64; 4];
                        for e in 0..len {
                            if (e >> j) & 1 == 1 {
                                v[e / 64] |= 1 << (e % 64);
                            }
                        }
                        b.add(v, l.clone());
                    }
                    self.fbasis.insert(idx, b);
                }
                let mut b = self.fbasis.remove(&idx).unwrap();
                let d = &tm.tables[t].data;
                let mut o = vec![];
                for i in 0..w {
                    let mut v = [0u64; 4];
                    for e in 0..len {
                        if (d[e] >> i) & 1 == 1 {
                            v[e / 64] |= 1 << (e % 64);
                        }
                    }
                    let (rest, l) = b.reduce(v);
                    if rest == [0; 4] {
                        o.push(l);
                    } else {
                        self.vleaf -= 1;
                        assert!((x as u64) * 128 < self.vleaf as u64);
                        b.add(rest, Lin { c: false, v: vec![self.vleaf] });
                        o.push(l.xor(&Lin { c: false, v: vec![self.vleaf] }));
                    }
                }
                self.fbasis.insert(idx, b);
                o
            }
            Op::Mul => leaf(x),
            _ => leaf(x),
        };
        let cost: usize = r.iter().map(|l| l.v.len()).sum();
        let (r, cost) = if cost > 60_000 { (leaf(x), w) } else { (r, cost) };
        self.aff_size += cost + 8 * w;
        let r = Rc::new(r);
        memo.insert(x, r.clone());
        r
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

#[derive(Clone, PartialEq)]
struct Lin {
    c: bool,
    v: Vec<u32>,
}
impl Lin {
    fn xor(&self, o: &Lin) -> Lin {
        let mut v = Vec::with_capacity(self.v.len() + o.v.len());
        let (mut i, mut j) = (0, 0);
        while i < self.v.len() && j < o.v.len() {
            match self.v[i].cmp(&o.v[j]) {
                std::cmp::Ordering::Less => {
                    v.push(self.v[i]);
                    i += 1
                }
                std::cmp::Ordering::Greater => {
                    v.push(o.v[j]);
                    j += 1
                }
                _ => {
                    i += 1;
                    j += 1
                }
            }
        }
        v.extend_from_slice(&self.v[i..]);
        v.extend_from_slice(&o.v[j..]);
        Lin { c: self.c ^ o.c, v }
    }
}

/// functions of one small index, as truth tables, in echelon form
struct Basis {
    rows: Vec<([u64; 4], u32, Lin)>,
}
impl Basis {
    fn reduce(&self, mut v: [u64; 4]) -> ([u64; 4], Lin) {
        let mut l = Lin { c: false, v: vec![] };
        for (r, p, lr) in &self.rows {
            if (v[*p as usize / 64] >> (p % 64)) & 1 == 1 {
                for q in 0..4 {
                    v[q] ^= r[q];
                }
                l = l.xor(lr);
            }
        }
        (v, l)
    }
    fn add(&mut self, v: [u64; 4], l: Lin) {
        let (v, m) = self.reduce(v);
        for q in 0..4 {
            if v[q] != 0 {
                self.rows.push((v, q as u32 * 64 + v[q].trailing_zeros(), l.xor(&m)));
                return;
            }
        }
    }
}

/// expand from both sides, highest node first, keeping nodes reached from both as the cut
fn private_cone(tm: &Tm, a: Id, b: Id, limit: usize) -> (Vec<Id>, Vec<Id>) {
    use std::collections::BTreeMap;
    // marks: 1 from a, 2 from b
    let mut fr: BTreeMap<Id, u8> = BTreeMap::new();
    let mut nodes = vec![];
    let mut leaves = vec![];
    *fr.entry(a).or_insert(0) |= 1;
    *fr.entry(b).or_insert(0) |= 2;
    let mut opened = 0;
    // number of shared nodes that may be opened
    let mut shared_budget = if limit <= 60 { 0 } else { limit / 2 };
    while let Some((&x, &m)) = fr.iter().next_back() {
        fr.remove(&x);
        let n = tm.n(x);
        if n.op == Op::Const {
            continue;
        }
        nodes.push(x);
        let leaf = matches!(n.op, Op::Var | Op::Uf) || opened >= limit || (m == 3 && shared_budget == 0);
        if leaf {
            leaves.push(x);
            continue;
        }
        if m == 3 {
            shared_budget -= 1;
        }
        opened += 1;
        for &q in n.args.iter() {
            *fr.entry(q).or_insert(0) |= m;
        }
    }
    (nodes, leaves)
}

fn terms(tm: &Tm, x: Id) -> usize {
    let n = tm.n(x);
    match n.op {
        Op::Sum => n.args.len() / 2 + (n.k != 0) as usize,
        _ => 1,
    }
}

fn conj(tm: &Tm, x: Id, out: &mut Vec<Id>) {
    let n = tm.n(x);
    if n.op == Op::And && n.w == 1 {
        for &a in n.args.iter() {
            conj(tm, a, out);
        }
    } else {
        out.push(x);
    }
}

fn bv(s: &mut String, k: u128, w: u16) {
    if w % 4 == 0 {
        s.push_str(&format!("#x{:0>1$x}", k & mask(w), (w / 4) as usize));
    } else {
        s.push_str(&format!("#b{:0>1$b}", k & mask(w), w as usize));
    }
}

pub fn show(tm: &Tm, i: Id, d: usize) -> String {
    let n = tm.n(i);
    match n.op {
        Op::Const => format!("{:#x}", n.k),
        Op::Var => tm.vars[n.k as usize].0.clone(),
        _ if d == 0 => format!("t{}", i),
        _ => {
            let a: Vec<String> = n.args.iter().take(12).map(|&x| show(tm, x, d - 1)).collect();
            format!("{:?}:{}[{:x}]({})", n.op, n.w, n.k, a.join(","))
        }
    }
}

/// the two sides of every equation of a condition; the sides of a difference that has to be constant
/// are any one term of it and the others
fn sides(tm: &Tm, c: Id) -> Vec<(Vec<Id>, Vec<Id>)> {
    let mut cs = vec![];
    conj(tm, c, &mut cs);
    let mut out = vec![];
    for x in cs {
        if tm.op(x) != Op::Eq {
            continue;
        }
        let (a, b) = (tm.n(x).args[0], tm.n(x).args[1]);
        if !tm.is_const(a) && !tm.is_const(b) {
            out.push((vec![a], vec![b]));
            continue;
        }
        let d = if tm.is_const(a) { b } else { a };
        let ts: Vec<Id> = match tm.op(d) {
            Op::Xor => tm.n(d).args.to_vec(),
            Op::Sum => tm.n(d).args.chunks(2).map(|p| p[0]).collect(),
            _ => vec![],
        };
        if ts.len() < 2 || ts.len() > 16 {
            continue;
        }
        for i in 0..ts.len() {
            let o: Vec<Id> = ts.iter().copied().filter(|&t| t != ts[i]).collect();
            out.push((vec![ts[i]], o));
        }
    }
    out
}

/// every bit of both terms has the same truth table over bits of the same leaves
fn same_bitwise(tm: &Tm, a: Id, b: Id) -> bool {
    let mut dj = HashMap::default();
    (0..tm.w(a)).all(|i| [false, true].iter().any(|&cut| bit_tables(tm, &[a, b], i, cut, &mut dj).map_or(false, |t| t[0] == t[1])))
}

type Table = [u64; 16];

/// truth tables of bit i of the terms over at most ten bits of leaves; with
/// `cut` what all of them contain is a leaf as well
fn bit_tables(tm: &Tm, xs: &[Id], i: u16, cut: bool, dj: &mut HashMap<Id, bool>) -> Option<Vec<Table>> {
    let mut reach: Vec<HashSet<(Id, u16)>> = vec![];
    for &x in xs {
        let mut r = HashSet::default();
        bit_reach(tm, x, i, &mut r, dj);
        reach.push(r);
    }
    let roots: Vec<(Id, u16)> = xs.iter().map(|&x| bit_at(tm, x, i)).collect();
    let common: HashSet<(Id, u16)> = reach[0].iter().copied().filter(|p| cut && !roots.contains(p) && reach[1..].iter().all(|r| r.contains(p))).collect();
    let mut memo: HashMap<(Id, u16), Table> = HashMap::default();
    let mut leaves = 0;
    xs.iter().map(|&x| bit_table(tm, x, i, &common, &mut leaves, &mut memo, dj)).collect()
}
/// through joining and cutting to the term that makes the bit
fn bit_at(tm: &Tm, mut x: Id, mut i: u16) -> (Id, u16) {
    loop {
        let n = tm.n(x);
        match n.op {
            Op::Concat => {
                for &p in n.args.iter() {
                    if i < tm.w(p) {
                        x = p;
                        break;
                    }
                    i -= tm.w(p);
                }
            }
            Op::Extract => {
                x = n.args[0];
                i += n.k as u16;
            }
            _ => return (x, i),
        }
    }
}
fn is_bitwise(tm: &Tm, x: Id, dj: &mut HashMap<Id, bool>) -> bool {
    let n = tm.n(x);
    match n.op {
        Op::And | Op::Or | Op::Xor | Op::Not => true,
        Op::Sum if n.k == 0 && n.args.len() <= 6 && n.args.chunks(2).all(|p| tm.n(p[1]).k == 1 && matches!(tm.op(p[0]), Op::And | Op::Concat)) => {
            // no position where two terms are set: the sum has no carries
            if let Some(&r) = dj.get(&x) {
                return r;
            }
            dj.insert(x, false);
            let ts: Vec<Id> = n.args.chunks(2).map(|p| p[0]).collect();
            let r = (0..n.w).all(|i| {
                bit_tables(tm, &ts, i, false, dj).map_or(false, |t| (0..16).all(|k| (0..t.len()).all(|p| (0..p).all(|q| t[p][k] & t[q][k] == 0))))
            });
            dj.insert(x, r);
            r
        }
        _ => false,
    }
}
fn bit_args(tm: &Tm, x: Id) -> Vec<Id> {
    let n = tm.n(x);
    n.args.iter().copied().step_by(if n.op == Op::Sum { 2 } else { 1 }).collect()
}
fn bit_reach(tm: &Tm, x: Id, i: u16, out: &mut HashSet<(Id, u16)>, dj: &mut HashMap<Id, bool>) {
    let (x, i) = bit_at(tm, x, i);
    if out.len() < 60 && out.insert((x, i)) && is_bitwise(tm, x, dj) {
        for y in bit_args(tm, x) {
            bit_reach(tm, y, i, out, dj);
        }
    }
}
fn bit_table(tm: &Tm, x: Id, i: u16, common: &HashSet<(Id, u16)>, leaves: &mut usize, memo: &mut HashMap<(Id, u16), Table>, dj: &mut HashMap<Id, bool>) -> Option<Table> {
    let (x, i) = bit_at(tm, x, i);
    if let Some(t) = memo.get(&(x, i)) {
        return Some(*t);
    }
    let n = tm.n(x);
    let mut t = [0u64; 16];
    if n.op == Op::Const {
        if n.k >> i & 1 == 1 {
            t = [!0; 16];
        }
    } else if is_bitwise(tm, x, dj) && !common.contains(&(x, i)) {
        if n.op == Op::And {
            t = [!0; 16];
        }
        for y in bit_args(tm, x) {
            let u = bit_table(tm, y, i, common, leaves, memo, dj)?;
            for (v, w) in t.iter_mut().zip(u.iter()) {
                match n.op {
                    Op::And => *v &= w,
                    Op::Xor => *v ^= w,
                    Op::Not => *v = !w,
                    _ => *v |= w,
                }
            }
        }
    } else {
        if *leaves == 10 {
            return None;
        }
        for v in 0..1024usize {
            if v >> *leaves & 1 == 1 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        *leaves += 1;
    }
    memo.insert((x, i), t);
    Some(t)
}
