//! Path-forking symbolic executor for LLVM IR.
use crate::expr::*;
use crate::ll::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub sym: Vec<Id>, // empty, or one entry per byte (0 = concrete)
}

impl Obj {
    fn new(n: usize) -> Obj {
        Obj { bytes: vec![0; n], sym: vec![] }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub ret: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub globals: HashMap<u32, Rc<Obj>>,
    pub pc: Vec<Id>,
    pub known: HashMap<Id, bool, BuildFx>,
    pub pins: HashMap<Id, u128, BuildFx>,
    pub dom: BTreeMap<u32, [u64; 4]>,
    pub multi: BTreeSet<u32>,
    pub inputs: Vec<u32>,
    pub panic_ok: bool,
    pub steps: u64,
    pub model: Option<Rc<Model>>,
    pub out_of_model: bool,
}

pub struct Candidate {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u16, bool, u128)>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub completed: u64,
    pub panicked_ok: u64,
    pub assumed_away: u64,
    pub steps: u64,
    pub asserts_trivial: u64,
    pub asserts_solver: u64,
    pub asserts_unknown: u64,
    pub dom_decisions: u64,
    pub forks: u64,
    pub outside: u64, // paths that used a value outside the model
    pub covers: BTreeMap<String, u64>,
    pub assert_sites: BTreeMap<String, u64>,
    pub undecided: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Plain,
    Panic,
    /// formatting of a value into a message: skipped when the value is symbolic
    FmtAt(u16), // pointed-to value of so many bytes
    FmtStr,
    FmtVal(u8), // passed by value as argument n
    ParseFloat(u16),
}
fn kind_of(n: &str) -> Kind {
    if (n.contains("9panicking") && !n.contains("panic_count") && !n.contains("9panicking7default") && !n.contains("8panicking") && !n.contains("is_zero_slow_path") && !n.contains("panicking5panicking")) || n.contains("capacity_overflow") || n.contains("handle_alloc_error") || n == "abort" || n == "exit" || n == "_exit" {
        return Kind::Panic;
    }
    if n.contains("4core3num") && n.contains("float_parse") && n.contains("FromStr8from_str") {
        return if n.contains("float_parsef") {
            Kind::ParseFloat(32)
        } else if n.contains("float_parsed") {
            Kind::ParseFloat(64)
        } else {
            Kind::Plain
        };
    }
    if n.contains("4core3fmt5float") {
        if n.contains("float_to_") {
            return Kind::FmtVal(1);
        }
        if n.contains("3fmt5floatfNt") && n.ends_with("3fmt") {
            return Kind::FmtAt(4);
        }
        if n.contains("3fmt5floatdNt") && n.ends_with("3fmt") {
            return Kind::FmtAt(8);
        }
    }
    if n.contains("4core3fmteNtB") && n.contains("5Debug3fmt") {
        return Kind::FmtStr;
    }
    if n.contains("4core3fmtcNtB") && n.contains("3fmt") {
        return Kind::FmtAt(4);
    }
    if let Some(i) = n.find("4core3fmt3num3imp") {
        if n.ends_with("7Display3fmt") {
            let w = match n.as_bytes()[i + 17] {
                b'h' | b'a' => 1,
                b't' | b's' => 2,
                b'm' | b'l' => 4,
                b'y' | b'x' | b'j' | b'i' => 8,
                b'o' | b'n' => 16,
                _ => 0,
            };
            if w > 0 {
                return Kind::FmtAt(w);
            }
        }
    }
    Kind::Plain
}

pub enum End {
    Done,
    Dead,
}

pub struct Eng<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub z: Z3,
    pub st: Stats,
    pub work: Vec<State>,
    pub cands: Vec<Candidate>,
    pub cand_count: HashMap<String, u32>,
    pub funcs: BTreeSet<u32>,
    pub params: HashMap<u32, i64>,
    pub max_steps: u64,
    pub samples: Vec<Vec<(u16, bool, u128)>>,
    pub next_sample: u64,
    pub cand_max: u32,
    pub refine_fuel: u32,
    vmap: HashMap<(usize, u16, bool), u32>,
    g0: HashMap<u32, Rc<Obj>>,
    fresh: u32,
    ext: HashMap<u32, Rc<str>>,
    kinds: HashMap<u32, Kind>,
    rng: u64,
    pub tier: u32,
    pub nodomain: bool,
    pub debug: bool,
}

macro_rules! unsup {
    ($($a:tt)*) => { panic!("UNSUPPORTED: {}", format!($($a)*)) };
}

fn fop(b: FBin) -> Op {
    match b {
        FBin::Add => Op::FAdd,
        FBin::Sub => Op::FSub,
        FBin::Mul => Op::FMul,
        FBin::Div => Op::FDiv,
        FBin::Rem => Op::FRem,
    }
}
fn bop(b: Bin) -> Op {
    match b {
        Bin::Add => Op::Add,
        Bin::Sub => Op::Sub,
        Bin::Mul => Op::Mul,
        Bin::UDiv => Op::UDiv,
        Bin::SDiv => Op::SDiv,
        Bin::URem => Op::URem,
        Bin::SRem => Op::SRem,
        Bin::Shl => Op::Shl,
        Bin::LShr => Op::LShr,
        Bin::AShr => Op::AShr,
        Bin::And => Op::And,
        Bin::Or => Op::Or,
        Bin::Xor => Op::Xor,
    }
}

fn b4_and(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn b4_andn(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
fn b4_empty(a: &[u64; 4]) -> bool {
    a.iter().all(|x| *x == 0)
}
const FULL: [u64; 4] = [u64::MAX; 4];

impl<'m> Eng<'m> {
    pub fn new(m: &'m Module, mode: Mode, rlimit: u32) -> Eng<'m> {
        Eng {
            m,
            ar: Arena::new(mode),
            z: Z3::new(rlimit),
            st: Stats::default(),
            work: vec![],
            cands: vec![],
            cand_count: HashMap::new(),
            funcs: BTreeSet::new(),
            params: HashMap::new(),
            max_steps: 20_000_000,
            samples: vec![],
            next_sample: 1,
            cand_max: 3,
            refine_fuel: 400,
            vmap: HashMap::new(),
            g0: HashMap::new(),
            fresh: 0,
            ext: HashMap::new(),
            kinds: HashMap::new(),
            rng: 0x9e3779b97f4a7c15,
            tier: 0,
            nodomain: false,
            debug: std::env::var("SYMEX_DEBUG").is_ok(),
        }
    }
    pub fn start(&mut self, entry: &str) {
        let idx = *self.m.fn_idx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let f = self.m.func(idx).expect("entry has no body");
        self.funcs.insert(idx);
        let n = f.nregs as usize;
        let st = State {
            frames: vec![Frame { f, blk: 0, ip: 0, regs: vec![Val::C(0, 0); n], allocas: vec![], ret: None }],
            objs: vec![None],
            free: vec![],
            globals: HashMap::new(),
            pc: vec![],
            known: HashMap::default(),
            pins: HashMap::default(),
            dom: BTreeMap::new(),
            multi: BTreeSet::new(),
            inputs: vec![],
            panic_ok: false,
            steps: 0,
            model: None,
            out_of_model: false,
        };
        self.work.push(st);
    }

    // ---------- constraints ----------
    fn conjuncts(&mut self, c: Id) -> Vec<Id> {
        let mut todo = vec![c];
        let mut out = vec![];
        while let Some(x) = todo.pop() {
            let n = self.ar.n[x as usize];
            if n.op == Op::And && n.w == 1 {
                todo.push(n.a);
                todo.push(n.b);
                continue;
            }
            if n.op == Op::Not {
                let m = self.ar.n[n.a as usize];
                if m.op == Op::Or && m.w == 1 {
                    let (p, q) = (self.ar.not(m.a), self.ar.not(m.b));
                    todo.push(p);
                    todo.push(q);
                    continue;
                }
            }
            out.push(x);
        }
        out
    }
    pub fn add(&mut self, st: &mut State, c: Id) {
        if let Some(k) = self.ar.as_const(c) {
            assert!(k == 1, "adding false");
            return;
        }
        for x in self.conjuncts(c) {
            if self.ar.as_const(x).is_some() {
                continue;
            }
            let (base, pol) = {
                let n = self.ar.n[x as usize];
                if n.op == Op::Not {
                    (n.a, false)
                } else {
                    (x, true)
                }
            };
            if st.known.contains_key(&base) {
                continue;
            }
            st.known.insert(base, pol);
            st.pc.push(x);
            let bn = self.ar.n[base as usize];
            if pol && bn.op == Op::Eq {
                if let Some(k) = self.ar.as_const(bn.b) {
                    st.pins.insert(bn.a, k);
                }
            }
            match self.ar.truth(x) {
                Some(t) => {
                    let v = self.ar.var[x as usize];
                    let d = st.dom.entry(v).or_insert(FULL);
                    *d = b4_and(d, &t);
                    let cnt: u32 = d.iter().map(|z| z.count_ones()).sum();
                    if cnt == 1 {
                        let i = d.iter().position(|z| *z != 0).unwrap();
                        let k = i as u32 * 64 + d[i].trailing_zeros();
                        let (_, w, f) = self.ar.vars[v as usize].clone();
                        let _ = f;
                        let id = self.var_id(v, w);
                        st.pins.insert(id, k as u128);
                    }
                }
                None => {
                    let mut vs = BTreeSet::new();
                    self.ar.vars_of(x, &mut vs);
                    st.multi.extend(vs);
                }
            }
        }
        if let Some(m) = st.model.clone() {
            if !self.eval_cond(c, &m) {
                st.model = None;
            }
        }
    }
    fn var_id(&mut self, v: u32, w: u16) -> Id {
        // re-intern the variable node
        let (_, _, fl) = self.ar.vars[v as usize];
        self.ar.intern_var(v, w, fl)
    }
    fn eval_cond(&mut self, c: Id, m: &Model) -> bool {
        if self.ar.fl[c as usize] & F_UF != 0 {
            return false;
        }
        self.ar.begin_eval();
        let mm = m.clone();
        self.ar.eval(c, &move |v| *mm.get(&v).unwrap_or(&0)) == 1
    }
    /// (can be true, can be false)
    pub fn decide(&mut self, st: &mut State, c: Id) -> (bool, bool) {
        if let Some(k) = self.ar.as_const(c) {
            return (k == 1, k == 0);
        }
        let n = self.ar.n[c as usize];
        let (base, pol) = if n.op == Op::Not { (n.a, false) } else { (c, true) };
        if let Some(b) = st.known.get(&base) {
            let r = *b == pol;
            return (r, !r);
        }
        let pure = self.ar.fl[c as usize] & F_UF == 0;
        if pure && !self.nodomain {
            if let Some(t) = self.ar.truth(c) {
                let v = self.ar.var[c as usize];
                let d = *st.dom.get(&v).unwrap_or(&FULL);
                let ct = !b4_empty(&b4_and(&d, &t));
                let cf = !b4_empty(&b4_andn(&d, &t));
                if !ct || !cf || !st.multi.contains(&v) {
                    self.st.dom_decisions += 1;
                    return (ct, cf);
                }
            } else {
                let nc = self.ar.not(c);
                let rt = self.conj_feasible(st, c);
                let rf = self.conj_feasible(st, nc);
                if let (Some(a), Some(b)) = (rt, rf) {
                    self.st.dom_decisions += 1;
                    return (a, b);
                }
                if rt == Some(false) {
                    return (false, true);
                }
                if rf == Some(false) {
                    return (true, false);
                }
                // a disjunction of independent single-variable atoms
                if rt == Some(true) && self.disj_feasible(st, nc) {
                    self.st.dom_decisions += 1;
                    return (true, true);
                }
                if rf == Some(true) && self.disj_feasible(st, c) {
                    self.st.dom_decisions += 1;
                    return (true, true);
                }
            }
        }
        if pure && !self.nodomain {
            if let Some(b) = self.by_range(st, c) {
                self.st.dom_decisions += 1;
                return (b, !b);
            }
            let (t, f) = self.by_sample(st, c);
            if t && f {
                self.st.dom_decisions += 1;
                return (true, true);
            }
            if t || f {
                let other = if t { self.ar.not(c) } else { c };
                let r = self.feasible(st, other);
                return if t { (true, r) } else { (r, true) };
            }
        }
        // cached model decides one side
        if pure {
            if let Some(m) = st.model.clone() {
                let v = self.eval_cond(c, &m);
                let other = if v { self.ar.not(c) } else { c };
                let r = self.feasible(st, other);
                return if v { (true, r) } else { (r, true) };
            }
        }
        let ct = self.feasible(st, c);
        if !ct {
            return (false, true);
        }
        let nc = self.ar.not(c);
        let cf = self.feasible(st, nc);
        (ct, cf)
    }
    /// unsigned range of an expression under the byte domains of the path
    fn range(&mut self, st: &State, e: Id, memo: &mut HashMap<Id, (u128, u128), BuildFx>) -> (u128, u128) {
        let n = self.ar.n[e as usize];
        if n.op == Op::Const {
            return (n.k, n.k);
        }
        if n.w > 128 {
            return (0, u128::MAX);
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let full = (0, mask(n.w));
        let r = match n.op {
            Op::Var => {
                if n.w == 8 {
                    let d = *st.dom.get(&(n.k as u32)).unwrap_or(&FULL);
                    let lo = (0..4).find(|i| d[*i] != 0).map_or(0, |i| i as u32 * 64 + d[i].trailing_zeros());
                    let hi = (0..4).rev().find(|i| d[*i] != 0).map_or(255, |i| i as u32 * 64 + 63 - d[i].leading_zeros());
                    (lo as u128, hi as u128)
                } else {
                    full
                }
            }
            Op::ZExt => self.range(st, n.a, memo),
            Op::SExt => {
                let wi = self.ar.w(n.a);
                let (l, h) = self.range(st, n.a, memo);
                if h <= mask(wi - 1) {
                    (l, h)
                } else if l > mask(wi - 1) {
                    (sext(l, wi) as u128 & mask(n.w), sext(h, wi) as u128 & mask(n.w))
                } else {
                    full
                }
            }
            Op::Add => {
                let (a, b) = (self.range(st, n.a, memo), self.range(st, n.b, memo));
                let m = mask(n.w);
                match (a.0.checked_add(b.0), a.1.checked_add(b.1)) {
                    (Some(l), Some(h)) if h <= m => (l, h),
                    (Some(l), Some(h)) if n.w < 127 && l > m && h <= m + m + 1 => (l - m - 1, h - m - 1),
                    _ => full,
                }
            }
            Op::Sub => {
                let (a, b) = (self.range(st, n.a, memo), self.range(st, n.b, memo));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else if a.1 < b.0 {
                    let m = mask(n.w);
                    (m - (b.1 - a.0) + 1, m - (b.0 - a.1) + 1)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (self.range(st, n.a, memo), self.range(st, n.b, memo));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= mask(n.w) => (a.0 * b.0, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (a, b) = (self.range(st, n.a, memo), self.range(st, n.b, memo));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (self.range(st, n.a, memo), self.range(st, n.b, memo));
                if b.0 > a.1 {
                    a
                } else if b.0 > 0 {
                    (0, a.1.min(b.1 - 1))
                } else {
                    full
                }
            }
            Op::And => {
                let (a, b) = (self.range(st, n.a, memo), self.range(st, n.b, memo));
                (0, a.1.min(b.1))
            }
            Op::Concat => {
                let wl = self.ar.w(n.b);
                let (a, b) = (self.range(st, n.a, memo), self.range(st, n.b, memo));
                ((a.0 << wl) | b.0, (a.1 << wl) | b.1)
            }
            Op::Extract => {
                let (l, h) = self.range(st, n.a, memo);
                let (l2, h2) = (l >> n.k, h >> n.k);
                if h2 <= mask(n.w) {
                    (l2, h2)
                } else {
                    full
                }
            }
            Op::Ite => {
                let (a, b) = (self.range(st, n.b, memo), self.range(st, n.c, memo));
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => full,
        };
        memo.insert(e, r);
        r
    }
    /// decide a condition from ranges alone
    fn by_range(&mut self, st: &State, c: Id) -> Option<bool> {
        let mut memo = HashMap::default();
        self.by_range1(st, c, &mut memo)
    }
    fn by_range1(&mut self, st: &State, c: Id, memo: &mut HashMap<Id, (u128, u128), BuildFx>) -> Option<bool> {
        let n = self.ar.n[c as usize];
        if n.w != 1 {
            return None;
        }
        if let Some(b) = st.known.get(&c) {
            return Some(*b);
        }
        match n.op {
            Op::Const => Some(n.k == 1),
            Op::Not => self.by_range1(st, n.a, memo).map(|b| !b),
            Op::And | Op::Or => {
                let k = n.op == Op::Or;
                let a = self.by_range1(st, n.a, memo);
                if a == Some(k) {
                    return a;
                }
                let b = self.by_range1(st, n.b, memo);
                if b == Some(k) {
                    return b;
                }
                if a.is_some() && b.is_some() {
                    Some(!k)
                } else {
                    None
                }
            }
            Op::Xor => match (self.by_range1(st, n.a, memo), self.by_range1(st, n.b, memo)) {
                (Some(a), Some(b)) => Some(a != b),
                _ => None,
            },
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let w = self.ar.w(n.a);
                if w > 128 {
                    return None;
                }
                let (mut a, mut b) = (self.range(st, n.a, memo), self.range(st, n.b, memo));
                if w > 8 && w <= 64 {
                    let mut sm = HashMap::default();
                    let (x, y) = (self.srange(st, n.a, &mut sm), self.srange(st, n.b, &mut sm));
                    let r = match n.op {
                        Op::Slt if x.1 < y.0 => Some(true),
                        Op::Slt if x.0 >= y.1 => Some(false),
                        Op::Sle if x.1 <= y.0 => Some(true),
                        Op::Sle if x.0 > y.1 => Some(false),
                        Op::Eq if x.1 < y.0 || y.1 < x.0 => Some(false),
                        _ => None,
                    };
                    if r.is_some() {
                        return r;
                    }
                    // non-negative as signed: the same order as unsigned
                    if x.0 >= 0 {
                        a = (a.0.max(x.0 as u128), a.1.min(x.1 as u128));
                    }
                    if y.0 >= 0 {
                        b = (b.0.max(y.0 as u128), b.1.min(y.1 as u128));
                    }
                }
                let mut op = n.op;
                if matches!(op, Op::Slt | Op::Sle) {
                    // shift to unsigned order
                    let s = 1u128 << (w - 1);
                    for r in [&mut a, &mut b] {
                        if r.1 < s || r.0 >= s {
                            *r = (r.0 ^ s, r.1 ^ s);
                        } else {
                            *r = (0, mask(w));
                        }
                    }
                    op = if op == Op::Slt { Op::Ult } else { Op::Ule };
                }
                match op {
                    Op::Eq => {
                        if a.1 < b.0 || b.1 < a.0 {
                            Some(false)
                        } else if a.0 == a.1 && a == b {
                            Some(true)
                        } else {
                            None
                        }
                    }
                    Op::Ult => {
                        if a.1 < b.0 {
                            Some(true)
                        } else if a.0 >= b.1 {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    _ => {
                        if a.1 <= b.0 {
                            Some(true)
                        } else if a.0 > b.1 {
                            Some(false)
                        } else {
                            None
                        }
                    }
                }
            }
            _ => None,
        }
    }
    /// add scale * e to a linear form over opaque terms, modulo 2^w
    fn linear(&mut self, st: &State, e: Id, scale: u128, w: u16, acc: &mut (u128, BTreeMap<Id, u128>), memo: &mut HashMap<Id, (u128, u128), BuildFx>) {
        let n = self.ar.n[e as usize];
        let m = mask(w);
        let scale = scale & m;
        if scale == 0 {
            return;
        }
        // only the low bits of e matter: its own wrap-around is harmless
        let modular = scale.trailing_zeros() + n.w as u32 >= w as u32;
        match n.op {
            Op::Const => {
                acc.0 = acc.0.wrapping_add(scale.wrapping_mul(n.k)) & m;
                return;
            }
            Op::Add => {
                let (a, b) = (self.range(st, n.a, memo), self.range(st, n.b, memo));
                let fits = a.1.checked_add(b.1).map_or(false, |h| h <= mask(n.w));
                let wraps = n.w < 127 && a.0 + b.0 > mask(n.w);
                if modular || fits || wraps {
                    self.linear(st, n.a, scale, w, acc, memo);
                    self.linear(st, n.b, scale, w, acc, memo);
                    if !modular && wraps {
                        acc.0 = acc.0.wrapping_sub(scale << n.w) & m;
                    }
                    return;
                }
            }
            Op::Sub => {
                let (a, b) = (self.range(st, n.a, memo), self.range(st, n.b, memo));
                if modular || a.0 >= b.1 {
                    self.linear(st, n.a, scale, w, acc, memo);
                    self.linear(st, n.b, scale.wrapping_neg(), w, acc, memo);
                    return;
                }
            }
            Op::Mul => {
                if let Some(k) = self.ar.as_const(n.b) {
                    let a = self.range(st, n.a, memo);
                    if modular || a.1.checked_mul(k).map_or(false, |h| h <= mask(n.w)) {
                        self.linear(st, n.a, scale.wrapping_mul(k), w, acc, memo);
                        return;
                    }
                }
            }
            Op::ZExt => return self.linear(st, n.a, scale, w, acc, memo),
            Op::SExt => {
                let wi = self.ar.w(n.a);
                let a = self.range(st, n.a, memo);
                if a.1 <= mask(wi - 1) {
                    return self.linear(st, n.a, scale, w, acc, memo);
                }
                if a.0 > mask(wi - 1) && modular {
                    acc.0 = acc.0.wrapping_sub(scale << wi) & m;
                    return self.linear(st, n.a, scale, w, acc, memo);
                }
            }
            Op::Concat => {
                let wl = self.ar.w(n.b);
                if wl < 128 {
                    self.linear(st, n.a, scale << wl, w, acc, memo);
                    return self.linear(st, n.b, scale, w, acc, memo);
                }
            }
            Op::Extract => {
                if n.k == 0 && self.ar.w(n.a) <= 128 && (modular || self.range(st, n.a, memo).1 <= mask(n.w)) {
                    return self.linear(st, n.a, scale, w, acc, memo);
                }
            }
            _ => {}
        }
        let c = acc.1.entry(e).or_insert(0);
        *c = c.wrapping_add(scale) & m;
    }
    /// a condition that follows from ranges and linear normal forms
    fn evident(&mut self, st: &State, c: Id) -> bool {
        if self.nodomain {
            return false;
        }
        let mut memo = HashMap::default();
        for x in self.conjuncts(c) {
            if self.by_range1(st, x, &mut memo) == Some(true) {
                continue;
            }
            let x = self.norm_cond(st, x);
            if self.ar.as_const(x) == Some(1) || self.quick(st, x) == Some(true) {
                continue;
            }
            let n = self.ar.n[x as usize];
            if n.op != Op::Eq || self.ar.w(n.a) > 128 {
                return false;
            }
            let w = self.ar.w(n.a);
            let mut acc = (0, BTreeMap::new());
            self.linear(st, n.a, 1, w, &mut acc, &mut memo);
            self.linear(st, n.b, mask(w), w, &mut acc, &mut memo);
            if acc.0 != 0 || acc.1.values().any(|k| *k != 0) {
                // products: compare as polynomials modulo 2^w
                let mut p = BTreeMap::new();
                let ok = match (self.ipoly(n.a, w, 6), self.ipoly(n.b, w, 6)) {
                    (Some(a), Some(b)) => {
                        for (m, k) in a {
                            p.insert(m, k);
                        }
                        for (m, k) in b {
                            let e = p.entry(m).or_insert(0u128);
                            *e = e.wrapping_sub(k) & mask(w);
                        }
                        p.values().all(|k| *k == 0)
                    }
                    _ => false,
                };
                if !ok {
                    return false;
                }
            }
        }
        true
    }
    /// a term as a polynomial modulo 2^w over its non-arithmetic subterms
    fn ipoly(&mut self, e: Id, w: u16, deg: usize) -> Option<BTreeMap<Vec<Id>, u128>> {
        let n = self.ar.n[e as usize];
        let mut r: BTreeMap<Vec<Id>, u128> = BTreeMap::new();
        match n.op {
            Op::Const => {
                r.insert(vec![], n.k & mask(w));
            }
            Op::Add | Op::Sub => {
                r = self.ipoly(n.a, w, deg)?;
                for (m, k) in self.ipoly(n.b, w, deg)? {
                    let x = r.entry(m).or_insert(0);
                    *x = if n.op == Op::Add { x.wrapping_add(k) } else { x.wrapping_sub(k) } & mask(w);
                }
            }
            Op::Mul => {
                let (a, b) = (self.ipoly(n.a, w, deg)?, self.ipoly(n.b, w, deg)?);
                if a.len() * b.len() > 4000 {
                    return None;
                }
                for (m, k) in &a {
                    for (o, l) in &b {
                        let mut x = m.clone();
                        x.extend(o);
                        x.sort();
                        if x.len() > deg {
                            return None;
                        }
                        let v = r.entry(x).or_insert(0);
                        *v = v.wrapping_add(k.wrapping_mul(*l)) & mask(w);
                    }
                }
            }
            Op::Shl if self.ar.as_const(n.b).map_or(false, |k| k < w as u128) => {
                let k = self.ar.as_const(n.b).unwrap();
                for (m, x) in self.ipoly(n.a, w, deg)? {
                    r.insert(m, (x << k) & mask(w));
                }
            }
            // a left shift by whole bits
            Op::Concat if self.ar.as_const(n.b) == Some(0) => {
                let k = self.ar.w(n.b);
                let a = n.a;
                let na = self.ar.n[a as usize];
                if na.op == Op::Extract && na.k == 0 && self.ar.w(na.a) == w {
                    for (m, x) in self.ipoly(na.a, w, deg)? {
                        r.insert(m, (x << k) & mask(w));
                    }
                } else {
                    r.insert(vec![e], 1);
                }
            }
            _ => {
                r.insert(vec![e], 1);
            }
        }
        r.retain(|_, k| *k != 0);
        Some(r)
    }
    /// a - b as an integer linear form over unsigned atoms, when neither a nor b leaves the
    /// signed range: (constant, coefficients, smallest value, largest value)
    fn diff(&mut self, st: &State, a: Id, b: Id, memo: &mut HashMap<Id, (u128, u128), BuildFx>) -> Option<(BTreeMap<Id, i128>, i128, i128)> {
        let w = self.ar.w(a);
        if w > 64 || w < 2 {
            return None;
        }
        let mut out: BTreeMap<Id, i128> = BTreeMap::new();
        let mut k = 0i128;
        for (e, sg) in [(a, 1i128), (b, -1)] {
            let mut acc = (0, BTreeMap::new());
            self.linear(st, e, 1, w, &mut acc, memo);
            let (mut lo, mut hi) = (sext(acc.0, w), sext(acc.0, w));
            k += sg * lo;
            for (x, c) in acc.1 {
                let c = sext(c, w);
                if c == 0 {
                    continue;
                }
                let r = self.range(st, x, memo);
                let (p, q) = (c.checked_mul(r.0 as i128)?, c.checked_mul(r.1 as i128)?);
                lo = lo.checked_add(p.min(q))?;
                hi = hi.checked_add(p.max(q))?;
                *out.entry(x).or_insert(0) += sg * c;
            }
            let h = 1i128 << (w - 1);
            if lo < -h || hi >= h {
                return None;
            }
        }
        out.retain(|_, c| *c != 0);
        let (mut lo, mut hi) = (k, k);
        for (x, c) in &out {
            let r = self.range(st, *x, memo);
            let (p, q) = (c * r.0 as i128, c * r.1 as i128);
            lo += p.min(q);
            hi += p.max(q);
        }
        Some((out, lo, hi))
    }
    /// an equivalent condition (on this path) that is easier to decide
    fn norm_cond(&mut self, st: &State, c: Id) -> Id {
        if self.nodomain || self.ar.fl[c as usize] & F_UF != 0 {
            return c;
        }
        let n = self.ar.n[c as usize];
        if n.op == Op::Not {
            let x = self.norm_cond(st, n.a);
            return if x == n.a { c } else { self.ar.not(x) };
        }
        if matches!(n.op, Op::And | Op::Or | Op::Xor) && n.w == 1 {
            let (a, b) = (self.norm_cond(st, n.a), self.norm_cond(st, n.b));
            if (a, b) == (n.a, n.b) {
                return c;
            }
            return match n.op {
                Op::And => self.ar.and(a, b),
                Op::Or => self.ar.or(a, b),
                _ => self.ar.bin(Op::Xor, a, b),
            };
        }
        if !matches!(n.op, Op::Eq | Op::Slt | Op::Sle) || self.ar.w(n.a) < 2 || self.ar.w(n.a) > 64 || self.ar.truth(c).is_some() {
            return c;
        }
        let mut memo = HashMap::default();
        let (co, lo, hi) = match self.diff(st, n.a, n.b, &mut memo) {
            Some(d) => d,
            None => return c,
        };
        let yes = self.ar.konst(1, 1);
        let no = self.ar.konst(0, 1);
        let at = match n.op {
            Op::Eq if lo > 0 || hi < 0 => return no,
            Op::Eq if lo == 0 => (true, false),
            Op::Eq if hi == 0 => (false, false),
            Op::Slt if hi < 0 => return yes,
            Op::Slt if lo >= 0 => return no,
            Op::Slt if hi == 0 => (false, true),
            Op::Sle if hi <= 0 => return yes,
            Op::Sle if lo > 0 => return no,
            Op::Sle if lo == 0 => (true, false),
            _ => return c,
        };
        // the form is at its extreme: every atom is at its own
        let mut r = yes;
        for (x, k) in co {
            let g = self.range(st, x, &mut memo);
            let v = if (k > 0) == at.0 { g.0 } else { g.1 };
            let q = self.ar.eqk(x, v);
            r = self.ar.and(r, q);
        }
        if at.1 {
            r = self.ar.not(r)
        }
        r
    }
    /// truth values of a condition on a few assignments that satisfy the path condition:
    /// witnesses that a side is feasible (never used to rule a side out)
    fn by_sample(&mut self, st: &State, c: Id) -> (bool, bool) {
        let mut vs = BTreeSet::new();
        self.ar.vars_of(c, &mut vs);
        for v in &vs {
            if self.ar.vars[*v as usize].1 != 8 {
                return (false, false);
            }
        }
        let multi = vs.iter().any(|v| st.multi.contains(v));
        let mut rest = vec![];
        if multi {
            for p in &st.pc {
                if self.ar.fl[*p as usize] & F_UF != 0 {
                    return (false, false);
                }
                if self.ar.truth(*p).is_none() {
                    rest.push(*p);
                    self.ar.vars_of(*p, &mut vs);
                }
            }
            for v in &vs {
                if self.ar.vars[*v as usize].1 != 8 {
                    return (false, false);
                }
            }
        }
        let (mut t, mut f) = (false, false);
        for k in 0..6 {
            let mut m: Model = Model::new();
            for v in &vs {
                let d = *st.dom.get(v).unwrap_or(&FULL);
                let opts: Vec<u8> = (0..=255u8).filter(|x| d[*x as usize / 64] >> (x % 64) & 1 == 1).collect();
                if opts.is_empty() {
                    return (false, false);
                }
                let x = match k {
                    0 => opts[0],
                    1 => *opts.last().unwrap(),
                    _ => {
                        self.rng ^= self.rng << 13;
                        self.rng ^= self.rng >> 7;
                        self.rng ^= self.rng << 17;
                        opts[(self.rng % opts.len() as u64) as usize]
                    }
                };
                m.insert(*v, x as u128);
            }
            self.ar.begin_eval();
            let env = |v: u32| *m.get(&v).unwrap_or(&0);
            if rest.iter().all(|p| self.ar.eval(*p, &env) == 1) {
                if self.ar.eval(c, &env) == 1 {
                    t = true
                } else {
                    f = true
                }
                if t && f {
                    break;
                }
            }
        }
        (t, f)
    }
    /// a condition settled by what the path already knows about single bytes
    fn quick(&mut self, st: &State, c: Id) -> Option<bool> {
        let n = self.ar.n[c as usize];
        let (base, pol) = if n.op == Op::Not { (n.a, false) } else { (c, true) };
        if let Some(b) = st.known.get(&base) {
            return Some(*b == pol);
        }
        if self.ar.mode == Mode::Real {
            let b = self.ar.n[base as usize];
            if matches!(b.op, Op::FLt | Op::FLe | Op::FEq) {
                if let Some(crate::poly::Cmp::Known(k)) = self.z.alg.cmp(&self.ar, &b) {
                    return Some(k == pol);
                }
            }
        }
        if self.nodomain || self.ar.fl[c as usize] & F_UF != 0 {
            return None;
        }
        let t = self.ar.truth(c)?;
        let d = *st.dom.get(&self.ar.var[c as usize]).unwrap_or(&FULL);
        if b4_empty(&b4_and(&d, &t)) {
            Some(false)
        } else if b4_empty(&b4_andn(&d, &t)) {
            Some(true)
        } else {
            None
        }
    }
    /// exact feasibility of a conjunction of single-byte-variable atoms, if it is one
    fn conj_feasible(&mut self, st: &State, c: Id) -> Option<bool> {
        let mut local: BTreeMap<u32, [u64; 4]> = BTreeMap::new();
        let mut exact = true;
        for x in self.conjuncts(c) {
            match self.ar.truth(x) {
                Some(t) => {
                    let v = self.ar.var[x as usize];
                    if st.multi.contains(&v) {
                        exact = false;
                    }
                    let d = local.entry(v).or_insert_with(|| *st.dom.get(&v).unwrap_or(&FULL));
                    *d = b4_and(d, &t);
                    if b4_empty(d) {
                        return Some(false);
                    }
                }
                None => exact = false,
            }
        }
        if exact {
            Some(true)
        } else {
            None
        }
    }
    /// some disjunct of c is a single-variable atom that can hold
    fn disj_feasible(&mut self, st: &State, c: Id) -> bool {
        let nc = self.ar.not(c);
        for x in self.conjuncts(nc) {
            let y = self.ar.not(x);
            if let Some(t) = self.ar.truth(y) {
                let v = self.ar.var[y as usize];
                if st.multi.contains(&v) {
                    continue;
                }
                let d = st.dom.get(&v).unwrap_or(&FULL);
                if !b4_empty(&b4_and(d, &t)) {
                    return true;
                }
            }
        }
        false
    }
    fn feasible(&mut self, st: &State, c: Id) -> bool {
        let t0 = std::time::Instant::now();
        let (r, _) = self.z.check(&self.ar, &st.pc, Some(c), None);
        if self.debug && t0.elapsed().as_secs_f64() > 0.2 {
            let at: Vec<String> = st.frames.iter().rev().take(3).map(|f| format!("{}:{}:{}", f.f.name, f.blk, f.ip)).collect();
            eprintln!("slow {:.1}s {:?} at {} : {}", t0.elapsed().as_secs_f64(), r == Res::Sat, at.join(" < "), self.ar.show(c, 9));
        }
        match r {
            Res::Sat => true,
            Res::Unsat => false,
            Res::Unknown => {
                // keep the path: over-approximation, counted
                *self.st.notes.entry("branch feasibility unknown: kept".into()).or_insert(0) += 1;
                true
            }
        }
    }
    /// feasible concrete values of an expression
    fn values(&mut self, st: &mut State, e: Id, limit: usize) -> Vec<u128> {
        if let Some(k) = self.ar.as_const(e) {
            return vec![k];
        }
        if let Some(k) = st.pins.get(&e) {
            return vec![*k];
        }
        let v = self.ar.var[e as usize];
        if v != MANY && v != NOVAR && self.ar.fl[e as usize] & F_UF == 0 && self.ar.vars[v as usize].1 == 8 && !st.multi.contains(&v) && !self.nodomain {
            let d = *st.dom.get(&v).unwrap_or(&FULL);
            let t = self.ar.table(e);
            let mut s = BTreeSet::new();
            for (i, x) in t.iter().enumerate() {
                if d[i / 64] >> (i % 64) & 1 == 1 {
                    s.insert(*x);
                }
            }
            self.st.dom_decisions += 1;
            return s.into_iter().collect();
        }
        if self.ar.fl[e as usize] & F_UF != 0 {
            // a choice among constants under conditions the solver interprets
            if let Some(l) = self.leaves(e) {
                let mut out = vec![];
                for k in l {
                    let q = self.ar.eqk(e, k);
                    match self.ar.as_const(q) {
                        Some(0) => continue,
                        Some(_) => return vec![k],
                        None => {}
                    }
                    if self.feasible(st, q) {
                        out.push(k);
                    }
                }
                return out;
            }
        }
        let mut out = vec![];
        let mut pc = st.pc.clone();
        let mut vs = BTreeSet::new();
        self.ar.vars_of(e, &mut vs);
        let vars: Vec<u32> = vs.into_iter().collect();
        loop {
            let (r, m) = self.z.check(&self.ar, &pc, None, Some(&vars));
            match r {
                Res::Unsat => break,
                Res::Unknown => unsup!("unknown while enumerating values"),
                Res::Sat => {
                    let m = m.unwrap();
                    if self.ar.fl[e as usize] & F_UF != 0 {
                        unsup!("enumerating values of an uninterpreted term {}", self.ar.show(e, 4));
                    }
                    self.ar.begin_eval();
                    let k = self.ar.eval(e, &|v| *m.get(&v).unwrap_or(&0));
                    out.push(k);
                    if out.len() > limit {
                        unsup!("more than {} values for {}", limit, self.ar.show(e, 4));
                    }
                    let q = self.ar.eqk(e, k);
                    let nq = self.ar.not(q);
                    pc.push(nq);
                }
            }
        }
        out.sort();
        out
    }
    /// the values a term can take judging by its shape alone
    fn leaves(&mut self, e: Id) -> Option<BTreeSet<u128>> {
        let n = self.ar.n[e as usize];
        if n.op == Op::Const {
            return Some([n.k].into());
        }
        if n.w == 1 {
            return Some([0, 1].into());
        }
        let r: BTreeSet<u128> = match n.op {
            Op::Ite => {
                let mut a = self.leaves(n.b)?;
                a.extend(self.leaves(n.c)?);
                a
            }
            Op::ZExt => self.leaves(n.a)?,
            Op::SExt => {
                let aw = self.ar.w(n.a);
                self.leaves(n.a)?.iter().map(|x| sext(*x, aw) as u128 & mask(n.w)).collect()
            }
            Op::Extract => self.leaves(n.a)?.iter().map(|x| (x >> n.k) & mask(n.w)).collect(),
            Op::Concat => {
                let (a, b) = (self.leaves(n.a)?, self.leaves(n.b)?);
                let bw = self.ar.w(n.b);
                let mut r = BTreeSet::new();
                for x in &a {
                    for y in &b {
                        r.insert((x << bw | y) & mask(n.w));
                    }
                }
                r
            }
            Op::Not => self.leaves(n.a)?.iter().map(|x| !x & mask(n.w)).collect(),
            Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr => {
                let (a, b) = (self.leaves(n.a)?, self.leaves(n.b)?);
                let mut r = BTreeSet::new();
                for x in &a {
                    for y in &b {
                        r.insert(binop(n.op, *x, *y, n.w));
                    }
                }
                r
            }
            _ => return None,
        };
        if r.len() > 64 {
            None
        } else {
            Some(r)
        }
    }
    /// make a value concrete, forking one state per feasible value
    fn concretize(&mut self, st: &mut State, v: &Val, limit: usize) -> u128 {
        match v {
            Val::C(k, _) => *k,
            Val::E(e) if self.ar.w(*e) == 1 && self.ar.fl[*e as usize] & F_UF != 0 => self.fork_bool(st, *e) as u128,
            Val::E(e) => {
                let vals = self.values(st, *e, limit);
                if vals.is_empty() {
                    unsup!("no feasible value");
                }
                for k in vals[1..].iter() {
                    let mut s2 = st.clone();
                    let q = self.ar.eqk(*e, *k);
                    self.add(&mut s2, q);
                    s2.pins.insert(*e, *k);
                    self.work.push(s2);
                    self.forked(st);
                }
                let q = self.ar.eqk(*e, vals[0]);
                if self.ar.as_const(q).is_none() {
                    self.add(st, q);
                }
                st.pins.insert(*e, vals[0]);
                vals[0]
            }
            Val::A(_) => unsup!("concretize aggregate"),
        }
    }

    // ---------- memory ----------
    fn obj<'a>(&'a mut self, st: &'a State, addr: u64) -> (&'a Obj, usize) {
        let top = addr >> OBJ_SHIFT;
        let off = (addr & 0xffff_ffff) as usize;
        if top >= FN_OBJ {
            unsup!("load from function pointer {:#x}", addr);
        }
        if top >= G_OBJ {
            let g = (top - G_OBJ) as u32;
            if let Some(o) = st.globals.get(&g) {
                return (o, off);
            }
            let m = self.m;
            let o = self.g0.entry(g).or_insert_with(|| Rc::new(Obj { bytes: m.globals[g as usize].bytes.clone(), sym: vec![] }));
            return (o, off);
        }
        match st.objs.get(top as usize) {
            Some(Some(o)) => (o, off),
            _ => unsup!("access to dead or invalid object {:#x}", addr),
        }
    }
    fn obj_mut<'a>(&'a mut self, st: &'a mut State, addr: u64) -> (&'a mut Obj, usize) {
        let top = addr >> OBJ_SHIFT;
        let off = (addr & 0xffff_ffff) as usize;
        if top >= FN_OBJ {
            unsup!("store to function pointer");
        }
        if top >= G_OBJ {
            let g = (top - G_OBJ) as u32;
            let m = self.m;
            let o = st.globals.entry(g).or_insert_with(|| Rc::new(Obj { bytes: m.globals[g as usize].bytes.clone(), sym: vec![] }));
            return (Rc::make_mut(o), off);
        }
        match st.objs.get_mut(top as usize) {
            Some(Some(o)) => (Rc::make_mut(o), off),
            _ => unsup!("store to dead or invalid object {:#x}", addr),
        }
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> u64 {
        if n > 1 << 28 {
            unsup!("allocation of {} bytes", n);
        }
        let o = Rc::new(Obj::new(n as usize));
        let id = if let Some(i) = st.free.pop() {
            st.objs[i as usize] = Some(o);
            i
        } else {
            st.objs.push(Some(o));
            st.objs.len() as u32 - 1
        };
        (id as u64) << OBJ_SHIFT
    }
    fn release(&mut self, st: &mut State, addr: u64) {
        let top = addr >> OBJ_SHIFT;
        if top == 0 || top >= G_OBJ {
            unsup!("free of {:#x}", addr);
        }
        if st.objs[top as usize].take().is_none() {
            unsup!("double free");
        }
        st.free.push(top as u32);
    }
    fn load_bits(&mut self, st: &State, addr: u64, n: usize) -> Val {
        let (o, off) = self.obj(st, addr);
        if off + n > o.bytes.len() {
            let l = o.bytes.len();
            unsup!("out-of-bounds load at {:#x}+{} (size {})", addr, n, l);
        }
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            let mut k = 0u128;
            for i in 0..n {
                k |= (o.bytes[off + i] as u128) << (8 * i);
            }
            return Val::C(k, 8 * n as u16);
        }
        let parts: Vec<(u8, Id)> = (0..n).map(|i| (o.bytes[off + i], o.sym[off + i])).collect();
        let mut acc: Option<Id> = None;
        for (b, s) in parts {
            let e = if s == 0 { self.ar.konst(b as u128, 8) } else { s };
            acc = Some(match acc {
                None => e,
                Some(a) => self.ar.concat(e, a),
            });
        }
        self.ar.val(acc.unwrap())
    }
    fn store_bits(&mut self, st: &mut State, addr: u64, v: &Val, n: usize) {
        match v {
            Val::C(k, _) => {
                let (o, off) = self.obj_mut(st, addr);
                if off + n > o.bytes.len() {
                    unsup!("out-of-bounds store at {:#x}", addr);
                }
                for i in 0..n {
                    o.bytes[off + i] = (k >> (8 * i)) as u8;
                }
                if !o.sym.is_empty() {
                    for i in 0..n {
                        o.sym[off + i] = 0;
                    }
                }
            }
            Val::E(e) => {
                let w = self.ar.w(*e);
                let e = if (w as usize) < 8 * n { self.ar.zext(*e, 8 * n as u16) } else { *e };
                let parts: Vec<Id> = (0..n).map(|i| self.ar.piece(e, 8 * i as u16, 8)).collect();
                let ks: Vec<Option<u128>> = parts.iter().map(|p| self.ar.as_const(*p)).collect();
                let (o, off) = self.obj_mut(st, addr);
                if off + n > o.bytes.len() {
                    unsup!("out-of-bounds store at {:#x}", addr);
                }
                if o.sym.is_empty() {
                    o.sym = vec![0; o.bytes.len()];
                }
                for i in 0..n {
                    if let Some(k) = ks[i] {
                        o.bytes[off + i] = k as u8;
                        o.sym[off + i] = 0;
                    } else {
                        o.sym[off + i] = parts[i];
                    }
                }
            }
            Val::A(_) => unreachable!(),
        }
    }
    fn load(&mut self, st: &State, ty: &Ty, addr: u64) -> Val {
        match ty {
            Ty::Struct(f, _) => {
                let v = (0..f.len()).map(|i| self.load(st, &f[i], addr + ty.field_off(i))).collect();
                Val::A(Rc::new(v))
            }
            Ty::Array(t, n) => {
                let s = t.size();
                Val::A(Rc::new((0..*n).map(|i| self.load(st, t, addr + i * s)).collect()))
            }
            Ty::Vector(t, n) => {
                if t.bits() % 8 != 0 {
                    let b = self.load_bits(st, addr, ty.size() as usize);
                    return self.from_bits(&b, ty);
                }
                let s = t.size();
                Val::A(Rc::new((0..*n).map(|i| self.load(st, t, addr + i * s)).collect()))
            }
            _ => {
                let bits = ty.bits();
                let n = ((bits + 7) / 8) as usize;
                let v = self.load_bits(st, addr, n);
                if n as u32 * 8 == bits {
                    v
                } else {
                    self.trunc(&v, bits as u16)
                }
            }
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, addr: u64) {
        match ty {
            Ty::Struct(f, _) => {
                if let Val::A(vs) = v {
                    for i in 0..f.len() {
                        self.store(st, &f[i], &vs[i], addr + ty.field_off(i));
                    }
                }
            }
            Ty::Array(t, n) | Ty::Vector(t, n) => {
                if matches!(ty, Ty::Vector(..)) && t.bits() % 8 != 0 {
                    let b = self.to_bits(v);
                    self.store_bits(st, addr, &b, ty.size() as usize);
                    return;
                }
                if let Val::A(vs) = v {
                    let s = t.size();
                    for i in 0..*n {
                        self.store(st, t, &vs[i as usize], addr + i * s);
                    }
                }
            }
            _ => {
                let n = ((ty.bits() + 7) / 8) as usize;
                self.store_bits(st, addr, v, n);
            }
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) {
        if n == 0 {
            return;
        }
        let (o, off) = self.obj(st, src);
        if off + n > o.bytes.len() {
            unsup!("out-of-bounds memcpy source {:#x}+{}", src, n);
        }
        let b = o.bytes[off..off + n].to_vec();
        let s = if o.sym.is_empty() { vec![] } else { o.sym[off..off + n].to_vec() };
        let (d, off) = self.obj_mut(st, dst);
        if off + n > d.bytes.len() {
            unsup!("out-of-bounds memcpy target");
        }
        d.bytes[off..off + n].copy_from_slice(&b);
        let anys = s.iter().any(|x| *x != 0);
        if anys && d.sym.is_empty() {
            d.sym = vec![0; d.bytes.len()];
        }
        if !d.sym.is_empty() {
            if s.is_empty() {
                for i in 0..n {
                    d.sym[off + i] = 0;
                }
            } else {
                d.sym[off..off + n].copy_from_slice(&s);
            }
        }
    }
    fn byte(&mut self, st: &State, addr: u64) -> Id {
        match self.load_bits(st, addr, 1) {
            Val::C(k, _) => self.ar.konst(k, 8),
            Val::E(e) => e,
            _ => unreachable!(),
        }
    }
    fn cstr(&mut self, st: &State, addr: u64, n: usize) -> String {
        let mut v = vec![];
        for i in 0..n {
            match self.load_bits(st, addr + i as u64, 1) {
                Val::C(k, _) => v.push(k as u8),
                _ => v.push(b'?'),
            }
        }
        String::from_utf8_lossy(&v).to_string()
    }

    // ---------- value helpers ----------
    fn trunc(&mut self, v: &Val, w: u16) -> Val {
        match v {
            Val::C(k, _) => Val::C(k & mask(w), w),
            Val::E(e) => {
                let x = self.ar.extract(*e, 0, w);
                self.ar.val(x)
            }
            Val::A(vs) => {
                let vs = vs.clone();
                Val::A(Rc::new(vs.iter().map(|x| self.trunc(x, w)).collect()))
            }
        }
    }
    fn to_bits(&mut self, v: &Val) -> Val {
        match v {
            Val::A(vs) => {
                let mut acc: Option<Id> = None;
                for x in vs.iter() {
                    let b = self.to_bits(x);
                    let e = self.ar.id(&b);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.ar.concat(e, a),
                    });
                }
                self.ar.val(acc.unwrap())
            }
            x => x.clone(),
        }
    }
    fn from_bits(&mut self, v: &Val, ty: &Ty) -> Val {
        match ty {
            Ty::Vector(t, n) => {
                let w = t.bits() as u16;
                let e = self.ar.id(v);
                let out = (0..*n as u16)
                    .map(|i| {
                        let x = self.ar.extract(e, i * w, w);
                        self.ar.val(x)
                    })
                    .collect();
                Val::A(Rc::new(out))
            }
            _ => {
                let w = ty.bits() as u16;
                if self.ar.vw(v) > w {
                    self.trunc(v, w)
                } else {
                    v.clone()
                }
            }
        }
    }
    fn vbin(&mut self, op: Op, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x, w), Val::C(y, _)) => {
                let rw = if is_cmp(op) { 1 } else { *w };
                Val::C(binop(op, *x, *y, *w), rw)
            }
            (Val::A(x), Val::A(y)) => {
                let (x, y) = (x.clone(), y.clone());
                Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.vbin(op, p, q)).collect()))
            }
            _ => {
                let (x, y) = (self.ar.id(a), self.ar.id(b));
                let r = self.ar.bin(op, x, y);
                self.ar.val(r)
            }
        }
    }
    fn vnot(&mut self, a: &Val) -> Val {
        let x = self.ar.id(a);
        let r = self.ar.not(x);
        self.ar.val(r)
    }
    fn vite(&mut self, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(k, _) => {
                if *k & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::A(cs) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let (cs, x, y) = (cs.clone(), x.clone(), y.clone());
                    Val::A(Rc::new((0..cs.len()).map(|i| self.vite(&cs[i], &x[i], &y[i])).collect()))
                } else {
                    unsup!("vector select")
                }
            }
            Val::E(ce) => match (a, b) {
                (Val::A(x), Val::A(y)) => {
                    let (x, y) = (x.clone(), y.clone());
                    Val::A(Rc::new((0..x.len()).map(|i| self.vite(c, &x[i], &y[i])).collect()))
                }
                _ => {
                    let (x, y) = (self.ar.id(a), self.ar.id(b));
                    let r = self.ar.ite(*ce, x, y);
                    self.ar.val(r)
                }
            },
        }
    }
    fn icmp(&mut self, p: IP, a: &Val, b: &Val) -> Val {
        let (op, sw, neg) = match p {
            IP::Eq => (Op::Eq, false, false),
            IP::Ne => (Op::Eq, false, true),
            IP::Ult => (Op::Ult, false, false),
            IP::Ule => (Op::Ule, false, false),
            IP::Ugt => (Op::Ult, true, false),
            IP::Uge => (Op::Ule, true, false),
            IP::Slt => (Op::Slt, false, false),
            IP::Sle => (Op::Sle, false, false),
            IP::Sgt => (Op::Slt, true, false),
            IP::Sge => (Op::Sle, true, false),
        };
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let (x, y) = (x.clone(), y.clone());
            return Val::A(Rc::new((0..x.len()).map(|i| self.icmp(p, &x[i], &y[i])).collect()));
        }
        let r = if sw { self.vbin(op, b, a) } else { self.vbin(op, a, b) };
        if neg {
            self.vnot(&r)
        } else {
            r
        }
    }
    fn fcmp(&mut self, p: &str, a: &Val, b: &Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let (x, y) = (x.clone(), y.clone());
            return Val::A(Rc::new((0..x.len()).map(|i| self.fcmp(p, &x[i], &y[i])).collect()));
        }
        let (x, y) = (self.ar.id(a), self.ar.id(b));
        let mut f = |op, p, q| self.ar.fcmp(op, p, q);
        let r = match p {
            "false" => return Val::C(0, 1),
            "true" => return Val::C(1, 1),
            "oeq" => f(Op::FEq, x, y),
            "olt" => f(Op::FLt, x, y),
            "ole" => f(Op::FLe, x, y),
            "ogt" => f(Op::FLt, y, x),
            "oge" => f(Op::FLe, y, x),
            "uno" => f(Op::FUno, x, y),
            "ord" => {
                let u = f(Op::FUno, x, y);
                self.ar.not(u)
            }
            "une" => {
                let u = f(Op::FEq, x, y);
                self.ar.not(u)
            }
            // unordered or ...: negation of the opposite ordered comparison
            "ult" => {
                let u = f(Op::FLe, y, x);
                self.ar.not(u)
            }
            "ule" => {
                let u = f(Op::FLt, y, x);
                self.ar.not(u)
            }
            "ugt" => {
                let u = f(Op::FLe, x, y);
                self.ar.not(u)
            }
            "uge" => {
                let u = f(Op::FLt, x, y);
                self.ar.not(u)
            }
            "ueq" => {
                let e = f(Op::FEq, x, y);
                let u = f(Op::FUno, x, y);
                self.ar.or(e, u)
            }
            "one" => {
                let e = f(Op::FEq, x, y);
                let u = f(Op::FUno, x, y);
                let o = self.ar.or(e, u);
                self.ar.not(o)
            }
            _ => unsup!("fcmp {}", p),
        };
        self.ar.val(r)
    }
    fn fbinv(&mut self, st: &mut State, op: Op, a: &Val, b: &Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let (x, y) = (x.clone(), y.clone());
            return Val::A(Rc::new((0..x.len()).map(|i| self.fbinv(st, op, &x[i], &y[i])).collect()));
        }
        let (x, y) = (self.ar.id(a), self.ar.id(b));
        if self.ar.mode == Mode::Real && op == Op::FDiv && !matches!((a, b), (Val::C(..), Val::C(..))) {
            // divisor zero is outside the reals: the result there is an arbitrary value
            let w = self.ar.w(y);
            let z = self.ar.konst(0, w);
            let q = self.ar.fcmp(Op::FEq, y, z);
            let (ct, cf) = self.decide(st, q);
            if ct && cf {
                let mut s2 = st.clone();
                self.add(&mut s2, q);
                self.work.push(s2);
                self.forked(st);
                let nq = self.ar.not(q);
                self.add(st, nq);
            } else if ct {
                st.out_of_model = true;
                return self.arbitrary(w);
            }
        }
        if self.ar.mode == Mode::Real {
            for k in [a, b] {
                if let Val::C(k, w) = k {
                    if !f_of(*k, *w).is_finite() {
                        if let (Val::C(p, w), Val::C(q, _)) = (a, b) {
                            return Val::C(fbin(op, *p, *q, *w), *w);
                        }
                        st.out_of_model = true;
                        return self.arbitrary(*w);
                    }
                }
            }
        }
        let r = self.ar.fbin(op, x, y);
        self.ar.val(r)
    }
    fn arbitrary(&mut self, w: u16) -> Val {
        self.fresh += 1;
        let n = self.fresh;
        let id = self.ar.new_var(format!("arb{}_{}", std::process::id(), n), w, true);
        self.ar.val(id)
    }
    fn funv(&mut self, op: Op, a: &Val) -> Val {
        if let Val::A(x) = a {
            let x = x.clone();
            return Val::A(Rc::new(x.iter().map(|y| self.funv(op, y)).collect()));
        }
        let x = self.ar.id(a);
        let r = self.ar.fun(op, x);
        self.ar.val(r)
    }
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::K(v) => v.clone(),
            Opd::Reg(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                if let Val::E(e) = v {
                    if let Some(k) = st.pins.get(e) {
                        return Val::C(*k, self.ar.w(*e));
                    }
                } else if let Val::C(_, 0) = v {
                    unsup!("use of an unset register");
                }
                v.clone()
            }
        }
    }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[r as usize] = v;
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (r, ins) in &b.phis {
                let o = &ins.iter().find(|(p, _)| *p == from).unwrap_or_else(|| panic!("phi")).1;
                vals.push((*r, self.get(st, o)));
            }
            for (r, v) in vals {
                self.set(st, r, v);
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = to;
        fr.ip = 0;
    }

    // ---------- reporting ----------
    fn inputs_of(&self, st: &State, m: &Model) -> Vec<(u16, bool, u128)> {
        st.inputs
            .iter()
            .map(|v| {
                let (_, w, f) = &self.ar.vars[*v as usize];
                (*w, *f, *m.get(v).unwrap_or(&0))
            })
            .collect()
    }
    fn candidate(&mut self, st: &State, kind: &str, msg: &str, m: &Model) {
        let c = self.cand_count.entry(format!("{}:{}", kind, msg)).or_insert(0);
        *c += 1;
        if *c > self.cand_max {
            return;
        }
        let inputs = self.inputs_of(st, m);
        self.cands.push(Candidate { kind: kind.into(), msg: msg.into(), inputs });
    }
    /// Float operations are uninterpreted in the query, so a model need not be a real run.  Evaluate
    /// it with the machine's floats; where that refutes it, add the true values of the operations at
    /// these arguments to the query and ask again.
    fn confirm(&mut self, st: &State, cond: Option<Id>, m: Model) -> (Res, Option<Model>) {
        let mut roots: Vec<Id> = st.pc.clone();
        roots.extend(cond);
        if self.ar.mode != Mode::Uf || !roots.iter().any(|r| self.ar.fl[*r as usize] & F_FLOAT != 0) || self.refine_fuel == 0 {
            return (Res::Sat, Some(m));
        }
        let mut seen = HashSet::new();
        let mut ops = vec![];
        let mut vars = vec![];
        let mut todo = roots.clone();
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.ar.n[x as usize];
            match n.op {
                Op::Var => vars.push(n.k as u32),
                Op::RVar => return (Res::Sat, Some(m)),
                Op::Uf | Op::Dec | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FConv | Op::SToF | Op::UToF | Op::FToS | Op::FToU => ops.push(x),
                _ => {}
            }
            if n.w > 128 {
                return (Res::Sat, Some(m));
            }
            for k in [n.a, n.b, n.c] {
                if k != 0 {
                    todo.push(k);
                }
            }
        }
        for v in &st.inputs {
            if !vars.contains(v) {
                vars.push(*v);
            }
        }
        ops.sort();
        let mut pc = st.pc.clone();
        // decimal literals of one scale are ordered by their digits, and so are converted integers
        let mut last: Vec<Id> = vec![];
        for x in &ops {
            let n = self.ar.n[*x as usize];
            if n.op != Op::Dec {
                continue;
            }
            for y in last.clone() {
                let k = self.ar.n[y as usize];
                if k.k == n.k && k.w == n.w && self.ar.w(k.a) == self.ar.w(n.a) && pc.len() < st.pc.len() + 40 {
                    for (p, q) in [(y, *x), (*x, y)] {
                        let (pa, qa) = (self.ar.n[p as usize].a, self.ar.n[q as usize].a);
                        let le = self.ar.bin(Op::Ule, pa, qa);
                        let nle = self.ar.not(le);
                        let fle = self.ar.bin(Op::Ule, p, q);
                        let l = self.ar.or(nle, fle);
                        pc.push(l);
                    }
                }
            }
            last.push(*x);
        }
        let mut m = m;
        let mut first = true;
        for _ in 0..24 {
            let env = m.clone();
            if !first || env.len() >= vars.len() {
                let get = |v: u32| *env.get(&v).unwrap_or(&0);
                self.ar.begin_eval();
                if roots.iter().all(|r| self.ar.eval(*r, &get) == 1) {
                    return (Res::Sat, Some(m));
                }
                for x in &ops {
                    let n = self.ar.n[*x as usize];
                    self.ar.begin_eval();
                    let (xa, v) = (self.ar.eval(n.a, &get), self.ar.eval(*x, &get));
                    let ka = self.ar.konst(xa, self.ar.w(n.a));
                    let mut g = self.ar.bin(Op::Eq, n.a, ka);
                    if n.b != 0 {
                        let xb = self.ar.eval(n.b, &get);
                        let kb = self.ar.konst(xb, self.ar.w(n.b));
                        let h = self.ar.bin(Op::Eq, n.b, kb);
                        g = self.ar.and(g, h);
                    }
                    let kv = self.ar.konst(v, n.w);
                    let q = self.ar.bin(Op::Eq, *x, kv);
                    let ng = self.ar.not(g);
                    let l = self.ar.or(ng, q);
                    if self.ar.as_const(l) != Some(1) && !pc.contains(&l) {
                        pc.push(l);
                    }
                }
            }
            first = false;
            self.refine_fuel = self.refine_fuel.saturating_sub(1);
            *self.st.notes.entry("float lemma rounds".into()).or_insert(0) += 1;
            match self.z.check_once(&self.ar, &pc, cond, Some(&vars)) {
                (Res::Sat, Some(x)) => m = x,
                (r, _) => return (r, None),
            }
        }
        *self.st.notes.entry("model not confirmed with machine floats".into()).or_insert(0) += 1;
        (Res::Sat, Some(m))
    }
    fn report_path(&mut self, st: &State, kind: &str, msg: &str) {
        let key = format!("{}:{}", kind, msg);
        if *self.cand_count.get(&key).unwrap_or(&0) >= self.cand_max {
            *self.cand_count.get_mut(&key).unwrap() += 1;
            return;
        }
        let (mut r, mut m) = self.z.check(&self.ar, &st.pc, None, Some(&st.inputs));
        if r == Res::Sat {
            (r, m) = self.confirm(st, None, m.unwrap());
        }
        match r {
            Res::Sat => self.candidate(st, kind, msg, &m.unwrap()),
            Res::Unsat => {
                *self.st.notes.entry("path found infeasible at its end".into()).or_insert(0) += 1;
            }
            Res::Unknown => {
                *self.st.undecided.entry(key).or_insert(0) += 1;
            }
        }
    }
    /// the term with every choice replaced whose condition the path condition settles
    fn resolve(&mut self, st: &State, c: Id) -> Id {
        let mut conds = vec![];
        let mut seen = HashSet::new();
        let mut todo = vec![c];
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.ar.n[x as usize];
            if n.op == Op::Ite && !conds.contains(&n.a) {
                conds.push(n.a);
                if conds.len() > 16 {
                    return c;
                }
            }
            for k in [n.a, n.b, n.c] {
                if k != 0 {
                    todo.push(k);
                }
            }
        }
        let mut known: HashMap<Id, bool> = HashMap::new();
        for k in conds {
            if self.ar.as_const(k).is_some() {
                continue;
            }
            let nk = self.ar.not(k);
            if self.z.check(&self.ar, &st.pc, Some(k), None).0 == Res::Unsat {
                known.insert(k, false);
            } else if self.z.check(&self.ar, &st.pc, Some(nk), None).0 == Res::Unsat {
                known.insert(k, true);
            }
        }
        if known.is_empty() {
            return c;
        }
        let mut memo = HashMap::new();
        self.ar.replace(c, &|i| known.get(&i).cloned(), &mut memo)
    }
    /// x == zext(y): when the low bits agree by algebra, only the high bits of x remain
    fn split_eq(&mut self, st: &State, c: Id) -> Id {
        let n = self.ar.n[c as usize];
        if n.op != Op::Eq {
            return c;
        }
        for (x, z) in [(n.a, n.b), (n.b, n.a)] {
            let nz = self.ar.n[z as usize];
            if nz.op == Op::ZExt && self.ar.w(nz.a) > 1 {
                let (w, k) = (nz.w, self.ar.w(nz.a));
                let lo = self.ar.extract(x, 0, k);
                let q = self.ar.bin(Op::Eq, lo, nz.a);
                if self.ar.as_const(q) == Some(1) || (self.ar.as_const(q).is_none() && self.evident(st, q)) {
                    let hi = self.ar.extract(x, k, w - k);
                    return self.ar.eqk(hi, 0);
                }
            }
        }
        c
    }
    fn assert(&mut self, st: &mut State, c: &Val, msg: &str) {
        *self.st.assert_sites.entry(msg.to_string()).or_insert(0) += 1;
        let c = match c {
            Val::C(1, _) => {
                self.st.asserts_trivial += 1;
                return;
            }
            Val::C(_, _) => {
                self.report_path(st, "assert", msg);
                return;
            }
            Val::E(e) => *e,
            _ => unreachable!(),
        };
        if self.evident(st, c) {
            self.st.asserts_trivial += 1;
            return;
        }
        let c = {
            let r = self.resolve(st, c);
            if r != c && (self.ar.as_const(r) == Some(1) || (self.ar.as_const(r).is_none() && self.evident(st, r))) {
                self.st.asserts_solver += 1;
                return;
            }
            if self.ar.as_const(r).is_some() {
                c
            } else {
                self.split_eq(st, r)
            }
        };
        if self.debug {
            eprintln!("assert {}: {}", msg, self.ar.show(c, 14));
        }
        let nc = self.ar.not(c);
        let inputs = st.inputs.clone();
        let (mut r, mut m) = if self.ar.fl[c as usize] & F_FLOAT != 0 { self.z.check_once(&self.ar, &st.pc, Some(nc), Some(&inputs)) } else { self.z.check(&self.ar, &st.pc, Some(nc), Some(&inputs)) };
        self.st.asserts_solver += 1;
        if r == Res::Sat {
            (r, m) = self.confirm(st, Some(nc), m.unwrap());
        }
        match r {
            Res::Unsat => {}
            Res::Sat => {
                self.candidate(st, "assert", msg, &m.unwrap());
                // continue on the side where it holds, if any
                let (ct, _) = self.decide(st, c);
                if ct {
                    self.add(st, c);
                }
            }
            Res::Unknown => {
                self.st.asserts_unknown += 1;
                *self.st.undecided.entry(format!("assert:{}", msg)).or_insert(0) += 1;
            }
        }
    }

    // ---------- main loop ----------
    pub fn run_state(&mut self, st: &mut State) {
        self.st.paths += 1;
        let start = st.steps;
        loop {
            if st.steps > self.max_steps {
                self.report_path(st, "bound", "step bound exceeded (possible non-termination)");
                break;
            }
            match self.step(st) {
                None => {}
                Some(End::Done) => {
                    self.st.completed += 1;
                    if st.out_of_model {
                        self.st.outside += 1;
                    }
                    // witnesses of a few paths, thinning out, for comparison with a native run
                    if self.samples.len() < 6 && self.st.completed >= self.next_sample {
                        self.next_sample = self.st.completed * 3;
                        let inputs = st.inputs.clone();
                        if let (Res::Sat, Some(m)) = self.z.check(&self.ar, &st.pc, None, Some(&inputs)) {
                            let i = self.inputs_of(st, &m);
                            self.samples.push(i);
                        }
                    }
                    break;
                }
                Some(End::Dead) => break,
            }
        }
        self.st.steps += st.steps - start;
    }

    fn step(&mut self, st: &mut State) -> Option<End> {
        st.steps += 1;
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.blk as usize].insts[fr.ip as usize];
        match inst {
            Inst::Bin(d, op, _, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = match (&x, &y) {
                    (Val::C(p, w), Val::C(q, _)) => Val::C(binop(bop(*op), *p, *q, *w), *w),
                    _ => self.vbin(bop(*op), &x, &y),
                };
                self.set(st, *d, v);
            }
            Inst::ICmp(d, p, _, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.icmp(*p, &x, &y);
                self.set(st, *d, v);
            }
            Inst::FBin(d, op, _, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.fbinv(st, fop(*op), &x, &y);
                self.set(st, *d, v);
            }
            Inst::FNeg(d, _, a) => {
                let x = self.get(st, a);
                let v = self.funv(Op::FNeg, &x);
                self.set(st, *d, v);
            }
            Inst::FCmp(d, p, _, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.fcmp(p, &x, &y);
                self.set(st, *d, v);
            }
            Inst::Select(d, c, a, b) => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let mut v = None;
                if let Val::E(e) = cv {
                    if let Some(k) = self.quick(st, e) {
                        v = Some(if k { x.clone() } else { y.clone() });
                    } else
                    // selects between objects are resolved by forking
                    if let (Val::C(p, 64), Val::C(q, 64)) = (&x, &y) {
                        if p != q && ((p >> 32 != 0 && p >> 32 < 0x8000_0000) || (q >> 32 != 0 && q >> 32 < 0x8000_0000)) {
                            let k = self.fork_bool(st, e);
                            v = Some(if k { x.clone() } else { y.clone() });
                        }
                    }
                }
                let v = match v {
                    Some(v) => v,
                    None => self.vite(&cv, &x, &y),
                };
                self.set(st, *d, v);
            }
            Inst::Cast(d, c, from, to, a) => {
                let x = self.get(st, a);
                let v = self.cast(*c, from, to, &x);
                self.set(st, *d, v);
            }
            Inst::Alloca(d, sz, n) => {
                let nv = self.get(st, n);
                let k = self.concretize(st, &nv, 64);
                let p = self.alloc(st, sz * k as u64);
                st.frames.last_mut().unwrap().allocas.push((p >> OBJ_SHIFT) as u32);
                self.set(st, *d, Val::C(p as u128, 64));
            }
            Inst::Load(d, ty, p) => {
                let pv = self.get(st, p);
                let v = match pv {
                    Val::C(a, _) => self.load(st, ty, a as u64),
                    Val::E(e) => {
                        let vals = self.values(st, e, 300);
                        let mut groups: Vec<(Val, Vec<u128>)> = vec![];
                        for k in vals {
                            let v = self.load(st, ty, k as u64);
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == v) {
                                g.1.push(k);
                            } else {
                                groups.push((v, vec![k]));
                            }
                        }
                        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                        let mut it = groups.into_iter();
                        let mut acc = it.next().unwrap().0;
                        for (v, ks) in it {
                            let mut c = self.ar.konst(0, 1);
                            for k in ks {
                                let q = self.ar.eqk(e, k);
                                c = self.ar.or(c, q);
                            }
                            let cv = self.ar.val(c);
                            acc = self.vite(&cv, &v, &acc);
                        }
                        acc
                    }
                    _ => unreachable!(),
                };
                self.set(st, *d, v);
            }
            Inst::Store(ty, v, p) => {
                let pv = self.get(st, p);
                let a = self.concretize(st, &pv, 64) as u64;
                let x = self.get(st, v);
                self.store(st, ty, &x, a);
            }
            Inst::Gep(d, b, off, dynx) => {
                let bv = self.get(st, b);
                let mut acc = match bv {
                    Val::C(k, _) => Val::C((k as u64).wrapping_add(*off as u64) as u128, 64),
                    v => {
                        let k = Val::C(*off as u64 as u128, 64);
                        self.vbin(Op::Add, &v, &k)
                    }
                };
                for (o, stride, w) in dynx {
                    let i = self.get(st, o);
                    let iv = match i {
                        Val::C(k, w) => Val::C(sext(k, w) as u64 as u128, 64),
                        Val::E(e) => {
                            let x = if *w < 64 { self.ar.sext(e, 64) } else { e };
                            self.ar.val(x)
                        }
                        _ => unsup!("vector gep"),
                    };
                    let s = Val::C(*stride as u64 as u128, 64);
                    let t = self.vbin(Op::Mul, &iv, &s);
                    acc = self.vbin(Op::Add, &acc, &t);
                }
                self.set(st, *d, acc);
            }
            Inst::Br(l) => {
                self.jump(st, *l);
                return None;
            }
            Inst::CondBr(c, a, b) => {
                let cv = self.get(st, c);
                match cv {
                    Val::C(k, _) => {
                        let t = if k & 1 == 1 { *a } else { *b };
                        self.jump(st, t);
                    }
                    Val::E(e) => {
                        let e = self.norm_cond(st, e);
                        let (ct, cf) = self.decide(st, e);
                        if ct && cf {
                            let ne = self.ar.not(e);
                            let mut s2 = st.clone();
                            self.add(&mut s2, ne);
                            self.jump(&mut s2, *b);
                            self.work.push(s2);
                            self.forked(st);
                            self.add(st, e);
                            self.jump(st, *a);
                        } else if ct {
                            self.jump(st, *a);
                        } else {
                            self.jump(st, *b);
                        }
                    }
                    _ => unreachable!(),
                }
                return None;
            }
            Inst::Switch(_, c, def, cases) => {
                let cv = self.get(st, c);
                match cv {
                    Val::C(k, _) => {
                        let t = cases.iter().find(|(v, _)| *v == k).map(|x| x.1).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    Val::E(e) => {
                        let mut targets: BTreeMap<u32, Id> = BTreeMap::new();
                        let mut none = self.ar.konst(1, 1);
                        for (v, l) in cases {
                            let q = self.ar.eqk(e, *v);
                            let nq = self.ar.not(q);
                            none = self.ar.and(none, nq);
                            let old = targets.get(l).cloned();
                            let z = match old {
                                Some(o) => self.ar.or(o, q),
                                None => q,
                            };
                            targets.insert(*l, z);
                        }
                        let old = targets.get(def).cloned();
                        let z = match old {
                            Some(o) => self.ar.or(o, none),
                            None => none,
                        };
                        targets.insert(*def, z);
                        let mut ok = vec![];
                        for (l, q) in targets {
                            let (ct, cf) = self.decide(st, q);
                            if ct {
                                ok.push((l, q));
                                if !cf {
                                    break;
                                }
                            }
                        }
                        if ok.is_empty() {
                            unsup!("switch without feasible target");
                        }
                        for (l, q) in ok[1..].iter() {
                            let mut s2 = st.clone();
                            self.add(&mut s2, *q);
                            self.jump(&mut s2, *l);
                            self.work.push(s2);
                            self.forked(st);
                        }
                        let (l, q) = ok[0];
                        self.add(st, q);
                        self.jump(st, l);
                    }
                    _ => unreachable!(),
                }
                return None;
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    if st.objs[a as usize].take().is_some() {
                        st.free.push(a);
                    }
                }
                if st.frames.is_empty() {
                    return Some(End::Done);
                }
                if let (Some(r), Some(v)) = (fr.ret, v) {
                    self.set(st, r, v);
                }
                st.frames.last_mut().unwrap().ip += 1;
                return None;
            }
            Inst::Unreachable => {
                unsup!("reached 'unreachable' in {}", f.name);
            }
            Inst::ExtractValue(d, a, ix) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => unreachable!(),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::InsertValue(d, _, a, v, ix) => {
                let mut agg = self.get(st, a);
                let x = self.get(st, v);
                fn put(a: &mut Val, ix: &[u32], x: Val) {
                    if let Val::A(r) = a {
                        let r = Rc::make_mut(r);
                        if ix.len() == 1 {
                            r[ix[0] as usize] = x;
                        } else {
                            put(&mut r[ix[0] as usize], &ix[1..], x);
                        }
                    }
                }
                put(&mut agg, ix, x);
                self.set(st, *d, agg);
            }
            Inst::ExtractElement(d, a, i) => {
                let v = self.get(st, a);
                let iv = self.get(st, i);
                let k = self.concretize(st, &iv, 64) as usize;
                let r = match &v {
                    Val::A(x) => x[k].clone(),
                    _ => unreachable!(),
                };
                self.set(st, *d, r);
            }
            Inst::InsertElement(d, a, v, i) => {
                let mut agg = self.get(st, a);
                let iv = self.get(st, i);
                let k = self.concretize(st, &iv, 64) as usize;
                let x = self.get(st, v);
                if let Val::A(r) = &mut agg {
                    Rc::make_mut(r)[k] = x;
                }
                self.set(st, *d, agg);
            }
            Inst::Shuffle(d, a, b, mk) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let (Val::A(x), Val::A(y)) = (x, y) {
                    let n = x.len();
                    let v = mk.iter().map(|i| if (*i as usize) < n { x[*i as usize].clone() } else { y[*i as usize - n].clone() }).collect();
                    self.set(st, *d, Val::A(Rc::new(v)));
                }
            }
            Inst::Freeze(d, a) => {
                let v = self.get(st, a);
                self.set(st, *d, v);
            }
            Inst::AtomicRmw(d, op, ty, p, v) => {
                let pv = self.get(st, p);
                let a = self.concretize(st, &pv, 64) as u64;
                let x = self.get(st, v);
                let old = self.load(st, ty, a);
                let new = match &**op {
                    "xchg" => x,
                    "add" => self.vbin(Op::Add, &old, &x),
                    "sub" => self.vbin(Op::Sub, &old, &x),
                    "and" => self.vbin(Op::And, &old, &x),
                    "or" => self.vbin(Op::Or, &old, &x),
                    o => unsup!("atomicrmw {}", o),
                };
                self.store(st, ty, &new, a);
                self.set(st, *d, old);
            }
            Inst::CmpXchg(d, ty, p, c, n) => {
                let pv = self.get(st, p);
                let a = self.concretize(st, &pv, 64) as u64;
                let (cv, nv) = (self.get(st, c), self.get(st, n));
                let old = self.load(st, ty, a);
                let q = self.icmp(IP::Eq, &old, &cv);
                let k = self.concretize(st, &q, 2);
                if k == 1 {
                    self.store(st, ty, &nv, a);
                }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::C(k, 1)])));
            }
            Inst::Fence => {}
            Inst::Call(d, callee, args, rt) => {
                return self.call(st, *d, callee, args, rt, None);
            }
            Inst::Invoke(d, callee, args, rt, n) => {
                return self.call(st, *d, callee, args, rt, Some(*n));
            }
            Inst::LandingPad(_) | Inst::Resume => unsup!("unwinding"),
            Inst::Unsupported(t) => unsup!("instruction {}", t),
        }
        st.frames.last_mut().unwrap().ip += 1;
        None
    }
    fn forked(&mut self, st: &State) {
        self.st.forks += 1;
        if self.debug {
            if let Some(f) = st.frames.last() {
                let k = format!("fork {} block {}", f.f.name, f.blk);
                *self.st.notes.entry(k).or_insert(0) += 1;
            }
        }
    }
    /// fork on a condition, re-executing the instruction on the other side
    fn fork_bool(&mut self, st: &mut State, e: Id) -> bool {
        let (ct, cf) = self.decide(st, e);
        if ct && cf {
            let ne = self.ar.not(e);
            let mut s2 = st.clone();
            self.add(&mut s2, ne);
            s2.pins.insert(e, 0);
            self.work.push(s2);
            self.forked(st);
            self.add(st, e);
            st.pins.insert(e, 1);
            true
        } else {
            ct
        }
    }

    fn cast(&mut self, c: Cast, from: &Ty, to: &Ty, x: &Val) -> Val {
        if let (Val::A(v), true) = (x, matches!(c, Cast::Trunc | Cast::ZExt | Cast::SExt | Cast::FPTrunc | Cast::FPExt | Cast::FPToUI | Cast::FPToSI | Cast::UIToFP | Cast::SIToFP)) {
            let v = v.clone();
            let (f, t) = match (from, to) {
                (Ty::Vector(f, _), Ty::Vector(t, _)) => (f.clone(), t.clone()),
                _ => unsup!("vector cast"),
            };
            return Val::A(Rc::new(v.iter().map(|e| self.cast(c, &f, &t, e)).collect()));
        }
        match c {
            Cast::Trunc => self.trunc(x, to.bits() as u16),
            Cast::ZExt => match x {
                Val::C(k, _) => Val::C(*k, to.bits() as u16),
                _ => {
                    let e = self.ar.id(x);
                    let r = self.ar.zext(e, to.bits() as u16);
                    self.ar.val(r)
                }
            },
            Cast::SExt => {
                let e = self.ar.id(x);
                let r = self.ar.sext(e, to.bits() as u16);
                self.ar.val(r)
            }
            Cast::PtrToInt => {
                if to.bits() < 64 {
                    self.trunc(x, to.bits() as u16)
                } else {
                    x.clone()
                }
            }
            Cast::IntToPtr => {
                let e = self.ar.id(x);
                let r = self.ar.zext(e, 64);
                self.ar.val(r)
            }
            Cast::BitCast => {
                if matches!(from, Ty::Vector(..)) || matches!(to, Ty::Vector(..)) {
                    let b = self.to_bits(x);
                    self.from_bits(&b, to)
                } else {
                    x.clone()
                }
            }
            Cast::FPTrunc | Cast::FPExt => {
                let e = self.ar.id(x);
                let r = self.ar.conv(Op::FConv, e, to.bits() as u16);
                self.ar.val(r)
            }
            Cast::FPToUI | Cast::FPToSI | Cast::UIToFP | Cast::SIToFP => {
                let e = self.ar.id(x);
                let op = match c {
                    Cast::FPToUI => Op::FToU,
                    Cast::FPToSI => Op::FToS,
                    Cast::UIToFP => Op::UToF,
                    _ => Op::SToF,
                };
                let r = self.ar.conv(op, e, to.bits() as u16);
                self.ar.val(r)
            }
        }
    }

    fn finish_call(&mut self, st: &mut State, d: Option<u32>, v: Option<Val>, cont: Option<u32>) -> Option<End> {
        if let (Some(d), Some(v)) = (d, v) {
            self.set(st, d, v);
        }
        match cont {
            Some(n) => self.jump(st, n),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
        None
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, callee: &Callee, args: &[(Ty, Opd)], rt: &Ty, cont: Option<u32>) -> Option<End> {
        let idx = match callee {
            Callee::Direct(i) => *i,
            Callee::Intrinsic(n) => {
                let n = n.clone();
                let av: Vec<Val> = args.iter().map(|a| self.get(st, &a.1)).collect();
                let tys: Vec<&Ty> = args.iter().map(|a| &a.0).collect();
                if &*n == "llvm.trap" || n.starts_with("llvm.ubsantrap") {
                    return self.panic_end(st, "trap".into());
                }
                let v = self.intrinsic(st, &n, &av, &tys, rt);
                return self.finish_call(st, d, v, cont);
            }
            Callee::Indirect(o) => {
                let v = self.get(st, o);
                let a = self.concretize(st, &v, 64) as u64;
                if a >> OBJ_SHIFT != FN_OBJ {
                    unsup!("indirect call to {:#x}", a);
                }
                (((a & 0xffff_ffff) - 16) / 16) as u32
            }
            Callee::Asm => {
                // empty asm (black_box-like)
                unsup!("inline asm");
            }
        };
        let kind = match self.kinds.get(&idx) {
            Some(b) => *b,
            None => {
                let b = kind_of(&self.m.fn_names[idx as usize]);
                self.kinds.insert(idx, b);
                b
            }
        };
        match kind {
            Kind::Plain => {}
            Kind::Panic => {
                let loc = self.location(st, idx, args);
                return self.panic_end(st, loc);
            }
            Kind::FmtAt(n) => {
                if let Val::C(p, _) = self.get(st, &args[0].1) {
                    if matches!(self.load_bits(st, p as u64, n as usize), Val::E(_)) {
                        return self.finish_call(st, d, Some(Val::C(0, 1)), cont);
                    }
                }
            }
            Kind::FmtStr => {
                if let (Val::C(p, _), Val::C(l, _)) = (self.get(st, &args[0].1), self.get(st, &args[1].1)) {
                    for i in 0..l as u64 {
                        if matches!(self.load_bits(st, p as u64 + i, 1), Val::E(_)) {
                            return self.finish_call(st, d, Some(Val::C(0, 1)), cont);
                        }
                    }
                }
            }
            Kind::FmtVal(n) => {
                if matches!(self.get(st, &args[n as usize].1), Val::E(_)) {
                    return self.finish_call(st, d, Some(Val::C(0, 1)), cont);
                }
            }
            Kind::ParseFloat(w) => {
                let k = if matches!(rt, Ty::Void) { 1 } else { 0 };
                let (pv, lv) = (self.get(st, &args[k].1), self.get(st, &args[k + 1].1));
                let p = self.concretize(st, &pv, 64) as u64;
                let l = self.concretize(st, &lv, 64) as u64;
                let symbolic = (0..l).any(|i| matches!(self.load_bits(st, p + i, 1), Val::E(_)));
                if symbolic {
                    let r = self.parse_float(st, p, l, w);
                    if k == 1 {
                        let out = self.get(st, &args[0].1);
                        let out = self.concretize(st, &out, 64) as u64;
                        match r {
                            Ok(v) => {
                                self.store_bits(st, out, &Val::C(0, 8), 1);
                                self.store_bits(st, out + w as u64 / 8, &v, w as usize / 8);
                            }
                            Err(k) => self.store_bits(st, out, &Val::C(1 | (k as u128) << 8, 16), 2),
                        }
                        return self.finish_call(st, d, None, cont);
                    }
                    let v = match (rt, r) {
                        (Ty::Int(64), Ok(v)) if w == 32 => {
                            let e = self.ar.id(&v);
                            let z = self.ar.konst(0, 32);
                            let c = self.ar.concat(e, z);
                            self.ar.val(c)
                        }
                        (Ty::Int(64), Err(k)) if w == 32 => Val::C(1 | (k as u128) << 8, 64),
                        _ => unsup!("return convention of float parsing: {:?}", rt),
                    };
                    return self.finish_call(st, d, Some(v), cont);
                }
            }
        }
        if let Some(f) = self.m.func(idx) {
            self.funcs.insert(idx);
            if st.frames.len() > 4000 {
                self.report_path(st, "bound", "recursion deeper than 4000 frames");
                return Some(End::Dead);
            }
            let mut regs = vec![Val::C(0, 0); f.nregs as usize];
            for (i, p) in f.params.iter().enumerate() {
                regs[*p as usize] = self.get(st, &args[i].1);
            }
            // position after the call: for invoke, jump first so that ip points at the continuation
            if let Some(n) = cont {
                // record continuation through a jump before entering; phis of the normal
                // destination never use the call's own result in rustc output
                self.jump(st, n);
                let fr = st.frames.last_mut().unwrap();
                fr.ip = fr.ip.wrapping_sub(1);
            }
            st.frames.push(Frame { f, blk: 0, ip: 0, regs, allocas: vec![], ret: d });
            return None;
        }
        let name = match self.ext.get(&idx) {
            Some(n) => n.clone(),
            None => {
                let n = self.m.fn_names[idx as usize].clone();
                self.ext.insert(idx, n.clone());
                n
            }
        };
        let av: Vec<Val> = args.iter().map(|a| self.get(st, &a.1)).collect();
        match self.external(st, &name, &av, rt) {
            Ok(v) => self.finish_call(st, d, v, cont),
            Err(e) => Some(e),
        }
    }
    /// std's decimal-to-float conversion of a text with symbolic characters, as the correctly
    /// rounded value of (integer of the digits) * 10^q; the error kind otherwise
    fn parse_float(&mut self, st: &mut State, p: u64, l: u64, w: u16) -> Result<Val, u8> {
        // classify: afterwards every byte is concrete or known to be a digit
        let mut bs: Vec<Result<u8, Id>> = vec![];
        for i in 0..l {
            match self.load_bits(st, p + i, 1) {
                Val::C(k, _) => bs.push(Ok(k as u8)),
                Val::E(e) => {
                    let lo = self.ar.konst(b'0' as u128, 8);
                    let x = self.ar.bin(Op::Sub, e, lo);
                    let ten = self.ar.konst(10, 8);
                    let isd = self.ar.bin(Op::Ult, x, ten);
                    if self.fork_bool(st, isd) {
                        bs.push(Err(e));
                    } else {
                        let k = self.concretize(st, &Val::E(e), 256);
                        bs.push(Ok(k as u8));
                    }
                }
                _ => unreachable!(),
            }
        }
        // shape: std itself decides on the text with its digits replaced
        let shape: Vec<u8> = bs.iter().map(|b| b.unwrap_or(b'1')).collect();
        let shape = String::from_utf8_lossy(&shape).to_string();
        if shape.is_empty() {
            return Err(0);
        }
        if shape.parse::<f64>().is_err() {
            return Err(1);
        }
        let mut i = 0;
        let neg = bs[0] == Ok(b'-');
        if neg || bs[0] == Ok(b'+') {
            i = 1;
        }
        let low = shape[i..].to_ascii_lowercase();
        if low.starts_with('i') || low.starts_with('n') {
            let d: f64 = shape.parse().unwrap();
            return Ok(Val::C(f_to(d, w), w));
        }
        let mut digits: Vec<Result<u8, Id>> = vec![];
        let mut q = 0i64;
        let mut point = false;
        while i < bs.len() {
            match bs[i] {
                Ok(b'.') => point = true,
                Ok(b'e') | Ok(b'E') => break,
                x => {
                    digits.push(x);
                    if point {
                        q -= 1;
                    }
                }
            }
            i += 1;
        }
        let number = |s: &mut Self, ds: &[Result<u8, Id>]| -> Id {
            let z = ds.iter().take_while(|d| **d == Ok(b'0')).count();
            let ds = &ds[z..];
            if ds.len() > 37 {
                unsup!("float literal of {} significant digits", ds.len());
            }
            let w = if ds.len() > 18 { 128 } else { 64 };
            let mut m = s.ar.konst(0, w);
            let ten = s.ar.konst(10, w);
            for d in ds {
                let e = match d {
                    Ok(b) => s.ar.konst((b - b'0') as u128, w),
                    Err(e) => {
                        let lo = s.ar.konst(b'0' as u128, 8);
                        let x = s.ar.bin(Op::Sub, *e, lo);
                        s.ar.zext(x, w)
                    }
                };
                let t = s.ar.bin(Op::Mul, m, ten);
                m = s.ar.bin(Op::Add, t, e);
            }
            m
        };
        let m = number(self, &digits);
        if i < bs.len() {
            i += 1;
            let mut eneg = false;
            if bs[i] == Ok(b'-') || bs[i] == Ok(b'+') {
                eneg = bs[i] == Ok(b'-');
                i += 1;
            }
            let ed = &bs[i..];
            let e = number(self, ed);
            let big = self.ar.konst(1000, self.ar.w(e));
            let isbig = self.ar.bin(Op::Ult, big, e);
            let v = if self.ar.as_const(isbig) == Some(1) || (self.ar.as_const(isbig).is_none() && ed.len() > 3 && self.fork_bool(st, isbig)) {
                100_000
            } else {
                let mut v = 0;
                for x in ed {
                    let k = match x {
                        Ok(b) => *b as u128,
                        Err(e) => self.concretize(st, &Val::E(*e), 16),
                    };
                    v = v * 10 + (k as i64 - 48);
                }
                v
            };
            q += if eneg { -v } else { v };
        }
        let (top, bot) = if w == 32 { (40, -50) } else { (310, -330) };
        let mut r = if q >= top {
            let z = self.ar.eqk(m, 0);
            let isz = match self.ar.as_const(z) {
                Some(k) => k == 1,
                None => self.fork_bool(st, z),
            };
            self.ar.konst(if isz { 0 } else { f_to(f64::INFINITY, w) }, w)
        } else if q + (digits.len() as i64) < bot {
            self.ar.konst(0, w)
        } else {
            self.ar.dec(m, q, w)
        };
        if neg {
            r = self.ar.fun(Op::FNeg, r);
        }
        Ok(self.ar.val(r))
    }
    fn location(&mut self, st: &State, idx: u32, args: &[(Ty, Opd)]) -> String {
        let name = self.m.fn_names[idx as usize].to_string();
        if let Some((Ty::Ptr, o)) = args.last() {
            if let Val::C(a, _) = self.get(st, o) {
                let a = a as u64;
                let top = a >> OBJ_SHIFT;
                if top >= G_OBJ && top < FN_OBJ {
                    let (o, off) = self.obj(st, a);
                    if off + 24 <= o.bytes.len() {
                        let rd = |p: usize, n: usize| (0..n).fold(0u64, |x, i| x | (o.bytes[off + p + i] as u64) << (8 * i));
                        let (fp, fl, line, col) = (rd(0, 8), rd(8, 8), rd(16, 4), rd(20, 4));
                        if fl < 400 && fp >> OBJ_SHIFT >= G_OBJ && fp >> OBJ_SHIFT < FN_OBJ {
                            let s = self.cstr(st, fp, fl as usize);
                            return format!("panic at {}:{}:{}", s, line, col);
                        }
                    }
                }
            }
        }
        format!("panic in {}", name)
    }
    fn panic_end(&mut self, st: &mut State, loc: String) -> Option<End> {
        if st.panic_ok {
            self.st.panicked_ok += 1;
            *self.st.covers.entry("expected panic".into()).or_insert(0) += 1;
        } else {
            self.report_path(st, "panic", &loc);
        }
        Some(End::Dead)
    }

    fn input(&mut self, st: &mut State, w: u16, float: bool) -> Val {
        let nr = st.inputs.len();
        let v = match self.vmap.get(&(nr, w, float)) {
            Some(v) => *v,
            None => {
                let v = self.ar.vars.len() as u32;
                self.ar.new_var(format!("in{}_{}{}", nr, if float { "f" } else { "b" }, w), w, float);
                self.vmap.insert((nr, w, float), v);
                v
            }
        };
        st.inputs.push(v);
        let id = self.ar.intern_var(v, w, float);
        if w == 8 {
            st.dom.entry(v).or_insert(FULL);
        }
        self.ar.val(id)
    }

    fn external(&mut self, st: &mut State, name: &str, a: &[Val], rt: &Ty) -> Result<Option<Val>, End> {
        let ptr = |k: u64| Some(Val::C(k as u128, 64));
        Ok(match name {
            "malloc" => {
                let n = self.concretize(st, &a[0], 64) as u64;
                ptr(self.alloc(st, n))
            }
            "calloc" => {
                let n = self.concretize(st, &a[0], 64) as u64 * self.concretize(st, &a[1], 64) as u64;
                ptr(self.alloc(st, n))
            }
            "posix_memalign" => {
                let p = self.concretize(st, &a[0], 64) as u64;
                let n = self.concretize(st, &a[2], 64) as u64;
                let q = self.alloc(st, n);
                self.store_bits(st, p, &Val::C(q as u128, 64), 8);
                Some(Val::C(0, 32))
            }
            "aligned_alloc" => {
                let n = self.concretize(st, &a[1], 64) as u64;
                ptr(self.alloc(st, n))
            }
            "realloc" => {
                let p = self.concretize(st, &a[0], 64) as u64;
                let n = self.concretize(st, &a[1], 64) as u64;
                let old = self.obj(st, p).0.bytes.len();
                let q = self.alloc(st, n);
                self.copy(st, q, p, old.min(n as usize));
                self.release(st, p);
                ptr(q)
            }
            "free" => {
                let p = self.concretize(st, &a[0], 64) as u64;
                if p != 0 {
                    self.release(st, p);
                }
                None
            }
            "memcpy" | "memmove" => {
                let n = self.concretize(st, &a[2], 64) as usize;
                let d = self.concretize(st, &a[0], 64) as u64;
                let s = self.concretize(st, &a[1], 64) as u64;
                self.copy(st, d, s, n);
                ptr(d)
            }
            "memcmp" | "bcmp" => {
                let n = self.concretize(st, &a[2], 64) as u64;
                let p = self.concretize(st, &a[0], 64) as u64;
                let q = self.concretize(st, &a[1], 64) as u64;
                if name == "bcmp" {
                    let mut eq = self.ar.konst(1, 1);
                    for i in 0..n {
                        let (x, y) = (self.byte(st, p + i), self.byte(st, q + i));
                        let e = self.ar.bin(Op::Eq, x, y);
                        eq = self.ar.and(eq, e);
                        if self.ar.as_const(eq) == Some(0) {
                            break;
                        }
                    }
                    let ne = self.ar.not(eq);
                    let r = self.ar.zext(ne, 32);
                    Some(self.ar.val(r))
                } else {
                    let mut acc = self.ar.konst(0, 32);
                    for i in (0..n).rev() {
                        let (x, y) = (self.byte(st, p + i), self.byte(st, q + i));
                        let e = self.ar.bin(Op::Eq, x, y);
                        let l = self.ar.bin(Op::Ult, x, y);
                        let m1 = self.ar.konst(u128::MAX, 32);
                        let p1 = self.ar.konst(1, 32);
                        let ne = self.ar.ite(l, m1, p1);
                        acc = self.ar.ite(e, acc, ne);
                    }
                    Some(self.ar.val(acc))
                }
            }
            "strlen" => {
                let p = self.concretize(st, &a[0], 64) as u64;
                let mut n = 0;
                loop {
                    let b = self.load_bits(st, p + n, 1);
                    match b {
                        Val::C(0, _) => break,
                        Val::C(..) => n += 1,
                        _ => unsup!("strlen of symbolic bytes"),
                    }
                }
                ptr(n)
            }
            "powf" | "pow" => Some(self.pow(&a[0], &a[1])),
            "floorf" | "floor" => Some(self.funv(Op::FFloor, &a[0])),
            "ceilf" | "ceil" => Some(self.funv(Op::FCeil, &a[0])),
            "truncf" | "trunc" => Some(self.funv(Op::FTrunc, &a[0])),
            "roundf" | "round" => Some(self.funv(Op::FRound, &a[0])),
            "sqrtf" | "sqrt" => Some(self.funv(Op::FSqrt, &a[0])),
            "fabsf" | "fabs" => Some(self.funv(Op::FAbs, &a[0])),
            "fmaxf" | "fmax" => Some(self.fminmax(true, &a[0], &a[1])),
            "fminf" | "fmin" => Some(self.fminmax(false, &a[0], &a[1])),
            "fmaf" | "fma" => Some(self.fma(st, &a[0], &a[1], &a[2])),
            "sym_bytes" => {
                let p = self.concretize(st, &a[0], 64) as u64;
                let n = self.concretize(st, &a[1], 64) as u64;
                for i in 0..n {
                    let v = self.input(st, 8, false);
                    self.store_bits(st, p + i, &v, 1);
                }
                None
            }
            "sym_u8" => Some(self.input(st, 8, false)),
            "sym_u16" => Some(self.input(st, 16, false)),
            "sym_u32" => Some(self.input(st, 32, false)),
            "sym_u64" => Some(self.input(st, 64, false)),
            "sym_int" => {
                let w = match a[0] {
                    Val::C(k, _) => k as u16,
                    _ => unsup!("symbolic width"),
                };
                let v = self.input(st, w, false);
                let e = self.ar.id(&v);
                let e = if w < 64 { self.ar.sext(e, 64) } else { e };
                Some(self.ar.val(e))
            }
            "sym_f32" => Some(self.input(st, 32, true)),
            "sym_f64" => Some(self.input(st, 64, true)),
            "sym_assume" => {
                let c = self.bool1(&a[0]);
                match c {
                    Val::C(1, _) => {}
                    Val::C(_, _) => {
                        self.st.assumed_away += 1;
                        return Err(End::Dead);
                    }
                    Val::E(e) => {
                        let (ct, _) = self.decide(st, e);
                        if !ct {
                            self.st.assumed_away += 1;
                            return Err(End::Dead);
                        }
                        self.add(st, e);
                    }
                    _ => unreachable!(),
                }
                None
            }
            "sym_assert" => {
                let p = self.concretize(st, &a[1], 4) as u64;
                let n = self.concretize(st, &a[2], 4) as usize;
                let msg = self.cstr(st, p, n);
                let c = self.bool1(&a[0]);
                self.assert(st, &c, &msg);
                None
            }
            "sym_fail" => {
                let p = self.concretize(st, &a[0], 4) as u64;
                let n = self.concretize(st, &a[1], 4) as usize;
                let msg = self.cstr(st, p, n);
                *self.st.assert_sites.entry(msg.clone()).or_insert(0) += 1;
                self.report_path(st, "assert", &msg);
                return Err(End::Dead);
            }
            "sym_cover" => {
                let p = self.concretize(st, &a[0], 4) as u64;
                let n = self.concretize(st, &a[1], 4) as usize;
                let msg = self.cstr(st, p, n);
                *self.st.covers.entry(msg).or_insert(0) += 1;
                None
            }
            "sym_panic_ok" => {
                let c = self.bool1(&a[0]);
                let k = self.concretize(st, &c, 2);
                st.panic_ok = k == 1;
                None
            }
            "sym_is_real" => Some(Val::C((self.ar.mode == Mode::Real) as u128, rt.bits() as u16)),
            "sym_fork" => {
                // split the path on a boolean and return it concrete
                let c = self.bool1(&a[0]);
                let k = self.concretize(st, &c, 2);
                Some(Val::C(k, rt.bits() as u16))
            }
            "sym_concrete" => {
                let k = self.concretize(st, &a[0], 300);
                Some(Val::C(k, rt.bits() as u16))
            }
            "sym_param" => {
                let k = self.concretize(st, &a[0], 4) as u32;
                let dq = self.concretize(st, &a[1], 4) as u64 as i64;
                let dt = self.concretize(st, &a[2], 4) as u64 as i64;
                let v = *self.params.get(&k).unwrap_or(if self.tier == 0 { &dq } else { &dt });
                Some(Val::C(v as u64 as u128, 64))
            }
            // branch-free logic helpers
            "sym_and" | "sym_or" => {
                let (x, y) = (self.bool1(&a[0]), self.bool1(&a[1]));
                let r = self.vbin(if name == "sym_and" { Op::And } else { Op::Or }, &x, &y);
                Some(self.unbool(r, rt))
            }
            "sym_not" => {
                let x = self.bool1(&a[0]);
                let r = self.vnot(&x);
                Some(self.unbool(r, rt))
            }
            "sym_ite64" => {
                let c = self.bool1(&a[0]);
                Some(self.vite(&c, &a[1], &a[2]))
            }
            "sym_close32" | "sym_close64" => {
                let (x, y) = (self.ar.id(&a[0]), self.ar.id(&a[1]));
                let e = self.ar.fcmp(Op::FEq, x, y);
                let near = match (&a[0], &a[1]) {
                    (Val::C(p, w), Val::C(q, _)) if self.params.get(&94) == Some(&1) => {
                        let (p, q, tol) = if *w == 32 { (f32::from_bits(*p as u32) as f64, f32::from_bits(*q as u32) as f64, 1e-5) } else { (f64::from_bits(*p as u64), f64::from_bits(*q as u64), 1e-12) };
                        (p - q).abs() <= tol * p.abs().max(q.abs())
                    }
                    _ => false,
                };
                let r = if near {
                    self.ar.konst(1, 1)
                } else if self.ar.mode == Mode::Real {
                    e
                } else {
                    let (nx, ny) = (self.ar.fcmp(Op::FUno, x, x), self.ar.fcmp(Op::FUno, y, y));
                    let b = self.ar.and(nx, ny);
                    let same = self.ar.bin(Op::Eq, x, y);
                    let o = self.ar.or(e, b);
                    self.ar.or(o, same)
                };
                let v = self.ar.val(r);
                Some(self.unbool(v, rt))
            }
            "sym_print" => {
                eprintln!("sym_print: {:?} {}", a[0], if let Val::E(e) = &a[0] { self.ar.show(*e, 6) } else { String::new() });
                None
            }
            _ => {
                if name.contains("no_alloc_shim_is_unstable") || name.contains("rust_alloc_error_handler_should_panic") {
                    None
                } else {
                    unsup!("external function {} called from {}", name, st.frames.last().unwrap().f.name)
                }
            }
        })
    }
    fn bool1(&mut self, v: &Val) -> Val {
        match v {
            Val::C(k, _) => Val::C(k & 1, 1),
            x => self.trunc(x, 1),
        }
    }
    fn unbool(&mut self, v: Val, rt: &Ty) -> Val {
        let w = rt.bits() as u16;
        match v {
            Val::C(k, _) => Val::C(k, w),
            Val::E(e) => {
                let r = self.ar.zext(e, w);
                self.ar.val(r)
            }
            _ => unreachable!(),
        }
    }
    fn pow(&mut self, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x, 32), Val::C(y, 32)) => Val::C(f32::from_bits(*x as u32).powf(f32::from_bits(*y as u32)).to_bits() as u128, 32),
            (Val::C(x, _), Val::C(y, _)) => Val::C(f64::from_bits(*x as u64).powf(f64::from_bits(*y as u64)).to_bits() as u128, 64),
            _ => {
                let (x, y) = (self.ar.id(a), self.ar.id(b));
                let w = self.ar.w(x);
                let r = self.ar.uf(1, w, x, y);
                self.ar.val(r)
            }
        }
    }
    fn fminmax(&mut self, max: bool, a: &Val, b: &Val) -> Val {
        let (x, y) = (self.ar.id(a), self.ar.id(b));
        let lt = if max { self.ar.fcmp(Op::FLt, x, y) } else { self.ar.fcmp(Op::FLt, y, x) };
        let nx = self.ar.fcmp(Op::FUno, x, x);
        let c = self.ar.or(lt, nx);
        let r = self.ar.ite(c, y, x);
        self.ar.val(r)
    }
    fn fma(&mut self, st: &mut State, a: &Val, b: &Val, c: &Val) -> Val {
        if let (Val::C(x, w), Val::C(y, _), Val::C(z, _)) = (a, b, c) {
            if self.ar.mode != Mode::Real {
                let r = if *w == 32 { f32::from_bits(*x as u32).mul_add(f32::from_bits(*y as u32), f32::from_bits(*z as u32)).to_bits() as u128 } else { f64::from_bits(*x as u64).mul_add(f64::from_bits(*y as u64), f64::from_bits(*z as u64)).to_bits() as u128 };
                return Val::C(r, *w);
            }
        }
        if self.ar.mode == Mode::Real {
            let p = self.fbinv(st, Op::FMul, a, b);
            return self.fbinv(st, Op::FAdd, &p, c);
        }
        unsup!("symbolic fma outside real mode")
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], tys: &[&Ty], rt: &Ty) -> Option<Val> {
        let base = n.strip_prefix("llvm.").unwrap();
        let has = |p: &str| base == p || base.starts_with(&format!("{}.", p));
        if has("lifetime.start") || has("lifetime.end") || has("experimental.noalias.scope.decl") || has("assume") || has("dbg") || has("donothing") || has("prefetch") {
            return None;
        }
        if has("memcpy") || has("memmove") {
            let k = self.concretize(st, &a[2], 64) as usize;
            let d = self.concretize(st, &a[0], 64) as u64;
            let s = self.concretize(st, &a[1], 64) as u64;
            self.copy(st, d, s, k);
            return None;
        }
        if has("memset") {
            let k = self.concretize(st, &a[2], 64) as usize;
            let d = self.concretize(st, &a[0], 64) as u64;
            for i in 0..k {
                self.store_bits(st, d + i as u64, &a[1], 1);
            }
            return None;
        }
        if has("expect") || has("launder.invariant.group") || has("strip.invariant.group") || has("threadlocal.address") || has("ssa.copy") {
            return Some(a[0].clone());
        }
        if has("is.constant") {
            return Some(Val::C(0, 1));
        }
        // element-wise on vectors
        if let (Ty::Vector(et, _), true) = (rt, matches!(a.get(0), Some(Val::A(_)))) {
            let cnt = match &a[0] {
                Val::A(x) => x.len(),
                _ => 0,
            };
            let mut out = vec![];
            for i in 0..cnt {
                let sub: Vec<Val> = a
                    .iter()
                    .map(|v| match v {
                        Val::A(x) => x[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                let r = self.intrinsic(st, n, &sub, tys, et);
                out.push(r.unwrap());
            }
            return Some(Val::A(Rc::new(out)));
        }
        for (p, op) in [("umax", Op::Ult), ("umin", Op::Ult), ("smax", Op::Slt), ("smin", Op::Slt)] {
            if has(p) {
                let c = self.vbin(op, &a[0], &a[1]);
                let mx = p.ends_with("max");
                return Some(if mx { self.vite(&c, &a[1], &a[0]) } else { self.vite(&c, &a[0], &a[1]) });
            }
        }
        if has("ucmp") || has("scmp") {
            let op = if has("ucmp") { Op::Ult } else { Op::Slt };
            let w = rt.bits() as u16;
            let lt = self.vbin(op, &a[0], &a[1]);
            let gt = self.vbin(op, &a[1], &a[0]);
            let t = self.vite(&gt, &Val::C(1, w), &Val::C(0, w));
            return Some(self.vite(&lt, &Val::C(mask(w), w), &t));
        }
        if has("abs") {
            let w = rt.bits() as u16;
            let z = Val::C(0, w);
            let c = self.vbin(Op::Slt, &a[0], &z);
            let ng = self.vbin(Op::Sub, &z, &a[0]);
            return Some(self.vite(&c, &ng, &a[0]));
        }
        if has("usub.sat") {
            let w = rt.bits() as u16;
            let c = self.vbin(Op::Ult, &a[0], &a[1]);
            let s = self.vbin(Op::Sub, &a[0], &a[1]);
            return Some(self.vite(&c, &Val::C(0, w), &s));
        }
        if has("uadd.sat") {
            let w = rt.bits() as u16;
            let s = self.vbin(Op::Add, &a[0], &a[1]);
            let c = self.vbin(Op::Ult, &s, &a[0]);
            return Some(self.vite(&c, &Val::C(mask(w), w), &s));
        }
        if has("sadd.sat") || has("ssub.sat") {
            let w = rt.bits() as u16;
            let (r, o) = self.overflow(st, if has("sadd.sat") { "sadd" } else { "ssub" }, &a[0], &a[1]);
            let neg = self.vbin(Op::Slt, &a[0], &Val::C(0, w));
            let sat = self.vite(&neg, &Val::C(1u128 << (w - 1), w), &Val::C(mask(w - 1), w));
            return Some(self.vite(&o, &sat, &r));
        }
        for p in ["uadd", "usub", "umul", "sadd", "ssub", "smul"] {
            if has(&format!("{}.with.overflow", p)) {
                let (r, o) = self.overflow(st, p, &a[0], &a[1]);
                return Some(Val::A(Rc::new(vec![r, o])));
            }
        }
        if has("fshl") || has("fshr") {
            let w = rt.bits() as u16;
            let k = (self.concretize(st, &a[2], 130) % w as u128) as u16;
            let (hi, lo) = (self.ar.id(&a[0]), self.ar.id(&a[1]));
            let k = if has("fshl") { k } else { w - k };
            let r = if k == 0 {
                hi
            } else if k == w {
                lo
            } else {
                let h = self.ar.extract(hi, 0, w - k);
                let l = self.ar.extract(lo, w - k, k);
                self.ar.concat(h, l)
            };
            return Some(self.ar.val(r));
        }
        if has("ctlz") || has("cttz") || has("ctpop") {
            let w = rt.bits() as u16;
            if let Val::C(k, _) = a[0] {
                let r = if has("ctpop") {
                    k.count_ones()
                } else if k == 0 {
                    w as u32
                } else if has("cttz") {
                    k.trailing_zeros()
                } else {
                    k.leading_zeros() - (128 - w as u32)
                };
                return Some(Val::C(r as u128, w));
            }
            let e = self.ar.id(&a[0]);
            let mut acc = self.ar.konst(if has("ctpop") { 0 } else { w as u128 }, w);
            for i in 0..w {
                let bit = if has("cttz") { w - 1 - i } else { i };
                let b = self.ar.extract(e, bit, 1);
                if has("ctpop") {
                    let z = self.ar.zext(b, w);
                    acc = self.ar.bin(Op::Add, acc, z);
                } else {
                    let k = if has("cttz") { bit } else { w - 1 - bit };
                    let k = self.ar.konst(k as u128, w);
                    acc = self.ar.ite(b, k, acc);
                }
            }
            return Some(self.ar.val(acc));
        }
        if has("bswap") || has("bitreverse") {
            let w = rt.bits() as u16;
            let u = if has("bswap") { 8 } else { 1 };
            let e = self.ar.id(&a[0]);
            let mut acc: Option<Id> = None;
            for i in 0..w / u {
                let b = self.ar.extract(e, i * u, u);
                acc = Some(match acc {
                    None => b,
                    Some(x) => self.ar.concat(x, b),
                });
            }
            return Some(self.ar.val(acc.unwrap()));
        }
        if has("fabs") {
            return Some(self.funv(Op::FAbs, &a[0]));
        }
        if has("sqrt") {
            return Some(self.funv(Op::FSqrt, &a[0]));
        }
        if has("floor") {
            return Some(self.funv(Op::FFloor, &a[0]));
        }
        if has("ceil") {
            return Some(self.funv(Op::FCeil, &a[0]));
        }
        if has("trunc") {
            return Some(self.funv(Op::FTrunc, &a[0]));
        }
        if has("round") {
            return Some(self.funv(Op::FRound, &a[0]));
        }
        if has("pow") {
            return Some(self.pow(&a[0], &a[1]));
        }
        if has("powi") {
            if let (Val::C(x, w), Val::C(y, yw)) = (&a[0], &a[1]) {
                let e = sext(*y, *yw) as i32;
                let r = if *w == 32 { f32::from_bits(*x as u32).powi(e).to_bits() as u128 } else { f64::from_bits(*x as u64).powi(e).to_bits() as u128 };
                return Some(Val::C(r, *w));
            }
            if let Val::C(y, yw) = &a[1] {
                let e = sext(*y, *yw) as i64;
                if e.abs() <= 16 {
                    // the multiplications of compiler-rt's __powisf2
                    let w = self.ar.vw(&a[0]);
                    let one = Val::C(if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 }, w);
                    let (mut b, mut x, mut r) = (e.abs(), a[0].clone(), None);
                    loop {
                        if b & 1 == 1 {
                            r = Some(match r {
                                None => x.clone(),
                                Some(r) => self.fbinv(st, Op::FMul, &r, &x),
                            });
                        }
                        b /= 2;
                        if b == 0 {
                            break;
                        }
                        x = self.fbinv(st, Op::FMul, &x.clone(), &x);
                    }
                    let r = r.unwrap_or(one.clone());
                    return Some(if e < 0 { self.fbinv(st, Op::FDiv, &one, &r) } else { r });
                }
            }
            let (x, y) = (self.ar.id(&a[0]), self.ar.id(&a[1]));
            let w = self.ar.w(x);
            let r = self.ar.uf(2, w, x, y);
            return Some(self.ar.val(r));
        }
        if has("fma") || has("fmuladd") {
            if has("fmuladd") {
                let p = self.fbinv(st, Op::FMul, &a[0], &a[1]);
                return Some(self.fbinv(st, Op::FAdd, &p, &a[2]));
            }
            return Some(self.fma(st, &a[0], &a[1], &a[2]));
        }
        if has("maxnum") || has("maximumnum") {
            return Some(self.fminmax(true, &a[0], &a[1]));
        }
        if has("minnum") || has("minimumnum") {
            return Some(self.fminmax(false, &a[0], &a[1]));
        }
        if has("copysign") {
            if self.ar.mode == Mode::Real {
                let m = self.funv(Op::FAbs, &a[0]);
                let w = self.ar.vw(&a[1]);
                let c = self.fcmp("olt", &a[1], &Val::C(0, w));
                let ng = self.funv(Op::FNeg, &m);
                return Some(self.vite(&c, &ng, &m));
            }
            let w = self.ar.vw(&a[0]);
            let m = self.vbin(Op::And, &a[0], &Val::C(mask(w - 1), w));
            let s = self.vbin(Op::And, &a[1], &Val::C(1u128 << (w - 1), w));
            return Some(self.vbin(Op::Or, &m, &s));
        }
        if has("is.fpclass") {
            let m = match a[1] {
                Val::C(k, _) => k,
                _ => unsup!("is.fpclass of an unknown class"),
            };
            let w = self.ar.vw(&a[0]);
            let z = Val::C(0, w);
            let mut acc = Val::C(0, 1);
            let mut or = |s: &mut Self, c: Val| {
                let t = s.vite(&c, &Val::C(1, 1), &acc);
                acc = t
            };
            if self.ar.mode == Mode::Real {
                // no NaN, infinity or subnormal among the exact numbers
                for (bits, op) in [(0x8u128, "olt"), (0x60, "oeq"), (0x100, "ogt")] {
                    if m & bits != 0 {
                        let c = self.fcmp(op, &a[0], &z);
                        or(self, c);
                    }
                }
                return Some(acc);
            }
            let mant = if w == 32 { 23 } else { 52 };
            let inf = mask(w - 1) & !mask(mant);
            let x = self.vbin(Op::And, &a[0], &Val::C(mask(w - 1), w));
            let neg = self.vbin(Op::Slt, &a[0], &z);
            let pos = self.vnot(&neg);
            let min = 1u128 << mant;
            let quiet = inf | 1u128 << (mant - 1);
            // lowest and highest magnitude of each class
            let classes = [
                (0x1u128, inf + 1, quiet - 1, None),
                (0x2, quiet, mask(w - 1), None),
                (0x4, inf, inf, Some(true)),
                (0x8, min, inf - 1, Some(true)),
                (0x10, 1, min - 1, Some(true)),
                (0x20, 0, 0, Some(true)),
                (0x40, 0, 0, Some(false)),
                (0x80, 1, min - 1, Some(false)),
                (0x100, min, inf - 1, Some(false)),
                (0x200, inf, inf, Some(false)),
            ];
            for (bit, lo, hi, sign) in classes {
                if m & bit == 0 {
                    continue;
                }
                let l = self.vbin(Op::Ule, &Val::C(lo, w), &x);
                let h = self.vbin(Op::Ule, &x, &Val::C(hi, w));
                let f = Val::C(0, 1);
                let mut c = self.vite(&l, &h, &f);
                if let Some(s) = sign {
                    c = self.vite(if s { &neg } else { &pos }, &c, &f);
                }
                or(self, c);
            }
            return Some(acc);
        }
        if has("fptosi.sat") || has("fptoui.sat") {
            let e = self.ar.id(&a[0]);
            let r = self.ar.conv(if has("fptosi.sat") { Op::FToS } else { Op::FToU }, e, rt.bits() as u16);
            return Some(self.ar.val(r));
        }
        if base.starts_with("vector.reduce.") {
            if let Val::A(v) = &a[0] {
                let v = v.clone();
                let op = base.split('.').nth(2).unwrap();
                let mut acc = v[0].clone();
                for x in v[1..].iter() {
                    acc = match op {
                        "add" => self.vbin(Op::Add, &acc, x),
                        "and" => self.vbin(Op::And, &acc, x),
                        "or" => self.vbin(Op::Or, &acc, x),
                        "xor" => self.vbin(Op::Xor, &acc, x),
                        "umax" | "umin" | "smax" | "smin" => {
                            let c = self.vbin(if op.starts_with('u') { Op::Ult } else { Op::Slt }, &acc, x);
                            if op.ends_with("max") {
                                self.vite(&c, x, &acc)
                            } else {
                                self.vite(&c, &acc, x)
                            }
                        }
                        _ => unsup!("reduce {}", op),
                    };
                }
                return Some(acc);
            }
        }
        let _ = tys;
        unsup!("intrinsic {}", n)
    }
    /// bounds of the signed value
    fn srange(&mut self, st: &State, e: Id, memo: &mut HashMap<Id, (i128, i128), BuildFx>) -> (i128, i128) {
        let n = self.ar.n[e as usize];
        if n.w > 64 {
            return (i128::MIN / 4, i128::MAX / 4);
        }
        if n.op == Op::Const {
            let k = sext(n.k, n.w);
            return (k, k);
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let h = 1i128 << (n.w - 1);
        let full = (-h, h - 1);
        let fit = |r: (i128, i128)| if r.0 >= -h && r.1 < h { r } else { full };
        let r = match n.op {
            Op::SExt => self.srange(st, n.a, memo),
            Op::ZExt | Op::Var => {
                let r = self.range(st, e, &mut HashMap::default());
                if r.1 < h as u128 {
                    (r.0 as i128, r.1 as i128)
                } else {
                    full
                }
            }
            Op::Add => {
                let (a, b) = (self.srange(st, n.a, memo), self.srange(st, n.b, memo));
                fit((a.0 + b.0, a.1 + b.1))
            }
            Op::Sub => {
                let (a, b) = (self.srange(st, n.a, memo), self.srange(st, n.b, memo));
                fit((a.0 - b.1, a.1 - b.0))
            }
            Op::Mul => {
                let (a, b) = (self.srange(st, n.a, memo), self.srange(st, n.b, memo));
                let p = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                fit((*p.iter().min().unwrap(), *p.iter().max().unwrap()))
            }
            Op::Ite => {
                let (a, b) = (self.srange(st, n.b, memo), self.srange(st, n.c, memo));
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => full,
        };
        memo.insert(e, r);
        r
    }
    fn overflow(&mut self, st: &State, p: &str, a: &Val, b: &Val) -> (Val, Val) {
        let op = match &p[1..] {
            "add" => Op::Add,
            "sub" => Op::Sub,
            _ => Op::Mul,
        };
        let signed = p.starts_with('s');
        let r = self.vbin(op, a, b);
        let w = self.ar.vw(a);
        if let (Val::C(x, _), Val::C(y, _)) = (a, b) {
            let o = if signed {
                let (x, y) = (sext(*x, w), sext(*y, w));
                let t = match op {
                    Op::Add => x.checked_add(y),
                    Op::Sub => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                t.map_or(true, |t| sext(t as u128 & mask(w), w) != t)
            } else {
                let t = match op {
                    Op::Add => x.checked_add(*y),
                    Op::Sub => x.checked_sub(*y),
                    _ => x.checked_mul(*y),
                };
                t.map_or(true, |t| t & mask(w) != t)
            };
            return (r, Val::C(o as u128, 1));
        }
        if signed && w <= 64 && !self.nodomain {
            let (x, y) = (self.ar.id(a), self.ar.id(b));
            let mut memo = HashMap::default();
            let (x, y) = (self.srange(st, x, &mut memo), self.srange(st, y, &mut memo));
            let (lo, hi) = match op {
                Op::Add => (x.0 + y.0, x.1 + y.1),
                Op::Sub => (x.0 - y.1, x.1 - y.0),
                _ => {
                    let p = [x.0 * y.0, x.0 * y.1, x.1 * y.0, x.1 * y.1];
                    (*p.iter().min().unwrap(), *p.iter().max().unwrap())
                }
            };
            let h = 1i128 << (w - 1);
            if lo >= -h && hi < h {
                return (r, Val::C(0, 1));
            }
        }
        let o = match (op, signed) {
            (Op::Add, false) => self.vbin(Op::Ult, &r, a),
            (Op::Sub, false) => self.vbin(Op::Ult, a, b),
            (Op::Mul, false) => {
                let (k, x) = match (a, b) {
                    (Val::C(k, _), x) | (x, Val::C(k, _)) => (Some(*k), x.clone()),
                    _ => (None, a.clone()),
                };
                match k {
                    Some(0) => Val::C(0, 1),
                    Some(k) => {
                        let lim = Val::C(mask(w) / k, w);
                        self.vbin(Op::Ult, &lim, &x)
                    }
                    None => {
                        if w > 64 {
                            unsup!("umul.overflow i{}", w);
                        }
                        let (x, y) = (self.ar.id(a), self.ar.id(b));
                        let (x, y) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                        let m = self.ar.bin(Op::Mul, x, y);
                        let h = self.ar.extract(m, w, w);
                        let z = self.ar.eqk(h, 0);
                        let nz = self.ar.not(z);
                        self.ar.val(nz)
                    }
                }
            }
            (Op::Mul, true) => {
                if w > 64 {
                    unsup!("smul.overflow i{}", w);
                }
                let kx = match (a, b) {
                    (Val::C(k, _), x) | (x, Val::C(k, _)) => Some((sext(*k, w), x.clone())),
                    _ => None,
                };
                if let Some((k, x)) = kx {
                    if k > 0 {
                        let hi = Val::C(mask(w - 1) / k as u128, w);
                        let lo = Val::C((-(1i128 << (w - 1)) / k) as u128 & mask(w), w);
                        let o1 = self.vbin(Op::Slt, &hi, &x);
                        let o2 = self.vbin(Op::Slt, &x, &lo);
                        let o = self.vbin(Op::Or, &o1, &o2);
                        return (r, o);
                    }
                }
                let (x, y) = (self.ar.id(a), self.ar.id(b));
                let (x, y) = (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w));
                let m = self.ar.bin(Op::Mul, x, y);
                let l = self.ar.extract(m, 0, w);
                let s = self.ar.sext(l, 2 * w);
                let e = self.ar.bin(Op::Eq, s, m);
                let ne = self.ar.not(e);
                self.ar.val(ne)
            }
            (_, true) => {
                if w > 126 {
                    unsup!("s{:?}.overflow i{}", op, w);
                }
                // sign tests: add overflows iff operands agree in sign and the result does not
                let z = Val::C(0, w);
                let sa = self.vbin(Op::Slt, a, &z);
                let sb = self.vbin(Op::Slt, b, &z);
                let sr = self.vbin(Op::Slt, &r, &z);
                let d1 = self.vbin(Op::Xor, &sa, &sr);
                let d2 = if op == Op::Add { self.vbin(Op::Xor, &sb, &sr) } else { self.vbin(Op::Xor, &sa, &sb) };
                self.vbin(Op::And, &d1, &d2)
            }
            _ => unreachable!(),
        };
        (r, o)
    }
}
