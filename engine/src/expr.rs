//! Hash-consed bit-vector / float expressions with local rewriting.
//!
//! Booleans are 1-bit vectors.  Float operations are nodes over the bit patterns; how they are
//! interpreted (IEEE theory, uninterpreted, exact reals) is decided when they are translated for
//! the solver (z3.rs).  Rewriting must be valid in every mode the node can be used in.
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u128, u16),
    E(Id),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    RVar, // float variable in real mode (opaque as bits)
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    // floats (operands are bit patterns, w is the result width)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FNeg,
    FAbs,
    FSqrt,
    FFloor,
    FCeil,
    FTrunc,
    FRound,
    FLt,
    FLe,
    FEq,
    FUno,
    FConv, // float width conversion
    SToF,
    UToF,
    FToS, // saturating float -> int
    FToU,
    Dec, // decimal literal: a (unsigned integer) times ten to the power k (as i64), rounded to nearest
    Uf, // uninterpreted, k selects the function
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

pub const NOVAR: u32 = u32::MAX;
pub const MANY: u32 = u32::MAX - 1;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Fp,
    Uf,
    Real,
}

pub const F_FLOAT: u8 = 1; // contains float arithmetic (not plain BV)
pub const F_UF: u8 = 2; // contains something that has no evaluation

pub struct Arena {
    pub n: Vec<Node>,
    pub var: Vec<u32>,
    pub fl: Vec<u8>,
    map: HashMap<Node, Id, BuildFx>,
    pub vars: Vec<(String, u16, bool)>, // name, width, is float
    pub mode: Mode,
    tt: HashMap<Id, Option<Rc<[u64; 4]>>>,
    pub nosimp: bool,
    ev_gen: u32,
    ev: Vec<(u32, u128)>,
}

#[derive(Clone, Default)]
pub struct Fx(u64);
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
    fn write_i64(&mut self, x: i64) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

fn commut(op: Op) -> bool {
    matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FAdd | Op::FMul | Op::FEq)
}

/// f32/f64 helpers on bit patterns.
pub fn f_of(v: u128, w: u16) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
pub fn f_to(d: f64, w: u16) -> u128 {
    if w == 32 {
        (d as f32).to_bits() as u128
    } else {
        d.to_bits() as u128
    }
}
pub fn fbin(op: Op, a: u128, b: u128, w: u16) -> u128 {
    if w == 32 {
        let x = f32::from_bits(a as u32);
        let y = f32::from_bits(b as u32);
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    } else {
        let x = f64::from_bits(a as u64);
        let y = f64::from_bits(b as u64);
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    }
}
pub fn fun(op: Op, a: u128, w: u16) -> u128 {
    match op {
        Op::FNeg => return a ^ (1u128 << (w - 1)),
        Op::FAbs => return a & mask(w - 1),
        _ => {}
    }
    macro_rules! go {
        ($x:expr) => {{
            let x = $x;
            match op {
                Op::FSqrt => x.sqrt(),
                Op::FFloor => x.floor(),
                Op::FCeil => x.ceil(),
                Op::FTrunc => x.trunc(),
                Op::FRound => x.round(),
                _ => unreachable!(),
            }
        }};
    }
    if w == 32 {
        go!(f32::from_bits(a as u32)).to_bits() as u128
    } else {
        go!(f64::from_bits(a as u64)).to_bits() as u128
    }
}

pub fn binop(op: Op, x: u128, y: u128, w: u16) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u128 & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128 & m
            }
        }
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            (sext(x, w) >> s) as u128 & m
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!("binop {:?}", op),
    }
}

pub fn fcmp(op: Op, x: u128, y: u128, w: u16) -> bool {
    let (a, b) = (f_of(x, w), f_of(y, w));
    match op {
        Op::FLt => a < b,
        Op::FLe => a <= b,
        Op::FEq => a == b,
        Op::FUno => a.is_nan() || b.is_nan(),
        _ => unreachable!(),
    }
}

fn ftoi(op: Op, v: u128, fw: u16, w: u16) -> u128 {
    let d = f_of(v, fw);
    if d.is_nan() {
        return 0;
    }
    let m = mask(w);
    if op == Op::FToU {
        let r = d as u128;
        if r > m {
            m
        } else {
            r
        }
    } else {
        let r = d as i128;
        let hi = (m >> 1) as i128;
        let lo = -hi - 1;
        (r.max(lo).min(hi)) as u128 & m
    }
}
fn itof(op: Op, v: u128, iw: u16, w: u16) -> u128 {
    if op == Op::UToF {
        if w == 32 {
            (v as f32).to_bits() as u128
        } else {
            (v as f64).to_bits() as u128
        }
    } else {
        let s = sext(v, iw);
        if w == 32 {
            (s as f32).to_bits() as u128
        } else {
            (s as f64).to_bits() as u128
        }
    }
}
fn fconv(v: u128, fw: u16, w: u16) -> u128 {
    if fw == w {
        return v;
    }
    if w == 64 {
        (f32::from_bits(v as u32) as f64).to_bits() as u128
    } else {
        (f64::from_bits(v as u64) as f32).to_bits() as u128
    }
}

pub fn dec_bits(m: u128, q: i64, w: u16) -> u128 {
    let t = format!("{}e{}", m, q);
    if w == 32 {
        t.parse::<f32>().unwrap().to_bits() as u128
    } else {
        t.parse::<f64>().unwrap().to_bits() as u128
    }
}
fn dec_exact(m: u128, q: i64, w: u16) -> bool {
    let d = f_of(dec_bits(m, q, w), w);
    if q < 0 {
        if q < -20 {
            return false;
        }
        match (d.abs() < 1e20, 10u128.checked_pow(-q as u32)) {
            (true, Some(p)) => {
                // d * 10^-q == m exactly, with d = x / 2^s
                let mut x = d;
                let mut s = 0u32;
                while x.fract() != 0.0 && s < 40 {
                    x *= 2.0;
                    s += 1;
                }
                x.fract() == 0.0 && x < 1e18 && (x as u128).checked_mul(p).map_or(false, |l| m.checked_shl(s).map_or(false, |r| r >> s == m && l == r))
            }
            _ => false,
        }
    } else {
        match 10u128.checked_pow(q.min(100) as u32).and_then(|p| p.checked_mul(m)) {
            Some(v) => d < 1e38 && d as u128 == v,
            None => false,
        }
    }
}

impl Arena {
    pub fn new(mode: Mode) -> Arena {
        let mut a = Arena {
            n: vec![],
            var: vec![],
            fl: vec![],
            map: HashMap::default(),
            vars: vec![],
            mode,
            tt: HashMap::new(),
            nosimp: false,
            ev_gen: 0,
            ev: vec![],
        };
        // id 0 is reserved (means "no expression")
        a.n.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        a.var.push(NOVAR);
        a.fl.push(0);
        a
    }
    fn mk(&mut self, n: Node) -> Id {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let i = self.n.len() as Id;
        self.map.insert(n, i);
        let mut var = NOVAR;
        let mut fl = 0u8;
        match n.op {
            Op::Const => {}
            Op::Var => var = n.k as u32,
            Op::RVar => {
                var = MANY;
                fl = F_UF | F_FLOAT
            }
            _ => {
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        fl |= self.fl[x as usize];
                        let v = self.var[x as usize];
                        if v != NOVAR {
                            if var == NOVAR {
                                var = v
                            } else if var != v {
                                var = MANY
                            }
                        }
                    }
                }
                if n.op as u8 >= Op::FAdd as u8 {
                    fl |= F_FLOAT;
                    if n.op == Op::Uf || n.op == Op::Dec && self.mode == Mode::Fp || self.mode == Mode::Real {
                        fl |= F_UF;
                    }
                    if self.mode == Mode::Uf && !matches!(n.op, Op::FNeg | Op::FAbs | Op::FLt | Op::FLe | Op::FEq | Op::FUno) {
                        fl |= F_UF;
                    }
                }
            }
        }
        self.n.push(n);
        self.var.push(var);
        self.fl.push(fl);
        i
    }
    pub fn w(&self, i: Id) -> u16 {
        self.n[i as usize].w
    }
    pub fn konst(&mut self, k: u128, w: u16) -> Id {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn new_var(&mut self, name: String, w: u16, float: bool) -> Id {
        let k = self.vars.len() as u128;
        self.vars.push((name, w, float));
        let op = if float && self.mode == Mode::Real { Op::RVar } else { Op::Var };
        self.mk(Node { op, w, a: 0, b: 0, c: 0, k })
    }
    pub fn intern_var(&mut self, v: u32, w: u16, float: bool) -> Id {
        let op = if float && self.mode == Mode::Real { Op::RVar } else { Op::Var };
        self.mk(Node { op, w, a: 0, b: 0, c: 0, k: v as u128 })
    }
    pub fn as_const(&self, i: Id) -> Option<u128> {
        let n = &self.n[i as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn id(&mut self, v: &Val) -> Id {
        match v {
            Val::C(k, w) => self.konst(*k, *w),
            Val::E(i) => *i,
            Val::A(_) => panic!("id of aggregate"),
        }
    }
    pub fn val(&self, i: Id) -> Val {
        let n = &self.n[i as usize];
        if n.op == Op::Const {
            Val::C(n.k, n.w)
        } else {
            Val::E(i)
        }
    }
    pub fn vw(&self, v: &Val) -> u16 {
        match v {
            Val::C(_, w) => *w,
            Val::E(i) => self.w(*i),
            Val::A(_) => panic!("vw"),
        }
    }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        let rw = if is_cmp(op) { 1 } else { w };
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = binop(op, x, y, w);
            return self.konst(r, rw);
        }
        let (mut a, mut b, mut ca, mut cb) = (a, b, ca, cb);
        if self.nosimp {
            return self.mk(Node { op, w: rw, a, b, c: 0, k: 0 });
        }
        // canonical order: constants on the right, then by id
        if commut(op) && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(0, w),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return self.konst(1, 1),
                Op::Ult | Op::Slt => return self.konst(0, 1),
                _ => {}
            }
        }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if let Some(y) = cb {
            match op {
                Op::Add => {
                    if y == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(z) = self.as_const(na.b) {
                            let k = self.konst(y.wrapping_add(z), w);
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                }
                Op::Sub => {
                    let k = self.konst((y.wrapping_neg()) & m, w);
                    return self.bin(Op::Add, a, k);
                }
                Op::Mul => {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, k);
                    }
                }
                Op::UDiv => {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, k);
                    }
                }
                Op::URem => {
                    if y == 1 {
                        return self.konst(0, w);
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(y - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                }
                Op::Shl => {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(0, w);
                    }
                    let lo = self.extract(a, 0, w - y as u16);
                    let z = self.konst(0, y as u16);
                    return self.concat(lo, z);
                }
                Op::LShr => {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(0, w);
                    }
                    let hi = self.extract(a, y as u16, w - y as u16);
                    return self.zext(hi, w);
                }
                Op::AShr => {
                    if y == 0 {
                        return a;
                    }
                    let s = y.min(w as u128 - 1) as u16;
                    let hi = self.extract(a, s, w - s);
                    return self.sext(hi, w);
                }
                Op::And => {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    if na.op == Op::And {
                        if let Some(z) = self.as_const(na.b) {
                            let k = self.konst(y & z, w);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    // low mask -> zext(extract)
                    if (y + 1).is_power_of_two() {
                        let k = (y + 1).trailing_zeros() as u16;
                        let e = self.extract(a, 0, k);
                        return self.zext(e, w);
                    }
                    // high mask on contiguous bits
                    let tz = y.trailing_zeros() as u16;
                    let top = 128 - y.leading_zeros() as u16;
                    if tz > 0 && (y >> tz).wrapping_add(1).is_power_of_two() {
                        let e = self.extract(a, tz, top - tz);
                        let z = self.konst(0, tz);
                        let c = self.concat(e, z);
                        return self.zext(c, w);
                    }
                }
                Op::Or => {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
                Op::Xor => {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return self.not(a);
                    }
                    if na.op == Op::Xor {
                        if let Some(z) = self.as_const(na.b) {
                            let k = self.konst(y ^ z, w);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                }
                Op::Eq => {
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let wi = self.w(na.a);
                            if y > mask(wi) {
                                return self.konst(0, 1);
                            }
                            let k = self.konst(y, wi);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let wi = self.w(na.a);
                            let k = y & mask(wi);
                            if (sext(k, wi) as u128) & m != y {
                                return self.konst(0, 1);
                            }
                            let k = self.konst(k, wi);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Concat => {
                            let wl = self.w(na.b);
                            let wh = self.w(na.a);
                            let kl = self.konst(y, wl);
                            let kh = self.konst(y >> wl, wh);
                            let e1 = self.bin(Op::Eq, na.b, kl);
                            let e2 = self.bin(Op::Eq, na.a, kh);
                            return self.and(e1, e2);
                        }
                        Op::Add => {
                            if let Some(z) = self.as_const(na.b) {
                                let k = self.konst(y.wrapping_sub(z), w);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(z) = self.as_const(na.b) {
                                let k = self.konst(y ^ z, w);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Not => {
                            let k = self.konst(!y, w);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Ite => {
                            if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() {
                                let e1 = self.bin(Op::Eq, na.b, b);
                                let e2 = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, e1, e2);
                            }
                        }
                        _ => {}
                    }
                }
                Op::Ult => {
                    if y == 0 {
                        return self.konst(0, 1);
                    }
                    if y == 1 {
                        let z = self.konst(0, w);
                        return self.bin(Op::Eq, a, z);
                    }
                    if na.op == Op::ZExt {
                        let wi = self.w(na.a);
                        if y > mask(wi) {
                            return self.konst(1, 1);
                        }
                        let k = self.konst(y, wi);
                        return self.bin(Op::Ult, na.a, k);
                    }
                    if na.op == Op::Ite && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
                        let e1 = self.bin(op, na.b, b);
                        let e2 = self.bin(op, na.c, b);
                        return self.ite(na.a, e1, e2);
                    }
                }
                Op::Ule => {
                    if y == m {
                        return self.konst(1, 1);
                    }
                    let k = self.konst(y + 1, w);
                    return self.bin(Op::Ult, a, k);
                }
                Op::Slt | Op::Sle => {
                    if na.op == Op::ZExt && self.w(na.a) < w {
                        if sext(y, w) < 0 {
                            return self.konst(0, 1);
                        }
                        let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                        return self.bin(o, a, b);
                    }
                    if na.op == Op::Ite && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
                        let e1 = self.bin(op, na.b, b);
                        let e2 = self.bin(op, na.c, b);
                        return self.ite(na.a, e1, e2);
                    }
                }
                _ => {}
            }
        }
        if let Some(x) = ca {
            match op {
                Op::Ult => {
                    // x < b  <=>  !(b < x+1)
                    if x == m {
                        return self.konst(0, 1);
                    }
                    let k = self.konst(x + 1, w);
                    let e = self.bin(Op::Ult, b, k);
                    return self.not(e);
                }
                Op::Ule => {
                    // x <= b <=> !(b < x)
                    let e = self.bin(Op::Ult, b, a);
                    return self.not(e);
                }
                Op::Slt | Op::Sle => {
                    if nb.op == Op::ZExt && self.w(nb.a) < w {
                        if sext(x, w) < 0 {
                            return self.konst(1, 1);
                        }
                        let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                        return self.bin(o, a, b);
                    }
                    if nb.op == Op::Ite && (self.as_const(nb.b).is_some() || self.as_const(nb.c).is_some()) {
                        let e1 = self.bin(op, a, nb.b);
                        let e2 = self.bin(op, a, nb.c);
                        return self.ite(nb.a, e1, e2);
                    }
                }
                Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem if x == 0 && op != Op::UDiv && op != Op::URem => {
                    return a;
                }
                _ => {}
            }
        }
        match op {
            Op::And | Op::Or if w == 1 => {
                // a & !a
                if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                    return self.konst((op == Op::Or) as u128, 1);
                }
                // absorption with one level
                if (nb.op == op && (nb.a == a || nb.b == a)) || (na.op == op && (na.a == b || na.b == b)) {
                    return if nb.op == op && (nb.a == a || nb.b == a) { b } else { a };
                }
            }
            Op::Or => {
                // disjoint concat patterns: zext(x) | (y ++ 0)
                if let Some(r) = self.or_concat(a, b) {
                    return r;
                }
            }
            Op::Add => {
                if let Some(r) = self.or_concat(a, b) {
                    return r;
                }
                // (x - y) + y
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
                // (x + k) + y -> (x + y) + k
                if na.op == Op::Add {
                    if self.as_const(na.b).is_some() {
                        let s = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                }
                if nb.op == Op::Add {
                    if self.as_const(nb.b).is_some() {
                        let s = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, s, nb.b);
                    }
                }
            }
            Op::Sub => {
                // (x + k) - y
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
                if na.op == Op::Add && self.as_const(na.b).is_some() {
                    let s = self.bin(Op::Sub, na.a, b);
                    return self.bin(Op::Add, s, na.b);
                }
                if nb.op == Op::Add {
                    if let Some(z) = self.as_const(nb.b) {
                        let s = self.bin(Op::Sub, a, nb.a);
                        let k = self.konst(z.wrapping_neg() & m, w);
                        return self.bin(Op::Add, s, k);
                    }
                }
            }
            Op::Eq => {
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if w == 1 && ((na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a)) {
                    return self.konst(0, 1);
                }
            }
            Op::Ult | Op::Ule => {
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
                if op == Op::Ule {
                    let e = self.bin(Op::Ult, b, a);
                    return self.not(e);
                }
            }
            Op::Sle => {
                let e = self.bin(Op::Slt, b, a);
                return self.not(e);
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    fn or_concat(&mut self, a: Id, b: Id) -> Option<Id> {
        // zext(lo) op concat(hi, 0..): merge when bit ranges are disjoint
        for (x, y) in [(a, b), (b, a)] {
            let nx = self.n[x as usize];
            if nx.op != Op::ZExt {
                continue;
            }
            let wl = self.w(nx.a);
            let ny = self.n[y as usize];
            // y = concat(hi, const 0 of width >= wl)
            let (hi, zw, outer) = if ny.op == Op::Concat && self.as_const(ny.b) == Some(0) {
                (ny.a, self.w(ny.b), None)
            } else if ny.op == Op::ZExt {
                let ni = self.n[ny.a as usize];
                if ni.op == Op::Concat && self.as_const(ni.b) == Some(0) {
                    (ni.a, self.w(ni.b), Some(ny.w))
                } else {
                    continue;
                }
            } else {
                continue;
            };
            if zw < wl {
                continue;
            }
            let lo = self.zext(nx.a, zw);
            let c = self.concat(hi, lo);
            return Some(match outer {
                Some(w) => self.zext(c, w),
                None => c,
            });
        }
        None
    }
    pub fn not(&mut self, a: Id) -> Id {
        let n = self.n[a as usize];
        if n.op == Op::Const {
            return self.konst(!n.k, n.w);
        }
        if !self.nosimp {
            if n.op == Op::Not {
                return n.a;
            }
            if n.op == Op::Ite && n.w == 1 && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) {
                let x = self.not(n.b);
                let y = self.not(n.c);
                return self.ite(n.a, x, y);
            }
        }
        self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 })
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::Or, a, b)
    }
    pub fn eqk(&mut self, a: Id, k: u128) -> Id {
        let w = self.w(a);
        let k = self.konst(k, w);
        self.bin(Op::Eq, a, k)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if !self.nosimp {
            if a == b {
                return a;
            }
            let nc = self.n[c as usize];
            if nc.op == Op::Not {
                return self.ite(nc.a, b, a);
            }
            if w == 1 {
                match (self.as_const(a), self.as_const(b)) {
                    (Some(1), Some(0)) => return c,
                    (Some(0), Some(1)) => return self.not(c),
                    (Some(1), _) => return self.or(c, b),
                    (Some(0), _) => {
                        let n = self.not(c);
                        return self.and(n, b);
                    }
                    (_, Some(1)) => {
                        let n = self.not(c);
                        return self.or(n, a);
                    }
                    (_, Some(0)) => return self.and(c, a),
                    _ => {}
                }
            }
            let na = self.n[a as usize];
            if na.op == Op::Ite && na.a == c {
                return self.ite(c, na.b, b);
            }
            let nb = self.n[b as usize];
            if nb.op == Op::Ite && nb.a == c {
                return self.ite(c, a, nb.c);
            }
            // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
            if nb.op == Op::Ite && nb.b == a {
                let cd = self.or(c, nb.a);
                return self.ite(cd, a, nb.c);
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        assert!(w <= 256, "concat too wide");
        if w > 128 {
            return self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 });
        }
        if let (Some(h), Some(l)) = (self.as_const(hi), self.as_const(lo)) {
            return self.konst((h << wl) | l, w);
        }
        if !self.nosimp {
            let nh = self.n[hi as usize];
            let nl = self.n[lo as usize];
            if self.as_const(hi) == Some(0) {
                return self.zext(lo, w);
            }
            if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
                return self.extract(nh.a, nl.k as u16, w);
            }
            // lo is the low part of a concat chain: concat(extract hi.., concat(extract next, ..))
            if nl.op == Op::Concat && nh.op == Op::Extract {
                let nla = self.n[nl.a as usize];
                if nla.op == Op::Extract && nla.a == nh.a && nh.k == nla.k + nla.w as u128 {
                    let t = self.concat(hi, nl.a);
                    return self.concat(t, nl.b);
                }
            }
            if nl.op == Op::Concat {
                if let (Some(_), Some(_)) = (self.as_const(hi), self.as_const(nl.a)) {
                    let t = self.concat(hi, nl.a);
                    return self.concat(t, nl.b);
                }
            }
            if nl.op == Op::ZExt && self.as_const(hi).is_some() {
                let wi = self.w(nl.a);
                let z = self.konst(0, nl.w - wi);
                let t = self.concat(hi, z);
                return self.concat(t, nl.a);
            }
            // low bits simplified on their own
            if nh.op == Op::Extract && nh.k >= wl as u128 && nl.op != Op::Extract && nl.op != Op::Concat {
                let lo0 = self.extract(nh.a, nh.k as u16 - wl, wl);
                if lo0 == lo {
                    return self.extract(nh.a, nh.k as u16 - wl, w);
                }
            }
            if nh.op == Op::SExt && self.w(nh.a) > 1 {
                let t = self.concat(nh.a, lo);
                return self.sext(t, w);
            }
            // copies of the sign bit above a value: a sign extension
            if nh.op == Op::SExt && self.w(nh.a) == 1 {
                let m = self.extract(lo, wl - 1, 1);
                if m == nh.a {
                    return self.sext(lo, w);
                }
            }
            if nh.op == Op::ZExt {
                let t = self.concat(nh.a, lo);
                return self.zext(t, w);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: Id, lo: u16, w: u16) -> Id {
        let n = self.n[a as usize];
        debug_assert!(lo + w <= n.w);
        if lo == 0 && w == n.w {
            return a;
        }
        if n.op == Op::Const {
            return self.konst(n.k >> lo, w);
        }
        if !self.nosimp || n.w > 128 {
            match n.op {
                Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
                Op::Concat => {
                    let wl = self.w(n.b);
                    if lo >= wl {
                        return self.extract(n.a, lo - wl, w);
                    }
                    if lo + w <= wl {
                        return self.extract(n.b, lo, w);
                    }
                    let l = self.extract(n.b, lo, wl - lo);
                    let h = self.extract(n.a, 0, lo + w - wl);
                    return self.concat(h, l);
                }
                Op::ZExt => {
                    let wi = self.w(n.a);
                    if lo >= wi {
                        return self.konst(0, w);
                    }
                    if lo + w <= wi {
                        return self.extract(n.a, lo, w);
                    }
                    let e = self.extract(n.a, lo, wi - lo);
                    return self.zext(e, w);
                }
                Op::SExt => {
                    let wi = self.w(n.a);
                    if lo + w <= wi {
                        return self.extract(n.a, lo, w);
                    }
                    if lo < wi {
                        let e = self.extract(n.a, lo, wi - lo);
                        return self.sext(e, w);
                    }
                    let e = self.extract(n.a, wi - 1, 1);
                    return self.sext(e, w);
                }
                Op::And | Op::Or | Op::Xor => {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
                Op::Not => {
                    let x = self.extract(n.a, lo, w);
                    return self.not(x);
                }
                Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    return self.bin(n.op, x, y);
                }
                Op::Ite if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() => {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
                _ => {}
            }
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    /// like extract, but keeps arithmetic whole so that the pieces can be joined again
    pub fn piece(&mut self, a: Id, lo: u16, w: u16) -> Id {
        let n = self.n[a as usize];
        if lo == 0 && w == n.w || self.nosimp || n.w > 128 {
            return self.extract(a, lo, w);
        }
        match n.op {
            Op::Extract => self.piece(n.a, lo + n.k as u16, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    self.piece(n.a, lo - wl, w)
                } else if lo + w <= wl {
                    self.piece(n.b, lo, w)
                } else {
                    self.extract(a, lo, w)
                }
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    self.piece(n.a, lo, w)
                } else {
                    self.extract(a, lo, w)
                }
            }
            Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Not | Op::Ite => self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 }),
            _ => self.extract(a, lo, w),
        }
    }
    pub fn zext(&mut self, a: Id, w: u16) -> Id {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        if n.op == Op::Const {
            return self.konst(n.k, w);
        }
        if !self.nosimp {
            if n.op == Op::ZExt {
                return self.zext(n.a, w);
            }
            if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) && n.w > 1 {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: Id, w: u16) -> Id {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        if n.op == Op::Const {
            return self.konst(sext(n.k, n.w) as u128, w);
        }
        if !self.nosimp {
            if n.op == Op::SExt {
                return self.sext(n.a, w);
            }
            if n.op == Op::ZExt {
                return self.zext(n.a, w);
            }
            if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) && n.w > 1 {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                return self.ite(n.a, x, y);
            }
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }

    // ---- floats ----
    fn exact_fold(&self, op: Op, x: u128, y: u128, w: u16) -> Option<u128> {
        // real mode: fold only when the rounded result is the exact one
        let r = fbin(op, x, y, w);
        let (a, b, c) = (f_of(x, w), f_of(y, w), f_of(r, w));
        if !(a.is_finite() && b.is_finite() && c.is_finite()) {
            return None;
        }
        let ok = match op {
            Op::FAdd | Op::FSub => {
                // 2Sum: exact iff the error term is zero
                let b2 = if op == Op::FSub { -b } else { b };
                let s = a + b2;
                let bb = s - a;
                let e = (a - (s - bb)) + (b2 - bb);
                e == 0.0 && s == c
            }
            Op::FMul => {
                let s = a * b;
                s == c && a.mul_add(b, -s) == 0.0 && (s != 0.0 || a == 0.0 || b == 0.0) && (s == 0.0 || s.abs() > 1e-150)
            }
            Op::FDiv => b != 0.0 && c.mul_add(b, -a) == 0.0 && (c == 0.0 || c.abs() > 1e-30) && a.abs() < 1e30,
            _ => false,
        };
        if ok {
            Some(r)
        } else {
            None
        }
    }
    pub fn fbin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if self.mode == Mode::Real {
                if let Some(r) = self.exact_fold(op, x, y, w) {
                    return self.konst(r, w);
                }
            } else {
                let r = fbin(op, x, y, w);
                return self.konst(r, w);
            }
        }
        let one = f_to(1.0, w);
        if self.mode == Mode::Real {
            let z = |c: Option<u128>| c.map_or(false, |x| f_of(x, w) == 0.0);
            match op {
                Op::FAdd => {
                    if z(ca) {
                        return b;
                    }
                    if z(cb) {
                        return a;
                    }
                }
                Op::FSub => {
                    if z(cb) {
                        return a;
                    }
                    if a == b {
                        return self.konst(0, w);
                    }
                    if z(ca) {
                        return self.fun(Op::FNeg, b);
                    }
                }
                Op::FMul => {
                    if z(ca) || z(cb) {
                        return self.konst(0, w);
                    }
                    if ca == Some(one) {
                        return b;
                    }
                    if cb == Some(one) {
                        return a;
                    }
                }
                Op::FDiv => {
                    if z(ca) {
                        return a;
                    }
                    if cb == Some(one) {
                        return a;
                    }
                }
                _ => {}
            }
        } else {
            // valid for every IEEE value up to the payload of a NaN
            if op == Op::FMul {
                if ca == Some(one) {
                    return b;
                }
                if cb == Some(one) {
                    return a;
                }
            }
            if op == Op::FDiv && cb == Some(one) {
                return a;
            }
            if op == Op::FSub {
                let nb = self.fun(Op::FNeg, b);
                return self.fbin(Op::FAdd, a, nb);
            }
            // (-x)*y -> -(x*y), (-x)/y -> -(x/y): sign-exact except for NaN payloads
            if op == Op::FMul || op == Op::FDiv {
                let na = self.n[a as usize];
                let nb = self.n[b as usize];
                if na.op == Op::FNeg {
                    let r = self.fbin(op, na.a, b);
                    return self.fun(Op::FNeg, r);
                }
                if nb.op == Op::FNeg {
                    let r = self.fbin(op, a, nb.a);
                    return self.fun(Op::FNeg, r);
                }
            }
        }
        let (mut a, mut b) = (a, b);
        if commut(op) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    pub fn fun(&mut self, op: Op, a: Id) -> Id {
        let n = self.n[a as usize];
        if n.op == Op::Const {
            if self.mode == Mode::Real && op == Op::FSqrt {
                let x = f_of(n.k, n.w);
                let r = x.sqrt();
                if x >= 0.0 && r * r == x && f_of(f_to(r, n.w), n.w) == r && (r as f32) as f64 == r {
                    return self.konst(f_to(r, n.w), n.w);
                }
            } else {
                return self.konst(fun(op, n.k, n.w), n.w);
            }
        }
        match (op, n.op) {
            (Op::FNeg, Op::FNeg) => return n.a,
            (Op::FAbs, Op::FAbs) => return a,
            (Op::FAbs, Op::FNeg) => return self.fun(Op::FAbs, n.a),
            (Op::FNeg, Op::FSub) if self.mode == Mode::Real => return self.fbin(Op::FSub, n.b, n.a),
            _ => {}
        }
        self.mk(Node { op, w: n.w, a, b: 0, c: 0, k: 0 })
    }
    pub fn fcmp(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = fcmp(op, x, y, w);
            return self.konst(r as u128, 1);
        }
        if self.mode == Mode::Real {
            if op == Op::FUno {
                let bad = |s: &Self, i: Id| s.as_const(i).map_or(false, |k| f_of(k, w).is_nan());
                let r = bad(self, a) || bad(self, b);
                return self.konst(r as u128, 1);
            }
            for (i, first) in [(a, true), (b, false)] {
                if let Some(k) = self.as_const(i) {
                    let f = f_of(k, w);
                    if f.is_nan() {
                        return self.konst(0, 1);
                    }
                    if f.is_infinite() {
                        // the other side is finite
                        let r = match op {
                            Op::FEq => false,
                            _ => {
                                if first {
                                    f < 0.0
                                } else {
                                    f > 0.0
                                }
                            }
                        };
                        return self.konst(r as u128, 1);
                    }
                }
            }
            if a == b {
                return self.konst((op != Op::FLt) as u128, 1);
            }
        } else {
            if a == b {
                match op {
                    Op::FLt => return self.konst(0, 1),
                    Op::FEq | Op::FLe => {
                        let u = self.fcmp(Op::FUno, a, b);
                        return self.not(u);
                    }
                    _ => {}
                }
            }
            if op == Op::FUno {
                // each side separately
                if a != b {
                    if let Some(k) = self.as_const(a) {
                        if f_of(k, w).is_nan() {
                            return self.konst(1, 1);
                        }
                        return self.fcmp(Op::FUno, b, b);
                    }
                    if let Some(k) = self.as_const(b) {
                        if f_of(k, w).is_nan() {
                            return self.konst(1, 1);
                        }
                        return self.fcmp(Op::FUno, a, a);
                    }
                    let x = self.fcmp(Op::FUno, a, a);
                    let y = self.fcmp(Op::FUno, b, b);
                    return self.or(x, y);
                }
                let n = self.n[a as usize];
                if matches!(n.op, Op::FNeg | Op::FAbs) {
                    return self.fcmp(Op::FUno, n.a, n.a);
                }
                if matches!(n.op, Op::SToF | Op::UToF | Op::Dec) {
                    return self.konst(0, 1);
                }
            }
        }
        let (mut a, mut b) = (a, b);
        if commut(op) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Node { op, w: 1, a, b, c: 0, k: 0 })
    }
    /// FConv / SToF / UToF / FToS / FToU
    pub fn conv(&mut self, op: Op, a: Id, w: u16) -> Id {
        let n = self.n[a as usize];
        if n.op == Op::Const {
            let r = match op {
                Op::FConv => {
                    let r = fconv(n.k, n.w, w);
                    if self.mode == Mode::Real && w < n.w && fconv(r, w, n.w) != n.k {
                        return self.mk(Node { op, w, a, b: 0, c: 0, k: 0 });
                    }
                    r
                }
                Op::SToF | Op::UToF => itof(op, n.k, n.w, w),
                _ => ftoi(op, n.k, n.w, w),
            };
            return self.konst(r, w);
        }
        if op == Op::FConv && n.op == Op::FConv && self.w(n.a) == w && (n.w == 64 || self.mode == Mode::Real) {
            return n.a;
        }
        // an integer small enough converts exactly at either precision
        if op == Op::FConv && matches!(n.op, Op::SToF | Op::UToF) && self.mode == Mode::Uf && self.w(n.a) >= 32 && self.w(n.a) <= 64 && w != n.w {
            let iw = self.w(n.a);
            let direct = self.conv(n.op, n.a, w);
            if w == 64 {
                let lim = 1u128 << 24;
                let hi = self.konst(lim, iw);
                let c = if n.op == Op::UToF {
                    self.bin(Op::Ule, n.a, hi)
                } else {
                    let lo = self.konst((1u128 << iw) - lim, iw);
                    let (p, q) = (self.bin(Op::Sle, lo, n.a), self.bin(Op::Sle, n.a, hi));
                    self.and(p, q)
                };
                let raw = self.mk(Node { op, w, a, b: 0, c: 0, k: 0 });
                return self.ite(c, direct, raw);
            }
        }
        self.mk(Node { op, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn uf(&mut self, k: u128, w: u16, a: Id, b: Id) -> Id {
        self.mk(Node { op: Op::Uf, w, a, b, c: 0, k })
    }

    /// m * 10^q rounded to a float of width w
    pub fn dec(&mut self, m: Id, q: i64, w: u16) -> Id {
        if let Some(k) = self.as_const(m) {
            let b = dec_bits(k, q, w);
            if self.mode != Mode::Real || k == 0 || dec_exact(k, q, w) {
                return self.konst(b, w);
            }
        }
        self.mk(Node { op: Op::Dec, w, a: m, b: 0, c: 0, k: q as u64 as u128 })
    }

    // ---- evaluation ----
    /// rebuild a term with given conditions replaced by their truth values
    pub fn replace(&mut self, i: Id, known: &dyn Fn(Id) -> Option<bool>, memo: &mut HashMap<Id, Id>) -> Id {
        if let Some(r) = memo.get(&i) {
            return *r;
        }
        let n = self.n[i as usize];
        let r = match n.op {
            Op::Const | Op::Var | Op::RVar => i,
            _ => {
                if let Some(b) = known(i) {
                    let r = self.konst(b as u128, 1);
                    memo.insert(i, r);
                    return r;
                }
                let a = if n.a != 0 { self.replace(n.a, known, memo) } else { 0 };
                let b = if n.b != 0 { self.replace(n.b, known, memo) } else { 0 };
                let c = if n.c != 0 { self.replace(n.c, known, memo) } else { 0 };
                if a == n.a && b == n.b && c == n.c {
                    i
                } else {
                    match n.op {
                        Op::Not => self.not(a),
                        Op::Ite => self.ite(a, b, c),
                        Op::Concat => self.concat(a, b),
                        Op::Extract => self.extract(a, n.k as u16, n.w),
                        Op::ZExt => self.zext(a, n.w),
                        Op::SExt => self.sext(a, n.w),
                        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => self.fbin(n.op, a, b),
                        Op::FNeg | Op::FAbs | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound => self.fun(n.op, a),
                        Op::FLt | Op::FLe | Op::FEq | Op::FUno => self.fcmp(n.op, a, b),
                        Op::FConv | Op::SToF | Op::UToF | Op::FToS | Op::FToU => self.conv(n.op, a, n.w),
                        Op::Dec => self.dec(a, n.k as i64, n.w),
                        Op::Uf => self.uf(n.k, n.w, a, b),
                        _ => self.bin(n.op, a, b),
                    }
                }
            }
        };
        memo.insert(i, r);
        r
    }
    pub fn begin_eval(&mut self) {
        self.ev_gen += 1;
        if self.ev.len() < self.n.len() {
            let n = self.n.len() + 1024;
            self.ev.resize(n, (0, 0));
        }
    }
    /// Evaluate under an assignment (call begin_eval first for a new assignment).
    pub fn eval(&mut self, i: Id, env: &dyn Fn(u32) -> u128) -> u128 {
        let n = self.n[i as usize];
        if n.op == Op::Const {
            return n.k;
        }
        if n.op == Op::Var {
            return env(n.k as u32) & mask(n.w);
        }
        if self.ev[i as usize].0 == self.ev_gen {
            return self.ev[i as usize].1;
        }
        let r = match n.op {
            Op::Ite => {
                if self.eval(n.a, env) == 1 {
                    self.eval(n.b, env)
                } else {
                    self.eval(n.c, env)
                }
            }
            Op::Not => !self.eval(n.a, env) & mask(n.w),
            Op::Concat => {
                let wl = self.w(n.b);
                (self.eval(n.a, env) << wl) | self.eval(n.b, env)
            }
            Op::Extract => {
                if self.w(n.a) > 128 {
                    panic!("eval of wide extract");
                }
                (self.eval(n.a, env) >> n.k) & mask(n.w)
            }
            Op::ZExt => self.eval(n.a, env),
            Op::SExt => sext(self.eval(n.a, env), self.w(n.a)) as u128 & mask(n.w),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                let x = self.eval(n.a, env);
                let y = self.eval(n.b, env);
                fbin(n.op, x, y, n.w)
            }
            Op::FNeg | Op::FAbs | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound => {
                let x = self.eval(n.a, env);
                fun(n.op, x, n.w)
            }
            Op::FLt | Op::FLe | Op::FEq | Op::FUno => {
                let x = self.eval(n.a, env);
                let y = self.eval(n.b, env);
                fcmp(n.op, x, y, self.w(n.a)) as u128
            }
            Op::FConv => fconv(self.eval(n.a, env), self.w(n.a), n.w),
            Op::SToF | Op::UToF => itof(n.op, self.eval(n.a, env), self.w(n.a), n.w),
            Op::FToS | Op::FToU => ftoi(n.op, self.eval(n.a, env), self.w(n.a), n.w),
            Op::Dec => dec_bits(self.eval(n.a, env), n.k as i64, n.w),
            Op::Uf => {
                let x = self.eval(n.a, env);
                let y = self.eval(n.b, env);
                match (n.k, n.w) {
                    (1, 32) => f32::from_bits(x as u32).powf(f32::from_bits(y as u32)).to_bits() as u128,
                    (1, _) => f64::from_bits(x as u64).powf(f64::from_bits(y as u64)).to_bits() as u128,
                    (_, 32) => f32::from_bits(x as u32).powi(y as u32 as i32).to_bits() as u128,
                    _ => f64::from_bits(x as u64).powi(y as u32 as i32).to_bits() as u128,
                }
            }
            Op::RVar => panic!("eval of uninterpreted"),
            _ => {
                let x = self.eval(n.a, env);
                let y = self.eval(n.b, env);
                binop(n.op, x, y, self.w(n.a))
            }
        };
        self.ev[i as usize] = (self.ev_gen, r);
        r
    }
    /// For an expression over one 8-bit variable: its value for each of the 256 assignments.
    pub fn table(&mut self, i: Id) -> Vec<u128> {
        (0..256u32)
            .map(|v| {
                self.begin_eval();
                self.eval(i, &|_| v as u128)
            })
            .collect()
    }
    /// Truth table of a condition over exactly one 8-bit variable.
    pub fn truth(&mut self, i: Id) -> Option<Rc<[u64; 4]>> {
        let v = self.var[i as usize];
        if v == NOVAR || v == MANY || self.vars[v as usize].1 != 8 || self.fl[i as usize] & F_UF != 0 {
            return None;
        }
        if let Some(t) = self.tt.get(&i) {
            return t.clone();
        }
        let t = self.table(i);
        let mut b = [0u64; 4];
        for (j, x) in t.iter().enumerate() {
            if *x == 1 {
                b[j / 64] |= 1 << (j % 64);
            }
        }
        let r = Some(Rc::new(b));
        self.tt.insert(i, r.clone());
        r
    }
    pub fn vars_of(&self, i: Id, out: &mut std::collections::BTreeSet<u32>) {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![i];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let v = self.var[x as usize];
            if v == NOVAR {
                continue;
            }
            let n = &self.n[x as usize];
            if n.op == Op::Var || n.op == Op::RVar {
                out.insert(n.k as u32);
                continue;
            }
            if v != MANY {
                out.insert(v);
                continue;
            }
            for c in [n.a, n.b, n.c] {
                if c != 0 {
                    st.push(c);
                }
            }
        }
    }
    pub fn show(&self, i: Id, d: u32) -> String {
        let n = &self.n[i as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var | Op::RVar => format!("{}", self.vars[n.k as usize].0),
            _ => {
                if d == 0 {
                    return "..".into();
                }
                let mut s = format!("({:?}:{}", n.op, n.w);
                if n.op == Op::Extract || n.op == Op::Uf {
                    s += &format!("@{}", n.k);
                }
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, d - 1);
                    }
                }
                s + ")"
            }
        }
    }
}
