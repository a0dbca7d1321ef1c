//! Exact algebra for real mode: float expressions as quotients of polynomials with rational
//! coefficients.  Comparisons become polynomial sign conditions, which the solver handles far
//! better than nested divisions; identities become the zero polynomial.
use crate::expr::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}
const LIM: i128 = 1 << 100;
impl Rat {
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 || n == i128::MIN || d == i128::MIN {
            return None;
        }
        let g = gcd(n, d);
        let s = if d < 0 { -1 } else { 1 };
        let r = Rat { n: s * n / g, d: s * d / g };
        if r.n.abs() > LIM || r.d > LIM {
            return None;
        }
        Some(r)
    }
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    fn add(self, o: Rat) -> Option<Rat> {
        let g = gcd(self.d, o.d);
        Rat::new(self.n.checked_mul(o.d / g)?.checked_add(o.n.checked_mul(self.d / g)?)?, (self.d / g).checked_mul(o.d)?)
    }
    fn mul(self, o: Rat) -> Option<Rat> {
        let (g, h) = (gcd(self.n, o.d).max(1), gcd(o.n, self.d).max(1));
        Rat::new((self.n / g).checked_mul(o.n / h)?, (self.d / h).checked_mul(o.d / g)?)
    }
    fn inv(self) -> Option<Rat> {
        Rat::new(self.d, self.n)
    }
    fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn zero(self) -> bool {
        self.n == 0
    }
    /// exact value of a finite float bit pattern
    pub fn of_float(k: u128, w: u16) -> Option<Rat> {
        let d = f_of(k, w);
        if !d.is_finite() {
            return None;
        }
        if d == 0.0 {
            return Some(Rat::int(0));
        }
        let bits = d.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i32;
        let frac = (bits & ((1 << 52) - 1)) as i128;
        let (mut m, mut x) = if e == 0 { (frac, -1074) } else { (frac | (1 << 52), e - 1075) };
        while m & 1 == 0 {
            m >>= 1;
            x += 1;
        }
        if x > 60 || x < -99 {
            return None;
        }
        if d < 0.0 {
            m = -m
        }
        if x >= 0 {
            Rat::new(m << x, 1)
        } else {
            Rat::new(m, 1 << -x)
        }
    }
}

pub type Mono = Vec<(u32, u32)>;
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Poly(pub BTreeMap<Mono, Rat>);
const MAXTERMS: usize = 600;

fn mmul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i == a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    r
}
fn mdiv(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = vec![];
    let mut j = 0;
    for x in a {
        if j < b.len() && b[j].0 == x.0 {
            if b[j].1 > x.1 {
                return None;
            }
            if x.1 > b[j].1 {
                r.push((x.0, x.1 - b[j].1));
            }
            j += 1;
        } else {
            if j < b.len() && b[j].0 < x.0 {
                return None;
            }
            r.push(*x);
        }
    }
    if j < b.len() {
        None
    } else {
        Some(r)
    }
}
/// lexicographic order with lower variable numbers more significant: a monomial order
fn mcmp(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let mut i = 0;
    loop {
        match (a.get(i), b.get(i)) {
            (None, None) => return Equal,
            (None, _) => return Less,
            (_, None) => return Greater,
            (Some(x), Some(y)) => {
                if x.0 != y.0 {
                    return if x.0 < y.0 { Greater } else { Less };
                }
                if x.1 != y.1 {
                    return x.1.cmp(&y.1);
                }
            }
        }
        i += 1;
    }
}
impl Poly {
    pub fn k(r: Rat) -> Poly {
        let mut m = BTreeMap::new();
        if !r.zero() {
            m.insert(vec![], r);
        }
        Poly(m)
    }
    pub fn var(v: u32) -> Poly {
        let mut m = BTreeMap::new();
        m.insert(vec![(v, 1)], Rat::int(1));
        Poly(m)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_k(&self) -> Option<Rat> {
        match self.0.len() {
            0 => Some(Rat::int(0)),
            1 => self.0.get(&vec![]).cloned(),
            _ => None,
        }
    }
    fn addm(&mut self, m: Mono, r: Rat) -> Option<()> {
        if r.zero() {
            return Some(());
        }
        let x = match self.0.get(&m) {
            Some(o) => o.add(r)?,
            None => r,
        };
        if x.zero() {
            self.0.remove(&m);
        } else {
            self.0.insert(m, x);
        }
        Some(())
    }
    pub fn add(&self, o: &Poly) -> Option<Poly> {
        let mut r = self.clone();
        for (m, k) in &o.0 {
            r.addm(m.clone(), *k)?;
        }
        Some(r)
    }
    pub fn scale(&self, k: Rat) -> Option<Poly> {
        if k.zero() {
            return Some(Poly::k(k));
        }
        let mut r = BTreeMap::new();
        for (m, x) in &self.0 {
            r.insert(m.clone(), x.mul(k)?);
        }
        Some(Poly(r))
    }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        if self.0.len() * o.0.len() > 40 * MAXTERMS {
            return None;
        }
        let mut r = Poly(BTreeMap::new());
        for (m, k) in &self.0 {
            for (n, l) in &o.0 {
                r.addm(mmul(m, n), k.mul(*l)?)?;
            }
        }
        if r.0.len() > MAXTERMS {
            return None;
        }
        Some(r)
    }
    fn lead(&self) -> (&Mono, &Rat) {
        self.0.iter().max_by(|a, b| mcmp(a.0, b.0)).unwrap()
    }
    /// exact quotient, if o divides self
    fn quot(&self, o: &Poly) -> Option<Poly> {
        let (lm, lk) = o.lead();
        let mut r = self.clone();
        let mut q = Poly(BTreeMap::new());
        let inv = lk.inv()?;
        let mut n = 0;
        while !r.is_zero() {
            let (m, k) = {
                let (m, k) = r.lead();
                (m.clone(), *k)
            };
            let t = mdiv(&m, lm)?;
            let c = k.mul(inv)?;
            q.addm(t.clone(), c)?;
            for (om, ok) in &o.0 {
                r.addm(mmul(om, &t), ok.mul(c)?.neg())?;
            }
            n += 1;
            if n > MAXTERMS {
                return None;
            }
        }
        Some(q)
    }
    /// content-free form with integer coefficients and positive leading one; self = k * result
    fn primitive(&self) -> Option<(Rat, Poly)> {
        let mut l: i128 = 1;
        for x in self.0.values() {
            l = (l / gcd(l, x.d)).checked_mul(x.d)?;
            if l > LIM {
                return None;
            }
        }
        let mut g = 0;
        for x in self.0.values() {
            g = gcd(g, x.n.checked_mul(l / x.d)?);
        }
        let s = if self.lead().1.n < 0 { -1 } else { 1 };
        let k = Rat::new(s * g, l)?;
        Some((k, self.scale(k.inv()?)?))
    }
    fn degree(&self) -> u32 {
        self.0.keys().map(|m| m.iter().map(|x| x.1).sum()).max().unwrap_or(0)
    }
}

/// num / product of den factors; factors are primitive and not constant
#[derive(Clone, Debug)]
pub struct Rf {
    pub num: Poly,
    pub den: Vec<(Rc<Poly>, u32)>,
}
impl Rf {
    fn k(r: Rat) -> Rf {
        Rf { num: Poly::k(r), den: vec![] }
    }
    fn cancel(mut self) -> Rf {
        if self.num.is_zero() {
            self.den.clear();
            return self;
        }
        for f in self.den.iter_mut() {
            while f.1 > 0 {
                match self.num.quot(&f.0) {
                    Some(q) => {
                        self.num = q;
                        f.1 -= 1;
                    }
                    None => break,
                }
            }
        }
        self.den.retain(|f| f.1 > 0);
        self
    }
    fn neg(&self) -> Rf {
        Rf { num: Poly(self.num.0.iter().map(|(m, k)| (m.clone(), k.neg())).collect()), den: self.den.clone() }
    }
    fn add(&self, o: &Rf) -> Option<Rf> {
        let mut den: Vec<(Rc<Poly>, u32)> = self.den.clone();
        for (p, e) in &o.den {
            match den.iter_mut().find(|x| x.0 == *p) {
                Some(x) => x.1 = x.1.max(*e),
                None => den.push((p.clone(), *e)),
            }
        }
        let lift = |a: &Rf| -> Option<Poly> {
            let mut n = a.num.clone();
            for (p, e) in &den {
                let have = a.den.iter().find(|x| x.0 == *p).map_or(0, |x| x.1);
                for _ in have..*e {
                    n = n.mul(p)?;
                }
            }
            Some(n)
        };
        let n = lift(self)?.add(&lift(o)?)?;
        Some(Rf { num: n, den }.cancel())
    }
    pub fn sub(&self, o: &Rf) -> Option<Rf> {
        self.add(&o.neg())
    }
    fn mul(&self, o: &Rf) -> Option<Rf> {
        let a = Rf { num: self.num.clone(), den: o.den.clone() }.cancel();
        let b = Rf { num: o.num.clone(), den: self.den.clone() }.cancel();
        let mut den = a.den;
        for (p, e) in b.den {
            match den.iter_mut().find(|x| x.0 == p) {
                Some(x) => x.1 += e,
                None => den.push((p, e)),
            }
        }
        Some(Rf { num: a.num.mul(&b.num)?, den })
    }
    fn recip(&self, known: &mut Vec<Rc<Poly>>) -> Option<Rf> {
        if self.num.is_zero() {
            return None;
        }
        let mut num = Poly::k(Rat::int(1));
        for (p, e) in &self.den {
            for _ in 0..*e {
                num = num.mul(p)?;
            }
        }
        let (k, mut p) = self.num.primitive()?;
        let mut den: Vec<(Rc<Poly>, u32)> = vec![];
        for f in known.iter() {
            if p.as_k().is_some() {
                break;
            }
            while let Some(q) = p.quot(f) {
                p = q;
                match den.iter_mut().find(|x| x.0 == *f) {
                    Some(x) => x.1 += 1,
                    None => den.push((f.clone(), 1)),
                }
            }
        }
        if let Some(c) = p.as_k() {
            return Some(Rf { num: num.scale(k.mul(c)?.inv()?)?, den });
        }
        // single variables first, so that later factors split along them
        loop {
            let v = p.0.keys().fold(None::<Vec<u32>>, |acc, m| {
                let s: Vec<u32> = m.iter().map(|x| x.0).collect();
                Some(match acc {
                    None => s,
                    Some(a) => a.into_iter().filter(|x| s.contains(x)).collect(),
                })
            });
            match v.unwrap_or_default().first() {
                Some(v) => {
                    let f = Rc::new(Poly::var(*v));
                    p = p.quot(&f)?;
                    known.push(f.clone());
                    match den.iter_mut().find(|x| x.0 == f) {
                        Some(x) => x.1 += 1,
                        None => den.push((f, 1)),
                    }
                }
                None => break,
            }
        }
        let (k2, p) = p.primitive()?;
        if p.as_k().is_none() {
            let p = Rc::new(p);
            known.push(p.clone());
            den.push((p, 1));
            Some(Rf { num: num.scale(k.mul(k2)?.inv()?)?, den })
        } else {
            let c = p.as_k()?;
            Some(Rf { num: num.scale(k.mul(k2)?.mul(c)?.inv()?)?, den })
        }
    }
}

/// what a comparison of two reals amounts to
pub enum Cmp {
    Known(bool),
    /// sign condition on the product of the factors: FLt, FLe or FEq zero
    Sign(Op, Vec<Poly>),
}

#[derive(Default)]
pub struct Alg {
    memo: HashMap<Id, Option<Rc<Rf>>>,
    known: Vec<Rc<Poly>>,
    /// polynomial variables: expression nodes
    pub atoms: Vec<Id>,
    index: HashMap<Id, u32>,
    /// square-root atoms with a polynomial argument: s*s = argument
    squares: HashMap<u32, Poly>,
}
impl Alg {
    fn atom(&mut self, i: Id) -> u32 {
        if let Some(v) = self.index.get(&i) {
            return *v;
        }
        let v = self.atoms.len() as u32;
        self.atoms.push(i);
        self.index.insert(i, v);
        v
    }
    fn reduce(&self, p: Poly) -> Option<Poly> {
        if self.squares.is_empty() {
            return Some(p);
        }
        let mut p = p;
        loop {
            let hit = p.0.keys().find_map(|m| m.iter().find(|x| x.1 >= 2 && self.squares.contains_key(&x.0)).map(|x| (m.clone(), *x)));
            let (m, (v, _)) = match hit {
                Some(h) => h,
                None => return Some(p),
            };
            let k = p.0.remove(&m).unwrap();
            let rest = mdiv(&m, &vec![(v, 2)])?;
            let mut t = Poly(BTreeMap::new());
            t.0.insert(rest, k);
            let t = t.mul(&self.squares[&v])?;
            p = p.add(&t)?;
        }
    }
    fn fix(&self, r: Rf) -> Option<Rf> {
        if self.squares.is_empty() {
            return Some(r);
        }
        let num = self.reduce(r.num)?;
        Some(Rf { num, den: r.den }.cancel())
    }
    pub fn rf(&mut self, ar: &Arena, i: Id) -> Option<Rc<Rf>> {
        if let Some(r) = self.memo.get(&i) {
            return r.clone();
        }
        let r = self.rf1(ar, i).map(Rc::new);
        self.memo.insert(i, r.clone());
        r
    }
    fn rf1(&mut self, ar: &Arena, i: Id) -> Option<Rf> {
        let n = ar.n[i as usize];
        match n.op {
            Op::Const => Rat::of_float(n.k, n.w).map(Rf::k),
            Op::RVar => {
                let v = self.atom(i);
                Some(Rf { num: Poly::var(v), den: vec![] })
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let (a, b) = (self.rf(ar, n.a)?, self.rf(ar, n.b)?);
                let r = match n.op {
                    Op::FAdd => a.add(&b)?,
                    Op::FSub => a.sub(&b)?,
                    Op::FMul => a.mul(&b)?,
                    _ => {
                        // a sum containing a square root in a denominator is left to the solver
                        let mut known = std::mem::take(&mut self.known);
                        let q = b.recip(&mut known);
                        self.known = known;
                        a.mul(&q?)?
                    }
                };
                if r.num.degree() > 60 {
                    return None;
                }
                self.fix(r)
            }
            Op::FNeg => Some(self.rf(ar, n.a)?.neg()),
            Op::FConv => self.rf(ar, n.a).map(|x| (*x).clone()),
            Op::FSqrt => {
                let a = self.rf(ar, n.a);
                let v = self.atom(i);
                if let Some(a) = a {
                    if a.den.is_empty() {
                        self.squares.insert(v, a.num.clone());
                    }
                }
                Some(Rf { num: Poly::var(v), den: vec![] })
            }
            Op::FAbs | Op::Ite | Op::FFloor | Op::FCeil | Op::FTrunc | Op::SToF | Op::UToF | Op::Dec => {
                let v = self.atom(i);
                Some(Rf { num: Poly::var(v), den: vec![] })
            }
            _ => None,
        }
    }
    /// |e| as an argument whose square is compared, for absolute values and non-negative constants
    fn square(&mut self, ar: &Arena, i: Id) -> Option<Rf> {
        let n = ar.n[i as usize];
        let r = match n.op {
            Op::FAbs => self.rf(ar, n.a)?,
            Op::Const => {
                let r = Rat::of_float(n.k, n.w)?;
                if r.n < 0 {
                    return None;
                }
                self.rf(ar, i)?
            }
            _ => return None,
        };
        r.mul(&r)
    }
    pub fn cmp(&mut self, ar: &Arena, n: &Node) -> Option<Cmp> {
        let abs = |i: Id| ar.n[i as usize].op == Op::FAbs;
        let d = if abs(n.a) || abs(n.b) {
            match (self.square(ar, n.a), self.square(ar, n.b)) {
                (Some(a), Some(b)) => {
                    let d = a.sub(&b)?;
                    self.fix(d)?
                }
                _ => {
                    let (a, b) = (self.rf(ar, n.a)?, self.rf(ar, n.b)?);
                    let d = a.sub(&b)?;
                    self.fix(d)?
                }
            }
        } else {
            let (a, b) = (self.rf(ar, n.a)?, self.rf(ar, n.b)?);
            let d = a.sub(&b)?;
            self.fix(d)?
        };
        let op = n.op;
        if let Some(k) = d.num.as_k() {
            if k.zero() {
                return Some(Cmp::Known(op != Op::FLt));
            }
            if op == Op::FEq {
                return Some(Cmp::Known(false));
            }
            if d.den.iter().all(|x| x.1 % 2 == 0) {
                return Some(Cmp::Known(k.n < 0));
            }
        }
        let (_, p) = if d.num.as_k().is_some() { (Rat::int(1), d.num.clone()) } else { d.num.primitive()? };
        let mut f = vec![];
        if op == Op::FEq {
            f.push(p);
            return Some(Cmp::Sign(op, f));
        }
        let neg = !d.num.is_zero() && d.num.as_k().is_none() && d.num.primitive()?.0.n < 0;
        f.push(if neg { p.scale(Rat::int(-1))? } else { p });
        for (q, e) in &d.den {
            if e % 2 == 1 {
                f.push((**q).clone());
            }
        }
        Some(Cmp::Sign(op, f))
    }
}
