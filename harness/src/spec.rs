//! Reference tokenizer and reader, written from the property statements.  They run
//! symbolically next to the real code and say what its result has to be.
use crate::sym::{self, F};

#[derive(Clone)]
pub enum K {
    Id(Vec<u8>),
    Int(i64),
    Flt(F),
    Str(Vec<u8>),
    L,
    R,
}
#[derive(Clone)]
pub struct T {
    pub r: usize,
    pub c: usize,
    pub k: K,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Bad {
    /// the text must be rejected
    Reject,
    /// the properties say nothing about this text
    Unclaimed,
}
/// where a rejected text is at fault
#[derive(Clone)]
pub struct Fault {
    /// the offending place and the starts of what contains it
    pub at: Vec<(usize, usize)>,
    /// any place from the first to the second
    pub span: Option<((usize, usize), (usize, usize))>,
    /// the error has to name a place
    pub must: bool,
}
pub struct Toks {
    pub res: Result<Vec<T>, Bad>,
    pub fault: Option<Fault>,
    /// a literal does not fit the number types: an error is acceptable too
    pub may_err: bool,
}

fn str_of(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}

/// one character, with CR LF read as LF
struct In<'a> {
    b: &'a [u8],
    i: usize,
    r: usize,
    c: usize,
}
impl<'a> In<'a> {
    fn at(&self) -> usize {
        if self.i + 1 < self.b.len() && self.b[self.i] == b'\r' && self.b[self.i + 1] == b'\n' {
            self.i + 1
        } else {
            self.i
        }
    }
    fn len(&self, i: usize) -> usize {
        let b = self.b[i];
        if b < 0x80 {
            1
        } else if b < 0xe0 {
            2
        } else if b < 0xf0 {
            3
        } else {
            4
        }
    }
    fn end(&self) -> bool {
        self.i >= self.b.len()
    }
    /// next character: ASCII byte, or 0x80 for anything else
    fn peek(&self) -> u8 {
        let b = self.b[self.at()];
        if b >= 0x80 {
            0x80
        } else {
            b
        }
    }
    fn ch(&self) -> char {
        let i = self.at();
        let b = self.b[i];
        if b < 0x80 {
            b as char
        } else {
            str_of(&self.b[i..i + self.len(i)]).chars().next().unwrap()
        }
    }
    fn next(&mut self) -> (usize, usize) {
        let i = self.at();
        let n = self.len(i);
        if self.b[i] == b'\n' {
            self.r += 1;
            self.c = 1;
        } else {
            self.c += 1;
        }
        self.i = i + n;
        (i, n)
    }
}

pub fn is_ws(b: u8) -> bool {
    sym::or(b == b' ', sym::and(b >= 9, b <= 13))
}
pub fn is_digit(b: u8) -> bool {
    sym::and(b >= b'0', b <= b'9')
}
pub fn is_alpha(b: u8) -> bool {
    let l = b | 0x20;
    sym::and(l >= b'a', l <= b'z')
}

/// digits as a machine integer; None when it does not fit
fn horner(d: &[u8], neg: bool) -> Option<i64> {
    let mut v = 0i64;
    let safe = d.len() <= 18;
    for x in d {
        let k = (*x as u32).wrapping_sub(48) as i64;
        if safe {
            v = v.wrapping_mul(10);
            v = if neg { v.wrapping_sub(k) } else { v.wrapping_add(k) };
        } else {
            v = v.checked_mul(10)?;
            v = if neg { v.checked_sub(k)? } else { v.checked_add(k)? };
        }
    }
    Some(v)
}

fn number(s: &mut In, may_err: &mut bool) -> Result<K, Bad> {
    let start = s.at();
    let mut neg = false;
    let c = s.peek();
    if c == b'-' {
        neg = true;
        s.next();
    } else if c == b'+' {
        s.next();
    }
    let mut digits = vec![];
    let mut point = false;
    let mut exp: Option<(bool, Vec<u8>)> = None;
    while !s.end() {
        let c = s.peek();
        if is_digit(c) {
            digits.push(c);
            s.next();
        } else if c == b'.' {
            if point {
                return Err(Bad::Reject);
            }
            point = true;
            s.next();
        } else if c == b'e' {
            s.next();
            let mut eneg = false;
            if !s.end() && s.peek() == b'-' {
                eneg = true;
                s.next();
            } else if !s.end() && s.peek() == b'+' {
                s.next();
            }
            let mut ed = vec![];
            let mut odd = false;
            while !s.end() {
                let c = s.peek();
                if is_digit(c) {
                    ed.push(c);
                    s.next();
                } else if c == b'.' || c == b'e' {
                    // fractional or repeated exponents are not literals of the format
                    if ed.is_empty() && c == b'e' {
                        return Err(Bad::Reject);
                    }
                    odd = true;
                    break;
                } else if c == 0x80 && s.ch().is_numeric() {
                    return Err(Bad::Unclaimed);
                } else {
                    break;
                }
            }
            if odd {
                return Err(Bad::Unclaimed);
            }
            if ed.is_empty() || digits.is_empty() {
                return Err(Bad::Reject);
            }
            exp = Some((eneg, ed));
            break;
        } else if c == 0x80 && s.ch().is_numeric() {
            // letters that are numerals: nothing is said about where the number ends
            return Err(if s.ch().is_alphabetic() { Bad::Unclaimed } else { Bad::Reject });
        } else {
            break;
        }
    }
    if digits.is_empty() {
        return Err(Bad::Reject);
    }
    let text = &s.b[start..s.i];
    let (eneg, e) = match &exp {
        None => (false, Some(0)),
        Some((n, d)) => (*n, horner(d, false)),
    };
    // an exponent of minus zero is an exponent of zero
    let e0 = match e {
        Some(e) => e == 0,
        None => false,
    };
    let huge = match e {
        Some(e) => e > 30,
        None => true,
    };
    if e.is_none() {
        *may_err = true;
    }
    if !point && (!eneg || e0) {
        let mut v = match horner(&digits, neg) {
            Some(v) => v,
            None => {
                *may_err = true;
                return Ok(K::Flt(float_of(text)?));
            }
        };
        let mut fits = true;
        if exp.is_some() {
            let mut zero = true;
            for d in &digits {
                zero = sym::and(zero, *d == b'0');
            }
            if zero {
                return Ok(K::Int(0));
            }
            if huge {
                fits = false;
            } else {
                // a power of ten that is itself too large leaves no room for a mantissa
                let e = e.unwrap();
                if e > 18 {
                    fits = false;
                } else {
                    let mut p = 1i64;
                    for _ in 0..e {
                        p *= 10;
                    }
                    match v.checked_mul(p) {
                        Some(x) if sym::fork(true) => v = x,
                        _ => fits = false,
                    }
                }
            }
        }
        if !fits {
            *may_err = true;
            return Ok(K::Flt(float_of(text)?));
        }
        return Ok(K::Int(v));
    }
    if huge {
        *may_err = true;
    }
    Ok(K::Flt(float_of(text)?))
}

fn float_of(text: &[u8]) -> Result<F, Bad> {
    match str_of(text).parse::<F>() {
        Ok(f) => Ok(f),
        Err(_) => Err(Bad::Reject),
    }
}

pub fn tokenize(b: &[u8]) -> Toks {
    let mut s = In { b, i: 0, r: 1, c: 1 };
    let mut out = vec![];
    let mut may_err = false;
    let mut begin = (1, 1);
    let mut num = false;
    let res = loop {
        if s.end() {
            break Ok(());
        }
        let c = s.peek();
        let (r, col) = (s.r, s.c);
        begin = (r, col);
        num = false;
        let k = if is_ws(c) {
            s.next();
            continue;
        } else if c == b'#' {
            while !s.end() {
                let nl = s.peek() == b'\n';
                s.next();
                if nl {
                    break;
                }
            }
            continue;
        } else if c == b'"' {
            s.next();
            let mut v = vec![];
            let mut closed = false;
            while !s.end() {
                let c = s.peek();
                if c == b'"' {
                    s.next();
                    closed = true;
                    break;
                }
                if c == b'\\' {
                    s.next();
                    if s.end() {
                        break;
                    }
                    if s.peek() == b'n' {
                        s.next();
                        v.push(b'\n');
                        continue;
                    }
                }
                let (i, n) = s.next();
                for j in 0..n {
                    v.push(b[i + j]);
                }
            }
            if !closed {
                break Err(Bad::Reject);
            }
            K::Str(v)
        } else if c == b'[' {
            s.next();
            K::L
        } else if c == b']' {
            s.next();
            K::R
        } else if sym::or(is_digit(c), sym::or(c == b'.', sym::or(c == b'-', c == b'+'))) {
            num = true;
            match number(&mut s, &mut may_err) {
                Ok(k) => k,
                Err(e) => break Err(e),
            }
        } else if is_alpha(c) || (c == 0x80 && s.ch().is_alphabetic()) {
            if c == 0x80 && s.ch().is_numeric() {
                // a letter that is a numeral: a word or a malformed number
                break Err(Bad::Unclaimed);
            }
            let mut v = vec![];
            while !s.end() {
                let c = s.peek();
                if !(sym::or(is_alpha(c), is_digit(c)) || (c == 0x80 && s.ch().is_alphanumeric())) {
                    break;
                }
                let (i, n) = s.next();
                for j in 0..n {
                    v.push(b[i + j]);
                }
            }
            K::Id(v)
        } else if c == 0x80 && s.ch().is_whitespace() {
            s.next();
            continue;
        } else {
            // numerals beyond 0-9 may be taken for a malformed number
            num = c == 0x80 && s.ch().is_numeric();
            break Err(Bad::Reject);
        };
        out.push(T { r, c: col, k });
    };
    if res.is_err() && num {
        // the fault is somewhere in the run of characters that numbers are made of
        while !s.end() {
            let c = s.peek();
            if !(sym::any(&[is_digit(c), c == b'.', c == b'e', c == b'-', c == b'+']) || (c == 0x80 && s.ch().is_numeric())) {
                break;
            }
            s.next();
        }
    }
    let fault = if res.is_err() { Some(Fault { at: vec![], span: Some((begin, (s.r, s.c))), must: !num }) } else { None };
    Toks { res: res.map(|_| out), fault, may_err }
}

// ---------- scene reader ----------

/// A scene as a flat list of facts, so that two scenes are compared item by item.
#[derive(Clone)]
pub enum Ev {
    Kw(&'static str),
    Pos(usize, usize),
    S(Vec<u8>),
    I(i64),
    X(F),
    B(bool),
    N(usize),
}

pub fn beq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r = sym::and(r, a[i] == b[i]);
    }
    r
}

const NTY: usize = 11;
/// collections in the order they are reported
pub const COLL: [&str; NTY] = ["bools", "ints", "floats", "point2fs", "vector2fs", "point3fs", "vector3fs", "normal3fs", "spectra", "strings", "textures"];

pub struct Params {
    pub coll: Vec<Vec<Vec<Ev>>>,
}
impl Params {
    fn new() -> Params {
        let mut coll = vec![];
        for _ in 0..NTY {
            coll.push(vec![])
        }
        Params { coll }
    }
    pub fn events(&self, out: &mut Vec<Ev>) {
        for i in 0..NTY {
            out.push(Ev::Kw(COLL[i]));
            out.push(Ev::N(self.coll[i].len()));
            for p in &self.coll[i] {
                for e in p {
                    out.push(e.clone());
                }
            }
        }
    }
}

pub struct P<'a> {
    pub t: &'a [T],
    pub i: usize,
    /// the directive or block being read, and the first token of the argument being read
    d: Option<usize>,
    from: usize,
    /// the fault is one of count, or in a pair: any token of the argument may be named
    loose: bool,
}

type R<X> = Result<X, ()>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a T> {
        if self.i < self.t.len() {
            Some(&self.t[self.i])
        } else {
            None
        }
    }
    pub fn new(t: &'a [T]) -> P<'a> {
        P { t, i: 0, d: None, from: 0, loose: false }
    }
    fn fault(&self) -> Fault {
        let mut at = vec![];
        if let Some(d) = self.d {
            at.push((self.t[d].r, self.t[d].c));
        }
        // the argument, its bracket, and the token that does not fit
        for k in self.from..self.i + 1 {
            if k < self.t.len() && (self.loose || k < self.from + 2 || k == self.i) {
                at.push((self.t[k].r, self.t[k].c));
            }
        }
        Fault { at, span: None, must: self.i < self.t.len() }
    }
    fn string(&mut self) -> R<Vec<u8>> {
        match self.peek() {
            Some(T { k: K::Str(s), .. }) => {
                self.i += 1;
                Ok(s.clone())
            }
            _ => Err(()),
        }
    }
    fn num(&mut self) -> Option<F> {
        match self.peek() {
            Some(T { k: K::Int(i), .. }) => {
                self.i += 1;
                Some(*i as F)
            }
            Some(T { k: K::Flt(f), .. }) => {
                self.i += 1;
                Some(*f)
            }
            _ => None,
        }
    }
    fn nums(&mut self, n: usize) -> R<Vec<F>> {
        let mut v = vec![];
        while let Some(f) = self.num() {
            v.push(f);
        }
        if v.len() == n {
            Ok(v)
        } else {
            self.loose = true;
            Err(())
        }
    }
    fn left(&mut self) -> R<()> {
        match self.peek() {
            Some(T { k: K::L, .. }) => {
                self.i += 1;
                Ok(())
            }
            _ => Err(()),
        }
    }
    /// the numbers of a bracketed list
    fn numlist(&mut self) -> R<Vec<F>> {
        self.left()?;
        let mut v = vec![];
        while let Some(f) = self.num() {
            v.push(f);
        }
        match self.peek() {
            Some(T { k: K::R, .. }) if !v.is_empty() => {
                self.i += 1;
                Ok(v)
            }
            _ => Err(()),
        }
    }
    fn scalar(&mut self, kind: u8) -> R<Ev> {
        let e = match (kind, self.peek()) {
            (0, Some(T { k: K::Str(s), .. })) => {
                if beq(s, b"true") {
                    Ev::B(true)
                } else if beq(s, b"false") {
                    Ev::B(false)
                } else {
                    return Err(());
                }
            }
            (1, Some(T { k: K::Int(i), .. })) => Ev::I(*i),
            (2, Some(T { k: K::Int(i), .. })) => Ev::X(*i as F),
            (2, Some(T { k: K::Flt(f), .. })) => Ev::X(*f),
            (3, Some(T { k: K::Str(s), .. })) => Ev::S(s.clone()),
            _ => return Err(()),
        };
        self.i += 1;
        Ok(e)
    }
    fn one_or_list(&mut self, kind: u8) -> R<Vec<Ev>> {
        if let Some(T { k: K::L, .. }) = self.peek() {
            self.i += 1;
            let mut v = vec![];
            loop {
                if let Some(T { k: K::R, .. }) = self.peek() {
                    if v.is_empty() {
                        return Err(());
                    }
                    self.i += 1;
                    return Ok(v);
                }
                v.push(self.scalar(kind)?);
            }
        }
        Ok(vec![self.scalar(kind)?])
    }
    fn params(&mut self) -> R<Params> {
        let mut ps = Params::new();
        while let Some(T { r, c, k: K::Str(s) }) = self.peek() {
            self.from = self.i;
            self.loose = false;
            self.i += 1;
            // exactly two blank-separated words
            let mut words: Vec<(usize, usize)> = vec![];
            let mut i = 0;
            while i < s.len() {
                if is_ws(s[i]) {
                    i += 1;
                    continue;
                }
                let st = i;
                while i < s.len() && sym::not(is_ws(s[i])) {
                    i += 1;
                }
                words.push((st, i));
            }
            if words.len() != 2 {
                self.i -= 1;
                return Err(());
            }
            let ty = &s[words[0].0..words[0].1];
            let mut head = vec![Ev::S(s[words[1].0..words[1].1].to_vec()), Ev::Pos(*r, *c)];
            let (coll, vals): (usize, Vec<Ev>) = if beq(ty, b"integer") {
                (1, self.one_or_list(1)?)
            } else if beq(ty, b"float") {
                (2, self.one_or_list(2)?)
            } else if beq(ty, b"bool") {
                (0, self.one_or_list(0)?)
            } else if beq(ty, b"string") {
                (9, self.one_or_list(3)?)
            } else if beq(ty, b"point2") || beq(ty, b"vector2") {
                self.loose = true;
                let v = self.numlist()?;
                if v.len() % 2 != 0 {
                    return Err(());
                }
                (if ty[0] == b'p' { 3 } else { 4 }, v.into_iter().map(Ev::X).collect())
            } else if beq(ty, b"rgb") || beq(ty, b"xyz") {
                let v = self.numlist()?;
                if v.len() != 3 {
                    self.loose = true;
                    return Err(());
                }
                let mut e = vec![Ev::Kw(if ty[0] == b'r' { "rgb" } else { "xyz" })];
                e.extend(v.into_iter().map(Ev::X));
                (8, e)
            } else if beq(ty, b"blackbody") {
                let v = self.numlist()?;
                if v.len() != 2 {
                    self.loose = true;
                    return Err(());
                }
                (8, vec![Ev::Kw("blackbody"), Ev::X(v[0]), Ev::X(v[1])])
            } else if beq(ty, b"spectrum") {
                if let Some(T { k: K::Str(f), .. }) = self.peek() {
                    self.i += 1;
                    (8, vec![Ev::Kw("file"), Ev::S(f.clone())])
                } else {
                    let v = self.numlist()?;
                    if v.len() % 2 != 0 {
                        self.loose = true;
                        return Err(());
                    }
                    let mut e = vec![Ev::Kw("spectrum")];
                    e.extend(v.into_iter().map(Ev::X));
                    (8, e)
                }
            } else if beq(ty, b"texture") {
                (10, vec![Ev::S(self.string()?)])
            } else {
                self.i -= 1;
                return Err(());
            };
            head.push(Ev::N(vals.len()));
            head.extend(vals);
            ps.coll[coll].push(head);
        }
        Ok(ps)
    }
    fn plain(&mut self, kw: &'static str, nstr: usize, params: bool, r: usize, c: usize, out: &mut Vec<Ev>) -> R<()> {
        out.push(Ev::Kw(kw));
        out.push(Ev::Pos(r, c));
        for _ in 0..nstr {
            self.from = self.i;
            out.push(Ev::S(self.string()?));
        }
        if params {
            self.params()?.events(out);
        }
        Ok(())
    }
    fn block(&mut self, kw: &'static str, end: &[u8], r: usize, c: usize, out: &mut Vec<Ev>) -> R<()> {
        out.push(Ev::Kw(kw));
        out.push(Ev::Pos(r, c));
        loop {
            self.from = self.i;
            self.loose = false;
            match self.peek() {
                Some(T { r, c, k: K::Id(s) }) => {
                    self.i += 1;
                    if beq(s, end) {
                        out.push(Ev::Kw("end"));
                        return Ok(());
                    }
                    self.directive(s, *r, *c, out)?;
                }
                _ => return Err(()),
            }
        }
    }
    fn directive(&mut self, s: &[u8], r: usize, c: usize, out: &mut Vec<Ev>) -> R<()> {
        let outer = self.d;
        self.d = Some(self.i - 1);
        let x = self.directive_(s, r, c, out)?;
        self.d = outer;
        if !x {
            self.i -= 1;
            return Err(());
        }
        Ok(())
    }
    /// false: no such directive
    fn directive_(&mut self, s: &[u8], r: usize, c: usize, out: &mut Vec<Ev>) -> R<bool> {
        for kw in ["Material", "Shape", "LightSource", "AreaLightSource"] {
            if beq(s, kw.as_bytes()) {
                return self.plain(kw, 1, true, r, c, out).map(|_| true);
            }
        }
        if beq(s, b"Texture") {
            return self.plain("Texture", 3, true, r, c, out).map(|_| true);
        }
        if beq(s, b"Include") {
            return self.plain("Include", 1, false, r, c, out).map(|_| true);
        }
        if beq(s, b"AttributeBegin") {
            return self.block("AttributeBegin", b"AttributeEnd", r, c, out).map(|_| true);
        }
        if beq(s, b"TransformBegin") {
            return self.block("TransformBegin", b"TransformEnd", r, c, out).map(|_| true);
        }
        if beq(s, b"WorldBegin") {
            return self.block("WorldBegin", b"WorldEnd", r, c, out).map(|_| true);
        }
        Ok(false)
    }
    pub fn scene(&mut self, out: &mut Vec<Ev>) -> R<()> {
        loop {
            self.d = None;
            self.from = self.i;
            self.loose = false;
            let (s, r, c) = match self.peek() {
                Some(T { r, c, k: K::Id(s) }) => (s, *r, *c),
                _ => return Err(()),
            };
            self.i += 1;
            if beq(s, b"WorldBegin") {
                self.d = Some(self.i - 1);
                self.block("WorldBegin", b"WorldEnd", r, c, out)?;
                self.d = None;
                self.from = self.i;
                return if self.i == self.t.len() { Ok(()) } else { Err(()) };
            }
            self.d = Some(self.i - 1);
            self.from = self.i;
            if !self.option(s, r, c, out)? {
                self.d = None;
                self.i -= 1;
                self.from = self.i;
                return Err(());
            }
        }
    }
    fn option(&mut self, s: &[u8], r: usize, c: usize, out: &mut Vec<Ev>) -> R<bool> {
        for kw in ["Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator"] {
            if beq(s, kw.as_bytes()) {
                return self.plain(kw, 1, true, r, c, out).map(|_| true);
            }
        }
        for (kw, n) in [("Identity", 0), ("Translate", 3), ("Scale", 3), ("Rotate", 4), ("LookAt", 9), ("Transform", 9), ("ConcatTransform", 9), ("TransformTimes", 2)] {
            if beq(s, kw.as_bytes()) {
                out.push(Ev::Kw(kw));
                out.push(Ev::Pos(r, c));
                if n > 0 {
                    for f in self.nums(n)? {
                        out.push(Ev::X(f));
                    }
                }
                return Ok(true);
            }
        }
        for kw in ["CoordinateSystem", "CoordSysTransform", "Include"] {
            if beq(s, kw.as_bytes()) {
                return self.plain(kw, 1, false, r, c, out).map(|_| true);
            }
        }
        if beq(s, b"ActiveTransform") {
            out.push(Ev::Kw("ActiveTransform"));
            out.push(Ev::Pos(r, c));
            match self.peek() {
                Some(T { k: K::Id(s), .. }) => {
                    self.i += 1;
                    out.push(Ev::S(s.clone()));
                    return Ok(true);
                }
                _ => return Err(()),
            }
        }
        Ok(false)
    }
}

pub struct Scene {
    pub res: Result<Vec<Ev>, Bad>,
    pub fault: Option<Fault>,
    pub may_err: bool,
}

pub fn parse(b: &[u8]) -> Scene {
    let t = tokenize(b);
    let toks = match &t.res {
        Ok(t) => t,
        Err(e) => return Scene { res: Err(*e), fault: t.fault, may_err: t.may_err },
    };
    let mut out = vec![];
    let mut p = P::new(toks);
    let r = p.scene(&mut out);
    let fault = if r.is_ok() { None } else { Some(p.fault()) };
    Scene { res: if r.is_ok() { Ok(out) } else { Err(Bad::Reject) }, fault, may_err: t.may_err }
}
