//! Reader for the textual LLVM IR that rustc emits.  Function bodies are parsed on first use.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use crate::expr::Val;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    Half,
    Ptr,
    Array(Rc<Ty>, u64),
    Vector(Rc<Ty>, u64),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Float => 32,
            Ty::Double => 64,
            Ty::Half => 16,
            Ty::Ptr => 64,
            Ty::Vector(t, n) => t.bits() * *n as u32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                1..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Double | Ty::Ptr => 8,
            Ty::Array(t, _) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size in bytes.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let st = ((*n + 7) / 8) as u64;
                let a = self.align();
                (st + a - 1) / a * a
            }
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Double | Ty::Ptr => 8,
            Ty::Array(t, n) => t.size() * n,
            Ty::Vector(t, n) => ((t.bits() as u64 * n) + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Void => 0,
            _ => panic!("size of {:?}", self),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Array(t, _) | Ty::Vector(t, _) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Array(t, _) | Ty::Vector(t, _) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FBin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IP {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FPTrunc,
    FPExt,
    FPToUI,
    FPToSI,
    UIToFP,
    SIToFP,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Intrinsic(Rc<str>),
    Indirect(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, Bin, Ty, Opd, Opd),
    FBin(u32, FBin, Ty, Opd, Opd),
    FNeg(u32, Ty, Opd),
    ICmp(u32, IP, Ty, Opd, Opd),
    FCmp(u32, Rc<str>, Ty, Opd, Opd),
    Select(u32, Opd, Opd, Opd),
    Cast(u32, Cast, Ty, Ty, Opd),
    Alloca(u32, u64, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, i64, u32)>),
    Call(Option<u32>, Callee, Vec<(Ty, Opd)>, Ty),
    Invoke(Option<u32>, Callee, Vec<(Ty, Opd)>, Ty, u32),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Opd, Opd),
    InsertElement(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<u32>),
    Freeze(u32, Opd),
    AtomicRmw(u32, Rc<str>, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Fence,
    LandingPad(u32),
    Resume,
    Unsupported(Rc<str>),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: Rc<str>,
    pub idx: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub bytes: Vec<u8>,
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    pub named: HashMap<String, Ty>,
    /// name -> (index); functions first encountered by define or declare
    pub fn_idx: HashMap<String, u32>,
    pub fn_names: Vec<Rc<str>>,
    pub fn_body: Vec<Option<(usize, usize)>>,
    pub cache: RefCell<Vec<Option<Rc<Func>>>>,
    pub g_idx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    g_init: Vec<Option<(usize, usize)>>,
    pub aliases: HashMap<String, String>,
}

pub const OBJ_SHIFT: u32 = 32;
pub const FN_OBJ: u64 = 0x4000_0000; // pseudo object holding functions: addr = FN_OBJ<<32 | idx*16
pub const G_OBJ: u64 = 0x1000_0000; // globals: addr = (G_OBJ+i)<<32

pub fn fn_addr(i: u32) -> u64 {
    (FN_OBJ << OBJ_SHIFT) + (i as u64) * 16 + 16
}
pub fn g_addr(i: u32) -> u64 {
    (G_OBJ + i as u64) << OBJ_SHIFT
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let mut m = Module {
            text: String::new(),
            named: HashMap::new(),
            fn_idx: HashMap::new(),
            fn_names: vec![],
            fn_body: vec![],
            cache: RefCell::new(vec![]),
            g_idx: HashMap::new(),
            globals: vec![],
            g_init: vec![],
            aliases: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut i = 0;
        let n = b.len();
        let mut type_lines = vec![];
        while i < n {
            let e = b[i..].iter().position(|c| *c == b'\n').map(|p| i + p).unwrap_or(n);
            if b[i..e].starts_with(b"define ") {
                let name = fn_name_of(&text[i..e]);
                // body ends at a line "}" at column 0
                let mut j = e + 1;
                loop {
                    let je = b[j..].iter().position(|c| *c == b'\n').map(|p| j + p).unwrap_or(n);
                    if &b[j..je] == b"}" {
                        break;
                    }
                    j = je + 1;
                }
                let idx = m.fn_id(&name);
                m.fn_body[idx as usize] = Some((i, j));
                i = j + 2;
                continue;
            } else if b[i..e].starts_with(b"declare ") {
                let name = fn_name_of(&text[i..e]);
                m.fn_id(&name);
            } else if i < e && b[i] == b'@' {
                let mut p = P { s: b, i: i + 1, m: None };
                let name = p.name();
                p.ws();
                p.expect(b"=");
                // linkage etc up to 'global' or 'constant' or 'alias'
                let mut constant = false;
                let mut is_alias = false;
                let mut external = false;
                loop {
                    p.ws();
                    let w = p.ident();
                    if w == "global" {
                        break;
                    }
                    if w == "constant" {
                        constant = true;
                        break;
                    }
                    if w == "alias" || w == "ifunc" {
                        is_alias = true;
                        break;
                    }
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    p.ws();
                    if p.peek() == b'(' {
                        p.balanced();
                    }
                    if w.is_empty() {
                        panic!("global parse: {}", &text[i..e.min(i + 200)]);
                    }
                }
                if is_alias {
                    let rest = &text[p.i..e];
                    if let Some(at) = rest.rfind('@') {
                        let mut q = P { s: rest.as_bytes(), i: at + 1, m: None };
                        let t = q.name();
                        m.aliases.insert(name, t);
                    }
                } else {
                    let gi = m.globals.len() as u32;
                    m.g_idx.insert(name.clone(), gi);
                    m.globals.push(Global { name, bytes: vec![], constant });
                    m.g_init.push(if external { None } else { Some((p.i, e)) });
                }
            } else if i < e && b[i] == b'%' {
                type_lines.push((i, e));
            }
            i = e + 1;
        }
        m.text = text;
        // named types (may refer to each other; iterate)
        for _ in 0..4 {
            for (i, e) in &type_lines {
                let t = {
                    let mut p = P { s: &m.text.as_bytes()[..*e], i: *i + 1, m: Some(&m) };
                    let name = p.name();
                    p.ws();
                    p.expect(b"=");
                    p.ws();
                    let _ = p.ident();
                    p.ws();
                    if p.s[p.i..].starts_with(b"opaque") {
                        continue;
                    }
                    match p.try_ty() {
                        Some(t) => (name, t),
                        None => continue,
                    }
                };
                m.named.insert(t.0, t.1);
            }
        }
        let mut all = vec![];
        for gi in 0..m.globals.len() {
            if let Some((s, e)) = m.g_init[gi] {
                let mut p = P { s: &m.text.as_bytes()[..e], i: s, m: Some(&m) };
                p.ws();
                let ty = p.ty();
                let mut out = vec![0u8; ty.size() as usize];
                p.const_into(&ty, &mut out, 0);
                all.push(out);
            } else {
                all.push(vec![0u8; 8]);
            }
        }
        for (gi, o) in all.into_iter().enumerate() {
            m.globals[gi].bytes = o;
        }
        let nf = m.fn_names.len();
        *m.cache.borrow_mut() = (0..nf).map(|_| None).collect();
        m
    }
    fn fn_id(&mut self, name: &str) -> u32 {
        if let Some(i) = self.fn_idx.get(name) {
            return *i;
        }
        let i = self.fn_names.len() as u32;
        self.fn_idx.insert(name.to_string(), i);
        self.fn_names.push(name.into());
        self.fn_body.push(None);
        i
    }
    pub fn func(&self, idx: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.cache.borrow()[idx as usize] {
            return Some(f.clone());
        }
        let (s, e) = self.fn_body[idx as usize]?;
        let f = Rc::new(self.parse_fn(idx, s, e));
        self.cache.borrow_mut()[idx as usize] = Some(f.clone());
        Some(f)
    }
    fn parse_fn(&self, idx: u32, s: usize, e: usize) -> Func {
        let bytes = &self.text.as_bytes()[..e];
        let mut p = P { s: bytes, i: s, m: Some(self) };
        // header
        let at = {
            // find the '@name(' that is the function name: first '@' outside parens
            let mut j = s;
            let mut depth = 0;
            loop {
                match bytes[j] {
                    b'(' => depth += 1,
                    b')' => depth -= 1,
                    b'@' if depth == 0 => break,
                    _ => {}
                }
                j += 1;
            }
            j
        };
        p.i = at + 1;
        let _ = p.name();
        p.expect(b"(");
        let mut fx = Fx { regs: HashMap::new(), labels: HashMap::new(), nblocks: 0 };
        let mut params = vec![];
        let mut unnamed = 0u32;
        loop {
            p.ws();
            if p.peek() == b')' {
                p.i += 1;
                break;
            }
            if p.s[p.i..].starts_with(b"...") {
                p.i += 3;
                continue;
            }
            let _t = p.ty();
            p.attrs();
            p.ws();
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                params.push(fx.reg(&n));
            } else {
                let n = unnamed.to_string();
                unnamed += 1;
                params.push(fx.reg(&n));
            }
            p.ws();
            if p.peek() == b',' {
                p.i += 1;
            }
        }
        p.eol();
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<usize> = None;
        while p.i < e {
            // at beginning of a line
            let ls = p.i;
            let le = bytes[ls..].iter().position(|c| *c == b'\n').map(|q| ls + q).unwrap_or(e);
            if ls == le {
                p.i = le + 1;
                continue;
            }
            if bytes[ls] == b';' {
                p.i = le + 1;
                continue;
            }
            if bytes[ls] != b' ' && bytes[ls] != b'\t' {
                // label
                let n = p.name();
                let id = fx.label(&n) as usize;
                while blocks.len() <= id {
                    blocks.push(Block { phis: vec![], insts: vec![] });
                }
                cur = Some(id);
                p.i = le + 1;
                continue;
            }
            p.ws_inline();
            if p.i >= le || p.peek() == b';' || p.peek() == b'#' {
                p.i = le + 1;
                continue;
            }
            if cur.is_none() {
                let n = unnamed.to_string();
                let id = fx.label(&n) as usize;
                while blocks.len() <= id {
                    blocks.push(Block { phis: vec![], insts: vec![] });
                }
                cur = Some(id);
            }
            let c = cur.unwrap();
            let r = p.inst(&mut fx);
            match r {
                PI::Skip => {}
                PI::Phi(d, v) => blocks[c].phis.push((d, v)),
                PI::I(ins) => blocks[c].insts.push(ins),
            }
            // looking ahead may have skipped past the end of the line
            while p.i > ls && (bytes[p.i - 1] as char).is_ascii_whitespace() {
                p.i -= 1;
            }
            p.eol();
        }
        let nb = fx.nblocks as usize;
        while blocks.len() < nb {
            blocks.push(Block { phis: vec![], insts: vec![] });
        }
        Func {
            name: self.fn_names[idx as usize].clone(),
            idx,
            params,
            nregs: fx.regs.len() as u32,
            blocks,
        }
    }
}

fn fn_name_of(line: &str) -> String {
    let b = line.as_bytes();
    let mut j = 0;
    let mut depth = 0;
    loop {
        match b[j] {
            b'(' => depth += 1,
            b')' => depth -= 1,
            b'@' if depth == 0 => break,
            _ => {}
        }
        j += 1;
    }
    let mut p = P { s: b, i: j + 1, m: None };
    p.name()
}

struct Fx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nblocks: u32,
}
impl Fx {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(x) = self.labels.get(n) {
            return *x;
        }
        let l = self.nblocks;
        self.nblocks += 1;
        self.labels.insert(n.to_string(), l);
        l
    }
}

enum PI {
    Skip,
    Phi(u32, Vec<(u32, Opd)>),
    I(Inst),
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: Option<&'a Module>,
}

fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
    }
    fn ws_inline(&mut self) {
        while self.peek() == b' ' || self.peek() == b'\t' {
            self.i += 1;
        }
    }
    fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
        self.i += 1;
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(60);
        let b = (self.i + 100).min(self.s.len());
        format!(
            "{} <HERE> {}",
            String::from_utf8_lossy(&self.s[a..self.i]),
            String::from_utf8_lossy(&self.s[self.i..b])
        )
    }
    fn expect(&mut self, t: &[u8]) {
        self.ws();
        if !self.s[self.i..].starts_with(t) {
            panic!("expected {:?} at {}", String::from_utf8_lossy(t), self.ctx());
        }
        self.i += t.len();
    }
    fn accept(&mut self, t: &[u8]) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    /// identifier after a sigil (possibly quoted)
    fn name(&mut self) -> String {
        if self.peek() == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            return String::from_utf8_lossy(&self.s[st..j]).to_string();
        }
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn ident(&mut self) -> String {
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'.') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn peek_ident(&mut self) -> String {
        self.ws();
        let sv = self.i;
        let r = self.ident();
        self.i = sv;
        r
    }
    fn balanced(&mut self) {
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let st = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        t.parse::<i128>()
            .unwrap_or_else(|_| t.parse::<u128>().unwrap_or_else(|_| panic!("int at {}", self.ctx())) as i128)
    }
    fn is_ty_word(w: &str) -> bool {
        matches!(w, "void" | "half" | "float" | "double" | "ptr" | "label" | "metadata" | "token" | "fp128" | "bfloat" | "x86_fp80")
            || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    fn at_ty(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_ident();
                Self::is_ty_word(&w)
            }
        }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        self.ws();
        match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.int() as u64;
                self.expect(b"x");
                let t = self.try_ty()?;
                self.expect(b"]");
                Some(Ty::Array(Rc::new(t), n))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    let t = self.try_ty()?;
                    self.expect(b">");
                    if let Ty::Struct(f, _) = t {
                        return Some(Ty::Struct(f, true));
                    }
                    unreachable!()
                }
                let n = self.int() as u64;
                self.expect(b"x");
                let t = self.try_ty()?;
                self.expect(b">");
                Some(Ty::Vector(Rc::new(t), n))
            }
            b'{' => {
                self.i += 1;
                let mut f = vec![];
                loop {
                    self.ws();
                    if self.accept(b"}") {
                        break;
                    }
                    f.push(self.try_ty()?);
                    self.ws();
                    self.accept(b",");
                }
                Some(Ty::Struct(Rc::new(f), false))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.unwrap().named.get(&n).cloned()
            }
            _ => {
                let w = self.ident();
                Some(match w.as_str() {
                    "void" => Ty::Void,
                    "half" | "bfloat" => Ty::Half,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "ptr" => {
                        self.ws();
                        if self.s[self.i..].starts_with(b"addrspace") {
                            self.ident();
                            self.balanced();
                        }
                        Ty::Ptr
                    }
                    "label" => Ty::Label,
                    "metadata" | "token" => Ty::Meta,
                    "fp128" => Ty::Int(128),
                    _ => {
                        if w.starts_with('i') {
                            Ty::Int(w[1..].parse().ok()?)
                        } else {
                            return None;
                        }
                    }
                })
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let sv = self.i;
        match self.try_ty() {
            Some(t) => t,
            None => {
                self.i = sv;
                panic!("type at {}", self.ctx())
            }
        }
    }
    fn is_value_word(w: &str) -> bool {
        matches!(
            w,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "c" | "getelementptr" | "inttoptr"
                | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "icmp" | "select" | "zext"
                | "sext" | "blockaddress" | "asm" | "addrspacecast"
        )
    }
    /// skip attributes before a value
    fn attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.peek() != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.peek() == b'=' {
                    self.i += 1;
                    if self.peek() == b'"' {
                        self.i += 1;
                        while self.peek() != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                    }
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.ident();
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let sv = self.i;
            let w = self.ident();
            if Self::is_value_word(&w) {
                self.i = sv;
                return;
            }
            if w == "align" {
                self.ws();
                if self.peek().is_ascii_digit() {
                    self.int();
                }
                continue;
            }
            if self.peek() == b'(' {
                self.balanced();
            }
        }
    }
    /// skip words before a type (calling conventions, return attributes, flags)
    fn pre_ty(&mut self) {
        loop {
            self.ws();
            if self.at_ty() {
                return;
            }
            let c = self.peek();
            if !c.is_ascii_alphabetic() {
                panic!("pre_ty at {}", self.ctx());
            }
            let w = self.ident();
            self.ws();
            if w == "align" || w == "cc" {
                if self.peek().is_ascii_digit() {
                    self.int();
                }
            }
            if self.peek() == b'(' {
                self.balanced();
            }
        }
    }
    fn flags(&mut self, names: &[&str]) {
        loop {
            let w = self.peek_ident();
            if names.contains(&w.as_str()) {
                self.ws();
                self.ident();
                if self.peek() == b'(' {
                    self.balanced();
                }
            } else {
                return;
            }
        }
    }

    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) => Val::C(0, *w as u16),
            Ty::Float => Val::C(0, 32),
            Ty::Double | Ty::Ptr => Val::C(0, 64),
            Ty::Half => Val::C(0, 16),
            Ty::Array(t, n) | Ty::Vector(t, n) => Val::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Self::zero).collect())),
            _ => Val::C(0, 1),
        }
    }

    fn global_addr(&self, n: &str) -> u64 {
        let m = self.m.unwrap();
        if let Some(g) = m.g_idx.get(n) {
            return g_addr(*g);
        }
        if let Some(f) = m.fn_idx.get(n) {
            return fn_addr(*f);
        }
        if let Some(a) = m.aliases.get(n) {
            return self.global_addr(&a.clone());
        }
        panic!("unknown global {}", n)
    }

    fn cint(v: &Val) -> i64 {
        match v {
            Val::C(v, w) => {
                let w = *w as u32;
                let v = *v;
                if w < 64 && (v >> (w - 1)) & 1 == 1 {
                    (v as u64 | !(mask(w) as u64)) as i64
                } else {
                    v as i64
                }
            }
            _ => panic!("cint"),
        }
    }

    /// constant of type ty
    fn konst(&mut self, ty: &Ty) -> Val {
        self.ws();
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                return Val::C(self.global_addr(&n) as u128, 64);
            }
            b'[' | b'{' => {
                self.i += 1;
                return self.agg(if c == b'[' { b"]" } else { b"}" });
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let v = self.agg(b"}");
                    self.expect(b">");
                    return v;
                }
                return self.agg(b">");
            }
            b'-' | b'0'..=b'9' => {
                if matches!(ty, Ty::Float | Ty::Double | Ty::Half) {
                    let st = self.i;
                    while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-')) {
                        self.i += 1;
                    }
                    let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                    return Self::flt(ty, t);
                }
                let v = self.int();
                let w = match ty {
                    Ty::Int(w) => *w,
                    Ty::Ptr => 64,
                    _ => panic!("int const of {:?} at {}", ty, self.ctx()),
                };
                return Val::C(v as u128 & mask(w), w as u16);
            }
            _ => {}
        }
        let w = self.ident();
        match w.as_str() {
            "true" => Val::C(1, 1),
            "false" => Val::C(0, 1),
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => Self::zero(ty),
            "c" => {
                // c"...."
                assert_eq!(self.peek(), b'"');
                self.i += 1;
                let mut out = vec![];
                while self.peek() != b'"' {
                    if self.peek() == b'\\' && self.s[self.i + 1] == b'\\' {
                        out.push(b'\\');
                        self.i += 2;
                    } else if self.peek() == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        out.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 3;
                    } else {
                        out.push(self.peek());
                        self.i += 1;
                    }
                }
                self.i += 1;
                Val::A(Rc::new(out.into_iter().map(|b| Val::C(b as u128, 8)).collect()))
            }
            "splat" => {
                self.expect(b"(");
                let t = self.ty();
                let v = self.konst(&t);
                self.expect(b")");
                let n = match ty {
                    Ty::Vector(_, n) => *n as usize,
                    _ => panic!("splat"),
                };
                Val::A(Rc::new(vec![v; n]))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" | "addrspacecast" => {
                self.expect(b"(");
                let t = self.ty();
                let v = self.konst(&t);
                self.expect(b"to");
                let t2 = self.ty();
                self.expect(b")");
                match v {
                    Val::C(x, _) => {
                        let nw = t2.bits();
                        let x = if w == "sext" { Self::cint(&v) as u128 } else { x };
                        Val::C(x & mask(nw), nw as u16)
                    }
                    v => v,
                }
            }
            "getelementptr" => {
                self.flags(&["inbounds", "nuw", "nusw", "inrange"]);
                self.expect(b"(");
                let t = self.ty();
                self.expect(b",");
                let bt = self.ty();
                let b = self.konst(&bt);
                let mut base = Self::cint(&b);
                let mut cur = t;
                let mut first = true;
                while self.accept(b",") {
                    self.flags(&["inrange"]);
                    let it = self.ty();
                    let iv = self.konst(&it);
                    let k = Self::cint(&iv);
                    if first {
                        base += k * cur.size() as i64;
                        first = false;
                    } else {
                        base += cur.field_off(k as usize) as i64;
                        cur = cur.elem(k as usize).clone();
                    }
                }
                self.expect(b")");
                Val::C(base as u64 as u128, 64)
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                self.flags(&["nuw", "nsw", "disjoint"]);
                self.expect(b"(");
                let t = self.ty();
                let a = self.konst(&t);
                self.expect(b",");
                let t2 = self.ty();
                let b = self.konst(&t2);
                self.expect(b")");
                if let (Val::C(a, wd), Val::C(b, _)) = (a, b) {
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        _ => a << b,
                    };
                    Val::C(r & mask(wd as u32), wd)
                } else {
                    panic!("const expr")
                }
            }
            _ => panic!("constant '{}' of {:?} at {}", w, ty, self.ctx()),
        }
    }
    fn agg(&mut self, end: &[u8]) -> Val {
        let mut v = vec![];
        loop {
            if self.accept(end) {
                break;
            }
            let t = self.ty();
            v.push(self.konst(&t));
            self.accept(b",");
        }
        Val::A(Rc::new(v))
    }
    fn flt(ty: &Ty, t: &str) -> Val {
        let d: f64 = if let Some(h) = t.strip_prefix("0xH").or(t.strip_prefix("0xR")) {
            return Val::C(u128::from_str_radix(h, 16).unwrap(), 16);
        } else if let Some(h) = t.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
        } else {
            t.parse().unwrap()
        };
        match ty {
            Ty::Float => Val::C((d as f32).to_bits() as u128, 32),
            Ty::Double => Val::C(d.to_bits() as u128, 64),
            _ => Val::C(0, 16),
        }
    }
    fn const_into(&mut self, ty: &Ty, out: &mut [u8], off: usize) {
        let v = self.konst(ty);
        Self::put(ty, &v, out, off);
    }
    fn put(ty: &Ty, v: &Val, out: &mut [u8], off: usize) {
        match v {
            Val::C(x, _) => {
                let n = ty.size() as usize;
                for i in 0..n.min(16) {
                    out[off + i] = (x >> (8 * i)) as u8;
                }
            }
            Val::A(vs) => {
                for (i, e) in vs.iter().enumerate() {
                    Self::put(ty.elem(i), e, out, off + ty.field_off(i) as usize);
                }
            }
            _ => panic!("put"),
        }
    }

    fn opd(&mut self, ty: &Ty, fx: &mut Fx) -> Opd {
        self.ws();
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            Opd::Reg(fx.reg(&n))
        } else {
            Opd::K(self.konst(ty))
        }
    }
    fn tyopd(&mut self, fx: &mut Fx) -> (Ty, Opd) {
        let t = self.ty();
        self.attrs();
        let o = self.opd(&t, fx);
        (t, o)
    }
    fn lab(&mut self, fx: &mut Fx) -> u32 {
        self.expect(b"label");
        self.expect(b"%");
        let n = self.name();
        fx.label(&n)
    }
    fn call(&mut self, fx: &mut Fx) -> (Callee, Vec<(Ty, Opd)>, Ty) {
        self.pre_ty();
        let rt = self.ty();
        self.ws();
        if self.peek() == b'(' {
            self.balanced(); // vararg function type
        }
        self.ws();
        let callee = if self.peek() == b'@' {
            self.i += 1;
            let n = self.name();
            let m = self.m.unwrap();
            let mut n2 = n.clone();
            while let Some(a) = m.aliases.get(&n2) {
                n2 = a.clone();
            }
            if n2.starts_with("llvm.") {
                Callee::Intrinsic(n2.as_str().into())
            } else {
                Callee::Direct(*m.fn_idx.get(&n2).unwrap_or_else(|| panic!("fn {}", n2)))
            }
        } else if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            Callee::Indirect(Opd::Reg(fx.reg(&n)))
        } else {
            let w = self.peek_ident();
            if w == "asm" {
                // asm flags "..." , "..."
                while self.peek() != b'(' {
                    if self.peek() == b'"' {
                        self.i += 1;
                        while self.peek() != b'"' {
                            self.i += 1;
                        }
                    }
                    self.i += 1;
                }
                Callee::Asm
            } else {
                let v = self.konst(&Ty::Ptr);
                Callee::Indirect(Opd::K(v))
            }
        };
        self.expect(b"(");
        let mut args = vec![];
        loop {
            if self.accept(b")") {
                break;
            }
            let t = self.ty();
            if t == Ty::Meta {
                // skip to , or ) at depth 0
                let mut d = 0;
                loop {
                    match self.peek() {
                        b'(' | b'{' | b'[' => d += 1,
                        b')' if d == 0 => break,
                        b')' | b'}' | b']' => d -= 1,
                        b',' if d == 0 => break,
                        _ => {}
                    }
                    self.i += 1;
                }
                args.push((Ty::Meta, Opd::K(Val::C(0, 1))));
            } else {
                self.attrs();
                let o = self.opd(&t, fx);
                args.push((t, o));
            }
            self.accept(b",");
        }
        (callee, args, rt)
    }

    fn inst(&mut self, fx: &mut Fx) -> PI {
        self.ws();
        let mut dst: Option<u32> = None;
        let start = self.i;
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            dst = Some(fx.reg(&n));
            self.expect(b"=");
            self.ws();
        }
        let op = self.ident();
        let d = || dst.expect("dst");
        let ff = ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        let bin = |s: &str| -> Option<Bin> {
            Some(match s {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                _ => return None,
            })
        };
        if let Some(b) = bin(&op) {
            self.flags(&["nuw", "nsw", "exact", "disjoint"]);
            let t = self.ty();
            let a = self.opd(&t, fx);
            self.expect(b",");
            let c = self.opd(&t, fx);
            return PI::I(Inst::Bin(d(), b, t, a, c));
        }
        let fb = match op.as_str() {
            "fadd" => Some(FBin::Add),
            "fsub" => Some(FBin::Sub),
            "fmul" => Some(FBin::Mul),
            "fdiv" => Some(FBin::Div),
            "frem" => Some(FBin::Rem),
            _ => None,
        };
        if let Some(b) = fb {
            self.flags(&ff);
            let t = self.ty();
            let a = self.opd(&t, fx);
            self.expect(b",");
            let c = self.opd(&t, fx);
            return PI::I(Inst::FBin(d(), b, t, a, c));
        }
        let ca = match op.as_str() {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
            "inttoptr" => Some(Cast::IntToPtr),
            "bitcast" | "addrspacecast" => Some(Cast::BitCast),
            "fptrunc" => Some(Cast::FPTrunc),
            "fpext" => Some(Cast::FPExt),
            "fptoui" => Some(Cast::FPToUI),
            "fptosi" => Some(Cast::FPToSI),
            "uitofp" => Some(Cast::UIToFP),
            "sitofp" => Some(Cast::SIToFP),
            _ => None,
        };
        if let Some(c) = ca {
            self.flags(&["nuw", "nsw", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
            let t = self.ty();
            let a = self.opd(&t, fx);
            self.expect(b"to");
            let t2 = self.ty();
            return PI::I(Inst::Cast(d(), c, t, t2, a));
        }
        match op.as_str() {
            "phi" => {
                self.flags(&ff);
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.expect(b"[");
                    let o = self.opd(&t, fx);
                    self.expect(b",");
                    self.expect(b"%");
                    let n = self.name();
                    let l = fx.label(&n);
                    self.expect(b"]");
                    v.push((l, o));
                    self.ws_inline();
                    if self.peek() == b',' {
                        let sv = self.i;
                        self.i += 1;
                        self.ws_inline();
                        if self.peek() == b'[' {
                            continue;
                        }
                        self.i = sv;
                    }
                    break;
                }
                PI::Phi(d(), v)
            }
            "fneg" => {
                self.flags(&ff);
                let t = self.ty();
                let a = self.opd(&t, fx);
                PI::I(Inst::FNeg(d(), t, a))
            }
            "icmp" => {
                self.flags(&["samesign"]);
                self.ws();
                let p = self.ident();
                let pr = match p.as_str() {
                    "eq" => IP::Eq,
                    "ne" => IP::Ne,
                    "ugt" => IP::Ugt,
                    "uge" => IP::Uge,
                    "ult" => IP::Ult,
                    "ule" => IP::Ule,
                    "sgt" => IP::Sgt,
                    "sge" => IP::Sge,
                    "slt" => IP::Slt,
                    "sle" => IP::Sle,
                    _ => panic!("icmp {}", p),
                };
                let t = self.ty();
                let a = self.opd(&t, fx);
                self.expect(b",");
                let b = self.opd(&t, fx);
                PI::I(Inst::ICmp(d(), pr, t, a, b))
            }
            "fcmp" => {
                self.flags(&ff);
                self.ws();
                let p = self.ident();
                let t = self.ty();
                let a = self.opd(&t, fx);
                self.expect(b",");
                let b = self.opd(&t, fx);
                PI::I(Inst::FCmp(d(), p.as_str().into(), t, a, b))
            }
            "select" => {
                self.flags(&ff);
                let (_, c) = self.tyopd(fx);
                self.expect(b",");
                let (_, a) = self.tyopd(fx);
                self.expect(b",");
                let (_, b) = self.tyopd(fx);
                PI::I(Inst::Select(d(), c, a, b))
            }
            "alloca" => {
                self.flags(&["inalloca"]);
                let t = self.ty();
                let mut n = Opd::K(Val::C(1, 64));
                self.ws_inline();
                if self.peek() == b',' {
                    let sv = self.i;
                    self.i += 1;
                    if self.at_ty() {
                        let (_, o) = self.tyopd(fx);
                        n = o;
                    } else {
                        self.i = sv;
                    }
                }
                PI::I(Inst::Alloca(d(), t.size(), n))
            }
            "load" => {
                self.flags(&["atomic", "volatile"]);
                let t = self.ty();
                self.expect(b",");
                let (_, p) = self.tyopd(fx);
                PI::I(Inst::Load(d(), t, p))
            }
            "store" => {
                self.flags(&["atomic", "volatile"]);
                let (t, v) = self.tyopd(fx);
                self.expect(b",");
                let (_, p) = self.tyopd(fx);
                PI::I(Inst::Store(t, v, p))
            }
            "getelementptr" => {
                self.flags(&["inbounds", "nuw", "nusw", "inrange"]);
                let t = self.ty();
                self.expect(b",");
                let (_, b) = self.tyopd(fx);
                let mut off = 0i64;
                let mut dynx = vec![];
                let mut cur = t;
                let mut first = true;
                loop {
                    self.ws_inline();
                    if self.peek() != b',' {
                        break;
                    }
                    let sv = self.i;
                    self.i += 1;
                    self.ws_inline();
                    if self.peek() == b'!' {
                        self.i = sv;
                        break;
                    }
                    let (it, io) = self.tyopd(fx);
                    let stride;
                    if first {
                        stride = cur.size() as i64;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &io {
                                    Opd::K(v) => Self::cint(v) as usize,
                                    _ => panic!("gep struct idx"),
                                };
                                off += cur.field_off(k) as i64;
                                cur = cur.elem(k).clone();
                                continue;
                            }
                            Ty::Array(e, _) | Ty::Vector(e, _) => {
                                stride = e.size() as i64;
                                let e2 = (**e).clone();
                                cur = e2;
                            }
                            _ => panic!("gep into {:?}", cur),
                        }
                    }
                    first = false;
                    match &io {
                        Opd::K(v) => off = off.wrapping_add(Self::cint(v).wrapping_mul(stride)),
                        _ => dynx.push((io, stride, it.bits())),
                    }
                }
                PI::I(Inst::Gep(d(), b, off, dynx))
            }
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    self.ws();
                    let w = self.ident();
                    assert_eq!(w, "call");
                }
                let (c, a, t) = self.call(fx);
                PI::I(Inst::Call(dst, c, a, t))
            }
            "invoke" => {
                let (c, a, t) = self.call(fx);
                // skip to "to label"
                loop {
                    self.ws();
                    if self.s[self.i..].starts_with(b"to label") {
                        self.i += 3;
                        break;
                    }
                    self.i += 1;
                }
                let n = self.lab(fx);
                self.expect(b"unwind");
                let _ = self.lab(fx);
                PI::I(Inst::Invoke(dst, c, a, t, n))
            }
            "br" => {
                self.ws();
                if self.s[self.i..].starts_with(b"label") {
                    let l = self.lab(fx);
                    PI::I(Inst::Br(l))
                } else {
                    let (_, c) = self.tyopd(fx);
                    self.expect(b",");
                    let a = self.lab(fx);
                    self.expect(b",");
                    let b = self.lab(fx);
                    PI::I(Inst::CondBr(c, a, b))
                }
            }
            "switch" => {
                let (t, c) = self.tyopd(fx);
                self.expect(b",");
                let def = self.lab(fx);
                self.expect(b"[");
                let mut cs = vec![];
                loop {
                    if self.accept(b"]") {
                        break;
                    }
                    let ct = self.ty();
                    let v = self.konst(&ct);
                    self.expect(b",");
                    let l = self.lab(fx);
                    if let Val::C(x, _) = v {
                        cs.push((x, l));
                    }
                }
                PI::I(Inst::Switch(t, c, def, cs))
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    PI::I(Inst::Ret(None))
                } else {
                    let o = self.opd(&t, fx);
                    PI::I(Inst::Ret(Some(o)))
                }
            }
            "unreachable" => PI::I(Inst::Unreachable),
            "extractvalue" => {
                let (_, a) = self.tyopd(fx);
                let mut ix = vec![];
                loop {
                    self.ws_inline();
                    if self.peek() != b',' {
                        break;
                    }
                    self.i += 1;
                    self.ws_inline();
                    if !self.peek().is_ascii_digit() {
                        break;
                    }
                    ix.push(self.int() as u32);
                }
                PI::I(Inst::ExtractValue(d(), a, ix))
            }
            "insertvalue" => {
                let (t, a) = self.tyopd(fx);
                self.expect(b",");
                let (_, v) = self.tyopd(fx);
                let mut ix = vec![];
                loop {
                    self.ws_inline();
                    if self.peek() != b',' {
                        break;
                    }
                    self.i += 1;
                    self.ws_inline();
                    if !self.peek().is_ascii_digit() {
                        break;
                    }
                    ix.push(self.int() as u32);
                }
                PI::I(Inst::InsertValue(d(), t, a, v, ix))
            }
            "extractelement" => {
                let (_, a) = self.tyopd(fx);
                self.expect(b",");
                let (_, i) = self.tyopd(fx);
                PI::I(Inst::ExtractElement(d(), a, i))
            }
            "insertelement" => {
                let (_, a) = self.tyopd(fx);
                self.expect(b",");
                let (_, v) = self.tyopd(fx);
                self.expect(b",");
                let (_, i) = self.tyopd(fx);
                PI::I(Inst::InsertElement(d(), a, v, i))
            }
            "shufflevector" => {
                let (_, a) = self.tyopd(fx);
                self.expect(b",");
                let (_, b) = self.tyopd(fx);
                self.expect(b",");
                let (_, mk) = self.tyopd(fx);
                let ix = match mk {
                    Opd::K(Val::A(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(c, _) => *c as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                PI::I(Inst::Shuffle(d(), a, b, ix))
            }
            "freeze" => {
                let (_, a) = self.tyopd(fx);
                PI::I(Inst::Freeze(d(), a))
            }
            "atomicrmw" => {
                self.flags(&["volatile"]);
                self.ws();
                let o = self.ident();
                let (_, p) = self.tyopd(fx);
                self.expect(b",");
                let (t, v) = self.tyopd(fx);
                PI::I(Inst::AtomicRmw(d(), o.as_str().into(), t, p, v))
            }
            "cmpxchg" => {
                self.flags(&["weak", "volatile"]);
                let (_, p) = self.tyopd(fx);
                self.expect(b",");
                let (t, a) = self.tyopd(fx);
                self.expect(b",");
                let (_, b) = self.tyopd(fx);
                PI::I(Inst::CmpXchg(d(), t, p, a, b))
            }
            "fence" => PI::I(Inst::Fence),
            "landingpad" => PI::I(Inst::LandingPad(d())),
            "cleanup" | "catch" | "filter" | "to" => PI::Skip,
            "resume" => PI::I(Inst::Resume),
            _ => {
                let e = (self.i + 80).min(self.s.len());
                let t = String::from_utf8_lossy(&self.s[start..e]).to_string();
                PI::I(Inst::Unsupported(t.as_str().into()))
            }
        }
    }
}
