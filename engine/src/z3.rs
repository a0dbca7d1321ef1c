//! Solver interface: translation of expressions to z3 and queries, through z3's C API.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_real_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bv2int(c: P, a: P, s: bool) -> P;
    fn Z3_mk_int2real(c: P, a: P) -> P;
    fn Z3_mk_real2int(c: P, a: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_unary_minus(c: P, a: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    fn Z3_mk_fpa_abs(c: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_decimal_string(c: P, a: P, prec: c_uint) -> *const c_char;
    fn Z3_is_numeral_ast(c: P, a: P) -> bool;
    fn Z3_is_algebraic_number(c: P, a: P) -> bool;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, _e: c_int) {}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    inc: P,
    stack: Vec<Id>,
    bv: HashMap<Id, P>,
    bo: HashMap<Id, P>,
    fp: HashMap<Id, P>,
    re: HashMap<Id, P>,
    ufs: HashMap<(u128, u8, u16, u16), P>,
    side: HashMap<Id, Vec<P>>, // definitions for square roots
    pub queries: u64,
    pub nsat: u64,
    pub nunsat: u64,
    pub nunknown: u64,
    pub time: f64,
    pub maxq: f64,
    pub rlimit: u32,
    pub dump: Option<String>,
    pub dumped: u64,
    pub alg: crate::poly::Alg,
    pub timeout: u32, // milliseconds per query outside bit-vector logic
}

/// Values of input variables in a model: bit patterns.
pub type Model = HashMap<u32, u128>;

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

pub static TIMEOUT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let inc = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, inc);
            let z = Z3 {
                c,
                inc,
                stack: vec![],
                bv: HashMap::new(),
                bo: HashMap::new(),
                fp: HashMap::new(),
                re: HashMap::new(),
                ufs: HashMap::new(),
                side: HashMap::new(),
                queries: 0,
                nsat: 0,
                nunsat: 0,
                nunknown: 0,
                time: 0.0,
                maxq: 0.0,
                rlimit,
                dump: None,
                dumped: 0,
                alg: Default::default(),
                timeout: TIMEOUT.load(std::sync::atomic::Ordering::Relaxed),
            };
            z.params(inc);
            z
        }
    }
    fn params(&self, s: P) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = Z3_mk_string_symbol(self.c, cs("rlimit").as_ptr());
            Z3_params_set_uint(self.c, p, k, self.rlimit);
            if self.timeout > 0 {
                let k = Z3_mk_string_symbol(self.c, cs("timeout").as_ptr());
                Z3_params_set_uint(self.c, p, k, self.timeout);
            }
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn chk(&self, what: &str) {
        unsafe {
            let e = Z3_get_error_code(self.c);
            if e != 0 {
                let m = CStr::from_ptr(Z3_get_error_msg(self.c, e)).to_string_lossy().to_string();
                panic!("UNSUPPORTED: z3 error in {}: {}", what, m);
            }
        }
    }
    fn keep(&self, a: P, what: &str) -> P {
        if a.is_null() {
            self.chk(what);
            panic!("UNSUPPORTED: z3 null in {}", what);
        }
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn sort(&self, w: u16) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w as c_uint) }
    }
    fn fsort(&self, w: u16) -> P {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort(self.c, 8, 24)
            } else {
                Z3_mk_fpa_sort(self.c, 11, 53)
            }
        }
    }
    fn knum(&self, k: u128, w: u16) -> P {
        let s = cs(&k.to_string());
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.sort(w)) }
    }
    fn topo(&self, ar: &Arena, i: Id, done: &dyn Fn(Id) -> bool) -> Vec<Id> {
        let mut out = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![(i, false)];
        while let Some((x, post)) = st.pop() {
            if post {
                out.push(x);
                continue;
            }
            if done(x) || !seen.insert(x) {
                continue;
            }
            st.push((x, true));
            let n = &ar.n[x as usize];
            for c in [n.a, n.b, n.c] {
                if c != 0 {
                    st.push((c, false));
                }
            }
        }
        out
    }
    /// boolean translation of a 1-bit expression
    pub fn tb(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(p) = self.bo.get(&i) {
            return *p;
        }
        // children first, to keep the recursion shallow
        for x in self.topo(ar, i, &|x| self.bo.contains_key(&x) || self.bv.contains_key(&x) || self.re.contains_key(&x)) {
            if x != i {
                let n = &ar.n[x as usize];
                if n.w == 1 {
                    self.tb1(ar, x);
                } else if ar.mode == Mode::Real && ar.fl[x as usize] & F_FLOAT != 0 {
                    // translated on demand
                } else if n.op != Op::Const {
                    self.tv(ar, x);
                }
            }
        }
        self.tb1(ar, i)
    }
    fn tb1(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(p) = self.bo.get(&i) {
            return *p;
        }
        let n = ar.n[i as usize];
        assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.tb1(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let v = [self.tb1(ar, n.a), self.tb1(ar, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.tb1(ar, n.a), self.tb1(ar, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let (a, b) = (self.tb1(ar, n.a), self.tb1(ar, n.b));
                    Z3_mk_xor(c, a, b)
                }
                Op::Ite => {
                    let (x, a, b) = (self.tb1(ar, n.a), self.tb1(ar, n.b), self.tb1(ar, n.c));
                    Z3_mk_ite(c, x, a, b)
                }
                Op::Eq if ar.w(n.a) == 1 => {
                    let (a, b) = (self.tb1(ar, n.a), self.tb1(ar, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq if ar.mode == Mode::Real && (ar.fl[n.a as usize] | ar.fl[n.b as usize]) & F_FLOAT != 0 => {
                    // comparing bit patterns of real-mode floats: only the value is modelled
                    let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.tv(ar, n.a), self.tv(ar, n.b));
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::FLt | Op::FLe | Op::FEq | Op::FUno => self.fcmp(ar, n),
                _ => {
                    // other 1-bit operations through bit-vectors
                    let a = self.tv(ar, i);
                    Z3_mk_eq(c, a, self.knum(1, 1))
                }
            }
        };
        let r = self.keep(r, "bool");
        self.bo.insert(i, r);
        r
    }
    fn fcmp(&mut self, ar: &Arena, n: Node) -> P {
        let c = self.c;
        let w = ar.w(n.a);
        unsafe {
            match ar.mode {
                Mode::Real => {
                    if n.op != Op::FUno {
                        match self.alg.cmp(ar, &n) {
                            Some(crate::poly::Cmp::Known(b)) => return if b { Z3_mk_true(c) } else { Z3_mk_false(c) },
                            Some(crate::poly::Cmp::Sign(op, f)) => {
                                let z = self.rat(0, 32);
                                let v: Vec<P> = f.iter().map(|p| self.tpoly(ar, p)).collect();
                                let p = if v.len() == 1 { v[0] } else { Z3_mk_mul(c, v.len() as c_uint, v.as_ptr()) };
                                return match op {
                                    Op::FLt => Z3_mk_lt(c, p, z),
                                    Op::FLe => Z3_mk_le(c, p, z),
                                    _ => Z3_mk_eq(c, p, z),
                                };
                            }
                            None => {}
                        }
                    }
                    let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b));
                    match n.op {
                        Op::FLt => Z3_mk_lt(c, a, b),
                        Op::FLe => Z3_mk_le(c, a, b),
                        Op::FEq => Z3_mk_eq(c, a, b),
                        _ => Z3_mk_false(c),
                    }
                }
                Mode::Fp => {
                    let (a, b) = (self.tf(ar, n.a), self.tf(ar, n.b));
                    match n.op {
                        Op::FLt => Z3_mk_fpa_lt(c, a, b),
                        Op::FLe => Z3_mk_fpa_leq(c, a, b),
                        Op::FEq => Z3_mk_fpa_eq(c, a, b),
                        _ => {
                            let v = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)];
                            Z3_mk_or(c, 2, v.as_ptr())
                        }
                    }
                }
                Mode::Uf => {
                    let (a, b) = (self.tv(ar, n.a), self.tv(ar, n.b));
                    let inf = self.knum(f_to(f64::INFINITY, w), w);
                    let mag = |x: P| Z3_mk_zero_ext(c, 1, Z3_mk_extract(c, w as c_uint - 2, 0, x));
                    let nan = |x: P| Z3_mk_bvult(c, inf, mag(x));
                    if n.op == Op::FUno {
                        let v = [nan(a), nan(b)];
                        return Z3_mk_or(c, 2, v.as_ptr());
                    }
                    let zero = self.knum(0, w);
                    let bothz = Z3_mk_eq(c, Z3_mk_bvor(c, mag(a), mag(b)), zero);
                    let ok = {
                        let v = [Z3_mk_not(c, nan(a)), Z3_mk_not(c, nan(b))];
                        Z3_mk_and(c, 2, v.as_ptr())
                    };
                    let eq = {
                        let v = [Z3_mk_eq(c, a, b), bothz];
                        Z3_mk_or(c, 2, v.as_ptr())
                    };
                    if n.op == Op::FEq {
                        let v = [ok, eq];
                        return Z3_mk_and(c, 2, v.as_ptr());
                    }
                    let one1 = self.knum(1, 1);
                    let neg = |x: P| Z3_mk_eq(c, Z3_mk_extract(c, w as c_uint - 1, w as c_uint - 1, x), one1);
                    let lt0 = Z3_mk_ite(
                        c,
                        neg(a),
                        Z3_mk_ite(c, neg(b), Z3_mk_bvult(c, b, a), Z3_mk_true(c)),
                        Z3_mk_ite(c, neg(b), Z3_mk_false(c), Z3_mk_bvult(c, a, b)),
                    );
                    let v = [ok, Z3_mk_not(c, bothz), lt0];
                    let lt = Z3_mk_and(c, 3, v.as_ptr());
                    if n.op == Op::FLt {
                        return lt;
                    }
                    let v = [ok, eq];
                    let e = Z3_mk_and(c, 2, v.as_ptr());
                    let v = [lt, e];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
            }
        }
    }
    fn uf(&mut self, key: (u128, u8, u16, u16), dom: &[P], r: P) -> P {
        if let Some(d) = self.ufs.get(&key) {
            return *d;
        }
        let s = cs(&format!("uf_{}_{}_{}_{}", key.0, key.1, key.2, key.3));
        let d = unsafe { Z3_mk_func_decl(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), dom.len() as c_uint, dom.as_ptr(), r) };
        let d = self.keep(d, "uf");
        self.ufs.insert(key, d);
        d
    }
    /// bit-vector translation
    fn tv(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(p) = self.bv.get(&i) {
            return *p;
        }
        let n = ar.n[i as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.knum(n.k, n.w),
                Op::Var => {
                    let s = cs(&ar.vars[n.k as usize].0);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(n.w))
                }
                Op::RVar => panic!("UNSUPPORTED: bits of a real-mode float"),
                _ if n.w == 1 && !matches!(n.op, Op::Extract | Op::Uf | Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::ZExt | Op::SExt | Op::Concat | Op::FToS | Op::FToU) => {
                    let b = self.tb1(ar, i);
                    Z3_mk_ite(c, b, self.knum(1, 1), self.knum(0, 1))
                }
                Op::Not => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Ite => {
                    let (x, a, b) = (self.tb1(ar, n.a), self.tv(ar, n.b), self.tv(ar, n.c));
                    Z3_mk_ite(c, x, a, b)
                }
                Op::Concat => {
                    let (a, b) = (self.tv(ar, n.a), self.tv(ar, n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a)
                }
                Op::ZExt => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::And | Op::Or | Op::Xor => {
                    let (a, b) = (self.tv(ar, n.a), self.tv(ar, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        _ => Z3_mk_bvxor(c, a, b),
                    }
                }
                Op::FNeg | Op::FAbs if ar.mode == Mode::Uf => {
                    let a = self.tv(ar, n.a);
                    if n.op == Op::FNeg {
                        Z3_mk_bvxor(c, a, self.knum(1u128 << (n.w - 1), n.w))
                    } else {
                        Z3_mk_bvand(c, a, self.knum(mask(n.w - 1), n.w))
                    }
                }
                Op::Uf => {
                    let mut args = vec![];
                    let mut dom = vec![];
                    for x in [n.a, n.b] {
                        if x != 0 {
                            args.push(self.tv(ar, x));
                            dom.push(self.sort(ar.w(x)));
                        }
                    }
                    let rs = self.sort(n.w);
                    let d = self.uf((n.k, 255, ar.w(n.a), n.w), &dom, rs);
                    Z3_mk_app(c, d, args.len() as c_uint, args.as_ptr())
                }
                Op::Dec if ar.mode != Mode::Real => {
                    let args = [self.tv(ar, n.a)];
                    let dom = [self.sort(ar.w(n.a))];
                    let rs = self.sort(n.w);
                    let d = self.uf((n.k, 254, ar.w(n.a), n.w), &dom, rs);
                    Z3_mk_app(c, d, 1, args.as_ptr())
                }
                _ => match ar.mode {
                    Mode::Uf => {
                        let mut args = vec![];
                        let mut dom = vec![];
                        for x in [n.a, n.b] {
                            if x != 0 {
                                args.push(self.tv(ar, x));
                                dom.push(self.sort(ar.w(x)));
                            }
                        }
                        let rs = self.sort(n.w);
                        let d = self.uf((0, n.op as u8, ar.w(n.a), n.w), &dom, rs);
                        Z3_mk_app(c, d, args.len() as c_uint, args.as_ptr())
                    }
                    Mode::Fp => match n.op {
                        Op::FToS | Op::FToU => {
                            // saturating conversion, NaN -> 0
                            let x = self.tf(ar, n.a);
                            let fw = ar.w(n.a);
                            let rtz = Z3_mk_fpa_rtz(c);
                            let w = n.w;
                            let (lo, hi, lov, hiv) = if n.op == Op::FToS {
                                (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), mask(w - 1))
                            } else {
                                (0.0, 2f64.powi(w as i32), 0, mask(w))
                            };
                            let s = self.fsort(fw);
                            let flo = Z3_mk_fpa_to_fp_bv(c, self.knum(f_to(lo, fw), fw), s);
                            let fhi = Z3_mk_fpa_to_fp_bv(c, self.knum(f_to(hi, fw), fw), s);
                            let v = if n.op == Op::FToS { Z3_mk_fpa_to_sbv(c, rtz, x, w as c_uint) } else { Z3_mk_fpa_to_ubv(c, rtz, x, w as c_uint) };
                            let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fhi, x), self.knum(hiv, w), v);
                            let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, x, flo), self.knum(lov, w), r);
                            Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), self.knum(0, w), r)
                        }
                        _ => {
                            let f = self.tf(ar, i);
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                    },
                    Mode::Real => panic!("UNSUPPORTED: bits of a real-mode float ({:?})", n.op),
                },
            }
        };
        let r = self.keep(r, "bv");
        self.bv.insert(i, r);
        r
    }
    /// IEEE translation
    fn tf(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(p) = self.fp.get(&i) {
            return *p;
        }
        let n = ar.n[i as usize];
        let c = self.c;
        let r = unsafe {
            let rne = Z3_mk_fpa_rne(c);
            match n.op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.tf(ar, n.a), self.tf(ar, n.b));
                    match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rne, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rne, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rne, a, b),
                        _ => Z3_mk_fpa_div(c, rne, a, b),
                    }
                }
                Op::FNeg => {
                    let a = self.tf(ar, n.a);
                    Z3_mk_fpa_neg(c, a)
                }
                Op::FAbs => {
                    let a = self.tf(ar, n.a);
                    Z3_mk_fpa_abs(c, a)
                }
                Op::FSqrt => {
                    let a = self.tf(ar, n.a);
                    Z3_mk_fpa_sqrt(c, rne, a)
                }
                Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound => {
                    let a = self.tf(ar, n.a);
                    let rm = match n.op {
                        Op::FFloor => Z3_mk_fpa_rtn(c),
                        Op::FCeil => Z3_mk_fpa_rtp(c),
                        Op::FTrunc => Z3_mk_fpa_rtz(c),
                        _ => Z3_mk_fpa_rna(c),
                    };
                    Z3_mk_fpa_round_to_integral(c, rm, a)
                }
                Op::FConv => {
                    let a = self.tf(ar, n.a);
                    Z3_mk_fpa_to_fp_float(c, rne, a, self.fsort(n.w))
                }
                Op::SToF => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_fpa_to_fp_signed(c, rne, a, self.fsort(n.w))
                }
                Op::UToF => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_fpa_to_fp_unsigned(c, rne, a, self.fsort(n.w))
                }
                Op::Ite => {
                    let x = self.tb1(ar, n.a);
                    let (a, b) = (self.tf(ar, n.b), self.tf(ar, n.c));
                    Z3_mk_ite(c, x, a, b)
                }
                Op::FRem => panic!("UNSUPPORTED: frem"),
                _ => {
                    let a = self.tv(ar, i);
                    Z3_mk_fpa_to_fp_bv(c, a, self.fsort(n.w))
                }
            }
        };
        let r = self.keep(r, "fp");
        self.fp.insert(i, r);
        r
    }
    fn rat(&self, bits: u128, w: u16) -> P {
        let d = f_of(bits, w);
        if !d.is_finite() {
            panic!("UNSUPPORTED: non-finite constant in real mode");
        }
        let s = cs(&rat_str(d));
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_real_sort(self.c)) }
    }
    /// exact real translation
    fn tr(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(p) = self.re.get(&i) {
            return *p;
        }
        let n = ar.n[i as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.rat(n.k, n.w),
                Op::RVar => {
                    let s = cs(&ar.vars[n.k as usize].0);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_real_sort(c))
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let v = [self.tr(ar, n.a), self.tr(ar, n.b)];
                    match n.op {
                        Op::FAdd => Z3_mk_add(c, 2, v.as_ptr()),
                        Op::FSub => Z3_mk_sub(c, 2, v.as_ptr()),
                        Op::FMul => Z3_mk_mul(c, 2, v.as_ptr()),
                        _ => {
                            if ar.as_const(n.b).is_some() {
                                Z3_mk_div(c, v[0], v[1])
                            } else {
                                // quotient as a definition (the executor ensures the divisor is non-zero)
                                let s = cs(&format!("quot_{}", i));
                                let q = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_real_sort(c));
                                let q = self.keep(q, "quot");
                                let m = [q, v[1]];
                                let d = Z3_mk_eq(c, Z3_mk_mul(c, 2, m.as_ptr()), v[0]);
                                let d = self.keep(d, "quot");
                                self.side.insert(i, vec![d]);
                                q
                            }
                        }
                    }
                }
                Op::FNeg => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_unary_minus(c, a)
                }
                Op::FAbs => {
                    let a = self.tr(ar, n.a);
                    let z = self.rat(0, 32);
                    Z3_mk_ite(c, Z3_mk_lt(c, a, z), Z3_mk_unary_minus(c, a), a)
                }
                Op::FSqrt => {
                    let rf = self.alg.rf(ar, n.a);
                    let (a, den) = match rf {
                        Some(r) => {
                            let num = self.tpoly(ar, &r.num);
                            let mut den = vec![];
                            for (p, e) in &r.den {
                                let t = self.tpoly(ar, p);
                                for _ in 0..*e {
                                    den.push(t);
                                }
                            }
                            (num, den)
                        }
                        None => (self.tr(ar, n.a), vec![]),
                    };
                    let s = cs(&format!("sqrt_{}", i));
                    let q = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_real_sort(c));
                    let q = self.keep(q, "sqrt");
                    let mut m = vec![q, q];
                    m.extend(den);
                    let z = self.rat(0, 32);
                    let d1 = Z3_mk_eq(c, Z3_mk_mul(c, m.len() as c_uint, m.as_ptr()), a);
                    let d2 = Z3_mk_le(c, z, q);
                    let d1 = self.keep(d1, "sqrt");
                    let d2 = self.keep(d2, "sqrt");
                    self.side.insert(i, vec![d1, d2]);
                    q
                }
                Op::FFloor | Op::FCeil | Op::FTrunc => {
                    let a = self.tr(ar, n.a);
                    let fl = |x: P| Z3_mk_int2real(c, Z3_mk_real2int(c, x));
                    let cl = |x: P| Z3_mk_unary_minus(c, fl(Z3_mk_unary_minus(c, x)));
                    match n.op {
                        Op::FFloor => fl(a),
                        Op::FCeil => cl(a),
                        _ => {
                            let z = self.rat(0, 32);
                            Z3_mk_ite(c, Z3_mk_lt(c, a, z), cl(a), fl(a))
                        }
                    }
                }
                Op::FConv => self.tr(ar, n.a),
                Op::SToF | Op::UToF => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_int2real(c, Z3_mk_bv2int(c, a, n.op == Op::SToF))
                }
                Op::Dec => {
                    let a = self.tv(ar, n.a);
                    let q = n.k as i64;
                    let v = Z3_mk_int2real(c, Z3_mk_bv2int(c, a, false));
                    let p = format!("1{}", "0".repeat(q.unsigned_abs() as usize));
                    let t = if q < 0 { format!("1/{}", p) } else { p };
                    let t = cs(&t);
                    let m = [v, Z3_mk_numeral(c, t.as_ptr(), Z3_mk_real_sort(c))];
                    Z3_mk_mul(c, 2, m.as_ptr())
                }
                Op::Ite => {
                    let x = self.tb1(ar, n.a);
                    let (a, b) = (self.tr(ar, n.b), self.tr(ar, n.c));
                    Z3_mk_ite(c, x, a, b)
                }
                _ => panic!("UNSUPPORTED: real translation of {:?}", n.op),
            }
        };
        let r = self.keep(r, "real");
        self.re.insert(i, r);
        r
    }
    fn tpoly(&mut self, ar: &Arena, p: &crate::poly::Poly) -> P {
        let c = self.c;
        unsafe {
            let rs = Z3_mk_real_sort(c);
            let mut terms = vec![];
            for (m, k) in &p.0 {
                let mut v = vec![];
                if *k != crate::poly::Rat::int(1) || m.is_empty() {
                    let t = cs(&format!("{}/{}", k.n, k.d));
                    v.push(Z3_mk_numeral(c, t.as_ptr(), rs));
                }
                for (x, e) in m {
                    let i = self.alg.atoms[*x as usize];
                    let t = self.tr(ar, i);
                    for _ in 0..*e {
                        v.push(t);
                    }
                }
                terms.push(if v.len() == 1 { v[0] } else { Z3_mk_mul(c, v.len() as c_uint, v.as_ptr()) });
            }
            let r = match terms.len() {
                0 => self.rat(0, 32),
                1 => terms[0],
                n => Z3_mk_add(c, n as c_uint, terms.as_ptr()),
            };
            self.keep(r, "poly")
        }
    }
    fn sides(&self, ar: &Arena, roots: &[Id]) -> Vec<P> {
        let mut out = vec![];
        if self.side.is_empty() {
            return out;
        }
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<Id> = roots.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let Some(v) = self.side.get(&x) {
                out.extend(v.iter().cloned());
            }
            let n = &ar.n[x as usize];
            for c in [n.a, n.b, n.c] {
                if c != 0 {
                    st.push(c);
                }
            }
        }
        out
    }

    fn get_model(&mut self, ar: &Arena, s: P, vars: &[u32]) -> Model {
        let mut m = Model::new();
        unsafe {
            let md = Z3_solver_get_model(self.c, s);
            if md.is_null() {
                return m;
            }
            Z3_model_inc_ref(self.c, md);
            for v in vars {
                let (name, w, fl) = &ar.vars[*v as usize];
                let sym = Z3_mk_string_symbol(self.c, cs(name).as_ptr());
                let real = *fl && ar.mode == Mode::Real;
                let sort = if real { Z3_mk_real_sort(self.c) } else { self.sort(*w) };
                let k = Z3_mk_const(self.c, sym, sort);
                let k = self.keep(k, "mv");
                let mut out: P = std::ptr::null_mut();
                if Z3_model_eval(self.c, md, k, true, &mut out) && !out.is_null() {
                    if real {
                        let t = if Z3_is_numeral_ast(self.c, out) || Z3_is_algebraic_number(self.c, out) {
                            CStr::from_ptr(Z3_get_numeral_decimal_string(self.c, out, 40)).to_string_lossy().to_string()
                        } else {
                            CStr::from_ptr(Z3_ast_to_string(self.c, out)).to_string_lossy().to_string()
                        };
                        let t = t.trim_end_matches('?').replace("- ", "-");
                        let d: f64 = t.parse().unwrap_or(0.0);
                        m.insert(*v, f_to(d, *w));
                    } else if Z3_is_numeral_ast(self.c, out) {
                        let t = CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_string_lossy().to_string();
                        m.insert(*v, t.parse().unwrap_or(0));
                    }
                }
            }
            Z3_model_dec_ref(self.c, md);
        }
        m
    }
    fn account(&mut self, r: c_int, t0: std::time::Instant) -> Res {
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.maxq {
            self.maxq = dt;
        }
        self.queries += 1;
        match r {
            1 => {
                self.nsat += 1;
                Res::Sat
            }
            -1 => {
                self.nunsat += 1;
                Res::Unsat
            }
            _ => {
                self.nunknown += 1;
                Res::Unknown
            }
        }
    }
    /// incremental query: is pc && cond satisfiable?
    pub fn check(&mut self, ar: &Arena, pc: &[Id], cond: Option<Id>, vars: Option<&[u32]>) -> (Res, Option<Model>) {
        if ar.mode != Mode::Uf && (cond.map_or(false, |c| ar.fl[c as usize] & F_FLOAT != 0) || pc.iter().any(|c| ar.fl[*c as usize] & F_FLOAT != 0)) {
            return self.check_once(ar, pc, cond, vars);
        }
        let t0 = std::time::Instant::now();
        unsafe {
            let mut k = 0;
            while k < self.stack.len() && k < pc.len() && self.stack[k] == pc[k] {
                k += 1;
            }
            if k < self.stack.len() {
                let n = self.stack.len() - k;
                Z3_solver_pop(self.c, self.inc, n as c_uint);
                self.stack.truncate(k);
            }
            for i in k..pc.len() {
                let a = self.tb(ar, pc[i]);
                Z3_solver_push(self.c, self.inc);
                Z3_solver_assert(self.c, self.inc, a);
                self.stack.push(pc[i]);
            }
            if let Some(cd) = cond {
                let a = self.tb(ar, cd);
                Z3_solver_push(self.c, self.inc);
                Z3_solver_assert(self.c, self.inc, a);
            }
            let r = Z3_solver_check(self.c, self.inc);
            self.chk("check");
            self.dump_q(self.inc);
            let res = self.account(r, t0);
            let m = if res == Res::Sat { vars.map(|v| self.get_model(ar, self.inc, v)) } else { None };
            if cond.is_some() {
                Z3_solver_pop(self.c, self.inc, 1);
            }
            (res, m)
        }
    }
    fn dump_q(&mut self, s: P) {
        if let Some(d) = &self.dump {
            unsafe {
                let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().to_string();
                std::fs::write(format!("{}/q{}_{}.smt2", d, std::process::id(), self.dumped), t + "(check-sat)\n").ok();
                self.dumped += 1;
            }
        }
    }
    /// one-shot query with a fresh solver (better for nonlinear and floating-point problems)
    pub fn check_once(&mut self, ar: &Arena, pc: &[Id], cond: Option<Id>, vars: Option<&[u32]>) -> (Res, Option<Model>) {
        let t0 = std::time::Instant::now();
        unsafe {
            let mut roots: Vec<Id> = pc.to_vec();
            roots.extend(cond);
            let asts: Vec<P> = roots.iter().map(|r| self.tb(ar, *r)).collect();
            let sides = self.sides(ar, &roots);
            let s = if ar.mode == Mode::Real {
                let l = Z3_mk_string_symbol(self.c, cs("QF_NRA").as_ptr());
                let mixed = roots.iter().any(|r| self.has_bv(ar, *r));
                if mixed {
                    Z3_mk_solver(self.c)
                } else {
                    Z3_mk_solver_for_logic(self.c, l)
                }
            } else {
                Z3_mk_solver(self.c)
            };
            Z3_solver_inc_ref(self.c, s);
            self.params(s);
            for a in sides.into_iter().chain(asts) {
                Z3_solver_assert(self.c, s, a);
            }
            let r = Z3_solver_check(self.c, s);
            self.chk("check_once");
            self.dump_q(s);
            let res = self.account(r, t0);
            if res == Res::Unknown {
                let w = CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, s)).to_string_lossy().to_string();
                if std::env::var("SYMEX_DEBUG").is_ok() {
                    eprintln!("unknown: {}", w);
                }
            }
            let m = if res == Res::Sat { vars.map(|v| self.get_model(ar, s, v)) } else { None };
            Z3_solver_dec_ref(self.c, s);
            (res, m)
        }
    }
    fn has_bv(&self, ar: &Arena, r: Id) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![r];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = &ar.n[x as usize];
            if n.op == Op::Var || matches!(n.op, Op::FFloor | Op::FCeil | Op::FTrunc) {
                return true;
            }
            for c in [n.a, n.b, n.c] {
                if c != 0 {
                    st.push(c);
                }
            }
        }
        false
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

/// exact rational of a finite float, as z3 numeral text
pub fn rat_str(d: f64) -> String {
    if d == 0.0 {
        return "0".into();
    }
    let bits = d.to_bits();
    let neg = bits >> 63 == 1;
    let e = ((bits >> 52) & 0x7ff) as i32;
    let frac = bits & ((1 << 52) - 1);
    let (mut m, mut x) = if e == 0 { (frac, -1074) } else { (frac | (1 << 52), e - 1075) };
    while m & 1 == 0 {
        m >>= 1;
        x += 1;
    }
    let pow2 = |n: u32| -> String {
        // decimal of 2^n
        let mut v = vec![1u8];
        for _ in 0..n {
            let mut c = 0;
            for d in v.iter_mut() {
                let t = *d * 2 + c;
                *d = t % 10;
                c = t / 10;
            }
            if c > 0 {
                v.push(c);
            }
        }
        v.iter().rev().map(|d| (b'0' + d) as char).collect()
    };
    let mulstr = |p: &str, m: u64| -> String {
        let mut v: Vec<u8> = vec![];
        let mut c: u128 = 0;
        for ch in p.bytes().rev() {
            let t = (ch - b'0') as u128 * m as u128 + c;
            v.push((t % 10) as u8);
            c = t / 10;
        }
        while c > 0 {
            v.push((c % 10) as u8);
            c /= 10;
        }
        v.iter().rev().map(|d| (b'0' + d) as char).collect()
    };
    let s = if neg { "-" } else { "" };
    if x >= 0 {
        format!("{}{}", s, mulstr(&pow2(x as u32), m))
    } else {
        format!("{}{}/{}", s, m, pow2((-x) as u32))
    }
}
