//! Symbolic inputs and assertions.  Under the engine these are intrinsics; in the native
//! build (feature "native") they read a recorded counterexample and check it for real.
#![allow(dead_code)]

pub type F = pbrtrs::verif::Float;

#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_int(bits: u32) -> i64;
        pub fn sym_f32() -> f32;
        pub fn sym_f64() -> f64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, m: *const u8, n: usize);
        pub fn sym_fail(m: *const u8, n: usize) -> !;
        pub fn sym_cover(m: *const u8, n: usize);
        pub fn sym_panic_ok(c: bool);
        pub fn sym_is_real() -> bool;
        pub fn sym_fork(c: bool) -> bool;
        pub fn sym_concrete(x: u64) -> u64;
        pub fn sym_param(k: u32, q: i64, t: i64) -> i64;
        pub fn sym_and(a: bool, b: bool) -> bool;
        pub fn sym_or(a: bool, b: bool) -> bool;
        pub fn sym_not(a: bool) -> bool;
        pub fn sym_ite64(c: bool, a: u64, b: u64) -> u64;
        pub fn sym_close32(a: f32, b: f32) -> bool;
        pub fn sym_close64(a: f64, b: f64) -> bool;
    }
    pub fn close(a: super::F, b: super::F, _mag: &dyn Fn() -> super::F) -> bool {
        #[cfg(not(feature = "f64"))]
        unsafe {
            sym_close32(a, b)
        }
        #[cfg(feature = "f64")]
        unsafe {
            sym_close64(a, b)
        }
    }
}

#[cfg(not(feature = "native"))]
pub fn tclose(a: F, b: F) -> bool {
    close(a, b, &|| 0.0)
}
#[cfg(feature = "native")]
pub fn tclose(a: F, b: F) -> bool {
    raw::tclose(a, b)
}

#[cfg(feature = "native")]
pub mod raw {
    use std::cell::RefCell;
    pub struct St {
        pub vals: Vec<u128>,
        pub next: usize,
        pub panic_ok: bool,
        pub real: bool,
        pub tier: i32,
        pub params: Vec<(u32, i64)>,
    }
    thread_local!(pub static ST: RefCell<St> = RefCell::new(St { vals: vec![], next: 0, panic_ok: false, real: false, tier: 0, params: vec![] }));
    pub enum Stop {
        Assume,
        Fail(String),
    }
    fn val() -> u128 {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let i = s.next;
            s.next += 1;
            s.vals.get(i).cloned().unwrap_or(0)
        })
    }
    fn text(m: *const u8, n: usize) -> String {
        unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(m, n)).into_owned() }
    }
    pub unsafe fn sym_bytes(p: *mut u8, n: usize) {
        for i in 0..n {
            *p.add(i) = val() as u8
        }
    }
    pub unsafe fn sym_u8() -> u8 {
        val() as u8
    }
    pub unsafe fn sym_u16() -> u16 {
        val() as u16
    }
    pub unsafe fn sym_u32() -> u32 {
        val() as u32
    }
    pub unsafe fn sym_u64() -> u64 {
        val() as u64
    }
    pub unsafe fn sym_int(bits: u32) -> i64 {
        ((val() << (128 - bits)) as i128 >> (128 - bits)) as i64
    }
    pub unsafe fn sym_f32() -> f32 {
        f32::from_bits(val() as u32)
    }
    pub unsafe fn sym_f64() -> f64 {
        f64::from_bits(val() as u64)
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            std::panic::panic_any(Stop::Assume)
        }
    }
    pub unsafe fn sym_assert(c: bool, m: *const u8, n: usize) {
        if !c {
            std::panic::panic_any(Stop::Fail(text(m, n)))
        }
    }
    pub unsafe fn sym_fail(m: *const u8, n: usize) -> ! {
        std::panic::panic_any(Stop::Fail(text(m, n)))
    }
    pub unsafe fn sym_cover(_: *const u8, _: usize) {}
    pub unsafe fn sym_panic_ok(c: bool) {
        ST.with(|s| s.borrow_mut().panic_ok = c)
    }
    pub unsafe fn sym_is_real() -> bool {
        ST.with(|s| s.borrow().real)
    }
    pub unsafe fn sym_fork(c: bool) -> bool {
        c
    }
    pub unsafe fn sym_concrete(x: u64) -> u64 {
        x
    }
    pub unsafe fn sym_param(k: u32, q: i64, t: i64) -> i64 {
        ST.with(|s| {
            let s = s.borrow();
            for (a, b) in &s.params {
                if *a == k {
                    return *b;
                }
            }
            if s.tier == 0 {
                q
            } else {
                t
            }
        })
    }
    pub unsafe fn sym_and(a: bool, b: bool) -> bool {
        a && b
    }
    pub unsafe fn sym_or(a: bool, b: bool) -> bool {
        a || b
    }
    pub unsafe fn sym_not(a: bool) -> bool {
        !a
    }
    pub unsafe fn sym_ite64(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
    /// Agreement of a literal's value with what it spells: a few units in the last place.
    pub fn tclose(a: super::F, b: super::F) -> bool {
        if a == b || (a.is_nan() && b.is_nan()) {
            return true;
        }
        if a.is_nan() || b.is_nan() {
            return false;
        }
        let max = super::F::MAX;
        let clip = |x: super::F| x.max(-max).min(max);
        let (x, y) = (clip(a), clip(b));
        (x / 2.0 - y / 2.0).abs() <= 8.0 * super::F::EPSILON * (x.abs() / 2.0).max(y.abs() / 2.0) || (x / 2.0 - y / 2.0).abs() < super::F::MIN_POSITIVE
    }
    /// Agreement up to rounding, relative to the magnitude of the terms involved.
    pub fn close(a: super::F, b: super::F, mag: &dyn Fn() -> super::F) -> bool {
        if a == b || (a.is_nan() && b.is_nan()) {
            return true;
        }
        let m = mag();
        let m = if m.is_nan() { super::F::INFINITY } else { m.abs().max(a.abs()).max(b.abs()) };
        // overflow or loss of all precision somewhere in the terms: no claim
        if !m.is_finite() || m > super::F::MAX.sqrt() {
            return true;
        }
        #[cfg(not(feature = "f64"))]
        let tol = 1e-4;
        #[cfg(feature = "f64")]
        let tol = 1e-10;
        (a - b).abs() <= tol * m || (a - b).abs() < super::F::MIN_POSITIVE.sqrt()
    }
}

pub fn u8_() -> u8 {
    unsafe { raw::sym_u8() }
}
pub fn u16_() -> u16 {
    unsafe { raw::sym_u16() }
}
pub fn u32_() -> u32 {
    unsafe { raw::sym_u32() }
}
pub fn u64_() -> u64 {
    unsafe { raw::sym_u64() }
}
pub fn bool_() -> bool {
    let x = u8_();
    assume(x < 2);
    x == 1
}
pub fn float() -> F {
    #[cfg(not(feature = "f64"))]
    unsafe {
        raw::sym_f32()
    }
    #[cfg(feature = "f64")]
    unsafe {
        raw::sym_f64()
    }
}
/// an integer in [-2^(bits-1), 2^(bits-1))
pub fn int(bits: u32) -> i64 {
    unsafe { raw::sym_int(bits) }
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { raw::sym_assert(c, m.as_ptr(), m.len()) }
}
pub fn fail(m: &str) -> ! {
    unsafe { raw::sym_fail(m.as_ptr(), m.len()) }
}
pub fn cover(m: &str) {
    unsafe { raw::sym_cover(m.as_ptr(), m.len()) }
}
/// from here on a panic of the code under check is (not) an accepted outcome
pub fn panic_ok(c: bool) {
    unsafe { raw::sym_panic_ok(c) }
}
pub fn is_real() -> bool {
    unsafe { raw::sym_is_real() }
}
pub fn fork(c: bool) -> bool {
    unsafe { raw::sym_fork(c) }
}
pub fn param(k: u32, q: i64, t: i64) -> usize {
    unsafe { raw::sym_param(k, q, t) as usize }
}
pub fn and(a: bool, b: bool) -> bool {
    unsafe { raw::sym_and(a, b) }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { raw::sym_or(a, b) }
}
pub fn not(a: bool) -> bool {
    unsafe { raw::sym_not(a) }
}
pub fn iff(a: bool, b: bool) -> bool {
    or(and(a, b), and(not(a), not(b)))
}
pub fn implies(a: bool, b: bool) -> bool {
    or(not(a), b)
}
pub fn all(v: &[bool]) -> bool {
    let mut r = true;
    for x in v {
        r = and(r, *x)
    }
    r
}
pub fn any(v: &[bool]) -> bool {
    let mut r = false;
    for x in v {
        r = or(r, *x)
    }
    r
}
pub fn close(a: F, b: F, mag: &dyn Fn() -> F) -> bool {
    raw::close(a, b, mag)
}
/// a symbolic choice among n alternatives, made concrete by splitting the path
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let x = u8_();
    assume((x as usize) < n);
    unsafe { raw::sym_concrete(x as u64) as usize }
}
/// a symbolic byte in lo..=hi
pub fn byte(lo: u8, hi: u8) -> u8 {
    let b = u8_();
    assume(and(b >= lo, b <= hi));
    b
}
pub fn digit() -> u8 {
    byte(b'0', b'9')
}
/// show a generated input when replaying
#[cfg(feature = "native")]
pub fn note(what: &str, b: &[u8]) {
    println!("INPUT {} {:?}", what, String::from_utf8_lossy(b));
}
#[cfg(not(feature = "native"))]
pub fn note(_: &str, _: &[u8]) {}
