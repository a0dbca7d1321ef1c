//! Geometry properties: matrices, transforms, boxes, vectors, normals, points, rays.
use crate::sym::{self, F};
use pbrtrs::verif::boundingbox::{self, Bounds2, Bounds3};
use pbrtrs::verif::matrix::Matrix4;
use pbrtrs::verif::normal::Normal3;
use pbrtrs::verif::point::{self, Point2, Point3};
use pbrtrs::verif::ray::{Ray, RayDifferential};
use pbrtrs::verif::transform::Transform;
use pbrtrs::verif::vector::{self, Vector2, Vector3};
use pbrtrs::verif::{ElemType, HasNan, Medium};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::ops::{Add, Div, Mul, Neg, Sub};

// ---------- numbers of the specification ----------

/// A float together with the magnitude of the terms it was made of; the magnitude is only
/// kept in the native build, where it scales the rounding tolerance.
#[derive(Clone, Copy)]
pub struct M {
    v: F,
    #[cfg(feature = "native")]
    m: F,
}
fn mk(v: F, _m: F) -> M {
    M {
        v,
        #[cfg(feature = "native")]
        m: _m.abs().max(v.abs()),
    }
}
impl M {
    #[cfg(feature = "native")]
    fn mag(self) -> F {
        self.m
    }
    #[cfg(not(feature = "native"))]
    fn mag(self) -> F {
        0.0
    }
}
pub fn m(v: F) -> M {
    mk(v, 0.0)
}
impl Add for M {
    type Output = M;
    fn add(self, o: M) -> M {
        mk(self.v + o.v, self.mag() + o.mag())
    }
}
impl Sub for M {
    type Output = M;
    fn sub(self, o: M) -> M {
        mk(self.v - o.v, self.mag() + o.mag())
    }
}
impl Mul for M {
    type Output = M;
    fn mul(self, o: M) -> M {
        mk(self.v * o.v, self.mag() * o.mag())
    }
}
impl Div for M {
    type Output = M;
    fn div(self, o: M) -> M {
        #[cfg(feature = "native")]
        {
            mk(self.v / o.v, self.mag() / o.v.abs() * (o.mag() / o.v.abs()))
        }
        #[cfg(not(feature = "native"))]
        {
            mk(self.v / o.v, 0.0)
        }
    }
}
impl Neg for M {
    type Output = M;
    fn neg(self) -> M {
        mk(-self.v, self.mag())
    }
}
fn root(x: M) -> M {
    let r = x.v.sqrt();
    #[cfg(feature = "native")]
    {
        mk(r, x.mag() / r)
    }
    #[cfg(not(feature = "native"))]
    {
        mk(r, 0.0)
    }
}

/// what the checks need of an element type; S is the number type of the specification
pub trait El: ElemType + PartialOrd {
    type S: Copy + Add<Output = Self::S> + Sub<Output = Self::S> + Mul<Output = Self::S> + Div<Output = Self::S> + Neg<Output = Self::S>;
    /// any value for arithmetic
    fn any() -> Self;
    /// any value for arithmetic with products or quotients of several values
    fn small() -> Self;
    /// any value for comparisons: every non-NaN float, every integer
    fn wide() -> Self;
    fn s(self) -> Self::S;
    fn same(self, s: Self::S) -> bool;
    fn f(s: Self::S) -> M;
}
/// the next of a series of values that use every digit of a float, for runs with machine
/// arithmetic; one of several series
fn inexact() -> F {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    let mut n = NEXT.load(Ordering::Relaxed);
    if n == 0 {
        n = 1 + 16 * sym::choose(128);
    }
    NEXT.store(n + 1, Ordering::Relaxed);
    let x = (n * 7919 % 1009) as F / 3.0 - 163.0;
    x / [1.0, 7.0, 1000.0, 0.125][n / 16 % 4]
}
impl El for F {
    type S = M;
    fn any() -> F {
        if sym::param(94, 0, 0) == 1 {
            return inexact();
        }
        let x = sym::float();
        if sym::param(92, 0, 0) == 1 {
            sym::assume(sym::and(x >= -64.0, x <= 64.0));
            sym::assume(sym::or(x >= 0.5, x <= -0.5));
        }
        x
    }
    fn small() -> F {
        F::any()
    }
    fn wide() -> F {
        if sym::param(94, 0, 0) == 1 {
            return inexact();
        }
        let x = sym::float();
        if !sym::is_real() {
            sym::assume(x == x);
        }
        x
    }
    fn s(self) -> M {
        m(self)
    }
    fn same(self, s: M) -> bool {
        fsame(self, s)
    }
    fn f(s: M) -> M {
        s
    }
}
impl El for i64 {
    type S = W;
    fn any() -> i64 {
        sym::int(if sym::param(93, 0, 0) == 1 { 8 } else { 30 })
    }
    fn small() -> i64 {
        sym::int(if sym::param(93, 0, 0) == 1 { 5 } else { 18 })
    }
    fn wide() -> i64 {
        sym::u64_() as i64
    }
    fn s(self) -> W {
        W(self)
    }
    fn same(self, s: W) -> bool {
        self == s.0
    }
    fn f(s: W) -> M {
        m(s.0 as F)
    }
}
/// integers of the specification; inputs are small enough for nothing to wrap
#[derive(Clone, Copy)]
pub struct W(i64);
impl Add for W {
    type Output = W;
    fn add(self, o: W) -> W {
        W(self.0.wrapping_add(o.0))
    }
}
impl Sub for W {
    type Output = W;
    fn sub(self, o: W) -> W {
        W(self.0.wrapping_sub(o.0))
    }
}
impl Mul for W {
    type Output = W;
    fn mul(self, o: W) -> W {
        W(self.0.wrapping_mul(o.0))
    }
}
impl Div for W {
    type Output = W;
    fn div(self, o: W) -> W {
        W(self.0.wrapping_div(o.0))
    }
}
impl Neg for W {
    type Output = W;
    fn neg(self) -> W {
        W(self.0.wrapping_neg())
    }
}

pub fn fsame(a: F, b: M) -> bool {
    if sym::is_real() && sym::param(91, 0, 0) == 1 {
        // only visible differences
        return sym::and(a - b.v < 0.0625, b.v - a < 0.0625);
    }
    sym::close(a, b.v, &|| b.mag())
}
fn chk<T: El>(a: T, b: T::S, msg: &str) {
    sym::check(a.same(b), msg)
}
fn fchk(a: F, b: M, msg: &str) {
    sym::check(fsame(a, b), msg)
}
fn vany<T: El>() -> [T; 3] {
    [T::any(), T::any(), T::any()]
}
fn vwide<T: El>() -> [T; 3] {
    [T::wide(), T::wide(), T::wide()]
}
fn sp<T: El>(v: &[T; 3]) -> [T::S; 3] {
    [v[0].s(), v[1].s(), v[2].s()]
}
fn vec3<T: El>(v: &[T; 3]) -> Vector3<T> {
    Vector3::new(v[0], v[1], v[2])
}
fn nrm3<T: El>(v: &[T; 3]) -> Normal3<T> {
    Normal3::new(v[0], v[1], v[2])
}
fn pt3<T: El>(v: &[T; 3]) -> Point3<T> {
    Point3::new(v[0], v[1], v[2])
}
fn le<T: El>(a: T, b: T) -> bool {
    a <= b
}
fn dot<T: El>(a: &[T::S; 3], b: &[T::S; 3]) -> T::S {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}

macro_rules! two {
    ($g:ident => $i:ident, $f:ident) => {
        pub fn $i() {
            $g::<i64>()
        }
        pub fn $f() {
            $g::<F>()
        }
    };
}

// ---------- C13 ----------

/// how far rounding in an elimination may go, in units of the tolerance of a comparison
#[cfg(feature = "native")]
fn spread(a: &Matrix4<F>, b: &Matrix4<F>) -> F {
    let big = |m: &Matrix4<F>| m.mat.iter().flat_map(|r| r.iter()).fold(0.0 as F, |x, y| x.max(y.abs()));
    big(a) * big(b) * if std::mem::size_of::<F>() == 4 { 0.02 } else { 4e-5 }
}
#[cfg(not(feature = "native"))]
fn spread(_: &Matrix4<F>, _: &Matrix4<F>) -> F {
    0.0
}
fn identity(a: &Matrix4<F>, b: &Matrix4<F>, msg: &str) {
    let least = spread(a, b);
    for r in 0..4 {
        for c in 0..4 {
            let mut s = m(0.0);
            for k in 0..4 {
                s = s + m(a.mat[r][k]) * m(b.mat[k][c]);
            }
            let w = if r == c { m(1.0) } else { m(0.0) };
            fchk(s.v, mk(w.v, s.mag().max(least)), msg)
        }
    }
}
fn minor(a: &[[F; 4]; 4], r0: usize, c0: usize) -> F {
    let mut x = [[0.0; 3]; 3];
    let mut i = 0;
    for r in 0..4 {
        if r == r0 {
            continue;
        }
        let mut j = 0;
        for c in 0..4 {
            if c == c0 {
                continue;
            }
            x[i][j] = a[r][c];
            j += 1;
        }
        i += 1;
    }
    x[0][0] * (x[1][1] * x[2][2] - x[1][2] * x[2][1]) - x[0][1] * (x[1][0] * x[2][2] - x[1][2] * x[2][0]) + x[0][2] * (x[1][0] * x[2][1] - x[1][1] * x[2][0])
}
fn det(a: &[[F; 4]; 4]) -> F {
    a[0][0] * minor(a, 0, 0) - a[0][1] * minor(a, 0, 1) + a[0][2] * minor(a, 0, 2) - a[0][3] * minor(a, 0, 3)
}
/// the inverse is an inverse, and only singular matrices are refused
fn invert(a: [[F; 4]; 4]) {
    note_matrix(&a);
    let singular = sym::fork(det(&a) == 0.0);
    let a = Matrix4::new(a);
    sym::panic_ok(singular);
    let b = a.inverse();
    sym::panic_ok(false);
    if singular {
        sym::fail("a singular matrix was inverted");
    }
    sym::cover("inverted");
    identity(&a, &b, "matrix times its inverse is not the identity");
    identity(&b, &a, "inverse times its matrix is not the identity");
}
#[cfg(feature = "native")]
fn note_matrix(a: &[[F; 4]; 4]) {
    println!("INPUT matrix {:?}", a);
}
#[cfg(not(feature = "native"))]
fn note_matrix(_: &[[F; 4]; 4]) {}

fn perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in 0..n {
        let j = k % (n - i);
        k /= n - i;
        out.push(pool.remove(j));
    }
    out
}
/// permutations with arbitrary non-zero entries
pub fn c13_perm() {
    let p = perm(4, sym::choose(24));
    let mut a = [[0.0; 4]; 4];
    for r in 0..4 {
        let x = F::any();
        sym::assume(x != 0.0);
        a[r][p[r]] = x;
    }
    invert(a);
}
const BASES: [[[F; 4]; 4]; 8] = [
    [[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]],
    [[4., 0., 0., 0.], [0., 0., 2., 0.], [0., 1., 2., 0.], [1., 0., 0., 1.]],
    [[1., 2., 0., 4.], [0., -1., 8., 0.5], [2., 0., 1., -2.], [0., 4., 0., 1.]],
    [[0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.], [1., 0., 0., 0.]],
    [[0., 0., 0., 0.], [0., 0., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]],
    [[1., 2., 4., 8.], [1., 2., 4., 8.], [0., 1., 0., 2.], [1., 0., 0., 1.]],
    [[2., 0., 0., 1.], [0., 2., 0., -4.], [0., 0., -2., 8.], [0., 0., 0., 1.]],
    [[1., 1., 0., 0.], [1., -1., 0., 0.], [0., 0., 1., 1.], [0., 0., 1., -1.]],
];
/// any one entry of a fixed matrix replaced
pub fn c13_one() {
    let mut a = BASES[sym::choose(BASES.len())];
    let k = sym::choose(16);
    a[k / 4][k % 4] = F::any();
    invert(a);
}
/// two entries replaced
pub fn c13_two() {
    let mut a = BASES[sym::choose(sym::param(0, 2, 8))];
    let k = sym::choose(16);
    let j = sym::choose(16);
    if j >= k {
        return;
    }
    a[k / 4][k % 4] = F::any();
    a[j / 4][j % 4] = F::any();
    invert(a);
}
/// four symbolic entries crossing two rows and two columns, in any place
pub fn c13_block() {
    const PAIRS: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
    let (i, j) = (sym::choose(6), sym::choose(6));
    let ((r0, r1), (c0, c1)) = (PAIRS[i], PAIRS[j]);
    let ((s0, s1), (d0, d1)) = (PAIRS[5 - i], PAIRS[5 - j]);
    let mut a = [[0.0; 4]; 4];
    a[r0][c0] = F::any();
    a[r0][c1] = F::any();
    a[r1][c0] = F::any();
    a[r1][c1] = F::any();
    a[s0][d0] = 2.0;
    a[s0][d1] = 1.0;
    a[s1][d1] = -1.0;
    // a fixed coupling of the two blocks
    a[r0][d1] = 4.0;
    invert(a);
}
/// a whole row or column of a fixed matrix replaced
pub fn c13_line() {
    let mut a = BASES[sym::choose(sym::param(0, 4, 8))];
    let k = sym::choose(8);
    for i in 0..4 {
        if k < 4 {
            a[k][i] = F::any();
        } else {
            a[i][k - 4] = F::any();
        }
    }
    invert(a);
}
/// affine placements: a diagonal or quarter-turn block with an arbitrary translation
pub fn c13_affine() {
    let k = sym::choose(6);
    let p = perm(3, k);
    let mut a = [[0.0; 4]; 4];
    for r in 0..3 {
        a[r][p[r]] = [2.0, -1.0, 0.5][(r + k) % 3];
        a[r][3] = F::any();
    }
    a[3][3] = 1.0;
    invert(a);
}
/// a zero row or column: refused whatever the other entries are
pub fn c13_zero() {
    let mut a = BASES[sym::choose(BASES.len())];
    let k = sym::choose(8);
    for i in 0..4 {
        if k < 4 {
            a[k][i] = 0.0;
        } else {
            a[i][k - 4] = 0.0;
        }
    }
    let j = sym::choose(16);
    let on = if k < 4 { j / 4 == k } else { j % 4 == k - 4 };
    if on {
        return;
    }
    a[j / 4][j % 4] = F::any();
    note_matrix(&a);
    sym::panic_ok(true);
    let _ = Matrix4::new(a).inverse();
    sym::panic_ok(false);
    sym::fail("a matrix with a zero row or column was inverted");
}
/// a row that is a multiple of another
pub fn c13_dep() {
    let mut a = BASES[sym::choose(4)];
    let i = sym::choose(4);
    let j = sym::choose(4);
    if i == j {
        return;
    }
    let x = F::any();
    a[i][sym::choose(4)] = x;
    let k = [1.0, -1.0, 2.0, 0.5][sym::choose(4)];
    for c in 0..4 {
        a[j][c] = k * a[i][c];
    }
    note_matrix(&a);
    sym::panic_ok(true);
    let _ = Matrix4::new(a).inverse();
    sym::panic_ok(false);
    sym::fail("a matrix with dependent rows was inverted");
}
/// integer matrices are inverted as floats
pub fn c13_int() {
    let base = sym::choose(BASES.len());
    let mut a = [[0i64; 4]; 4];
    let mut b = [[0.0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            a[r][c] = BASES[base][r][c] as i64;
            b[r][c] = a[r][c] as F;
        }
    }
    let k = sym::choose(16);
    let v = [0, 1, -1, 3, 1000003, -(1 << 40)][sym::choose(6)];
    a[k / 4][k % 4] = v;
    b[k / 4][k % 4] = v as F;
    note_matrix(&b);
    let singular = det(&b) == 0.0;
    sym::panic_ok(singular);
    let inv = Matrix4::new(a).inverse();
    sym::panic_ok(false);
    if singular {
        sym::fail("a singular matrix was inverted");
    }
    sym::cover("inverted");
    let b = Matrix4::new(b);
    identity(&b, &inv, "matrix times its inverse is not the identity");
    identity(&inv, &b, "inverse times its matrix is not the identity");
}

// ---------- C14 ----------

fn mat<T: El>() -> [[T; 4]; 4] {
    let mut a = [[T::from_int(0); 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            a[r][c] = T::any();
        }
    }
    a
}
fn g14_add<T: El>() {
    let (a, b) = (mat::<T>(), mat::<T>());
    let s = Matrix4::new(a) + Matrix4::new(b);
    for r in 0..4 {
        for c in 0..4 {
            chk(s.mat[r][c], a[r][c].s() + b[r][c].s(), "sum of matrices");
        }
    }
}
two!(g14_add => c14_add_i, c14_add_f);
fn g14_mul<T: El>() {
    let (a, b) = (mat::<T>(), mat::<T>());
    let s = Matrix4::new(a) * Matrix4::new(b);
    for r in 0..4 {
        for c in 0..4 {
            let mut w = T::from_int(0).s();
            for k in 0..4 {
                w = w + a[r][k].s() * b[k][c].s();
            }
            chk(s.mat[r][c], w, "product of matrices");
        }
    }
}
two!(g14_mul => c14_mul_i, c14_mul_f);
fn g14_shape<T: El>() {
    let a = mat::<T>();
    let x = Matrix4::new(a);
    let t = x.transpose();
    for r in 0..4 {
        let row = &x[r];
        for c in 0..4 {
            chk(t.mat[c][r], a[r][c].s(), "transpose");
            chk(row[c], a[r][c].s(), "row of a matrix");
            chk(x.mat[r][c], a[r][c].s(), "stored entry");
        }
    }
    // there are four rows only
    let i = sym::choose(4);
    sym::panic_ok(true);
    let k = [4, 5, 16, usize::max_value()][i];
    let _ = x[k][0];
    sym::panic_ok(false);
    sym::fail("a row beyond the fourth was returned");
}
two!(g14_shape => c14_shape_i, c14_shape_f);
fn g14_eq<T: El>() {
    let a = mat::<T>();
    let mut b = a;
    let k = sym::choose(16);
    let j = sym::choose(16);
    b[k / 4][k % 4] = T::any();
    b[j / 4][j % 4] = T::any();
    let (x, y) = (Matrix4::new(a), Matrix4::new(b));
    let got = x == y;
    let mut want = true;
    for r in 0..4 {
        for c in 0..4 {
            want = sym::and(want, a[r][c] == b[r][c]);
        }
    }
    sym::check(sym::iff(got, want), "equality of matrices");
    sym::check(sym::iff(x != y, sym::not(want)), "inequality of matrices");
}
two!(g14_eq => c14_eq_i, c14_eq_f);
/// products: associativity and the neutral element
pub fn c14_laws() {
    let a = mat::<F>();
    let id = Matrix4::new(BASES[0]);
    let x = Matrix4::new(a);
    let (l, r) = (id * x, x * id);
    for i in 0..4 {
        for j in 0..4 {
            fchk(l.mat[i][j], m(a[i][j]), "identity times matrix");
            fchk(r.mat[i][j], m(a[i][j]), "matrix times identity");
        }
    }
    let (y, z) = (Matrix4::new(BASES[2]), Matrix4::new(BASES[1]));
    let (p, q) = ((x * y) * z, x * (y * z));
    for i in 0..4 {
        for j in 0..4 {
            let mut w = m(0.0);
            for k in 0..4 {
                for l in 0..4 {
                    w = w + m(a[i][k]) * m(BASES[2][k][l]) * m(BASES[1][l][j]);
                }
            }
            fchk(p.mat[i][j], w, "product of three matrices");
            fchk(q.mat[i][j], w, "product of three matrices");
        }
    }
}

// ---------- C15 ----------

fn carries(t: &Transform, want: &[[F; 4]; 4]) {
    let inv = t.inverse();
    for r in 0..4 {
        for c in 0..4 {
            fchk(t.m.mat[r][c], m(want[r][c]), "matrix of the transform");
        }
    }
    identity(&inv.m, &t.m, "stored inverse times matrix is not the identity");
    identity(&t.m, &inv.m, "matrix times stored inverse is not the identity");
    let back = inv.inverse();
    let tt = t.transpose();
    for r in 0..4 {
        for c in 0..4 {
            fchk(back.m.mat[r][c], m(want[r][c]), "inverting twice changed the matrix");
            fchk(tt.m.mat[r][c], m(want[c][r]), "transposed transform");
            fchk(back.inverse().m.mat[r][c], m(inv.m.mat[r][c]), "inverting twice changed the inverse");
        }
    }
    identity(&tt.inverse().m, &tt.m, "inverse of a transposed transform");
    let it = inv.transpose();
    identity(&it.inverse().m, &it.m, "inverse of a transposed inverse");
}
pub fn c15_translate() {
    let d = vany::<F>();
    let t = Transform::translate(&vec3(&d));
    let w = [[1., 0., 0., d[0]], [0., 1., 0., d[1]], [0., 0., 1., d[2]], [0., 0., 0., 1.]];
    carries(&t, &w);
}
pub fn c15_scale() {
    let d = vany::<F>();
    for x in &d {
        sym::assume(*x != 0.0);
    }
    let t = Transform::scale(d[0], d[1], d[2]);
    let w = [[d[0], 0., 0., 0.], [0., d[1], 0., 0.], [0., 0., d[2], 0.], [0., 0., 0., 1.]];
    carries(&t, &w);
}
pub fn c15_matrix() {
    let mut a = BASES[[0, 1, 2, 3, 6, 7][sym::choose(6)]];
    let k = sym::choose(16);
    a[k / 4][k % 4] = F::any();
    note_matrix(&a);
    sym::assume(det(&a) != 0.0);
    let t = Transform::new_(Matrix4::new(a));
    carries(&t, &a);
}
/// a pair given by the caller is kept as given
pub fn c15_pair() {
    let (a, b) = (mat::<F>(), mat::<F>());
    let t = Transform::new(Matrix4::new(a), Matrix4::new(b));
    let (i, p) = (t.inverse(), t.transpose());
    let pi = p.inverse();
    for r in 0..4 {
        for c in 0..4 {
            fchk(t.m.mat[r][c], m(a[r][c]), "matrix of a transform");
            fchk(i.m.mat[r][c], m(b[r][c]), "inverse of a transform");
            fchk(i.inverse().m.mat[r][c], m(a[r][c]), "inverse of the inverse");
            fchk(p.m.mat[r][c], m(a[c][r]), "transposed transform");
            fchk(pi.m.mat[r][c], m(b[c][r]), "inverse of a transposed transform");
        }
    }
}
pub fn c15_identity() {
    // all entries free would only multiply paths: any three entries differ from the identity
    let mut a = BASES[0];
    for _ in 0..sym::param(0, 2, 3) {
        let k = sym::choose(16);
        a[k / 4][k % 4] = F::wide();
    }
    let inv = mat::<F>();
    let t = Transform::new(Matrix4::new(a), Matrix4::new(inv));
    let mut want = true;
    for r in 0..4 {
        for c in 0..4 {
            want = sym::and(want, a[r][c] == BASES[0][r][c]);
        }
    }
    sym::check(sym::iff(t.is_identity(), want), "identity test");
}
fn off_one(l: M) -> bool {
    sym::or(l.v < 0.999, l.v > 1.001)
}
/// has_scale: some axis changes its squared length by more than the tolerance
pub fn c15_has_scale() {
    let (a, b) = (mat::<F>(), mat::<F>());
    let t = Transform::new(Matrix4::new(a), Matrix4::new(b));
    let mut want = false;
    for c in 0..3 {
        let l = m(a[0][c]) * m(a[0][c]) + m(a[1][c]) * m(a[1][c]) + m(a[2][c]) * m(a[2][c]);
        #[cfg(feature = "native")]
        {
            // too close to the tolerance to tell after rounding, or out of range
            if (l.v - 0.999).abs() < 1e-4 || (l.v - 1.001).abs() < 1e-4 || !l.v.is_finite() {
                return;
            }
        }
        want = sym::or(want, off_one(l));
    }
    sym::check(sym::iff(t.has_scale(), want), "has-scale test");
}
/// the same for axis-aligned scalings, whatever the order of evaluation
pub fn c15_scaling() {
    let d = vany::<F>();
    for x in &d {
        sym::assume(*x != 0.0);
    }
    let t = Transform::scale(d[0], d[1], d[2]);
    let mut want = false;
    for x in &d {
        let l = m(*x) * m(*x);
        #[cfg(feature = "native")]
        {
            if (l.v - 0.999).abs() < 1e-4 || (l.v - 1.001).abs() < 1e-4 || !l.v.is_finite() {
                return;
            }
        }
        want = sym::or(want, off_one(l));
    }
    sym::check(sym::iff(t.has_scale(), want), "has-scale test of a scaling");
    let u = Transform::translate(&vec3(&d));
    sym::check(sym::not(u.has_scale()), "a translation has no scale");
}
fn g15_apply<T: El>() {
    let (a, b) = (mat::<F>(), mat::<F>());
    let t = Transform::new(Matrix4::new(a), Matrix4::new(b));
    let v = vany::<T>();
    let r = vec3(&v).transform(&t);
    let w = [r.x, r.y, r.z];
    for i in 0..3 {
        let e = m(a[i][0]) * T::f(v[0].s()) + m(a[i][1]) * T::f(v[1].s()) + m(a[i][2]) * T::f(v[2].s());
        fchk(w[i], e, "transformed vector");
    }
}
two!(g15_apply => c15_apply_i, c15_apply_f);

// ---------- C16 ----------

fn lohi<T: El>(a: &[T; 3], b: &[T; 3], q: &[T; 3]) -> bool {
    // q between a and b on every axis, whichever is smaller
    let mut r = true;
    for i in 0..3 {
        r = sym::and(r, sym::or(sym::and(le(a[i], q[i]), le(q[i], b[i])), sym::and(le(b[i], q[i]), le(q[i], a[i]))));
    }
    r
}
fn g16_new<T: El>() {
    let (a, b, q) = (vwide::<T>(), vwide::<T>(), vwide::<T>());
    let x = Bounds3::new(pt3(&a), pt3(&b));
    let want = lohi(&a, &b, &q);
    sym::check(sym::iff(x.inside(&pt3(&q)), want), "points of a box");
    // exclusive: inside and below the upper corner on every axis
    let mut low = true;
    for i in 0..3 {
        low = sym::and(low, sym::or(q[i] < a[i], q[i] < b[i]));
    }
    sym::check(sym::iff(x.inside_exclusive(&pt3(&q)), sym::and(want, low)), "exclusive inside");
}
two!(g16_new => c16_new_i, c16_new_f);
fn g16_union<T: El>() {
    let (a, b, c, d, q) = (vwide::<T>(), vwide::<T>(), vwide::<T>(), vwide::<T>(), vwide::<T>());
    for i in 0..3 {
        sym::assume(sym::and(le(a[i], b[i]), le(c[i], d[i])));
    }
    let (x, y) = (Bounds3::new(pt3(&a), pt3(&b)), Bounds3::new(pt3(&c), pt3(&d)));
    let u = x.union(&y);
    let mut want = true;
    for i in 0..3 {
        want = sym::and(want, sym::and(sym::or(le(a[i], q[i]), le(c[i], q[i])), sym::or(le(q[i], b[i]), le(q[i], d[i]))));
    }
    sym::check(sym::iff(u.inside(&pt3(&q)), want), "union of boxes");
}
two!(g16_union => c16_union_i, c16_union_f);
fn g16_union_pt<T: El>() {
    let (a, b, c, q) = (vwide::<T>(), vwide::<T>(), vwide::<T>(), vwide::<T>());
    for i in 0..3 {
        sym::assume(le(a[i], b[i]));
    }
    let x = Bounds3::new(pt3(&a), pt3(&b));
    let u = x.union_pt(&pt3(&c));
    let mut want = true;
    for i in 0..3 {
        want = sym::and(want, sym::and(sym::or(le(a[i], q[i]), le(c[i], q[i])), sym::or(le(q[i], b[i]), le(q[i], c[i]))));
    }
    sym::check(sym::iff(u.inside(&pt3(&q)), want), "union of a box and a point");
    let one = Bounds3::new_pt(pt3(&c));
    let mut eq = true;
    for i in 0..3 {
        eq = sym::and(eq, c[i] == q[i]);
    }
    sym::check(sym::iff(one.inside(&pt3(&q)), eq), "box of one point");
}
two!(g16_union_pt => c16_union_pt_i, c16_union_pt_f);
fn g16_intersect<T: El>() {
    let (a, b, c, d, q) = (vwide::<T>(), vwide::<T>(), vwide::<T>(), vwide::<T>(), vwide::<T>());
    for i in 0..3 {
        sym::assume(sym::and(le(a[i], b[i]), le(c[i], d[i])));
    }
    let (x, y) = (Bounds3::new(pt3(&a), pt3(&b)), Bounds3::new(pt3(&c), pt3(&d)));
    let u = x.intersect(&y);
    let mut want = true;
    for i in 0..3 {
        want = sym::all(&[want, le(a[i], q[i]), le(c[i], q[i]), le(q[i], b[i]), le(q[i], d[i])]);
    }
    sym::check(sym::iff(u.inside(&pt3(&q)), want), "intersection of boxes");
}
two!(g16_intersect => c16_intersect_i, c16_intersect_f);
fn g16_overlaps<T: El>() {
    let (a, b, c, d) = (vwide::<T>(), vwide::<T>(), vwide::<T>(), vwide::<T>());
    for i in 0..3 {
        sym::assume(sym::and(le(a[i], b[i]), le(c[i], d[i])));
    }
    let (x, y) = (Bounds3::new(pt3(&a), pt3(&b)), Bounds3::new(pt3(&c), pt3(&d)));
    let mut want = true;
    for i in 0..3 {
        // the larger lower corner is a common point if it is not above an upper one
        want = sym::all(&[want, le(a[i], d[i]), le(c[i], b[i])]);
    }
    sym::check(sym::iff(x.overlaps(&y), want), "overlap of boxes");
    sym::check(sym::iff(y.overlaps(&x), want), "overlap of boxes, the other way round");
}
two!(g16_overlaps => c16_overlaps_i, c16_overlaps_f);

// ---------- C17 ----------

/// a box with corners lo <= hi
fn bx<T: El>() -> ([T; 3], [T; 3], Bounds3<T>) {
    let (lo, hi) = ([T::small(), T::small(), T::small()], [T::small(), T::small(), T::small()]);
    for i in 0..3 {
        sym::assume(le(lo[i], hi[i]));
    }
    let b = Bounds3::new(pt3(&lo), pt3(&hi));
    (lo, hi, b)
}
fn g17_measure<T: El>() {
    let (lo, hi, b) = bx::<T>();
    let d = [hi[0].s() - lo[0].s(), hi[1].s() - lo[1].s(), hi[2].s() - lo[2].s()];
    let g = b.diagonal();
    chk(g.x, d[0], "diagonal");
    chk(g.y, d[1], "diagonal");
    chk(g.z, d[2], "diagonal");
    let two = T::from_int(2).s();
    chk(b.surface_area(), two * (d[0] * d[1] + d[0] * d[2] + d[1] * d[2]), "surface area");
    chk(b.volume(), d[0] * d[1] * d[2], "volume");
}
two!(g17_measure => c17_measure_i, c17_measure_f);
fn g17_extent<T: El>() {
    let (_, _, b) = bx::<T>();
    let g = b.diagonal();
    let d = [g.x, g.y, g.z];
    let k = b.maximum_extent();
    if k > 2 {
        sym::fail("no such axis");
    }
    for i in 0..3 {
        sym::check(d[k] >= d[i], "longest axis");
    }
}
two!(g17_extent => c17_extent_i, c17_extent_f);
fn g17_corner<T: El>() {
    let (lo, hi, b) = bx::<T>();
    for i in 0..8 {
        for ax in 0..3 {
            let bit = i >> ax & 1;
            let at = |c: usize| -> T {
                let p = b.corner(c);
                [p.x, p.y, p.z][ax]
            };
            // this corner and the opposite one along the axis are the two ends, the same
            // way round for all corners
            let (p, q) = (at(i), at(i ^ (1 << ax)));
            let ends = sym::or(sym::and(p == lo[ax], q == hi[ax]), sym::and(p == hi[ax], q == lo[ax]));
            sym::check(ends, "a corner number does not select a vertex");
            sym::check(at(bit << ax) == p, "a corner bit depends on other axes");
        }
    }
}
two!(g17_corner => c17_corner_i, c17_corner_f);
fn g17_expand<T: El>() {
    let (lo, hi, b) = bx::<T>();
    let d = T::any();
    sym::assume(d >= T::from_int(0));
    let e = b.expand(d);
    let (p, q) = ([e.p_min.x, e.p_min.y, e.p_min.z], [e.p_max.x, e.p_max.y, e.p_max.z]);
    for i in 0..3 {
        chk(p[i], lo[i].s() - d.s(), "lower face of an expanded box");
        chk(q[i], hi[i].s() + d.s(), "upper face of an expanded box");
    }
}
two!(g17_expand => c17_expand_i, c17_expand_f);
fn g17_offset<T: El>() {
    let (lo, hi, b) = bx::<T>();
    let p = [T::small(), T::small(), T::small()];
    let o = b.offset(&pt3(&p));
    let o = [o.x, o.y, o.z];
    let (z, u) = (b.offset(&pt3(&lo)), b.offset(&pt3(&hi)));
    let (z, u) = ([z.x, z.y, z.z], [u.x, u.y, u.z]);
    for i in 0..3 {
        let zero = T::from_int(0).s();
        chk(z[i], zero, "offset of the lower corner");
        if lo[i] < hi[i] {
            chk(u[i], T::from_int(1).s(), "offset of the upper corner");
            chk(o[i], (p[i].s() - lo[i].s()) / (hi[i].s() - lo[i].s()), "offset of a point");
        } else {
            chk(o[i], p[i].s() - lo[i].s(), "offset on a flat axis");
        }
    }
}
two!(g17_offset => c17_offset_i, c17_offset_f);
pub fn c17_lerp() {
    let (lo, hi, b) = bx::<F>();
    let t = vany::<F>();
    let p = boundingbox::lerp(&b, &pt3(&t));
    let p = [p.x, p.y, p.z];
    for i in 0..3 {
        let w = m(lo[i]) + m(t[i]) * (m(hi[i]) - m(lo[i]));
        fchk(p[i], mk(w.v, w.mag() + (1.0 + t[i].abs()) * (lo[i].abs() + hi[i].abs())), "interpolation in a box");
    }
    // interpolation undoes the relative offset
    for i in 0..3 {
        sym::assume(lo[i] < hi[i]);
    }
    let o = b.offset(&pt3(&t));
    let q = boundingbox::lerp(&b, &Point3::from(o));
    let q = [q.x, q.y, q.z];
    for i in 0..3 {
        let w = (m(t[i]) - m(lo[i])) / (m(hi[i]) - m(lo[i]));
        fchk(q[i], mk(t[i], (1.0 + w.mag()) * (lo[i].abs() + hi[i].abs() + t[i].abs())), "interpolation at the offset of a point");
    }
}
pub fn c17_sphere() {
    let (lo, hi, b) = bx::<F>();
    let (c, r) = boundingbox::bounding_sphere(&b);
    let c = [c.x, c.y, c.z];
    let two = m(2.0);
    let mut l = m(0.0);
    for i in 0..3 {
        fchk(c[i], (m(lo[i]) + m(hi[i])) / two, "centre of the bounding sphere");
        let h = (m(hi[i]) - m(lo[i])) / two;
        let h = mk(h.v, lo[i].abs() + hi[i].abs());
        l = l + h * h;
    }
    if sym::is_real() && sym::param(91, 0, 0) == 0 {
        sym::check(r >= 0.0, "radius of the bounding sphere");
        fchk(r * r, l, "radius of the bounding sphere");
    } else {
        fchk(r, root(l), "radius of the bounding sphere");
    }
}

// ---------- C18 ----------

pub fn c18_iter() {
    let lo = [sym::int(32), sym::int(32)];
    let n = sym::param(0, 4, 6);
    let (w, h) = (sym::choose(n + 3) as i64 - 2, sym::choose(n + 3) as i64 - 2);
    rect(lo, w, h);
}
/// wide and flat rectangles
pub fn c18_long() {
    let lo = [sym::int(32), sym::int(32)];
    let n = sym::param(0, 40, 400) as i64;
    let (w, h) = [(n, 1), (1, n), (n, 2), (2, n), (n, 0), (0, n), (n, -1), (-1, n)][sym::choose(8)];
    rect(lo, w, h);
}
/// extreme coordinates
pub fn c18_edge() {
    let e = [i64::max_value() - 3, i64::min_value(), -1, 0, -3][sym::choose(5)];
    let f = [i64::max_value() - 3, i64::min_value(), -1, 0, -3][sym::choose(5)];
    rect([e, f], sym::choose(4) as i64, sym::choose(4) as i64);
}
fn rect(lo: [i64; 2], w: i64, h: i64) {
    let hi = [lo[0].wrapping_add(w), lo[1].wrapping_add(h)];
    let b = Bounds2 { p_min: Point2::new(lo[0], lo[1]), p_max: Point2::new(hi[0], hi[1]) };
    let mut it = b.into_iter();
    if w > 0 && h > 0 {
        for y in 0..h {
            for x in 0..w {
                match it.next() {
                    Some(p) => {
                        sym::check(p.x == lo[0].wrapping_add(x), "x of a visited point");
                        sym::check(p.y == lo[1].wrapping_add(y), "y of a visited point");
                    }
                    None => sym::fail("the iteration ended early"),
                }
            }
        }
        sym::cover("non-empty");
    } else {
        sym::cover("empty");
    }
    for _ in 0..2 {
        if it.next().is_some() {
            sym::fail("the iteration went on past the last point");
        }
    }
}

// ---------- C19, C20 ----------

macro_rules! algebra {
    ($name:ident, $ctor:ident, $ty:ident) => {
        fn $name<T: El>() {
            let (a, b) = (vany::<T>(), vany::<T>());
            let k = T::any();
            let (x, y) = ($ctor(&a), $ctor(&b));
            let (s, t) = (sp(&a), sp(&b));
            let arr = |v: $ty<T>| -> [T; 3] { [v.x, v.y, v.z] };
            let (sum, dif, neg, rneg, mul, rmul) = (arr(x + y), arr(x - y), arr(-x), arr(-&x), arr(x * k), arr(&x * k));
            for i in 0..3 {
                chk(sum[i], s[i] + t[i], "sum");
                chk(dif[i], s[i] - t[i], "difference");
                chk(neg[i], -s[i], "negation");
                chk(rneg[i], -s[i], "negation of a reference");
                chk(mul[i], k.s() * s[i], "scaling");
                chk(rmul[i], k.s() * s[i], "scaling of a reference");
            }
            chk(x.dot(&y), dot::<T>(&s, &t), "dot product");
            let c = arr(x.cross(&y));
            chk(c[0], s[1] * t[2] - s[2] * t[1], "cross product");
            chk(c[1], s[2] * t[0] - s[0] * t[2], "cross product");
            chk(c[2], s[0] * t[1] - s[1] * t[0], "cross product");
            let l = dot::<T>(&s, &s);
            chk(x.len_sq(), l, "squared length");
            let r = x.len();
            if sym::is_real() && sym::param(91, 0, 0) == 0 {
                sym::check(r >= 0.0, "length");
                fchk(r * r, T::f(l), "length");
            } else {
                fchk(r, root(T::f(l)), "length");
            }
        }
    };
}
algebra!(g19_algebra, vec3, Vector3);
two!(g19_algebra => c19_algebra_i, c19_algebra_f);
algebra!(g20_algebra, nrm3, Normal3);
two!(g20_algebra => c20_algebra_i, c20_algebra_f);

macro_rules! division {
    ($name:ident, $ctor:ident) => {
        fn $name<T: El>() {
            let a = vany::<T>();
            let k = T::any();
            sym::assume(k != T::from_int(0));
            let d = $ctor(&a) / k;
            let d = [d.x, d.y, d.z];
            for i in 0..3 {
                chk(d[i], a[i].s() / k.s(), "division by a scalar");
            }
        }
    };
}
division!(g19_div, vec3);
two!(g19_div => c19_div_i, c19_div_f);
division!(g20_div, nrm3);
two!(g20_div => c20_div_i, c20_div_f);
division!(g20_pdiv, pt3);
two!(g20_pdiv => c20_pdiv_i, c20_pdiv_f);
fn g19_two<T: El>() {
    let (a, b, k) = (T::any(), T::any(), T::any());
    let v = Vector2::new(a, b);
    chk(v.x, a.s(), "component of a 2-D vector");
    chk(v[0], a.s(), "component of a 2-D vector");
    chk(v[1], b.s(), "component of a 2-D vector");
    if k != T::from_int(0) {
        let d = v / k;
        chk(d.x, a.s() / k.s(), "division of a 2-D vector");
        chk(d.y, b.s() / k.s(), "division of a 2-D vector");
        return;
    }
    sym::panic_ok(true);
    let _ = v[2 + sym::choose(3)];
    sym::panic_ok(false);
    sym::fail("a third component of a 2-D vector");
}
two!(g19_two => c19_two_i, c19_two_f);
/// the cross product is orthogonal to both operands
pub fn c19_ortho() {
    let (a, b) = (vany::<F>(), vany::<F>());
    let c = vec3(&a).cross(&vec3(&b));
    let c = [m(c.x), m(c.y), m(c.z)];
    for v in [&a, &b] {
        let w = sp(v);
        let d = dot::<F>(&c, &w);
        let mut mag = 0.0;
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    mag += a[i].abs() * b[j].abs() * v[k].abs();
                }
            }
        }
        fchk(d.v, mk(0.0, mag), "cross product is not orthogonal to its operands");
    }
}

macro_rules! selection {
    ($name:ident, $ctor:ident) => {
        fn $name<T: El>() {
            let a = vwide::<T>();
            let v = $ctor(&a);
            for i in 0..3 {
                sym::check(v[i] == a[i], "component");
            }
            let (i, j, k) = (sym::choose(4), sym::choose(4), sym::choose(4));
            sym::panic_ok(i == 3 || j == 3 || k == 3);
            let p = v.permute(i, j, k);
            sym::panic_ok(false);
            if i == 3 || j == 3 || k == 3 {
                sym::fail("a fourth component was returned");
            }
            sym::check(sym::all(&[p.x == a[i], p.y == a[j], p.z == a[k]]), "permutation");
        }
    };
}
selection!(g19_select, vec3);
two!(g19_select => c19_select_i, c19_select_f);
selection!(g20_select, nrm3);
two!(g20_select => c20_select_i, c20_select_f);

macro_rules! extremes {
    ($name:ident, $ctor:ident) => {
        fn $name<T: El>() {
            let (a, b) = (vwide::<T>(), vwide::<T>());
            let (x, y) = ($ctor(&a), $ctor(&b));
            let (lo, hi) = (x.min(&y), x.max(&y));
            let (lo, hi) = ([lo.x, lo.y, lo.z], [hi.x, hi.y, hi.z]);
            for i in 0..3 {
                sym::check(sym::and(lo[i] <= a[i], lo[i] <= b[i]), "componentwise minimum");
                sym::check(sym::or(lo[i] == a[i], lo[i] == b[i]), "componentwise minimum is a component");
                sym::check(sym::and(hi[i] >= a[i], hi[i] >= b[i]), "componentwise maximum");
                sym::check(sym::or(hi[i] == a[i], hi[i] == b[i]), "componentwise maximum is a component");
            }
        }
    };
}
extremes!(g19_minmax, vec3);
two!(g19_minmax => c19_minmax_i, c19_minmax_f);
extremes!(g20_minmax, nrm3);
two!(g20_minmax => c20_minmax_i, c20_minmax_f);
extremes!(g20_pminmax, pt3);
two!(g20_pminmax => c20_pminmax_i, c20_pminmax_f);

macro_rules! overall {
    ($name:ident, $ctor:ident) => {
        fn $name<T: El>() {
            let a = vwide::<T>();
            let x = $ctor(&a);
            let (lo, hi, k) = (x.min_component(), x.max_component(), x.max_dimension());
            if k > 2 {
                sym::fail("no such dimension");
            }
            for i in 0..3 {
                sym::check(lo <= a[i], "smallest component");
                sym::check(hi >= a[i], "largest component");
                sym::check(a[k] >= a[i], "largest dimension");
            }
            sym::check(sym::any(&[lo == a[0], lo == a[1], lo == a[2]]), "smallest component is one of them");
            sym::check(sym::any(&[hi == a[0], hi == a[1], hi == a[2]]), "largest component is one of them");
        }
    };
}
overall!(g19_overall, vec3);
two!(g19_overall => c19_overall_i, c19_overall_f);
overall!(g20_overall, nrm3);
two!(g20_overall => c20_overall_i, c20_overall_f);

macro_rules! facing {
    ($name:ident, $ctor:ident) => {
        fn $name<T: El>() {
            let (a, b) = (vany::<T>(), vany::<T>());
            let r = $ctor(&a).face_forward(&$ctor(&b));
            let r = [r.x, r.y, r.z];
            let d = $ctor(&a).dot(&$ctor(&b));
            if d < T::from_int(0) {
                for i in 0..3 {
                    chk(r[i], -a[i].s(), "facing away: negated");
                }
            } else if d >= T::from_int(0) {
                for i in 0..3 {
                    chk(r[i], a[i].s(), "facing already: unchanged");
                }
            }
        }
    };
}
facing!(g19_face, vec3);
two!(g19_face => c19_face_i, c19_face_f);
facing!(g20_face, nrm3);
two!(g20_face => c20_face_i, c20_face_f);

fn g20_points<T: El>() {
    let (a, b) = (vany::<T>(), vany::<T>());
    let k = T::any();
    let (p, q, v) = (pt3(&a), pt3(&b), vec3(&b));
    let (s, t) = (sp(&a), sp(&b));
    let d = p - q;
    let rd = &p - q;
    let (add, sub, mul, rmul) = (p + v, p - v, p * k, &p * k);
    let ab = p.abs();
    let ar = |v: Point3<T>| -> [T; 3] { [v.x, v.y, v.z] };
    let (add, sub, mul, rmul) = (ar(add), ar(sub), ar(mul), ar(rmul));
    let (d, rd) = ([d.x, d.y, d.z], [rd.x, rd.y, rd.z]);
    let ab = ar(ab);
    for i in 0..3 {
        chk(d[i], s[i] - t[i], "point minus point");
        chk(rd[i], s[i] - t[i], "reference to a point minus point");
        chk(add[i], s[i] + t[i], "point plus vector");
        chk(sub[i], s[i] - t[i], "point minus vector");
        chk(mul[i], k.s() * s[i], "scaled point");
        chk(rmul[i], k.s() * s[i], "scaled reference to a point");
        if a[i] >= T::from_int(0) {
            chk(ab[i], s[i], "absolute value of a point");
        } else if a[i] < T::from_int(0) {
            chk(ab[i], -s[i], "absolute value of a point");
        }
    }
}
two!(g20_points => c20_points_i, c20_points_f);
fn g20_convert<T: El>() {
    let a = vwide::<T>();
    let v = Vector3::from(pt3(&a));
    let p = Point3::from(vec3(&a));
    let n = Normal3::from(vec3(&a));
    sym::check(sym::all(&[v.x == a[0], v.y == a[1], v.z == a[2]]), "vector from point");
    sym::check(sym::all(&[p.x == a[0], p.y == a[1], p.z == a[2]]), "point from vector");
    sym::check(sym::all(&[n.x == a[0], n.y == a[1], n.z == a[2]]), "normal from vector");
    let f = Point2::from(pt3(&a));
    sym::check(sym::and(f.x == a[0], f.y == a[1]), "2-D point from 3-D point");
    let z = Point2::new(a[0], a[1]).abs();
    for (x, y) in [(z.x, a[0]), (z.y, a[1])] {
        sym::check(sym::or(x == y, y < T::from_int(0)), "absolute value of a 2-D point");
        sym::check(x >= T::from_int(0), "absolute value of a 2-D point is not negative");
    }
}
pub fn c20_convert_f() {
    g20_convert::<F>()
}
pub fn c20_convert_i() {
    // the absolute value of the smallest integer does not exist
    let a = [sym::int(32), sym::int(32), sym::int(32)];
    let f = Point2::from(pt3(&a));
    sym::check(sym::and(f.x == a[0], f.y == a[1]), "2-D point from 3-D point");
    let v = Vector3::from(pt3(&a));
    let p = Point3::from(vec3(&a));
    let n = Normal3::from(vec3(&a));
    sym::check(sym::all(&[v.x == a[0], v.y == a[1], v.z == a[2]]), "vector from point");
    sym::check(sym::all(&[p.x == a[0], p.y == a[1], p.z == a[2]]), "point from vector");
    sym::check(sym::all(&[n.x == a[0], n.y == a[1], n.z == a[2]]), "normal from vector");
}
/// flattening a point refuses exactly those with a NaN
pub fn c20_nan() {
    let a = [sym::float(), sym::float(), sym::float()];
    let nan = sym::any(&[a[0] != a[0], a[1] != a[1], a[2] != a[2]]);
    let nan = sym::fork(nan);
    sym::check(pt3(&a).has_nan() == nan, "NaN test");
    sym::panic_ok(nan);
    let _ = Point2::from(pt3(&a));
    sym::panic_ok(false);
    if nan {
        sym::fail("a point with a NaN was flattened");
    }
    sym::cover("flattened");
}
pub fn c20_lerp() {
    let (a, b) = (vany::<F>(), vany::<F>());
    let t = F::any();
    let (p, z, o) = (point::lerp(t, &pt3(&a), &pt3(&b)), point::lerp(0.0, &pt3(&a), &pt3(&b)), point::lerp(1.0, &pt3(&a), &pt3(&b)));
    let ar = |v: Point3<F>| -> [F; 3] { [v.x, v.y, v.z] };
    let (p, z, o) = (ar(p), ar(z), ar(o));
    for i in 0..3 {
        let mag = (1.0 + t.abs()) * (a[i].abs() + b[i].abs());
        let w = (m(1.0) - m(t)) * m(a[i]) + m(t) * m(b[i]);
        fchk(p[i], mk(w.v, mag), "interpolated point");
        fchk(z[i], m(a[i]), "interpolation at 0");
        fchk(o[i], m(b[i]), "interpolation at 1");
    }
    let s = pbrtrs::verif::lerp(t, a[0], b[0]);
    let w = (m(1.0) - m(t)) * m(a[0]) + m(t) * m(b[0]);
    fchk(s, w, "interpolated number");
}
/// floor and ceiling; exact, in machine arithmetic
pub fn c20_floor() {
    let x = [F::wide(), 0.5, -0.5];
    sym::assume(sym::and(x[0] > -8388608.0, x[0] < 8388608.0));
    let k = sym::choose(3);
    let a = [x[k], x[(k + 1) % 3], x[(k + 2) % 3]];
    let (f, c) = (point::floor(&pt3(&a)), point::ceil(&pt3(&a)));
    let (f, c) = ([f.x, f.y, f.z], [c.x, c.y, c.z]);
    for i in 0..3 {
        sym::check(f[i] <= a[i], "floor is not above");
        sym::check(a[i] <= c[i], "ceiling is not below");
        sym::check(sym::or(f[i] == a[i], f[i] + 1.0 > a[i]), "floor is within one");
        sym::check(sym::or(c[i] == a[i], c[i] - 1.0 < a[i]), "ceiling is within one");
        if sym::is_real() {
            sym::check(sym::or(c[i] == f[i], c[i] == f[i] + 1.0), "floor and ceiling are neighbours");
        }
    }
}

// ---------- C21 ----------

pub fn c21_frame() {
    let a = vany::<F>();
    sym::assume(sym::any(&[a[0] != 0.0, a[1] != 0.0, a[2] != 0.0]));
    let (u, v) = vector::coordinate_system::<F>(&vec3(&a));
    let (u, v) = ([u.x, u.y, u.z], [v.x, v.y, v.z]);
    let (s, x, y) = (sp(&a), sp(&u), sp(&v));
    let len = a[0].abs() + a[1].abs() + a[2].abs();
    let near = |d: M, w: F, mag: F, msg: &str| fchk(d.v, mk(w, mag), msg);
    near(dot::<F>(&s, &x), 0.0, len, "the first axis is not perpendicular to the vector");
    near(dot::<F>(&x, &x), 1.0, 1.0, "the first axis has no unit length");
    let c = [s[1] * x[2] - s[2] * x[1], s[2] * x[0] - s[0] * x[2], s[0] * x[1] - s[1] * x[0]];
    for i in 0..3 {
        fchk(v[i], mk(c[i].v, len), "the second axis is not the cross product");
    }
    near(dot::<F>(&s, &y), 0.0, len * len, "the second axis is not perpendicular to the vector");
    near(dot::<F>(&x, &y), 0.0, len, "the two axes are not perpendicular");
}

// ---------- C22 ----------

fn ray(o: &[F; 3], d: &[F; 3]) -> Ray {
    Ray::new_infinite(pt3(o), vec3(d))
}
pub fn c22_at() {
    let (o, d) = (vany::<F>(), vany::<F>());
    let (t, tm, time) = (F::any(), F::any(), F::any());
    let p = Ray::new(pt3(&o), vec3(&d), tm, time, Medium {}).at(t);
    let q = ray(&o, &d).at(t);
    let (p, q) = ([p.x, p.y, p.z], [q.x, q.y, q.z]);
    for i in 0..3 {
        let w = m(o[i]) + m(t) * m(d[i]);
        fchk(p[i], w, "point of a ray");
        fchk(q[i], w, "point of an unbounded ray");
    }
}
pub fn c22_new() {
    let (o, d) = (vwide::<F>(), vwide::<F>());
    let r = ray(&o, &d);
    if r.t_max.is_finite() || !(r.t_max > 0.0) {
        sym::fail("an unbounded ray has a limit");
    }
    sym::check(r.time == 0.0, "time of an unbounded ray");
    let (tm, time) = (F::wide(), F::wide());
    let q = Ray::new(pt3(&o), vec3(&d), tm, time, Medium {});
    sym::check(sym::and(q.t_max == tm, q.time == time), "limit and time of a ray");
    for x in [&r, &q] {
        sym::check(sym::all(&[x.o.x == o[0], x.o.y == o[1], x.o.z == o[2]]), "origin of a ray");
        sym::check(sym::all(&[x.d.x == d[0], x.d.y == d[1], x.d.z == d[2]]), "direction of a ray");
    }
    let z = RayDifferential::new(q);
    sym::check(!z.has_differentials, "a new differential ray has differentials");
    let x = &z.ray;
    sym::check(sym::all(&[x.o.x == o[0], x.o.y == o[1], x.o.z == o[2], x.d.x == d[0], x.d.y == d[1], x.d.z == d[2]]), "main ray of a differential ray");
    sym::check(sym::and(x.t_max == tm, x.time == time), "main ray of a differential ray");
}
pub fn c22_scale() {
    let (o, d, a, b, c, e) = (vany::<F>(), vany::<F>(), vany::<F>(), vany::<F>(), vany::<F>(), vany::<F>());
    let s = [F::any(), 0.0, 1.0][sym::choose(3)];
    let mut r = RayDifferential::new(ray(&o, &d));
    r.has_differentials = true;
    r.rx_origin = pt3(&a);
    r.ry_origin = pt3(&b);
    r.rx_direction = vec3(&c);
    r.ry_direction = vec3(&e);
    r.scale_differentials(s);
    let g = [
        [r.rx_origin.x, r.rx_origin.y, r.rx_origin.z],
        [r.ry_origin.x, r.ry_origin.y, r.ry_origin.z],
        [r.rx_direction.x, r.rx_direction.y, r.rx_direction.z],
        [r.ry_direction.x, r.ry_direction.y, r.ry_direction.z],
    ];
    let from = [&o, &o, &d, &d];
    let to = [&a, &b, &c, &e];
    for k in 0..4 {
        for i in 0..3 {
            let w = m(from[k][i]) + (m(to[k][i]) - m(from[k][i])) * m(s);
            fchk(g[k][i], w, "scaled differential");
        }
    }
    let x = &r.ray;
    sym::check(r.has_differentials, "scaling keeps the differentials");
    let same = |a: F, b: F| fsame(a, m(b));
    sym::check(sym::all(&[same(x.o.x, o[0]), same(x.o.y, o[1]), same(x.o.z, o[2])]), "scaling moved the main ray");
    sym::check(sym::all(&[same(x.d.x, d[0]), same(x.d.y, d[1]), same(x.d.z, d[2])]), "scaling turned the main ray");
}
/// well conditioned matrices whose entries differ much in size: pivots have to be chosen by
/// magnitude, and no intermediate result may leave the range of floats
pub fn c13_range() {
    let e = power(-5 * sym::choose(sym::param(0, 8, 16)) as i32);
    let kind = sym::choose(3);
    let base: [[F; 4]; 4] = [
        [[e, 1., 0., 0.], [1., 1., 0., 0.], [0., 0., 1., 1.], [0., 0., 1., e]],
        [[e, 1., 0., 0.], [0., e, 1., 0.], [0., 0., e, 1.], [1., 0., 0., e]],
        [[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]],
    ][kind];
    sym::assume(e < 0.25 || kind == 2);
    let p = perm(4, sym::choose(24));
    let q = perm(4, sym::choose(sym::param(1, 4, 24)));
    let size = power([0, -40, 40, -8][sym::choose(4)]);
    let mut a = [[0.0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            a[r][c] = base[p[r]][q[c]] * size * if kind == 2 && c == 1 { e } else { 1.0 };
        }
    }
    note_matrix(&a);
    let a = Matrix4::new(a);
    let b = a.inverse();
    sym::cover("inverted");
    for r in 0..4 {
        for c in 0..4 {
            let (mut s, mut x, mut y): (F, F, F) = (0.0, 0.0, 0.0);
            for k in 0..4 {
                s += a.mat[r][k] * b.mat[k][c];
                x = x.max(a.mat[r][k].abs());
                y = y.max(b.mat[k][c].abs());
            }
            let w: F = if r == c { 1.0 } else { 0.0 };
            sym::check((s - w).abs() <= 0.001 * (x * y), "matrix times its inverse is far from the identity");
        }
    }
}
fn power(n: i32) -> F {
    let mut x = 1.0;
    for _ in 0..n.abs() {
        x *= if n < 0 { 0.5 } else { 2.0 };
    }
    x
}
