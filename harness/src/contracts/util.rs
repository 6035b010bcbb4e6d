//! Shared helpers: symbolic vectors, points, boxes, matrices.
#![allow(dead_code)]
use crate::ctx::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::ray::Rayf;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{Float, Scalar};
use scarlet::math::transform::{Matrix4x4, Transform};
use scarlet::math::vector::*;

pub const AX: [&str; 9] = ["x", "y", "z", "w", "v4", "v5", "v6", "v7", "v8"];

pub fn x(a: impl Into<X>) -> X {
    a.into()
}
pub fn k(a: f64) -> X {
    X::from(a)
}
pub fn zero() -> X {
    X::from(0.0)
}

pub fn rv<const N: usize, M>(c: &mut Ctx, n: &str) -> GenericVector<R, N, M> {
    GenericVector::from(std::array::from_fn(|i| c.r(&format!("{}_{}", n, AX[i]))))
}
pub fn rv3(c: &mut Ctx, n: &str) -> Vector3<R> {
    rv(c, n)
}
pub fn rp3(c: &mut Ctx, n: &str) -> Point3<R> {
    rv(c, n)
}
pub fn rn3(c: &mut Ctx, n: &str) -> Normal3<R> {
    rv(c, n)
}
pub fn fv<const N: usize, M>(c: &mut Ctx, n: &str) -> GenericVector<Float, N, M> {
    GenericVector::from(std::array::from_fn(|i| c.f(&format!("{}_{}", n, AX[i]))))
}
pub fn fv3(c: &mut Ctx, n: &str) -> Vector3f {
    fv(c, n)
}
pub fn fp3(c: &mut Ctx, n: &str) -> Point3f {
    fv(c, n)
}
/// components as specification reals
pub fn xs<T: Into<X> + scarlet::math::scalar::Scalar, const N: usize, M>(
    v: GenericVector<T, N, M>,
) -> [X; N] {
    v.vec.map(|a| a.into())
}
pub fn dot<const N: usize>(a: [X; N], b: [X; N]) -> X {
    let mut s = zero();
    for i in 0..N {
        s = s + a[i] * b[i];
    }
    s
}
pub fn sub<const N: usize>(a: [X; N], b: [X; N]) -> [X; N] {
    std::array::from_fn(|i| a[i] - b[i])
}
pub fn add<const N: usize>(a: [X; N], b: [X; N]) -> [X; N] {
    std::array::from_fn(|i| a[i] + b[i])
}
pub fn scale<const N: usize>(a: [X; N], s: X) -> [X; N] {
    std::array::from_fn(|i| a[i] * s)
}
pub fn cross(a: [X; 3], b: [X; 3]) -> [X; 3] {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn all_eq<const N: usize>(a: [X; N], b: [X; N]) -> B {
    let v: Vec<B> = (0..N).map(|i| eq(a[i], b[i])).collect();
    all(&v)
}
pub fn nonzero<const N: usize>(a: [X; N]) -> B {
    let v: Vec<B> = (0..N).map(|i| ne(a[i], 0.0)).collect();
    any(&v)
}
pub fn ens_eq<const N: usize>(c: &mut Ctx, name: &str, a: [X; N], b: [X; N]) {
    for i in 0..N {
        c.ensure(&format!("{}.{}", name, AX[i]), eq(a[i], b[i]));
    }
}
pub fn truth(b: bool) -> B {
    B::c(b)
}

// ------------------------------------------------------------- matrices ---
pub type M4 = [[X; 4]; 4];
pub fn rm(c: &mut Ctx, n: &str) -> Matrix4x4<R> {
    Matrix4x4::from(std::array::from_fn(|i| {
        std::array::from_fn(|j| c.r(&format!("{}{}{}", n, i, j)))
    }))
}
pub fn fm(c: &mut Ctx, n: &str) -> Matrix4x4<Float> {
    Matrix4x4::from(std::array::from_fn(|i| {
        std::array::from_fn(|j| c.f(&format!("{}{}{}", n, i, j)))
    }))
}
/// a matrix whose last row is 0 0 0 1
pub fn ram(c: &mut Ctx, n: &str) -> Matrix4x4<R> {
    let mut m = rm3(c, n);
    m[3] = [R::zero(), R::zero(), R::zero(), R::one()];
    m
}
fn rm3(c: &mut Ctx, n: &str) -> Matrix4x4<R> {
    Matrix4x4::from(std::array::from_fn(|i| {
        std::array::from_fn(|j| if i < 3 { c.r(&format!("{}{}{}", n, i, j)) } else { R::zero() })
    }))
}
pub fn fam(c: &mut Ctx, n: &str) -> Matrix4x4<Float> {
    Matrix4x4::from(std::array::from_fn(|i| {
        std::array::from_fn(|j| {
            if i < 3 {
                c.f(&format!("{}{}{}", n, i, j))
            } else if j == 3 {
                Float::one()
            } else {
                Float::zero()
            }
        })
    }))
}
/// any transform whose two matrices are inverses of each other
pub fn rtransform(c: &mut Ctx, n: &str) -> Transform<R> {
    let m = rm(c, n);
    let mi = c.inv_r(&format!("{}i", n), m.data, false);
    Transform::new(m, Matrix4x4::from(mi))
}
/// any affine one
pub fn ratransform(c: &mut Ctx, n: &str) -> Transform<R> {
    let m = ram(c, n);
    let mi = c.inv_r(&format!("{}i", n), m.data, true);
    Transform::new(m, Matrix4x4::from(mi))
}
pub fn fatransform(c: &mut Ctx, n: &str) -> Transform<Float> {
    let m = fam(c, n);
    let mi = c.inv_f(&format!("{}i", n), m.data, true);
    Transform::new(m, Matrix4x4::from(mi))
}
/// the hypotheses (a b)_ij = 1_ij, each multiplied by f(i, j)
pub fn using(a: M4, b: M4, f: impl Fn(usize, usize) -> X) -> Vec<(X, X, X)> {
    let p = mmul(a, b);
    let mut v = vec![];
    for i in 0..4 {
        for j in 0..4 {
            v.push((f(i, j), p[i][j], k(if i == j { 1.0 } else { 0.0 })));
        }
    }
    v
}
pub fn mx<T: Into<X> + scarlet::math::scalar::Scalar>(m: Matrix4x4<T>) -> M4 {
    m.data.map(|r| r.map(|a| a.into()))
}
pub fn mmul(a: M4, b: M4) -> M4 {
    std::array::from_fn(|i| {
        std::array::from_fn(|j| {
            let mut s = zero();
            for l in 0..4 {
                s = s + a[i][l] * b[l][j];
            }
            s
        })
    })
}
pub fn ident() -> M4 {
    std::array::from_fn(|i| std::array::from_fn(|j| k(if i == j { 1.0 } else { 0.0 })))
}
pub fn ens_meq(c: &mut Ctx, name: &str, a: M4, b: M4) {
    for i in 0..4 {
        for j in 0..4 {
            c.ensure(&format!("{}[{}][{}]", name, i, j), eq(a[i][j], b[i][j]));
        }
    }
}
pub fn mapply(m: M4, p: [X; 3], w: f64) -> [X; 4] {
    std::array::from_fn(|i| m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3] * w)
}

// ------------------------------------------------------- boxes and rays ---
/// a box given by its corner points, pmin <= pmax
pub fn fbox(c: &mut Ctx, n: &str) -> Bbox3 {
    let lo = fp3(c, &format!("{}_min", n));
    let hi = Point3f::from(std::array::from_fn(|i| c.f_ge(&format!("{}_max_{}", n, AX[i]), lo[i])));
    for i in 0..3 {
        c.require(le(lo[i], hi[i]));
    }
    Bbox3 { pmin: lo, pmax: hi }
}
pub fn fray(c: &mut Ctx, n: &str) -> Rayf {
    let o = fp3(c, &format!("{}_o", n));
    let d = fv3(c, &format!("{}_d", n));
    let t = c.f_ge(&format!("{}_tmax", n), 0.0);
    c.require(ge(t, 0.0));
    Rayf::new(o, d, t)
}
/// the mathematical point o + t d
pub fn at(r: &Rayf, t: X) -> [X; 3] {
    add(xs(r.origin), scale(xs(r.direction), t))
}
pub fn in_box(b: &Bbox3, p: [X; 3]) -> B {
    let (lo, hi) = (xs(b.pmin), xs(b.pmax));
    let v: Vec<B> = (0..3)
        .flat_map(|i| [le(lo[i], p[i]), le(p[i], hi[i])])
        .collect();
    all(&v)
}

// -------------------------------------------------------------- intervals ---
pub fn iv(c: &mut Ctx, n: &str) -> Interval<RF> {
    let a = c.rf(&format!("{}_inf", n));
    let b = c.rf_ge(&format!("{}_sup", n), a);
    c.require(le(a, b));
    Interval::new(a, b)
}
pub fn inside(i: Interval<RF>, v: X) -> B {
    le(i.inf, v).and(le(v, i.sup))
}
pub fn member(c: &mut Ctx, n: &str, i: Interval<RF>) -> X {
    c.between(n, i.inf, i.sup)
}
