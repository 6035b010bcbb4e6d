//! C23: vectors and transforms over intervals.
//!
//! The generic code is run with the scalar `Ci`, "an interval known by its contract":
//! its operations offer what the contracts of C01, C02 and C04 promise about
//! intervals and no more.  For the proofs a `Ci` is one arbitrary real member; an
//! operation returns the exact result, which C01/C02 say is a member of the interval
//! the real code returns; a comparison may answer true only when it holds for the
//! members (C04) and may always answer false.  In the concrete runs a `Ci` carries a
//! real Interval<f32> beside the member.
use super::util::*;
use crate::contracts;
use crate::ctx::*;
use scarlet::geometry::ray::Ray;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{GFloat, Scalar, SignedScalar};
use scarlet::math::transform::{Matrix4x4, Transform};
use scarlet::math::vector::*;
use std::cell::Cell;
use std::cmp::Ordering;

thread_local! { static FRESH: Cell<usize> = Cell::new(0); }

#[derive(Clone, Copy, Debug)]
struct Ci {
    #[cfg(not(scarlet_verif))]
    i: Interval<f32>,
    g: X,
}

#[cfg(scarlet_verif)]
fn mk(g: X, _i: impl FnOnce() -> ()) -> Ci {
    Ci { g }
}
#[cfg(not(scarlet_verif))]
fn mk(g: X, i: impl FnOnce() -> Interval<f32>) -> Ci {
    Ci { i: i(), g }
}
#[cfg(scarlet_verif)]
macro_rules! ci { ($g:expr, $i:expr) => { mk($g, || ()) } }
#[cfg(not(scarlet_verif))]
macro_rules! ci { ($g:expr, $i:expr) => { mk($g, || $i) } }

#[cfg(scarlet_verif)]
fn input(c: &mut Ctx, n: &str) -> Ci {
    Ci { g: c.ghost(n) }
}
#[cfg(not(scarlet_verif))]
fn input(c: &mut Ctx, n: &str) -> Ci {
    let i = iv(c, n);
    let g = member(c, n, i);
    Ci { i, g }
}

/// the result contains the real value
#[cfg(scarlet_verif)]
fn holds(c: &mut Ctx, name: &str, r: Ci, want: X) {
    c.ensure(name, eq(r.g, want));
}
#[cfg(not(scarlet_verif))]
fn holds(c: &mut Ctx, name: &str, r: Ci, want: X) {
    c.ensure(name, inside(r.i, want));
}
fn holds3(c: &mut Ctx, name: &str, r: [Ci; 3], want: [X; 3]) {
    for i in 0..3 {
        holds(c, &format!("{}.{}", name, AX[i]), r[i], want[i]);
    }
}

/// an answer that only a true relation of the members allows
#[cfg(scarlet_verif)]
fn certain(b: B) -> bool {
    let n = FRESH.with(|f| { f.set(f.get() + 1); f.get() });
    let yes = R::var(&format!("choice_{}", n)) > R::zero();
    if yes {
        scarlet::verif::assume(b);
    }
    yes
}

macro_rules! op {
    ($tr:ident, $m:ident, $atr:ident, $am:ident, $o:tt) => {
        impl std::ops::$tr<Ci> for Ci {
            type Output = Ci;
            fn $m(self, b: Ci) -> Ci { ci!(self.g $o b.g, self.i $o b.i) }
        }
        impl std::ops::$atr<Ci> for Ci {
            fn $am(&mut self, b: Ci) { *self = *self $o b; }
        }
        impl std::ops::$tr<RF> for Ci {
            type Output = Ci;
            fn $m(self, b: RF) -> Ci { ci!(self.g $o x(b), self.i $o b) }
        }
    };
}
op!(Add, add, AddAssign, add_assign, +);
op!(Sub, sub, SubAssign, sub_assign, -);
op!(Mul, mul, MulAssign, mul_assign, *);
op!(Div, div, DivAssign, div_assign, /);
impl std::ops::Rem for Ci {
    type Output = Ci;
    fn rem(self, _b: Ci) -> Ci { no("remainder") }
}
impl std::ops::RemAssign for Ci {
    fn rem_assign(&mut self, _b: Ci) { no("remainder") }
}
impl std::ops::Neg for Ci {
    type Output = Ci;
    fn neg(self) -> Ci { ci!(-self.g, -self.i) }
}
#[cfg(scarlet_verif)]
fn no(what: &str) -> ! {
    scarlet::verif::unsupported(what)
}
#[cfg(not(scarlet_verif))]
fn no(what: &str) -> ! {
    panic!("{}", what)
}

#[cfg(scarlet_verif)]
impl PartialEq for Ci {
    fn eq(&self, o: &Ci) -> bool { certain(eq(self.g, o.g)) }
}
#[cfg(scarlet_verif)]
impl PartialOrd for Ci {
    fn partial_cmp(&self, o: &Ci) -> Option<Ordering> {
        if certain(eq(self.g, o.g)) {
            Some(Ordering::Equal)
        } else if certain(lt(self.g, o.g)) {
            Some(Ordering::Less)
        } else if certain(gt(self.g, o.g)) {
            Some(Ordering::Greater)
        } else {
            None
        }
    }
    fn lt(&self, o: &Ci) -> bool { certain(lt(self.g, o.g)) }
    fn gt(&self, o: &Ci) -> bool { certain(gt(self.g, o.g)) }
    fn le(&self, o: &Ci) -> bool { certain(le(self.g, o.g)) }
    fn ge(&self, o: &Ci) -> bool { certain(ge(self.g, o.g)) }
}
#[cfg(not(scarlet_verif))]
impl PartialEq for Ci {
    fn eq(&self, o: &Ci) -> bool { self.i == o.i }
}
#[cfg(not(scarlet_verif))]
impl PartialOrd for Ci {
    fn partial_cmp(&self, o: &Ci) -> Option<Ordering> { self.i.partial_cmp(&o.i) }
}
impl Scalar for Ci {
    fn zero() -> Ci { ci!(k(0.0), Interval::zero()) }
    fn one() -> Ci { ci!(k(1.0), Interval::one()) }
    fn lowest() -> Ci { no("lowest") }
    fn highest() -> Ci { no("highest") }
    fn min(self, o: Ci) -> Ci { ci!(self.g.min(o.g), Scalar::min(self.i, o.i)) }
    fn max(self, o: Ci) -> Ci { ci!(self.g.max(o.g), Scalar::max(self.i, o.i)) }
    fn square(self) -> Ci { ci!(self.g * self.g, Scalar::square(self.i)) }
}
impl SignedScalar for Ci {
    fn abs(self) -> Ci { ci!(self.g.abs(), SignedScalar::abs(self.i)) }
}
macro_rules! absent { ($($n:ident ( $($a:ident : $t:ty),* ) -> $r:ty;)*) => { $( fn $n($(_: $t),*) -> $r { no(stringify!($n)) } )* } }
impl GFloat for Ci {
    fn sqrt(self) -> Ci {
        // the contract of the interval square root asks that the member has one
        #[cfg(scarlet_verif)]
        scarlet::verif::oblige("pre", "square root of a value that has one", ge(self.g, 0.0));
        ci!(X::fun("sqrt", &[self.g]), GFloat::sqrt(self.i))
    }
    fn half() -> Ci { ci!(k(0.5), GFloat::half()) }
    fn next_up(self) -> Ci { no("next_up") }
    fn next_down(self) -> Ci { no("next_down") }
    fn to_i64(self) -> i64 { no("to_i64") }
    fn to_f32(self) -> f32 { no("to_f32") }
    fn to_f64(self) -> f64 { no("to_f64") }
    fn is_nan(self) -> bool { no("is_nan") }
    fn is_finite(self) -> bool { no("is_finite") }
    fn is_infinite(self) -> bool { no("is_infinite") }
    fn sin(self) -> Ci { no("sin") }
    fn cos(self) -> Ci { no("cos") }
    fn sin_cos(self) -> (Ci, Ci) { no("sin_cos") }
    fn tan(self) -> Ci { no("tan") }
    fn asin(self) -> Ci { no("asin") }
    fn acos(self) -> Ci { no("acos") }
    fn atan(self) -> Ci { no("atan") }
    fn atan2(self, _o: Ci) -> Ci { no("atan2") }
    absent! {
        from_i64(v: i64) -> Ci; from_f32(v: f32) -> Ci; from_f64(v: f64) -> Ci;
        nan() -> Ci; infinity() -> Ci; neg_infinity() -> Ci; neg_zero() -> Ci; min_positive_value() -> Ci;
        pi() -> Ci; tau() -> Ci; frac_pi_2() -> Ci; frac_pi_4() -> Ci; abs_epsilon() -> Ci; rel_epsilon() -> Ci;
    }
}

fn vec3<M>(c: &mut Ctx, n: &str) -> GenericVector<Ci, 3, M> {
    GenericVector::from(std::array::from_fn(|i| input(c, &format!("{}_{}", n, AX[i]))))
}
fn gs<const N: usize, M>(v: GenericVector<Ci, N, M>) -> [X; N] {
    v.vec.map(|a| a.g)
}
fn start() {
    FRESH.with(|f| f.set(0));
}
/// any transform whose matrices have last rows 0 0 0 1 (affine) or are arbitrary
fn transform(c: &mut Ctx, affine: bool) -> (Transform<RF>, M4, M4) {
    let mut m = [[[RF::zero(); 4]; 4]; 2];
    for (l, n) in ["m", "n"].iter().enumerate() {
        for i in 0..4 {
            for j in 0..4 {
                m[l][i][j] = if i == 3 && affine { if j == 3 { RF::one() } else { RF::zero() } } else { c.rf(&format!("{}{}{}", n, i, j)) };
            }
        }
    }
    (Transform::new(Matrix4x4::from(m[0]), Matrix4x4::from(m[1])), entries(m[0]), entries(m[1]))
}
fn entries(m: [[RF; 4]; 4]) -> M4 {
    m.map(|r| r.map(|a| x(a)))
}

contracts! {
    iv_vec_linear [C23 Rounded] covers ["GenericVector<Interval,3>::{add,sub,neg,mul,div,+=,-=,default,min,max}"] |c| {
        start();
        let a: Vector3<Ci> = vec3(c, "a");
        let b: Vector3<Ci> = vec3(c, "b");
        let s = input(c, "s");
        let (ax, bx) = (gs(a), gs(b));
        holds3(c, "a + b", (a + b).vec, add(ax, bx));
        holds3(c, "a - b", (a - b).vec, sub(ax, bx));
        holds3(c, "-a", (-a).vec, scale(ax, k(-1.0)));
        holds3(c, "a * s", (a * s).vec, scale(ax, s.g));
        holds3(c, "a * b", (a * b).vec, std::array::from_fn(|i| ax[i] * bx[i]));
        let mut m = a;
        m += b;
        holds3(c, "a += b", m.vec, add(ax, bx));
        let mut m = a;
        m -= b;
        holds3(c, "a -= b", m.vec, sub(ax, bx));
        holds3(c, "default", Vector3::<Ci>::default().vec, [zero(); 3]);
        holds3(c, "min", a.min(b).vec, std::array::from_fn(|i| ax[i].min(bx[i])));
        holds3(c, "max", a.max(b).vec, std::array::from_fn(|i| ax[i].max(bx[i])));
        c.require(all(&[ne(s.g, 0.0), ne(bx[0], 0.0), ne(bx[1], 0.0), ne(bx[2], 0.0)]));
        holds3(c, "a / s", (a / s).vec, std::array::from_fn(|i| ax[i] / s.g));
        holds3(c, "a / b", (a / b).vec, std::array::from_fn(|i| ax[i] / bx[i]));
    }
    iv_vec_products [C23 Rounded] covers ["GenericVector<Interval,N>::{dot,cross,square_norm,norm,square_distance,distance}"] |c| {
        start();
        let a: Vector3<Ci> = vec3(c, "a");
        let b: Vector3<Ci> = vec3(c, "b");
        let (ax, bx) = (gs(a), gs(b));
        holds(c, "dot", a.dot(b), dot(ax, bx));
        holds3(c, "cross", a.cross(b).vec, cross(ax, bx));
        holds(c, "square norm", a.square_norm(), dot(ax, ax));
        holds(c, "square distance", a.square_distance(b), dot(sub(ax, bx), sub(ax, bx)));
        holds(c, "norm", a.norm(), X::fun("sqrt", &[dot(ax, ax)]));
        holds(c, "distance", a.distance(b), X::fun("sqrt", &[dot(sub(ax, bx), sub(ax, bx))]));
        let d = Vector::<Ci, 2>::from([a[0], a[1]]);
        holds(c, "dot of two components", d.dot(Vector::<Ci, 2>::from([b[0], b[1]])), ax[0] * bx[0] + ax[1] * bx[1]);
    }
    iv_vec_unit [C23 Rounded] covers ["GenericVector<Interval,3>::normalize"] |c| {
        start();
        let a: Vector3<Ci> = vec3(c, "a");
        let ax = gs(a);
        c.require(gt(dot(ax, ax), 0.0));
        let n = X::fun("sqrt", &[dot(ax, ax)]);
        holds3(c, "normalize", a.normalize().vec, std::array::from_fn(|i| ax[i] / n));
    }
    iv_vec_points [C23 Rounded] covers ["point/vector/normal interactions over intervals", "Ray<Interval>::{new,eval}"] |c| {
        start();
        let p: Point3<Ci> = vec3(c, "p");
        let q: Point3<Ci> = vec3(c, "q");
        let a: Vector3<Ci> = vec3(c, "a");
        let t = input(c, "t");
        let (px, qx, ax) = (gs(p), gs(q), gs(a));
        holds3(c, "p - q", (p - q).vec, sub(px, qx));
        holds3(c, "p + a", (p + a).vec, add(px, ax));
        holds3(c, "a + p", (a + p).vec, add(px, ax));
        holds3(c, "p - a", (p - a).vec, sub(px, ax));
        holds3(c, "vector to normal", Normal3::from(a).vec, ax);
        holds3(c, "vector to point", Point3::from(a).vec, ax);
        holds3(c, "point to vector", Vector3::from(p).vec, px);
        holds(c, "point distance", Norm::square_norm(p - q), dot(sub(px, qx), sub(px, qx)));
        let r = Ray::new(p, a, t);
        holds3(c, "ray origin", r.origin.vec, px);
        holds3(c, "ray direction", r.direction.vec, ax);
        let s = input(c, "u");
        holds3(c, "ray at u", r.eval(s).vec, add(px, scale(ax, s.g)));
    }
    iv_map_affine [C23 Rounded] covers ["Transform::{map,map_inverse} of Vector3/Normal3/Point3/Ray over intervals (affine)"] |c| {
        start();
        let (t, m0, m1) = transform(c, true);
        let inverse = c.pick("inverse", 2) == 1;
        let (m, mi) = if inverse { (m1, m0) } else { (m0, m1) };
        let lin = |m: M4, v: [X; 3]| -> [X; 3] { let r = mapply(m, v, 0.0); [r[0], r[1], r[2]] };
        match c.pick("object", 4) {
            0 => {
                let v: Vector3<Ci> = vec3(c, "v");
                let r: Vector3<Ci> = if inverse { t.map_inverse(v) } else { t.map(v) };
                holds3(c, "vector", r.vec, lin(m, gs(v)));
            }
            1 => {
                let v: Normal3<Ci> = vec3(c, "v");
                let r: Normal3<Ci> = if inverse { t.map_inverse(v) } else { t.map(v) };
                let n = gs(v);
                holds3(c, "normal", r.vec, std::array::from_fn(|j| mi[0][j] * n[0] + mi[1][j] * n[1] + mi[2][j] * n[2]));
            }
            2 => {
                let v: Point3<Ci> = vec3(c, "v");
                let r: Point3<Ci> = if inverse { t.map_inverse(v) } else { t.map(v) };
                let w = mapply(m, gs(v), 1.0);
                holds3(c, "point", r.vec, [w[0], w[1], w[2]]);
            }
            _ => {
                let r = Ray::new(vec3(c, "o"), vec3(c, "d"), input(c, "tmax"));
                let s: Ray<Ci> = if inverse { t.map_inverse(r) } else { t.map(r) };
                let w = mapply(m, gs(r.origin), 1.0);
                holds3(c, "ray origin", s.origin.vec, [w[0], w[1], w[2]]);
                holds3(c, "ray direction", s.direction.vec, lin(m, gs(r.direction)));
                holds(c, "ray range", s.tmax, r.tmax.g);
            }
        }
    }
    iv_map_projective [C23 Rounded] covers ["Transform::{map,map_inverse} of Point3 over intervals (any matrix)"] |c| {
        start();
        let (t, m0, m1) = transform(c, false);
        let inverse = c.pick("inverse", 2) == 1;
        let m = if inverse { m1 } else { m0 };
        let v: Point3<Ci> = vec3(c, "v");
        let w = mapply(m, gs(v), 1.0);
        c.require(ne(w[3], 0.0));
        let r: Point3<Ci> = if inverse { t.map_inverse(v) } else { t.map(v) };
        holds3(c, "point", r.vec, std::array::from_fn(|i| w[i] / w[3]));
    }
    iv_vec_scalar [C23 Rounded] covers ["GenericVector<Interval,N> {*,/} T (vectori.rs)"] |c| {
        let v: [Interval<RF>; 2] = std::array::from_fn(|i| iv(c, &format!("v{}", i)));
        let s = c.rf("s");
        let g: [X; 2] = std::array::from_fn(|i| member(c, &format!("g{}", i), v[i]));
        let a = Vector::<Interval<RF>, 2>::from(v);
        let p = Point::<Interval<RF>, 2>::from(v);
        if c.pick("op", 2) == 0 {
            let (r, q): (Vector<Interval<RF>, 2>, Point<Interval<RF>, 2>) = (a * s, p * s);
            for i in 0..2 {
                c.ensure(&format!("v * s.{}", AX[i]), inside(r[i], g[i] * s));
                c.ensure(&format!("p * s.{}", AX[i]), inside(q[i], g[i] * s));
            }
        } else {
            c.require(ne(s, 0.0));
            let (r, q): (Vector<Interval<RF>, 2>, Point<Interval<RF>, 2>) = (a / s, p / s);
            for i in 0..2 {
                c.ensure(&format!("v / s.{}", AX[i]), inside(r[i], g[i] / x(s)));
                c.ensure(&format!("p / s.{}", AX[i]), inside(q[i], g[i] / x(s)));
            }
        }
    }
    iv_vec_convert [C23 Rounded] covers ["From<GenericVector<T>> for GenericVector<Interval<T>>", "From<GenericVector<Interval<T>>> for GenericVector<T>"] |c| {
        let a: [RF; 3] = std::array::from_fn(|i| c.rf(&format!("a{}", i)));
        let r = Vector3::<Interval<RF>>::from(Vector3::<RF>::from(a));
        for i in 0..3 {
            c.ensure(&format!("exact.{}", AX[i]), eq(r[i].inf, a[i]).and(eq(r[i].sup, a[i])));
        }
        let v: [Interval<RF>; 3] = std::array::from_fn(|i| iv(c, &format!("v{}", i)));
        let b = Vector3::<RF>::from(Vector3::<Interval<RF>>::from(v));
        for i in 0..3 {
            c.ensure(&format!("a member.{}", AX[i]), inside(v[i], x(b[i])));
        }
    }
}
