use super::util::*;
use crate::contracts;
use crate::ctx::*;
use scarlet::math::scalar::{AlmostEqual, GFloat};
use scarlet::math::vector::*;

fn linear_ops<const N: usize>(c: &mut Ctx) {
    let a: Vector<R, N> = rv(c, "a");
    let b: Vector<R, N> = rv(c, "b");
    let s = c.r("s");
    let (ax, bx, sx) = (xs(a), xs(b), x(s));
    c.require(ne(sx, 0.0));
    for i in 0..N {
        c.require(ne(bx[i], 0.0));
    }
    ens_eq(c, "a + b", xs(a + b), add(ax, bx));
    ens_eq(c, "a - b", xs(a - b), sub(ax, bx));
    ens_eq(c, "-a", xs(-a), scale(ax, k(-1.0)));
    ens_eq(c, "a * s", xs(a * s), scale(ax, sx));
    let q = xs(a / s);
    ens_eq(c, "(a / s) * s", scale(q, sx), ax);
    ens_eq(c, "a * b", xs(a * b), std::array::from_fn(|i| ax[i] * bx[i]));
    let q = xs(a / b);
    ens_eq(c, "(a / b) * b", std::array::from_fn(|i| q[i] * bx[i]), ax);
    let mut m = a;
    m += b;
    ens_eq(c, "a += b", xs(m), add(ax, bx));
    let mut m = a;
    m -= b;
    ens_eq(c, "a -= b", xs(m), sub(ax, bx));
    c.ensure("a . b", eq(a.dot(b), dot(ax, bx)));
    c.ensure("a . b (trait)", eq(<Vector<R, N> as InnerProduct<Vector<R, N>>>::dot(a, b), dot(ax, bx)));
    ens_eq(c, "default is zero", xs(Vector::<R, N>::default()), [zero(); N]);
}

fn norms<const N: usize>(c: &mut Ctx) {
    let a: Vector<R, N> = rv(c, "a");
    let b: Vector<R, N> = rv(c, "b");
    let (ax, bx) = (xs(a), xs(b));
    c.ensure("|a|^2", eq(a.square_norm(), dot(ax, ax)));
    c.ensure("|a - b|^2", eq(a.square_distance(b), dot(sub(ax, bx), sub(ax, bx))));
    c.ensure("|a|^2 (trait)", eq(Norm::square_norm(a), dot(ax, ax)));
    c.ensure("|a - b|^2 (trait)", eq(Norm::square_distance(a, b), dot(sub(ax, bx), sub(ax, bx))));
    let p: Point<R, N> = rv(c, "p");
    let (px, pn) = (xs(p), x(Norm::norm(p)));
    c.ensure("|p| >= 0", ge(pn, 0.0));
    c.ensure("|p| * |p|", eq(pn * pn, dot(px, px)));
    let n = x(a.norm());
    c.ensure("|a| >= 0", ge(n, 0.0));
    c.ensure("|a| * |a|", eq(n * n, dot(ax, ax)));
    let d = x(a.distance(b));
    c.ensure("dist >= 0", ge(d, 0.0));
    c.ensure("dist * dist", eq(d * d, dot(sub(ax, bx), sub(ax, bx))));
}

fn unit<const N: usize>(c: &mut Ctx) {
    let a: Vector<R, N> = rv(c, "a");
    let ax = xs(a);
    c.require(gt(dot(ax, ax), 0.0));
    let u = xs(a.normalize());
    c.ensure("unit length", eq(dot(u, u), 1.0));
    // parallel and in the same direction: u * |a| = a
    let n = X::fun("sqrt", &[dot(ax, ax)]);
    ens_eq(c, "same direction", scale(u, n), ax);
}

fn minmax<const N: usize>(c: &mut Ctx) {
    let a: Vector<R, N> = rv(c, "a");
    let b: Vector<R, N> = rv(c, "b");
    let (ax, bx) = (xs(a), xs(b));
    ens_eq(c, "min", xs(a.min(b)), std::array::from_fn(|i| ax[i].min(bx[i])));
    ens_eq(c, "max", xs(a.max(b)), std::array::from_fn(|i| ax[i].max(bx[i])));
}

/// points and normals: what they share with vectors
fn point_ops<const N: usize>(c: &mut Ctx) {
    let p: Point<R, N> = rv(c, "p");
    let q: Point<R, N> = rv(c, "q");
    let n: Normal<R, N> = rv(c, "n");
    let m: Normal<R, N> = rv(c, "m");
    let v: Vector<R, N> = rv(c, "v");
    let s = c.r("s");
    let (px, qx, nx, mx, vx, sx) = (xs(p), xs(q), xs(n), xs(m), xs(v), x(s));
    c.require(ne(sx, 0.0));
    ens_eq(c, "p + q", xs(p + q), add(px, qx));
    ens_eq(c, "n + m", xs(n + m), add(nx, mx));
    ens_eq(c, "-n", xs(-n), scale(nx, k(-1.0)));
    ens_eq(c, "p * s", xs(p * s), scale(px, sx));
    ens_eq(c, "n * s", xs(n * s), scale(nx, sx));
    ens_eq(c, "(p / s) * s", scale(xs(p / s), sx), px);
    ens_eq(c, "p - q", xs(p - q), sub(px, qx));
    ens_eq(c, "p + v", xs(p + v), add(px, vx));
    ens_eq(c, "v + p", xs(v + p), add(px, vx));
    ens_eq(c, "p - v", xs(p - v), sub(px, vx));
    ens_eq(c, "vector to normal", xs(Normal::<R, N>::from(v)), vx);
    ens_eq(c, "vector to point", xs(Point::<R, N>::from(v)), vx);
    ens_eq(c, "point to vector", xs(Vector::<R, N>::from(p)), px);
    ens_eq(c, "normal to vector", xs(Vector::<R, N>::from(n)), nx);
    let mut t = p;
    t += q;
    ens_eq(c, "p += q", xs(t), add(px, qx));
    c.ensure("n . v", eq(n.dot(v), dot(nx, vx)));
    c.ensure("p . q", eq(p.dot(q), dot(px, qx)));
    ens_eq(c, "default point", xs(Point::<R, N>::default()), [zero(); N]);
    c.require(gt(dot(nx, nx), 0.0));
    let u = xs(n.normalize());
    c.ensure("unit normal", eq(dot(u, u), 1.0));
}
fn point_minmax<const N: usize>(c: &mut Ctx) {
    let a: Point<R, N> = rv(c, "a");
    let b: Point<R, N> = rv(c, "b");
    let (ax, bx) = (xs(a), xs(b));
    ens_eq(c, "min", xs(a.min(b)), std::array::from_fn(|i| ax[i].min(bx[i])));
    ens_eq(c, "max", xs(a.max(b)), std::array::from_fn(|i| ax[i].max(bx[i])));
}

contracts! {
    vec_linear_2 [C07 Exact] covers ["GenericVector<_,2>::{add,sub,neg,mul,div,dot,+=,-=,default}"] |c| { linear_ops::<2>(c) }
    vec_linear_3 [C07 Exact] covers ["GenericVector<_,3>::{add,sub,neg,mul,div,dot,+=,-=,default}"] |c| { linear_ops::<3>(c) }
    vec_linear_4 [C07 Exact] covers ["GenericVector<_,4>::{add,sub,neg,mul,div,dot,+=,-=,default}"] |c| { linear_ops::<4>(c) }
    vec_linear_1 [C07 Exact] covers ["GenericVector<_,1>::{add,sub,neg,mul,div,dot,+=,-=,default}"] |c| { linear_ops::<1>(c) }
    vec_linear_6 [C07 Exact] covers ["GenericVector<_,6>::{add,sub,neg,mul,div,dot,+=,-=,default}"] |c| { linear_ops::<6>(c) }
    vec_linear_9 [C07 Exact] covers ["GenericVector<_,9>::{add,sub,neg,mul,div,dot,+=,-=,default}"] |c| { linear_ops::<9>(c) }
    vec_norm_1 [C07 Exact] covers ["GenericVector<_,1>::{square_norm,norm,square_distance,distance}"] |c| { norms::<1>(c) }
    vec_norm_7 [C07 Exact] covers ["GenericVector<_,7>::{square_norm,norm,square_distance,distance}"] |c| { norms::<7>(c) }
    vec_normalize_6 [C07 Exact] covers ["GenericVector<_,6>::normalize"] |c| { unit::<6>(c) }
    point_ops_2 [C07 Exact] covers ["Point<_,2>, Normal<_,2>: operations and conversions"] |c| { point_ops::<2>(c) }
    point_ops_3 [C07 Exact] covers ["Point<_,3>, Normal<_,3>: operations and conversions"] |c| { point_ops::<3>(c) }
    point_ops_6 [C07 Exact] covers ["Point<_,6>, Normal<_,6>: operations and conversions"] |c| { point_ops::<6>(c) }
    point_minmax_3 [C07 Exact] covers ["Point<_,3>::{min,max}"] |c| { point_minmax::<3>(c) }
    vec_minmax_5 [C07 Exact] covers ["GenericVector<_,5>::{min,max}"] |c| { minmax::<5>(c) }
    vec_norm_2 [C07 Exact] covers ["GenericVector<_,2>::{square_norm,norm,square_distance,distance}"] |c| { norms::<2>(c) }
    vec_norm_3 [C07 Exact] covers ["GenericVector<_,3>::{square_norm,norm,square_distance,distance}"] |c| { norms::<3>(c) }
    vec_norm_4 [C07 Exact] covers ["GenericVector<_,4>::{square_norm,norm,square_distance,distance}"] |c| { norms::<4>(c) }
    vec_normalize_2 [C07 Exact] covers ["GenericVector<_,2>::normalize"] |c| { unit::<2>(c) }
    vec_normalize_3 [C07 Exact] covers ["GenericVector<_,3>::normalize"] |c| { unit::<3>(c) }
    vec_normalize_4 [C07 Exact] covers ["GenericVector<_,4>::normalize"] |c| { unit::<4>(c) }
    vec_minmax_2 [C07 Exact] covers ["GenericVector<_,2>::{min,max}"] |c| { minmax::<2>(c) }
    vec_minmax_3 [C07 Exact] covers ["GenericVector<_,3>::{min,max}"] |c| { minmax::<3>(c) }

    vec_cross [C07 Exact] covers ["GenericVector<_,3>::cross"] |c| {
        let a = rv3(c, "a");
        let b = rv3(c, "b");
        let (ax, bx) = (xs(a), xs(b));
        let r = xs(a.cross(b));
        ens_eq(c, "a x b", r, cross(ax, bx));
        c.ensure("perpendicular to a", eq(dot(r, ax), 0.0));
        c.ensure("perpendicular to b", eq(dot(r, bx), 0.0));
        let d = dot(ax, bx);
        c.ensure("Lagrange", eq(dot(r, r) + d * d, dot(ax, ax) * dot(bx, bx)));
    }

    vec_access [C07 Exact] covers ["GenericVector::{new,x,y,z,w,x_mut,y_mut,z_mut,w_mut,index,index_mut,from}"] |c| {
        let (p, q, r, s, t) = (c.r("p"), c.r("q"), c.r("r"), c.r("s"), c.r("t"));
        let v4 = Vector4::<R>::new(p, q, r, s);
        ens_eq(c, "new4", [x(v4.x()), x(v4.y()), x(v4.z()), x(v4.w())], [x(p), x(q), x(r), x(s)]);
        ens_eq(c, "index4", [x(v4[0]), x(v4[1]), x(v4[2]), x(v4[3])], [x(p), x(q), x(r), x(s)]);
        let v3 = Point3::<R>::new(p, q, r);
        ens_eq(c, "new3", [x(v3.x()), x(v3.y()), x(v3.z())], [x(p), x(q), x(r)]);
        let v2 = Normal::<R, 2>::new(p, q);
        ens_eq(c, "new2", [x(v2.x()), x(v2.y())], [x(p), x(q)]);
        for i in 0..4 {
            let old = [x(p), x(q), x(r), x(s)];
            let mut m = v4;
            match i {
                0 => *m.x_mut() = t,
                1 => *m.y_mut() = t,
                2 => *m.z_mut() = t,
                _ => *m.w_mut() = t,
            }
            let want: [X; 4] = std::array::from_fn(|j| if j == i { x(t) } else { old[j] });
            ens_eq(c, &format!("set {}", i), xs(m), want);
            let mut m = v4;
            m[i] = t;
            ens_eq(c, &format!("index_mut {}", i), xs(m), want);
        }
    }

    vec_kinds [C07 Exact] covers ["From between Vector, Point, Normal", "Point - Point", "Point +- Vector", "Vector + Point", "dot of mixed kinds"] |c| {
        let v = rv3(c, "v");
        let p = rp3(c, "p");
        let q = rp3(c, "q");
        let n = rn3(c, "n");
        let (vx, px, qx, nx) = (xs(v), xs(p), xs(q), xs(n));
        let d: Vector3<R> = p - q;
        ens_eq(c, "p - q", xs(d), sub(px, qx));
        let r: Point3<R> = p + v;
        ens_eq(c, "p + v", xs(r), add(px, vx));
        let r: Point3<R> = v + p;
        ens_eq(c, "v + p", xs(r), add(px, vx));
        let r: Point3<R> = p - v;
        ens_eq(c, "p - v", xs(r), sub(px, vx));
        ens_eq(c, "q + (p - q)", xs(q + d), px);
        ens_eq(c, "vector to normal", xs(Normal3::<R>::from(v)), vx);
        ens_eq(c, "vector to point", xs(Point3::<R>::from(v)), vx);
        ens_eq(c, "point to vector", xs(Vector3::<R>::from(p)), px);
        ens_eq(c, "normal to vector", xs(Vector3::<R>::from(n)), nx);
        c.ensure("v . n", eq(v.dot(n), dot(vx, nx)));
        c.ensure("v . p", eq(v.dot(p), dot(vx, px)));
    }

    vec_equality [C07 Exact] covers ["GenericVector::eq"] |c| {
        let a = rv3(c, "a");
        let b = rv3(c, "b");
        let e = a == b;
        c.ensure("== is componentwise equality", truth(e).iff(all_eq(xs(a), xs(b))));
    }

    vec_almost_eq [C07 Exact] covers ["GenericVector::almost_eq"] |c| {
        let a: Vector<R, 2> = rv(c, "a");
        let b: Vector<R, 2> = rv(c, "b");
        let e = a.almost_eq(b);
        let f: Vec<bool> = (0..2).map(|i| a[i].fequals(b[i])).collect();
        c.ensure("almost_eq is componentwise", B::c(e == (f[0] && f[1])));
    }
}
