//! C09-C12: transforms.
use super::util::*;
use crate::contracts;
use crate::ctx::*;
use scarlet::geometry::ray::Ray;
use scarlet::math::transform::*;
use scarlet::math::vector::*;

fn both_inverse(c: &mut Ctx, t: &Transform<R>) {
    let (m, mi) = (mx(t.matrix()), mx(t.inverse_matrix()));
    ens_meq(c, "m * minv", mmul(m, mi), ident());
    ens_meq(c, "minv * m", mmul(mi, m), ident());
}
fn unit_x(v: [X; 3]) -> [X; 3] {
    let n = X::fun("sqrt", &[dot(v, v)]);
    v.map(|a| a / n)
}
/// v turned by the angle around the unit axis
fn rodrigues(u: [X; 3], angle: X, v: [X; 3]) -> [X; 3] {
    let (s, co) = (X::fun("sin", &[angle]), X::fun("cos", &[angle]));
    let w = cross(u, v);
    let d = dot(u, v);
    std::array::from_fn(|i| v[i] * co + w[i] * s + u[i] * d * (k(1.0) - co))
}
fn rotation(c: &mut Ctx, t: &Transform<R>, axis: [X; 3], angle: X) {
    let v = rv3(c, "v");
    let r = xs::<R, 3, _>(t.map(v));
    ens_eq(c, "Rodrigues", r, rodrigues(axis, angle, xs(v)));
    let back = xs::<R, 3, _>(t.map_inverse(v));
    ens_eq(c, "inverse turns back", back, rodrigues(axis, -angle, xs(v)));
    let p = rp3(c, "v");
    ens_eq(c, "points turn the same way", xs::<R, 3, _>(t.map(p)), r);
    c.ensure("length kept", eq(dot(r, r), dot(xs(v), xs(v))));
    let a: Vector3<R> = rv3(c, "w");
    let q = xs::<R, 3, _>(t.map(a));
    c.ensure("angles kept", eq(dot(r, q), dot(xs(v), xs(a))));
}
/// pos, target, up with up not along target - pos
fn view(c: &mut Ctx) -> (Point3<R>, Point3<R>, Vector3<R>, Transform<R>) {
    let pos = rp3(c, "pos");
    let target = rp3(c, "target");
    let up = rv3(c, "up");
    let d = sub(xs(pos), xs(target));
    let u = xs(up);
    c.require(gt(dot(d, d), 0.0));
    c.require(gt(dot(u, u), 0.0));
    let w = cross(u, d);
    c.require(gt(dot(w, w), 0.0));
    // the same for the normalised vectors the code crosses
    let wn = cross(unit_x(u), unit_x(d));
    c.lemma("normalised up and view direction", eq(dot(wn, wn), dot(w, w) / (dot(u, u) * dot(d, d))));
    c.lemma("quotient of positives", gt(dot(w, w) / (dot(u, u) * dot(d, d)), 0.0));
    c.lemma("normalised up is not along the view direction", gt(dot(wn, wn), 0.0));
    let t = Transform::look_at(pos, target, up);
    (pos, target, up, t)
}
fn perspective(c: &mut Ctx) -> (X, X, X, Transform<R>) {
    let (fov, near, far) = (c.r("fov"), c.r("near"), c.r("far"));
    c.require(gt(fov, 0.0));
    c.require(lt(fov, X::pi()));
    c.require(gt(near, 0.0));
    c.require(lt(near, far));
    let tn = X::fun("tan", &[x(fov) * k(0.5)]);
    c.fact("tan_pos", gt(tn, 0.0));
    let t = Transform::perspective(fov, near, far);
    (x(near), x(far), tn, t)
}

contracts! {
    tr_identity [C09 Exact] covers ["Transform::identity", "Transform::{new,matrix,inverse_matrix,inverse}"] |c| {
        let t = Transform::<R>::identity();
        ens_meq(c, "identity", mx(t.matrix()), ident());
        both_inverse(c, &t);
        let (a, b) = (rm(c, "a"), rm(c, "b"));
        let t = Transform::new(a, b);
        ens_meq(c, "matrix", mx(t.matrix()), mx(a));
        ens_meq(c, "inverse_matrix", mx(t.inverse_matrix()), mx(b));
        let i = t.inverse();
        ens_meq(c, "inverse swaps (m)", mx(i.matrix()), mx(b));
        ens_meq(c, "inverse swaps (minv)", mx(i.inverse_matrix()), mx(a));
    }
    tr_translate [C09 Exact] covers ["Transform::translate"] |c| {
        let v = rv3(c, "v");
        let t = Transform::translate(v);
        both_inverse(c, &t);
        let p = rp3(c, "p");
        ens_eq(c, "adds the vector", xs::<R, 3, _>(t.map(p)), add(xs(p), xs(v)));
        let d = rv3(c, "d");
        ens_eq(c, "keeps vectors", xs::<R, 3, _>(t.map(d)), xs(d));
    }
    tr_scale [C09 Exact] covers ["Transform::scale"] |c| {
        let v = rv3(c, "v");
        for i in 0..3 {
            c.require(ne(v[i], 0.0));
        }
        let t = Transform::scale(v);
        both_inverse(c, &t);
        let p = rp3(c, "p");
        let (px, vx) = (xs(p), xs(v));
        ens_eq(c, "scales", xs::<R, 3, _>(t.map(p)), std::array::from_fn(|i| px[i] * vx[i]));
    }
    tr_rotate_xyz [C09 Exact] covers ["Transform::{rotate_x,rotate_y,rotate_z}"] |c| {
        let a = c.r("angle");
        both_inverse(c, &Transform::rotate_x(a));
        both_inverse(c, &Transform::rotate_y(a));
        both_inverse(c, &Transform::rotate_z(a));
    }
    tr_rotate [C09 Exact] covers ["Transform::rotate"] |c| {
        let a = c.r("angle");
        let v = rv3(c, "axis");
        c.require(gt(dot(xs(v), xs(v)), 0.0));
        both_inverse(c, &Transform::rotate(v, a));
    }
    tr_look_at [C09 Exact] covers ["Transform::look_at", "Transform::init_from_orthogonal_basis"] |c| {
        let (_, _, _, t) = view(c);
        both_inverse(c, &t);
    }
    tr_perspective [C09 Exact] covers ["Transform::perspective"] |c| {
        let (_, _, _, t) = perspective(c);
        both_inverse(c, &t);
    }
    tr_product [C09 Exact] covers ["Transform * Transform"] |c| {
        let a = rtransform(c, "a");
        let b = rtransform(c, "b");
        let t = a * b;
        let (am, ai, bm, bi) = (mx(a.matrix()), mx(a.inverse_matrix()), mx(b.matrix()), mx(b.inverse_matrix()));
        let (m, mi) = (mx(t.matrix()), mx(t.inverse_matrix()));
        ens_meq(c, "product", m, mmul(am, bm));
        let (p, q) = (mmul(m, mi), mmul(mi, m));
        for i in 0..4 {
            for j in 0..4 {
                let one = k(if i == j { 1.0 } else { 0.0 });
                let mut h = using(bm, bi, |r, s| am[i][r] * ai[s][j]);
                h.push((k(1.0), mmul(am, ai)[i][j], one));
                c.ensure_by(&format!("m * minv [{}][{}]", i, j), p[i][j], one, &h);
                let mut h = using(ai, am, |r, s| bi[i][r] * bm[s][j]);
                h.push((k(1.0), mmul(bi, bm)[i][j], one));
                c.ensure_by(&format!("minv * m [{}][{}]", i, j), q[i][j], one, &h);
            }
        }
    }

    // ------------------------------------------------------------------ C10
    map_point_projective [C10 Exact] covers ["Transform::map(Point3)", "Transform::map_inverse(Point3)"] |c| {
        let t = rtransform(c, "m");
        let p = rp3(c, "p");
        let (m, mi, px) = (mx(t.matrix()), mx(t.inverse_matrix()), xs(p));
        let h = mapply(m, px, 1.0);
        c.require(ne(h[3], 0.0));
        let q: Point3<R> = t.map(p);
        let qx = xs(q);
        for i in 0..3 {
            c.ensure(&format!("homogeneous coordinate {}", i), eq(qx[i] * h[3], h[i]));
        }
        // the point maps back
        let b = mapply(mi, std::array::from_fn(|i| h[i] / h[3]), 1.0);
        let ph = [px[0], px[1], px[2], k(1.0)];
        let row = |i: usize| -> Vec<(X, X, X)> {
            (0..4).map(|j| (ph[j], mmul(mi, m)[i][j], k(if i == j { 1.0 } else { 0.0 }))).collect()
        };
        c.lemma_by("w of the way back", b[3] * h[3], k(1.0), &row(3));
        c.lemma("w of the way back is not zero", ne(b[3], 0.0));
        let r: Point3<R> = t.map_inverse(q);
        let rx = xs(r);
        for i in 0..3 {
            c.lemma_by("coordinates of the way back", b[i] * h[3], px[i], &row(i));
            c.ensure(&format!("maps back {}", i), eq(rx[i], px[i]));
        }
    }
    map_point_composed [C10 Exact] covers ["Transform * Transform", "Transform::map(Point3)"] |c| {
        let a = Transform::new(rm(c, "a"), rm(c, "ai"));
        let b = Transform::new(rm(c, "b"), rm(c, "bi"));
        let p = rp3(c, "p");
        let (am, bm) = (mx(a.matrix()), mx(b.matrix()));
        let h = mapply(bm, xs(p), 1.0);
        c.require(ne(h[3], 0.0));
        let q: Point3<R> = b.map(p);
        let g = mapply(am, std::array::from_fn(|i| h[i] / h[3]), 1.0);
        c.require(ne(g[3], 0.0));
        let r: Point3<R> = a.map(q);
        let hh = mapply(mmul(am, bm), xs(p), 1.0);
        c.lemma("w of the product", eq(hh[3], g[3] * h[3]));
        c.lemma("w of the product is not zero", ne(hh[3], 0.0));
        let s: Point3<R> = (a * b).map(p);
        ens_eq(c, "(a b) p = a (b p)", xs(s), xs(r));
    }
    map_affine_points [C10 Exact] covers ["Transform::{map,map_inverse}(Point3)"] |c| {
        let t = ratransform(c, "m");
        let p = rp3(c, "p");
        let (m, mi, px) = (mx(t.matrix()), mx(t.inverse_matrix()), xs(p));
        let q: Point3<R> = t.map(p);
        let r: Point3<R> = t.map_inverse(p);
        for i in 0..3 {
            c.ensure(&format!("map {}", i), eq(q[i], mapply(m, px, 1.0)[i]));
            c.ensure(&format!("map_inverse {}", i), eq(r[i], mapply(mi, px, 1.0)[i]));
        }
        let ph = [px[0], px[1], px[2], k(1.0)];
        let back: Point3<R> = t.map_inverse(q);
        let forth: Point3<R> = t.map(r);
        for i in 0..3 {
            let row = |a: M4, b: M4| -> Vec<(X, X, X)> {
                (0..4).map(|j| (ph[j], mmul(a, b)[i][j], k(if i == j { 1.0 } else { 0.0 }))).collect()
            };
            c.ensure_by(&format!("map_inverse(map(p)) {}", i), x(back[i]), px[i], &row(mi, m));
            c.ensure_by(&format!("map(map_inverse(p)) {}", i), x(forth[i]), px[i], &row(m, mi));
        }
        let o: Point3<R> = t.inverse().map(p);
        ens_eq(c, "inverse().map = map_inverse", xs(o), xs(r));
    }
    map_vectors [C10 Exact] covers ["Transform::{map,map_inverse}(Vector3)"] |c| {
        let t = ratransform(c, "m");
        let p = rv3(c, "v");
        let (m, mi, px) = (mx(t.matrix()), mx(t.inverse_matrix()), xs(p));
        let q: Vector3<R> = t.map(p);
        let r: Vector3<R> = t.map_inverse(p);
        for i in 0..3 {
            c.ensure(&format!("map {}", i), eq(q[i], mapply(m, px, 0.0)[i]));
            c.ensure(&format!("map_inverse {}", i), eq(r[i], mapply(mi, px, 0.0)[i]));
        }
        let back: Vector3<R> = t.map_inverse(q);
        let forth: Vector3<R> = t.map(r);
        for i in 0..3 {
            let row = |a: M4, b: M4| -> Vec<(X, X, X)> {
                (0..3).map(|j| (px[j], mmul(a, b)[i][j], k(if i == j { 1.0 } else { 0.0 }))).collect()
            };
            c.ensure_by(&format!("map_inverse(map(v)) {}", i), x(back[i]), px[i], &row(mi, m));
            c.ensure_by(&format!("map(map_inverse(v)) {}", i), x(forth[i]), px[i], &row(m, mi));
        }
        // vectors are differences of points
        let (a, b) = (rp3(c, "a"), rp3(c, "b"));
        let d: Vector3<R> = t.map(a - b);
        let (ta, tb): (Point3<R>, Point3<R>) = (t.map(a), t.map(b));
        ens_eq(c, "map(a - b) = map(a) - map(b)", xs(d), sub(xs(ta), xs(tb)));
        let o: Vector3<R> = t.inverse().map(p);
        ens_eq(c, "inverse().map = map_inverse", xs(o), xs(r));
    }
    map_vector_projective [C10 Exact] covers ["Transform::{map,map_inverse}(Vector3)"] |c| {
        // a projective transform takes a vector to a vector where it keeps it at infinity
        let (a, b) = (rm(c, "a"), rm(c, "b"));
        let t = Transform::new(a, b);
        let p = rv3(c, "v");
        let px = xs(p);
        for (inverse, m) in [(false, a), (true, b)] {
            let h = mapply(mx(m), px, 0.0);
            #[cfg(not(scarlet_verif))]
            c.require(truth(p[0] * m[3][0] + p[1] * m[3][1] + p[2] * m[3][2] == 0.0));
            c.require(eq(h[3], 0.0));
            let q: Vector3<R> = if inverse { t.map_inverse(p) } else { t.map(p) };
            ens_eq(c, if inverse { "map_inverse" } else { "map" }, xs(q), [h[0], h[1], h[2]]);
        }
    }
    map_normals [C10 Exact] covers ["Transform::{map,map_inverse}(Normal3)"] |c| {
        let t = ratransform(c, "m");
        let n = rn3(c, "n");
        let v = rv3(c, "v");
        let (m, mi, nx, vx) = (mx(t.matrix()), mx(t.inverse_matrix()), xs(n), xs(v));
        let (tn, tv): (Normal3<R>, Vector3<R>) = (t.map(n), t.map(v));
        c.ensure_by("mapped normal . mapped vector = normal . vector", dot(xs(tn), xs(tv)), dot(nx, vx),
            &using(mi, m, |i, j| if i < 3 && j < 3 { nx[i] * vx[j] } else { zero() }));
        let (un, uv): (Normal3<R>, Vector3<R>) = (t.map_inverse(n), t.map_inverse(v));
        c.ensure_by("the same backwards", dot(xs(un), xs(uv)), dot(nx, vx),
            &using(m, mi, |i, j| if i < 3 && j < 3 { nx[i] * vx[j] } else { zero() }));
        let back: Normal3<R> = t.map_inverse(tn);
        for i in 0..3 {
            let h: Vec<(X, X, X)> = (0..3).map(|j| (nx[j], mmul(mi, m)[j][i], k(if i == j { 1.0 } else { 0.0 }))).collect();
            c.ensure_by(&format!("map_inverse(map(n)) {}", i), x(back[i]), nx[i], &h);
        }
        let o: Normal3<R> = t.inverse().map(n);
        ens_eq(c, "inverse().map = map_inverse", xs(o), xs(un));
    }
    map_composed [C10 Exact] covers ["Transform * Transform", "Transform::map(Vector3)", "Transform::map(Normal3)"] |c| {
        let a = ratransform(c, "a");
        let b = ratransform(c, "b");
        let t = a * b;
        let v = rv3(c, "v");
        let (p, q): (Vector3<R>, Vector3<R>) = (t.map(v), a.map(b.map::<_, Vector3<R>>(v)));
        ens_eq(c, "vectors", xs(p), xs(q));
        let n = rn3(c, "n");
        let (p, q): (Normal3<R>, Normal3<R>) = (t.map(n), a.map(b.map::<_, Normal3<R>>(n)));
        ens_eq(c, "normals", xs(p), xs(q));
        let o = rp3(c, "o");
        let (p, q): (Point3<R>, Point3<R>) = (t.map(o), a.map(b.map::<_, Point3<R>>(o)));
        ens_eq(c, "points", xs(p), xs(q));
        let (p, q): (Point3<R>, Point3<R>) = (t.map_inverse(o), b.map_inverse(a.map_inverse::<_, Point3<R>>(o)));
        ens_eq(c, "points backwards", xs(p), xs(q));
    }
    map_rays [C10 Exact] covers ["Transform::{map,map_inverse}(Ray)", "Ray::{new,eval}"] |c| {
        let t = ratransform(c, "m");
        let (o, d, tm, s) = (rp3(c, "o"), rv3(c, "d"), c.r("tmax"), c.r("s"));
        let ray = Ray::new(o, d, tm);
        let e = xs(ray.eval(s));
        ens_eq(c, "eval", e, add(xs(o), scale(xs(d), x(s))));
        for inverse in [false, true] {
            let r: Ray<R> = if inverse { t.map_inverse(ray) } else { t.map(ray) };
            let q: Point3<R> = if inverse { t.map_inverse(ray.eval(s)) } else { t.map(ray.eval(s)) };
            let (p0, v0): (Point3<R>, Vector3<R>) = if inverse { (t.map_inverse(o), t.map_inverse(d)) } else { (t.map(o), t.map(d)) };
            c.ensure("tmax kept", eq(r.tmax, tm));
            ens_eq(c, "origin", xs(r.origin), xs(p0));
            ens_eq(c, "direction", xs(r.direction), xs(v0));
            ens_eq(c, "mapped ray at s = mapped point at s", xs(r.eval(s)), xs(q));
        }
        let i: Ray<R> = t.inverse().map(ray);
        let j: Ray<R> = t.map_inverse(ray);
        ens_eq(c, "inverse().map = map_inverse (origin)", xs(i.origin), xs(j.origin));
        ens_eq(c, "inverse().map = map_inverse (direction)", xs(i.direction), xs(j.direction));
        c.ensure("inverse().map = map_inverse (tmax)", eq(i.tmax, j.tmax));
    }

    // ------------------------------------------------------------------ C11
    rot_x [C11 Exact] covers ["Transform::rotate_x"] |c| {
        let a = c.r("angle");
        rotation(c, &Transform::rotate_x(a), [k(1.0), k(0.0), k(0.0)], x(a));
    }
    rot_y [C11 Exact] covers ["Transform::rotate_y"] |c| {
        let a = c.r("angle");
        rotation(c, &Transform::rotate_y(a), [k(0.0), k(1.0), k(0.0)], x(a));
    }
    rot_z [C11 Exact] covers ["Transform::rotate_z"] |c| {
        let a = c.r("angle");
        rotation(c, &Transform::rotate_z(a), [k(0.0), k(0.0), k(1.0)], x(a));
    }
    rot_axis [C11 Exact] covers ["Transform::rotate"] |c| {
        let a = c.r("angle");
        let v = rv3(c, "axis");
        c.require(gt(dot(xs(v), xs(v)), 0.0));
        let t = Transform::rotate(v, a);
        ens_eq(c, "the axis stays", xs::<R, 3, _>(t.map(v)), xs(v));
        rotation(c, &t, unit_x(xs(v)), x(a));
    }

    // ------------------------------------------------------------------ C12
    look_at_view [C12 Exact] covers ["Transform::look_at", "Transform::init_from_orthogonal_basis"] |c| {
        let (pos, target, up, t) = view(c);
        let d = sub(xs(pos), xs(target));
        let dist = X::fun("sqrt", &[dot(d, d)]);
        ens_eq(c, "pos goes to the origin", xs::<R, 3, _>(t.map(pos)), [zero(); 3]);
        ens_eq(c, "target lies ahead on -z", xs::<R, 3, _>(t.map(target)), [zero(), zero(), -dist]);
        let u = xs::<R, 3, _>(t.map(up));
        c.ensure("up has no x component", eq(u[0], 0.0));
        let ux = xs(up);
        let wn = cross(unit_x(ux), unit_x(d));
        let height = X::fun("sqrt", &[dot(wn, wn)]) * X::fun("sqrt", &[dot(ux, ux)]);
        c.lemma("height of up", eq(u[1], height));
        c.lemma("height is positive", gt(height, 0.0));
        c.ensure("up points up", gt(u[1], 0.0));
        // a rigid motion that keeps orientation
        let m = mx(t.matrix());
        let r = [[m[0][0], m[0][1], m[0][2]], [m[1][0], m[1][1], m[1][2]], [m[2][0], m[2][1], m[2][2]]];
        for i in 0..3 {
            for j in 0..3 {
                c.ensure(&format!("rows {} {} orthonormal", i, j), eq(dot(r[i], r[j]), if i == j { 1.0 } else { 0.0 }));
            }
        }
        ens_eq(c, "right handed", cross(r[0], r[1]), r[2]);
        ens_eq(c, "last row", m[3], ident()[3]);
    }
    perspective_frustum [C12 Exact] covers ["Transform::perspective"] |c| {
        let (near, far, tn, t) = perspective(c);
        let p = rp3(c, "p");
        let px = xs(p);
        c.require(le(-far, px[2]));
        c.require(le(px[2], -near));
        let q = xs::<R, 3, _>(t.map(p));
        // x, y are divided by the half width of the frustum at that depth
        c.ensure("x", eq(q[0] * (-px[2] * tn), px[0]));
        c.ensure("y", eq(q[1] * (-px[2] * tn), px[1]));
        c.ensure("z", eq(q[2] * px[2] * (far - near), far * (px[2] + near)));
        c.ensure("depth >= 0", ge(q[2], 0.0));
        c.ensure("depth <= 1", le(q[2], 1.0));
        c.ensure("near plane", eq(px[2], -near).implies(eq(q[2], 0.0)));
        c.ensure("far plane", eq(px[2], -far).implies(eq(q[2], 1.0)));
    }
}
