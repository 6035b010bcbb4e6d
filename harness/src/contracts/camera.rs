//! C21, C22: disk sampling and the thin-lens camera.
use super::util::*;
use crate::contracts;
use crate::ctx::*;
use scarlet::cameras::camera::*;
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::math::scalar::{Float, Scalar};
use scarlet::math::vector::*;

/// a point of the unit square
fn square(c: &mut Ctx, n: &str) -> Point2f {
    let p: Point2f = Point2f::from(std::array::from_fn(|i| c.f_in(&format!("{}_{}", n, AX[i]), 0.0, 1.0)));
    for i in 0..2 {
        c.require(le(0.0, p[i]));
        c.require(le(p[i], 1.0));
    }
    p
}
fn cos(a: X) -> X {
    X::fun("cos", &[a])
}
fn sin(a: X) -> X {
    X::fun("sin", &[a])
}
/// where the concentric map sends p: squares around the centre go to circles
/// around the origin, the four triangles to the four quarter sectors
fn concentric(c: &mut Ctx, p: Point2f) -> [X; 2] {
    let (a, b) = (k(1.0) - k(2.0) * x(p[0]), k(1.0) - k(2.0) * x(p[1]));
    let q = X::pi() / k(4.0);
    if c.split(eq(a, 0.0).and(eq(b, 0.0))) {
        [zero(), zero()]
    } else if c.split(gt(a.abs(), b.abs())) {
        c.lemma("a is not 0", ne(a, 0.0));
        [a * cos(q * b / a), a * sin(q * b / a)]
    } else {
        c.lemma("b is not 0", ne(b, 0.0));
        [b * sin(q * a / b), b * cos(q * a / b)]
    }
}

contracts! {
    uniform_disk [C21 Exact] covers ["f32: uniform_sample_disk"] |c| {
        let p = square(c, "p");
        let o = xs(uniform_sample_disk(p));
        let (r, th) = (X::fun("sqrt", &[x(p[1])]), k(2.0) * X::pi() * x(p[0]));
        c.ensure("x", eq(o[0], r * cos(th)));
        c.ensure("y", eq(o[1], r * sin(th)));
        c.ensure("squared distance from the centre is p.y", eq(dot(o, o), p[1]));
        c.ensure("in the unit disk", le(dot(o, o), 1.0));
    }
    concentric_disk [C21 Exact] covers ["f32: concentric_sample_disk"] |c| {
        let p = square(c, "p");
        let (a, b) = (k(1.0) - k(2.0) * x(p[0]), k(1.0) - k(2.0) * x(p[1]));
        let want = concentric(c, p);
        let o = xs(concentric_sample_disk(p));
        c.ensure("x", eq(o[0], want[0]));
        c.ensure("y", eq(o[1], want[1]));
        if c.split(gt(a.abs(), b.abs())) {
            c.ensure("the square of half side |a| goes to the circle of radius |a|", eq(dot(o, o), a * a));
            c.lemma("half side at most 1", le(a * a, 1.0));
        } else {
            c.ensure("the square of half side |b| goes to the circle of radius |b|", eq(dot(o, o), b * b));
            c.lemma("half side at most 1", le(b * b, 1.0));
        }
        c.ensure("in the unit disk", le(dot(o, o), 1.0));
    }
    lens_ray [C22 Exact] covers ["f32: ThinLensCamera::new", "ThinLensCamera::generate_ray", "CameraSample::new", "concentric_sample_disk"] |c| {
        let view = fatransform(c, "v");
        let (m, mi) = (mx(view.matrix()), mx(view.inverse_matrix()));
        let fl = c.f_ge("focal_length", 0.1);
        c.require(gt(fl, 0.0));
        let focal = c.f_ge("focal_distance", fl);
        c.require(gt(focal, fl));
        let fov = c.f_in("fov", 0.1, 3.0);
        c.require(gt(fov, 0.0));
        c.require(lt(fov, X::pi()));
        let radius = c.f_ge("lens_radius", 0.0);
        c.require(ge(radius, 0.0));
        let aspect = c.f_ge("aspect", 0.1);
        c.require(gt(aspect, 0.0));
        #[cfg(not(scarlet_verif))]
        c.require(gt(fl, 0.01).and(gt(aspect, 0.1)).and(lt(fov, 3.0)).and(gt(x(focal) - fl, 0.05)));
        let film = square(c, "film");
        let lens = square(c, "lens");
        let disk = concentric(c, lens);
        // the lens point and the point in focus seen at this film position, in view space
        let l = [c.opaque("lens_x", disk[0] * x(radius)), c.opaque("lens_y", disk[1] * x(radius)), zero()];
        let w = k(2.0) * X::fun("tan", &[x(fov) / k(2.0)]) * x(focal);
        let fx = c.opaque("focus_x", (x(film[0]) - k(0.5)) * w);
        let fy = c.opaque("focus_y", (x(film[1]) - k(0.5)) * w / x(aspect));
        let f = [fx, fy, -x(focal)];
        c.name(f[2]);
        let fd = sub(f, l);
        for i in 0..3 {
            c.name(fd[i]);
        }
        c.lemma("the focus point is off the lens", gt(fd[2] * fd[2], 0.0));
        c.lemma("distance to the focus point", gt(dot(fd, fd), 0.0));
        let len = X::fun("sqrt", &[dot(fd, fd)]);
        c.lemma("distance is positive", gt(len, 0.0));
        let r = ThinLensCamera::new(view, focal, fov, fl, radius, aspect).generate_ray(CameraSample::new(film, lens));
        let (o, d) = (xs(r.origin), xs(r.direction));
        let vo = mapply(m, o, 1.0);
        let vd = mapply(m, d, 0.0);
        let id = |i: usize, j: usize| k(if i == j { 1.0 } else { 0.0 });
        let p = mmul(m, mi);
        let lh = [l[0], l[1], l[2], k(1.0)];
        for i in 0..3 {
            let h: Vec<_> = (0..4).map(|j| (lh[j], p[i][j], id(i, j))).collect();
            c.ensure_by(&format!("starts at the lens point ({})", AX[i]), vo[i], l[i], &h);
        }
        let n: [X; 3] = std::array::from_fn(|i| fd[i] / len);
        let mut h3 = vec![];
        for i in 0..3 {
            let h: Vec<_> = (0..3).map(|j| (n[j], p[i][j], id(i, j))).collect();
            c.ensure_by(&format!("aims at the focus point ({})", AX[i]), vd[i], n[i], &h);
            c.lemma_by("direction in view space", vd[i], n[i], &h);
            h3.push((vd[i] + n[i], vd[i], n[i]));
        }
        let v = [vd[0], vd[1], vd[2]];
        c.ensure_by("unit direction in view space", dot(v, v), k(1.0), &h3);
        c.ensure("unbounded ray", eq(r.tmax, Float::highest()));
    }
}
