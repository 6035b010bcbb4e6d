//! C17, C18: spheres.
use super::util::*;
use crate::contracts;
use crate::ctx::*;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay};
use scarlet::geometry::ray::Rayf;
use scarlet::geometry::sphere::Sphere;

fn sphere(c: &mut Ctx) -> Sphere {
    let r = c.f_ge("radius", 0.2);
    let lo = c.f("z_min");
    let hi = c.f_ge("z_max", lo);
    let ph = c.f_in("phi_max", -3.0, 3.14159);
    c.require(gt(r, 0.0));
    c.require(lt(lo, hi));
    c.require(lt(-X::pi(), ph));
    c.require(le(ph, X::pi()));
    // some of the sphere lies between z_min and z_max
    c.require(lt(lo, r));
    c.require(lt(-x(r), hi));
    c.lemma("phi range is not empty", gt(x(ph) + X::pi(), 0.0));
    let (a, b) = (clip(x(lo) / x(r)), clip(x(hi) / x(r)));
    c.lemma("clipped z range is not empty", lt(a, b));
    c.fact("acos_decreasing", lt(X::fun("acos", &[b]), X::fun("acos", &[a])));
    c.lemma("theta range is not empty", lt(X::fun("acos", &[b]) - X::fun("acos", &[a]), 0.0));
    Sphere::new(r, lo, hi, ph)
}
fn clip(a: X) -> X {
    a.max(k(-1.0)).min(k(1.0))
}

/// coefficients of |o + t d|^2 - r^2 = a t^2 + b t + c
fn quadratic(s: &Sphere, r: &Rayf) -> (X, X, X) {
    let (o, d, ra) = (xs(r.origin), xs(r.direction), x(s.radius));
    (dot(d, d), k(2.0) * dot(o, d), dot(o, o) - ra * ra)
}
/// the piece of the sphere that exists
fn on_piece(s: &Sphere, p: [X; 3]) -> B {
    all(&[
        le(s.z_min, p[2]),
        le(p[2], s.z_max),
        le(X::fun("atan2", &[p[1], p[0]]), s.phi_max),
    ])
}
fn valid(s: &Sphere, r: &Rayf, t: X) -> B {
    all(&[le(0.0, t), le(t, r.tmax), on_piece(s, at(r, t))])
}

/// the roots t- <= t+, with the facts about them the code depends on
fn roots(c: &mut Ctx, s: &Sphere, r: &Rayf) -> Option<(X, X)> {
    let (a, b, cc) = quadratic(s, r);
    c.require(gt(a, 0.0));
    let disc = b * b - a * cc * k(4.0);
    if c.split(lt(disc, 0.0)) {
        return None;
    }
    c.name(a);
    c.name(b);
    c.name(cc);
    c.name(disc);
    let sq = X::fun("sqrt", &[disc]);
    let (tm, tp) = ((-b - sq) / (k(2.0) * a), (-b + sq) / (k(2.0) * a));
    c.lemma("roots are ordered", le(tm, tp));
    c.name(tm);
    c.name(tp);
    // the quotients without cancellation have the same values
    if c.split(ge(b, 0.0)) {
        let den = b + sq;
        if c.split(gt(den, 0.0)) {
            c.alias("second root without cancellation", -(cc + cc) / den, tp);
        }
    } else {
        let den = -b + sq;
        c.lemma("denominator", gt(den, 0.0));
        c.alias("first root without cancellation", (cc + cc) / den, tm);
    }
    for t in [tm, tp] {
        for e in at(r, t) {
            c.name(e);
        }
    }
    Some((tm, tp))
}

/// what the hit record is built from at an off-axis point p of the sphere
fn surface(c: &mut Ctx, p: [X; 3], ra: X, phr: X, thr: X) {
    let rho2 = p[0] * p[0] + p[1] * p[1];
    let rho = X::fun("sqrt", &[rho2]);
    let phi = X::fun("atan2", &[p[1], p[0]]);
    let theta = X::fun("acos", &[p[2] / ra]);
    c.lemma("distance from the axis", gt(rho, 0.0));
    c.alias("cos phi", X::fun("cos", &[phi]), p[0] / rho);
    c.alias("sin phi", X::fun("sin", &[phi]), p[1] / rho);
    c.alias("sin theta", X::fun("sin", &[theta]), rho / ra);
    // dp/du x dp/dv = g p
    let g = -rho * phr * thr;
    c.lemma("g > 0", gt(g, 0.0));
    let du = [-p[1] * phr, p[0] * phr, zero()];
    let dv = [p[2] * p[0] / rho * thr, p[2] * p[1] / rho * thr, -rho * thr];
    let n = cross(du, dv);
    for i in 0..3 {
        c.alias("dp/du x dp/dv", n[i], g * p[i]);
    }
    let gp = p.map(|a| g * a);
    c.alias("|dp/du x dp/dv|^2", dot(gp, gp), g * g * (ra * ra));
    c.alias("|dp/du x dp/dv|", X::fun("sqrt", &[g * g * (ra * ra)]), g * ra);
    c.lemma("|dp/du x dp/dv| > 0", gt(g * ra, 0.0));
}

contracts! {
    sphere_roots [C17 Exact] covers ["f32: (specification lemma)"] |c| {
        // a parameter is on the sphere only if it is one of the two roots
        let (a, b, cc, s) = (c.ghost("a"), c.ghost("b"), c.ghost("c"), c.ghost("s"));
        c.require(gt(a, 0.0));
        let disc = b * b - a * cc * k(4.0);
        let q = a * s * s + b * s + cc;
        c.lemma("complete the square", eq(k(4.0) * a * q, (k(2.0) * a * s + b).sq() - disc));
        if c.split(lt(disc, 0.0)) {
            c.ensure("no root", ne(q, 0.0));
        } else {
            let sq = X::fun("sqrt", &[disc]);
            let (tm, tp) = ((-b - sq) / (k(2.0) * a), (-b + sq) / (k(2.0) * a));
            c.lemma("factors", eq(q, a * (s - tm) * (s - tp)));
            c.ensure("a root is one of the two", eq(q, 0.0).implies(eq(s, tm).or(eq(s, tp))));
            c.ensure("t- is a root", eq(a * tm * tm + b * tm + cc, 0.0));
            c.ensure("t+ is a root", eq(a * tp * tp + b * tp + cc, 0.0));
        }
    }
    sphere_nearest [C17 Exact] covers ["f32: Sphere::intersect", "Sphere::intersect_ray", "solve_quadratic"] |c| {
        let s = sphere(c);
        let r = fray(c, "r");
        let rt = roots(c, &s, &r);
        let h = s.intersect(r);
        match rt {
            None => c.ensure("the line misses the sphere", B::c(h.is_none())),
            Some((tm, tp)) => match h {
                None => {
                    c.ensure("no valid point at the first root", valid(&s, &r, tm).not());
                    c.ensure("no valid point at the second root", valid(&s, &r, tp).not());
                }
                Some(h) => {
                    let t = x(h.t_ray);
                    c.ensure("hit at a root", eq(t, tm).or(eq(t, tp)));
                    c.ensure("hit is valid", valid(&s, &r, t));
                    c.ensure("no nearer valid point (first root)", valid(&s, &r, tm).implies(le(t, tm)));
                    c.ensure("no nearer valid point (second root)", valid(&s, &r, tp).implies(le(t, tp)));
                    let p = xs(h.surface_interaction.p);
                    ens_eq(c, "hit point", p, at(&r, t));
                }
            },
        }
    }
    sphere_agree [C17 Exact] covers ["f32: Sphere::do_intersect"] |c| {
        let s = sphere(c);
        let r = fray(c, "r");
        let _ = roots(c, &s, &r);
        let h = s.intersect(r);
        c.ensure("do_intersect iff intersect finds a hit", B::c(s.do_intersect(r) == h.is_some()));
    }

    // ------------------------------------------------------------------ C18
    sphere_new [C18 Exact] covers ["f32: Sphere::new"] |c| {
        let (r, lo, hi, ph) = (c.f("radius"), c.f("z_min"), c.f("z_max"), c.f("phi_max"));
        c.require(gt(r, 0.0));
        c.require(lt(lo, hi));
        let s = Sphere::new(r, lo, hi, ph);
        c.ensure("radius", eq(s.radius, r));
        c.ensure("z_min", eq(s.z_min, lo));
        c.ensure("z_max", eq(s.z_max, hi));
        c.ensure("phi_max", eq(s.phi_max, ph));
        c.ensure("theta_min", eq(s.theta_min, X::fun("acos", &[clip(x(lo) / x(r))])));
        c.ensure("theta_max", eq(s.theta_max, X::fun("acos", &[clip(x(hi) / x(r))])));
    }
    sphere_bbox [C18 Exact] covers ["f32: Sphere::bbox"] |c| {
        let s = sphere(c);
        let b = s.bbox();
        let p: [X; 3] = std::array::from_fn(|i| c.ghost(["px", "py", "pz"][i]));
        let r = x(s.radius);
        let on = all(&[eq(dot(p, p), r * r), le(s.z_min, p[2]), le(p[2], s.z_max)]);
        for i in 0..3 {
            c.ensure(&format!("the sphere's points are in the box (below, {})", i), on.implies(le(b.pmin[i], p[i])));
            c.ensure(&format!("the sphere's points are in the box (above, {})", i), on.implies(le(p[i], b.pmax[i])));
        }
        for i in 0..2 {
            c.ensure(&format!("the box is no larger than the sphere {}", i), le(-r, b.pmin[i]).and(le(b.pmax[i], r)));
        }
        c.ensure("the box is no higher than the piece", le(s.z_min, b.pmin[2]).and(le(b.pmax[2], s.z_max)));
    }
    sphere_area [C18 Exact] covers ["f32: Sphere::area"] |c| {
        let s = sphere(c);
        let r = x(s.radius);
        c.require(le(-r, s.z_min));
        c.require(le(s.z_max, r));
        c.ensure("area of the piece", eq(s.area(), (x(s.phi_max) + X::pi()) * r * (x(s.z_max) - s.z_min)));
    }
    sphere_record [C18 Exact] covers ["f32: Sphere::intersect", "SurfaceInteraction::new"] |c| {
        let s = sphere(c);
        let r = fray(c, "r");
        let Some((tm, tp)) = roots(c, &s, &r) else { return };
        let ra = x(s.radius);
        let (phr, thr) = (x(s.phi_max) + X::pi(), x(s.theta_max) - s.theta_min);
        let pts: [[X; 3]; 2] = std::array::from_fn(|j| {
            let v = at(&r, [tm, tp][j]);
            let p: [X; 3] = std::array::from_fn(|i| c.opaque(["px", "py", "pz", "qx", "qy", "qz"][3 * j + i], v[i]));
            c.transfer("a root is on the sphere", &v, &p, |p| eq(p[0] * p[0] + p[1] * p[1] + p[2] * p[2], ra * ra));
            p
        });
        let mut off_axis = [false; 2];
        for j in 0..2 {
            let p = pts[j];
            c.lemma("z is within the radius (below)", le(-ra, p[2]));
            c.lemma("z is within the radius (above)", le(p[2], ra));
            c.lemma("cosine of theta (below)", le(-1.0, p[2] / ra));
            c.lemma("cosine of theta (above)", le(p[2] / ra, 1.0));
            off_axis[j] = c.split(gt(p[0] * p[0] + p[1] * p[1], 0.0));
            if off_axis[j] {
                surface(c, p, ra, phr, thr);
            }
        }
        let Some(h) = s.intersect(r) else { return };
        let j = c.closest(x(h.t_ray), &[tm, tp]);
        c.ensure("hit at a root", eq(h.t_ray, [tm, tp][j]));
        let p = pts[j];
        let si = h.surface_interaction;
        let (u, v) = (x(si.uv.x()), x(si.uv.y()));
        let phi = X::fun("atan2", &[p[1], p[0]]);
        let theta = X::fun("acos", &[p[2] / ra]);
        c.ensure("u", eq(u * phr, phi + X::pi()));
        c.ensure("v", eq(v * thr, theta - s.theta_min));
        c.fact("atan2_range", lt(-X::pi(), phi).or(eq(phi, -X::pi())));
        c.ensure("0 <= u", le(0.0, u));
        c.ensure("u <= 1", le(u, 1.0));
        c.ensure("0 <= v", le(0.0, v));
        c.ensure("v <= 1", le(v, 1.0));
        ens_eq(c, "point", xs(si.p), p);
        ens_eq(c, "dp/du", xs(si.dpdu), [-p[1] * phr, p[0] * phr, zero()]);
        if off_axis[j] {
            let rho = X::fun("sqrt", &[p[0] * p[0] + p[1] * p[1]]);
            ens_eq(c, "dp/dv", xs(si.dpdv), [p[2] * p[0] / rho * thr, p[2] * p[1] / rho * thr, -rho * thr]);
            ens_eq(c, "outward unit normal", xs(si.n), p.map(|a| a / ra));
        }
    }
    sphere_parametrization [C18 Exact] covers ["f32: (specification lemma)"] |c| {
        // the derivatives above are those of r (sin theta cos phi, sin theta sin phi, cos theta)
        let p: [X; 3] = std::array::from_fn(|i| c.ghost(["px", "py", "pz"][i]));
        let ra = c.ghost("r");
        c.require(gt(ra, 0.0));
        c.require(gt(p[0] * p[0] + p[1] * p[1], 0.0));
        c.require(eq(dot(p, p), ra * ra));
        let rho = X::fun("sqrt", &[p[0] * p[0] + p[1] * p[1]]);
        let phi = X::fun("atan2", &[p[1], p[0]]);
        let theta = X::fun("acos", &[p[2] / ra]);
        let (sp, cp) = (X::fun("sin", &[phi]), X::fun("cos", &[phi]));
        let (st, ct) = (X::fun("sin", &[theta]), X::fun("cos", &[theta]));
        c.lemma("z", le(-ra, p[2]).and(le(p[2], ra)));
        c.lemma("z/r", le(-1.0, p[2] / ra).and(le(p[2] / ra, 1.0)));
        c.lemma("cos theta", eq(ct, p[2] / ra));
        c.lemma("sin theta", eq(st * ra, rho));
        ens_eq(c, "p", p, [ra * st * cp, ra * st * sp, ra * ct]);
        ens_eq(c, "dp/dphi", [-p[1], p[0], zero()], [-ra * st * sp, ra * st * cp, zero()]);
        ens_eq(c, "dp/dtheta", [p[2] * p[0] / rho, p[2] * p[1] / rho, -rho], [ra * ct * cp, ra * ct * sp, -ra * st]);
    }
}
