use super::util::*;
use crate::contracts;
use crate::ctx::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay};
use scarlet::math::transform::*;
use scarlet::math::vector::*;

/// the origin is outside the box, beyond one of the two faces of this axis
fn box_hit(c: &mut Ctx, axis: usize) {
    // (C14 covers directions with -0 components)
    c.positive_zero_only();
    let b = fbox(c, "b");
    let r = fray(c, "r");
    let (lo, hi, o) = (xs(b.pmin), xs(b.pmax), xs(r.origin));
    if c.pick("below", 2) == 1 {
        c.require(lt(o[axis], lo[axis]));
    } else {
        c.require(gt(o[axis], hi[axis]));
    }
    let h = b.intersect_ray(r);
    if let Some((t0, _)) = h {
        for i in 0..3 {
            let e = at(&r, x(t0))[i];
            c.lemma("entry point in the box (below)", le(lo[i], e));
            c.lemma("entry point in the box (above)", le(e, hi[i]));
        }
    }
    let s = IntersectsRay::intersect(&b, r);
    c.ensure("a record iff the ray meets the box", B::c(h.is_some() == s.is_some()));
    if let (Some((t0, t1)), Some(s)) = (h, s) {
        c.ensure("hit at the entry parameter", eq(s.t_ray, t0));
        let si = s.surface_interaction;
        let (p, n, u, v, d) = (xs(si.p), xs(si.n), xs(si.dpdu), xs(si.dpdv), xs(r.direction));
        ens_eq(c, "hit point is on the ray", p, at(&r, x(t0)));
        let faces: Vec<B> = (0..3).flat_map(|i| {
            let e = |sg: f64| -> [X; 3] { std::array::from_fn(|j| k(if i == j { sg } else { 0.0 })) };
            [eq(p[i], lo[i]).and(all_eq(n, e(-1.0))), eq(p[i], hi[i]).and(all_eq(n, e(1.0)))]
        }).collect();
        c.ensure("on a face, with its outward normal", any(&faces));
        c.ensure("the ray enters through that face", lt(t0, t1).implies(le(dot(n, d), 0.0)));
        c.ensure("tangents unit", eq(dot(u, u), 1.0).and(eq(dot(v, v), 1.0)));
        c.ensure("tangents orthogonal", eq(dot(u, v), 0.0));
        c.ensure("tangents in the face", eq(dot(u, n), 0.0).and(eq(dot(v, n), 0.0)));
        // the unfolding drawn in the code: the four sides in a row with v along y and u
        // going round, the top and bottom attached to the front
        for (f, fu, fv) in [
            ([-1.0, 0.0, 0.0], [0.0, 0.0, -1.0], [0.0, 1.0, 0.0]),
            ([1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0]),
            ([0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, -1.0]),
            ([0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]),
            ([0.0, 0.0, -1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]),
            ([0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [0.0, 1.0, 0.0]),
        ] {
            c.ensure("tangents follow the unfolding", all_eq(n, f.map(k)).implies(all_eq(u, fu.map(k)).and(all_eq(v, fv.map(k)))));
        }
    }
}

contracts! {
    box_new [C13 Exact] covers ["f32: Bbox3::new", "Bbox3::inside", "Bounded3::{xmin..zmax}"] |c| {
        let p = fp3(c, "p");
        let q = fp3(c, "q");
        let b = Bbox3::new(p, q);
        for i in 0..3 {
            c.ensure(&format!("pmin[{}] is the smaller", i), eq(b.pmin[i], x(p[i]).min(x(q[i]))));
            c.ensure(&format!("pmax[{}] is the larger", i), eq(b.pmax[i], x(p[i]).max(x(q[i]))));
        }
        c.ensure("contains p", in_box(&b, xs(p)));
        c.ensure("contains q", in_box(&b, xs(q)));
        let acc = [b.xmin(), b.ymin(), b.zmin(), b.xmax(), b.ymax(), b.zmax()];
        for i in 0..3 {
            c.ensure("min accessor", eq(acc[i], b.pmin[i]));
            c.ensure("max accessor", eq(acc[i + 3], b.pmax[i]));
        }
    }
    box_inside [C13 Exact] covers ["f32: Bbox3::inside"] |c| {
        let b = fbox(c, "b");
        let p = fp3(c, "p");
        let r = b.inside(p);
        c.ensure("inside iff between the corners", truth(r).iff(in_box(&b, xs(p))));
    }
    box_union [C13 Exact] covers ["f32: Bbox3::union", "Bbox3::add", "Bbox3::add_assign"] |c| {
        let a = fbox(c, "a");
        let b = fbox(c, "b");
        let which = c.pick("op", 3);
        let u = match which {
            0 => a.union(&b),
            1 => a + b,
            _ => { let mut m = a; m += b; m }
        };
        for i in 0..3 {
            c.ensure(&format!("min {}", i), eq(u.pmin[i], x(a.pmin[i]).min(x(b.pmin[i]))));
            c.ensure(&format!("max {}", i), eq(u.pmax[i], x(a.pmax[i]).max(x(b.pmax[i]))));
        }
    }
    box_intersect [C13 Exact] covers ["f32: Bbox3::intersect"] |c| {
        let a = fbox(c, "a");
        let b = fbox(c, "b");
        let r = a.intersect(&b);
        let p: [X; 3] = std::array::from_fn(|i| c.ghost(["px", "py", "pz"][i]));
        c.ensure("point in both iff in the intersection", in_box(&r, p).iff(in_box(&a, p).and(in_box(&b, p))));
    }
    box_overlaps [C13 Exact] covers ["f32: Bbox3::overlaps"] |c| {
        let a = fbox(c, "a");
        let b = fbox(c, "b");
        let r = a.overlaps(&b);
        let m: Vec<B> = (0..3).map(|i| lt(x(a.pmin[i]).max(x(b.pmin[i])), x(a.pmax[i]).min(x(b.pmax[i])))).collect();
        // exact for boxes with volume: the common region has volume
        for i in 0..3 {
            c.require(lt(a.pmin[i], a.pmax[i]));
            c.require(lt(b.pmin[i], b.pmax[i]));
        }
        c.ensure("overlap iff the common region has volume", truth(r).iff(all(&m)));
    }
    box_measures [C13 Exact] covers ["f32: Bbox3::diagonal", "Bbox3::center"] |c| {
        let b = fbox(c, "b");
        let (lo, hi) = (xs(b.pmin), xs(b.pmax));
        ens_eq(c, "diagonal", xs(b.diagonal()), sub(hi, lo));
        ens_eq(c, "center * 2", scale(xs(b.center()), k(2.0)), add(lo, hi));
    }
    box_max_extent [C13 Exact] covers ["f32: Bbox3::max_extent"] |c| {
        let b = fbox(c, "b");
        let ((lo, hi), axis) = b.max_extent();
        let i = axis as usize;
        c.ensure("axis in range", B::c(i < 3));
        if i < 3 {
            c.ensure("lower end of that axis", eq(lo, b.pmin[i]));
            c.ensure("upper end of that axis", eq(hi, b.pmax[i]));
            for j in 0..3 {
                c.ensure(&format!("no axis is longer ({})", j), ge(x(b.pmax[i]) - b.pmin[i], x(b.pmax[j]) - b.pmin[j]));
            }
        }
    }
    box_empty [C13 Exact] covers ["f32: Bbox3::default"] |c| {
        let e = Bbox3::default();
        let a = fbox(c, "a");
        let (hi, lo) = (<scarlet::math::scalar::Float as scarlet::math::scalar::Scalar>::highest(), <scarlet::math::scalar::Float as scarlet::math::scalar::Scalar>::lowest());
        for i in 0..3 {
            c.require(le(lo, a.pmin[i]));
            c.require(le(a.pmax[i], hi));
        }
        let p = fp3(c, "p");
        c.ensure("the default box contains nothing", B::c(!e.inside(p)));
        for u in [e.union(&a), a.union(&e)] {
            ens_eq(c, "union with the default box (min)", xs(u.pmin), xs(a.pmin));
            ens_eq(c, "union with the default box (max)", xs(u.pmax), xs(a.pmax));
        }
    }

    // ------------------------------------------------------------------ C14
    box_ray [C14 Exact] covers ["f32: Bbox3::intersect_ray"] |c| {
        let b = fbox(c, "b");
        let r = fray(c, "r");
        let t = c.between("t", 0.0, r.tmax);
        let hit = b.intersect_ray(r);
        let inside = in_box(&b, at(&r, t));
        match hit {
            None => c.ensure("no point of the ray is in the box", inside.not()),
            Some((t0, t1)) => {
                c.ensure("0 <= t0", le(0.0, t0));
                c.ensure("t0 <= t1", le(t0, t1));
                c.ensure("t1 <= tmax", le(t1, r.tmax));
                c.ensure("in the box iff t0 <= t <= t1", inside.iff(le(t0, t).and(le(t, t1))));
            }
        }
    }
    box_ray_agree [C14 Exact] covers ["f32: Bbox3::do_intersect", "Bbox3::intersect"] |c| {
        let b = fbox(c, "b");
        let r = fray(c, "r");
        let h = b.intersect_ray(r);
        c.ensure("do_intersect iff the ray meets the box", B::c(b.do_intersect(r) == h.is_some()));
    }
    // ------------------------------------------------------------------ C15
    box_hit_x [C15 Exact] covers ["f32: Bbox3::intersect"] |c| { box_hit(c, 0) }
    box_hit_y [C15 Exact] covers ["f32: Bbox3::intersect"] |c| { box_hit(c, 1) }
    box_hit_z [C15 Exact] covers ["f32: Bbox3::intersect"] |c| { box_hit(c, 2) }
    // ------------------------------------------------------------------ C16
    box_map [C16 Exact] covers ["f32: Transform::map(Bbox3)", "Transform::map_inverse(Bbox3)", "map_bbox"] |c| {
        let b = fbox(c, "b");
        let m = fam(c, "m");
        let inverse = c.pick("inverse", 2) == 1;
        let other = fam(c, "other");
        let t = if inverse { Transform::new(other, m) } else { Transform::new(m, other) };
        let mm = mx(m);
        let (lo, hi) = (xs(b.pmin), xs(b.pmax));
        let r: Bbox3 = if inverse { t.map_inverse(b) } else { t.map(b) };
        for i in 0..3 {
            let (mut a, mut z) = (mm[i][3], mm[i][3]);
            for j in 0..3 {
                let (e, f) = (mm[i][j] * lo[j], mm[i][j] * hi[j]);
                a = a + e.min(f);
                z = z + e.max(f);
            }
            c.ensure(&format!("lower end of axis {} is the least over the corners", i), eq(r.pmin[i], a));
            c.ensure(&format!("upper end of axis {} is the greatest over the corners", i), eq(r.pmax[i], z));
        }
    }
    box_map_encloses [C16 Exact] covers ["f32: Transform::map(Bbox3)", "Transform::map(Point3)"] |c| {
        let b = fbox(c, "b");
        let m = fam(c, "m");
        let t = Transform::new(m, Matrix4x4::identity());
        let p: [X; 3] = std::array::from_fn(|i| c.between(["px", "py", "pz"][i], b.pmin[i], b.pmax[i]));
        let r: Bbox3 = t.map(b);
        let q = mapply(mx(m), p, 1.0);
        for i in 0..3 {
            // one product at a time
            for j in 0..3 {
                let (e, f, g) = (mx(m)[i][j] * x(b.pmin[j]), mx(m)[i][j] * x(b.pmax[j]), mx(m)[i][j] * p[j]);
                c.lemma(&format!("lower end of product {} {}", i, j), le(e.min(f), g));
                c.lemma(&format!("upper end of product {} {}", i, j), le(g, e.max(f)));
            }
            c.ensure(&format!("image of a point of the box is in the mapped box (below, {})", i), le(r.pmin[i], q[i]));
            c.ensure(&format!("image of a point of the box is in the mapped box (above, {})", i), le(q[i], r.pmax[i]));
        }
    }
}
