//! C19, C20: lists of primitives and transformed primitives, over any primitives
//! that keep the hit contract (a hit is reported iff it is within tmax).
use super::util::*;
use crate::contracts;
use crate::ctx::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::Rayf;
use scarlet::math::scalar::Float;
use scarlet::math::transform::*;
use scarlet::math::vector::*;
use std::cell::RefCell;
use std::rc::Rc;

/// a primitive whose nearest hit along the ray is at t
struct Mock {
    t: Float,
    hits: bool,
    si: SurfaceInteraction,
    bbox: Bbox3,
    seen: Rc<RefCell<Vec<Rayf>>>,
    /// the hit point is the point of the ray it is given
    on_ray: bool,
}
impl Bounded3 for Mock {
    fn bbox(&self) -> Bbox3 {
        self.bbox
    }
}
impl IntersectsRay for Mock {
    fn do_intersect(&self, ray: Rayf) -> bool {
        self.seen.borrow_mut().push(ray);
        self.hits && self.t <= ray.tmax
    }
    fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
        self.seen.borrow_mut().push(ray);
        if self.hits && self.t <= ray.tmax {
            let mut si = self.si;
            if self.on_ray {
                si.p = ray.eval(self.t);
            }
            Some(IntersectionResult { surface_interaction: si, t_ray: self.t })
        } else {
            None
        }
    }
}
impl Primitive for Mock {}

fn si(c: &mut Ctx, n: &str) -> SurfaceInteraction {
    SurfaceInteraction {
        p: fv(c, &format!("{}_p", n)),
        n: fv(c, &format!("{}_n", n)),
        uv: fv(c, &format!("{}_uv", n)),
        dpdu: fv(c, &format!("{}_dpdu", n)),
        dpdv: fv(c, &format!("{}_dpdv", n)),
    }
}
fn si_x(s: &SurfaceInteraction) -> Vec<X> {
    let mut v = vec![];
    v.extend(xs(s.p));
    v.extend(xs(s.n));
    v.extend(xs(s.uv));
    v.extend(xs(s.dpdu));
    v.extend(xs(s.dpdv));
    v
}
fn same_si(a: &SurfaceInteraction, b: &SurfaceInteraction) -> B {
    let v: Vec<B> = si_x(a).into_iter().zip(si_x(b)).map(|(p, q)| eq(p, q)).collect();
    all(&v)
}
/// the list's members and the list
fn members(c: &mut Ctx, n: usize) -> (Vec<(Float, SurfaceInteraction, Bbox3)>, PrimitiveList) {
    let mut l = PrimitiveList::new();
    let mut m = vec![];
    for i in 0..n {
        let t = c.f_ge(&format!("t{}", i), 0.0);
        c.require(ge(t, 0.0));
        let s = si(c, &format!("s{}", i));
        let bbox = fbox(c, &format!("b{}", i));
        m.push((t, s, bbox));
        l.add_primitive(Mock { t, hits: true, si: s, bbox, seen: Default::default(), on_ray: false });
    }
    (m, l)
}
fn nearest(c: &mut Ctx, n: usize) {
    let (m, l) = members(c, n);
    let ray = fray(c, "r");
    match l.intersect(ray) {
        None => {
            for (i, (t, _, _)) in m.iter().enumerate() {
                c.ensure(&format!("nothing hit, so not primitive {}", i), gt(*t, ray.tmax));
            }
        }
        Some(h) => {
            for (i, (t, _, _)) in m.iter().enumerate() {
                c.ensure(&format!("not behind primitive {}", i), le(h.t_ray, *t));
            }
            c.ensure("within the ray", le(h.t_ray, ray.tmax));
            let one: Vec<B> = m.iter().map(|(t, s, _)| eq(h.t_ray, *t).and(same_si(&h.surface_interaction, s))).collect();
            c.ensure("the record is that of a primitive hit there", any(&one));
        }
    }
}
fn any_hit(c: &mut Ctx, n: usize) {
    let (m, l) = members(c, n);
    let ray = fray(c, "r");
    let hit = l.do_intersect(ray);
    let some: Vec<B> = m.iter().map(|(t, _, _)| le(*t, ray.tmax)).collect();
    c.ensure("do_intersect iff some primitive is hit", B::c(hit).iff(any(&some)));
}
fn list_bbox(c: &mut Ctx, n: usize) {
    let (m, l) = members(c, n);
    if n == 0 {
        return;
    }
    let b = l.bbox();
    let (hi, lo) = (<Float as scarlet::math::scalar::Scalar>::highest(), <Float as scarlet::math::scalar::Scalar>::lowest());
    for (_, _, q) in m.iter() {
        for j in 0..3 {
            c.require(le(lo, q.pmin[j]));
            c.require(le(q.pmax[j], hi));
        }
    }
    for j in 0..3 {
        for (i, (_, _, q)) in m.iter().enumerate() {
            c.ensure(&format!("contains the box of primitive {} (below, {})", i, j), le(b.pmin[j], q.pmin[j]));
            c.ensure(&format!("contains the box of primitive {} (above, {})", i, j), le(q.pmax[j], b.pmax[j]));
        }
        let lows: Vec<B> = m.iter().map(|(_, _, q)| eq(b.pmin[j], q.pmin[j])).collect();
        let highs: Vec<B> = m.iter().map(|(_, _, q)| eq(b.pmax[j], q.pmax[j])).collect();
        c.ensure(&format!("no larger than needed (below, {})", j), any(&lows));
        c.ensure(&format!("no larger than needed (above, {})", j), any(&highs));
    }
}
#[cfg(scarlet_verif)]
const MANY: usize = 9;
#[cfg(not(scarlet_verif))]
const MANY: usize = 130;

contracts! {
    list_nearest [C19 Exact] covers ["f32: PrimitiveList::{new,add_primitive,intersect}", "bounded: lists of up to 8"] |c| { let n = c.pick("n", MANY); nearest(c, n) }
    list_any [C19 Exact] covers ["f32: PrimitiveList::do_intersect", "bounded: lists of up to 8"] |c| { let n = c.pick("n", MANY); any_hit(c, n) }
    list_box [C19 Exact] covers ["f32: PrimitiveList::bbox", "bounded: lists of up to 8"] |c| { let n = c.pick("n", MANY); list_bbox(c, n) }

    // ------------------------------------------------------------------ C20
    placed_hit [C20 Exact] covers ["f32: TransformedPrimitive::{new,intersect,do_intersect}", "Transform::map(SurfaceInteraction)"] |c| {
        let t = fatransform(c, "m");
        let (m, mi) = (mx(t.matrix()), mx(t.inverse_matrix()));
        let ray = fray(c, "r");
        let s = si(c, "s");
        let (n, du, dv) = (xs(s.n), xs(s.dpdu), xs(s.dpdv));
        #[cfg(scarlet_verif)]
        c.require(eq(dot(n, n), 1.0));
        #[cfg(not(scarlet_verif))]
        c.require(gt(dot(n, n), 0.1));
        let th = c.f_ge("t", 0.0);
        c.require(ge(th, 0.0));
        // the normal before it is scaled to unit length
        let raw: [X; 3] = std::array::from_fn(|j| n[0] * mi[0][j] + n[1] * mi[1][j] + n[2] * mi[2][j]);
        for i in 0..3 {
            let back = raw[0] * m[0][i] + raw[1] * m[1][i] + raw[2] * m[2][i];
            let h: Vec<(X, X, X)> = (0..3).map(|j| (n[j], mmul(mi, m)[j][i], k(if i == j { 1.0 } else { 0.0 }))).collect();
            c.lemma_by("normal mapped back", back, n[i], &h);
        }
        let o: [X; 3] = std::array::from_fn(|i| c.opaque(["nx", "ny", "nz"][i], raw[i]));
        for i in 0..3 {
            c.transfer("normal mapped back", &raw, &o, |v| eq(v[0] * m[0][i] + v[1] * m[1][i] + v[2] * m[2][i], n[i]));
        }
        c.lemma("mapped normal is not zero", gt(dot(o, o), 0.0));
        for w in [du, dv] {
            let w2: [X; 3] = std::array::from_fn(|i| m[i][0] * w[0] + m[i][1] * w[1] + m[i][2] * w[2]);
            c.lemma("mapped normal . mapped tangent", eq(dot(o, w2), dot(n, w)));
        }
        let seen = Rc::new(RefCell::new(vec![]));
        let hits = c.pick("hits", 2) == 1;
        let q = TransformedPrimitive::new(
            Mock { t: th, hits, si: s, bbox: Bbox3::default(), seen: seen.clone(), on_ray: true }, t);
        let r = q.intersect(ray);
        let want = B::c(hits).and(le(th, ray.tmax));
        c.ensure("a hit iff the primitive is hit", B::c(r.is_some()).iff(want));
        let d = q.do_intersect(ray);
        c.ensure("do_intersect iff the primitive is hit", B::c(d).iff(want));
        let back: Rayf = t.map_inverse(ray);
        let calls = seen.borrow().clone();
        c.ensure("the primitive is asked", B::c(calls.len() >= 2));
        for a in calls {
            ens_eq(c, "asked with the ray in object space (origin)", xs(a.origin), xs(back.origin));
            ens_eq(c, "asked with the ray in object space (direction)", xs(a.direction), xs(back.direction));
            c.ensure("asked with the same tmax", eq(a.tmax, ray.tmax));
        }
        let Some(r) = r else { return };
        c.ensure("same parameter", eq(r.t_ray, th));
        let w = r.surface_interaction;
        // world point = ray at t
        let p = at(&ray, x(th));
        let ph = [p[0], p[1], p[2], k(1.0)];
        let got = xs(w.p);
        for i in 0..3 {
            let h: Vec<(X, X, X)> = (0..4).map(|j| (ph[j], mmul(m, mi)[i][j], k(if i == j { 1.0 } else { 0.0 }))).collect();
            c.ensure_by(&format!("hit point is the ray's point at t ({})", i), got[i], p[i], &h);
        }
        ens_eq(c, "uv kept", xs(w.uv), xs(s.uv));
        let lin = |w: [X; 3]| -> [X; 3] { std::array::from_fn(|i| m[i][0] * w[0] + m[i][1] * w[1] + m[i][2] * w[2]) };
        ens_eq(c, "dp/du mapped", xs(w.dpdu), lin(du));
        ens_eq(c, "dp/dv mapped", xs(w.dpdv), lin(dv));
        let wn = xs(w.n);
        c.ensure("unit normal", eq(dot(wn, wn), 1.0));
        let len = X::fun("sqrt", &[dot(o, o)]);
        // a perpendicular vector stays perpendicular and the side is kept
        ens_eq(c, "normal is the inverse transpose applied", scale(wn, len), o);
    }
    placed_box [C20 Exact] covers ["f32: TransformedPrimitive::bbox"] |c| {
        let t = Transform::new(fam(c, "m"), fam(c, "mi"));
        let bbox = fbox(c, "b");
        let s = si(c, "s");
        let q = TransformedPrimitive::new(Mock { t: s.p[0], hits: true, si: s, bbox, seen: Default::default(), on_ray: true }, t);
        let (a, b) = (q.bbox(), t.map::<Bbox3, Bbox3>(bbox));
        ens_eq(c, "the mapped box (min)", xs(a.pmin), xs(b.pmin));
        ens_eq(c, "the mapped box (max)", xs(a.pmax), xs(b.pmax));
    }
    placed_handle [C20 Exact] covers ["f32: Bounded3 for PrimitiveHandle", "alloc_primitive"] |c| {
        let bbox = fbox(c, "b");
        let s = si(c, "s");
        let h = alloc_primitive(Mock { t: s.p[0], hits: true, si: s, bbox, seen: Default::default(), on_ray: true });
        let a = h.bbox();
        ens_eq(c, "box of a handle (min)", xs(a.pmin), xs(bbox.pmin));
        ens_eq(c, "box of a handle (max)", xs(a.pmax), xs(bbox.pmax));
    }
}
