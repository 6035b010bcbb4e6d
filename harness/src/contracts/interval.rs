//! C01-C04: interval arithmetic.  Every contract quantifies over all finite
//! endpoints and over all reals inside the argument intervals.
use super::util::*;
use crate::contracts;
use crate::ctx::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};
use std::cmp::Ordering;

type I = Interval<RF>;

/// no bound is looser than one float beyond the correctly rounded bound
fn tight(c: &mut Ctx, r: I, los: &[X], his: &[X]) {
    let v: Vec<B> = los.iter().map(|v| ge(r.inf, v.rounded().down())).collect();
    c.ensure("lower bound is tight", any(&v));
    let v: Vec<B> = his.iter().map(|v| le(r.sup, v.rounded().up())).collect();
    c.ensure("upper bound is tight", any(&v));
}

fn fun1(n: &'static str, a: X) -> X {
    X::fun(n, &[a])
}

/// the mathematical facts about sin and cos on [a, b], a <= x <= b
/// (coq/Trig.v: sin_mono_pos, sin_mono_neg, sin_valley, sin_hill, cos_*)
fn trig_facts(c: &mut Ctx, a: X, b: X, v: X) {
    let pi = X::pi();
    let (ca, cb, sa, sb) = (fun1("cos", a), fun1("cos", b), fun1("sin", a), fun1("sin", b));
    let (s, k_) = (fun1("sin", v), fun1("cos", v));
    let narrow = lt(b - a, pi);
    let short = lt(b - a, pi * 2.0);
    let z = k(0.0);
    // pi is irrational: no float is an odd multiple of pi/2
    c.fact("cos_float_nonzero", ne(ca, z).and(ne(cb, z)));
    c.fact("sin_mono_pos", all(&[narrow, ge(ca, z), ge(cb, z)]).implies(le(sa, s).and(le(s, sb))));
    c.fact("sin_mono_neg", all(&[narrow, le(ca, z), le(cb, z)]).implies(ge(sa, s).and(ge(s, sb))));
    c.fact("sin_valley", all(&[short, le(ca, z), ge(cb, z), any(&[ne(ca, z), ne(cb, z)])]).implies(le(s, sa).or(le(s, sb))));
    c.fact("sin_hill", all(&[short, ge(ca, z), le(cb, z), any(&[ne(ca, z), ne(cb, z)])]).implies(ge(s, sa).or(ge(s, sb))));
    c.fact("cos_mono_pos", all(&[narrow, ge(sa, z), ge(sb, z)]).implies(ge(ca, k_).and(ge(k_, cb))));
    c.fact("cos_mono_neg", all(&[narrow, le(sa, z), le(sb, z)]).implies(le(ca, k_).and(le(k_, cb))));
    c.fact("cos_valley", all(&[short, ge(sa, z), le(sb, z), any(&[ne(sa, z), ne(sb, z)])]).implies(le(k_, ca).or(le(k_, cb))));
    c.fact("cos_hill", all(&[short, le(sa, z), ge(sb, z), any(&[ne(sa, z), ne(sb, z)])]).implies(ge(k_, ca).or(ge(k_, cb))));
}

/// definition of atan2 away from the origin
fn atan2_def(c: &mut Ctx, y: X, x: X) -> X {
    let r = X::fun("atan2", &[y, x]);
    let pi = X::pi();
    if c.split(gt(x, 0.0)) {
        c.fact("atan2", eq(r, fun1("atan", y / x)));
    } else if c.split(lt(x, 0.0)) {
        if c.split(ge(y, 0.0)) {
            c.fact("atan2", eq(r, fun1("atan", y / x) + pi));
        } else {
            c.fact("atan2", eq(r, fun1("atan", y / x) - pi));
        }
    } else if c.split(gt(y, 0.0)) {
        c.fact("atan2", eq(r * 2.0, pi));
    } else {
        c.fact("atan2", eq(r * 2.0, -pi));
    }
    r
}

contracts! {
    // ------------------------------------------------------------------ C01
    iv_add [C01 Rounded] covers ["Interval + Interval", "Interval += Interval"] |c| {
        let a = iv(c, "a");
        let b = iv(c, "b");
        let r = if c.pick("op", 2) == 0 { a + b } else { let mut m = a; m += b; m };
        let p = member(c, "p", a);
        let q = member(c, "q", b);
        c.ensure("contains every sum", inside(r, p + q));
        tight(c, r, &[x(a.inf) + b.inf], &[x(a.sup) + b.sup]);
    }
    iv_sub [C01 Rounded] covers ["Interval - Interval", "Interval -= Interval"] |c| {
        let a = iv(c, "a");
        let b = iv(c, "b");
        let r = if c.pick("op", 2) == 0 { a - b } else { let mut m = a; m -= b; m };
        let p = member(c, "p", a);
        let q = member(c, "q", b);
        c.ensure("contains every difference", inside(r, p - q));
        tight(c, r, &[x(a.inf) - b.sup], &[x(a.sup) - b.inf]);
    }
    iv_mul [C01 Rounded] covers ["Interval * Interval", "Interval *= Interval"] |c| {
        let a = iv(c, "a");
        let b = iv(c, "b");
        let r = if c.pick("op", 2) == 0 { a * b } else { let mut m = a; m *= b; m };
        let p = member(c, "p", a);
        let q = member(c, "q", b);
        c.ensure("contains every product", inside(r, p * q));
        let m = [x(a.inf) * b.inf, x(a.inf) * b.sup, x(a.sup) * b.inf, x(a.sup) * b.sup];
        tight(c, r, &m, &m);
    }
    iv_div [C01 Rounded] covers ["Interval / Interval", "Interval /= Interval"] |c| {
        let a = iv(c, "a");
        let b = iv(c, "b");
        let r = if c.pick("op", 2) == 0 { a / b } else { let mut m = a; m /= b; m };
        let p = member(c, "p", a);
        let q = member(c, "q", b);
        c.require(ne(q, 0.0));
        c.ensure("contains every quotient", inside(r, p / q));
        if c.split(gt(b.inf, 0.0).or(lt(b.sup, 0.0))) {
            let m = [x(a.inf) / b.inf, x(a.inf) / b.sup, x(a.sup) / b.inf, x(a.sup) / b.sup];
            tight(c, r, &m, &m);
        }
    }
    iv_scalar [C01 Rounded] covers ["Interval {+,-,*,/} T", "Interval *= T", "Interval /= T"] |c| {
        let a = iv(c, "a");
        let s = c.rf("s");
        let p = member(c, "p", a);
        match c.pick("op", 6) {
            0 => {
                let r = a + s;
                c.ensure("a + s", inside(r, p + s));
                tight(c, r, &[x(a.inf) + s], &[x(a.sup) + s]);
            }
            1 => {
                let r = a - s;
                c.ensure("a - s", inside(r, p - s));
                tight(c, r, &[x(a.inf) - s], &[x(a.sup) - s]);
            }
            o @ (2 | 3) => {
                let r = if o == 2 { a * s } else { let mut m = a; m *= s; m };
                c.ensure("a * s", inside(r, p * s));
                let m = [x(a.inf) * s, x(a.sup) * s];
                tight(c, r, &m, &m);
            }
            o => {
                let r = if o == 4 { a / s } else { let mut m = a; m /= s; m };
                if c.split(ne(s, 0.0)) {
                    c.ensure("a / s", inside(r, p / s));
                    let m = [x(a.inf) / s, x(a.sup) / s];
                    tight(c, r, &m, &m);
                } else {
                    // no quotient exists; any interval will do, but it must be one
                    c.ensure("a / 0 is an interval", le(r.inf, r.sup));
                }
            }
        }
    }
    iv_neg [C01 Rounded] covers ["-Interval"] |c| {
        let a = iv(c, "a");
        let r = -a;
        c.ensure("inf", eq(r.inf, -x(a.sup)));
        c.ensure("sup", eq(r.sup, -x(a.inf)));
    }
    iv_distributes_over_program [C01 Rounded] covers ["composition of Interval operations"] |c| {
        // inclusion is preserved by composing operations: (a + b) * d - a
        let a = iv(c, "a");
        let b = iv(c, "b");
        let s = a + b;
        let (p, q) = (member(c, "p", a), member(c, "q", b));
        c.ensure("sum", inside(s, p + q));
        let d = s - a;
        c.ensure("sum minus a", inside(d, q));
    }

    // ------------------------------------------------------------------ C02
    iv_square [C02 Rounded] covers ["Interval::square", "Scalar::square for Interval"] |c| {
        let a = iv(c, "a");
        let r = if c.pick("op", 2) == 0 { a.square() } else { <I as Scalar>::square(a) };
        let p = member(c, "p", a);
        c.ensure("contains every square", inside(r, p * p));
        let m = [x(a.inf) * a.inf, x(a.sup) * a.sup];
        c.ensure("upper bound is tight", any(&m.map(|v| le(r.sup, v.rounded().up()))));
        c.ensure("lower bound is tight", any(&[
            ge(r.inf, m[0].rounded().down()), ge(r.inf, m[1].rounded().down()),
        ]).or(all(&[le(a.inf, 0.0), ge(a.sup, 0.0), ge(r.inf, 0.0)])));
    }
    iv_sqrt [C02 Rounded] covers ["Interval::sqrt", "GFloat::sqrt for Interval"] |c| {
        let a = iv(c, "a");
        // the root of the part that has one: rounding may push the lower end of a
        // sum of squares below zero
        c.require(ge(a.sup, 0.0));
        let r = if c.pick("op", 2) == 0 { Interval::sqrt(a) } else { <I as GFloat>::sqrt(a) };
        let p = member(c, "p", a);
        c.require(ge(p, 0.0));
        let s = fun1("sqrt", p);
        c.ensure("contains every root", inside(r, s));
        tight(c, r, &[fun1("sqrt", x(a.inf).max(k(0.0)))], &[fun1("sqrt", x(a.sup))]);
    }
    iv_abs [C02 Rounded] covers ["SignedScalar::abs for Interval"] |c| {
        let a = iv(c, "a");
        let r = <I as SignedScalar>::abs(a);
        let p = member(c, "p", a);
        c.ensure("contains every absolute value", inside(r, p.abs()));
        c.ensure("never negative", ge(r.inf, 0.0).or(ge(a.inf, 0.0)));
        c.ensure("upper bound is attained", eq(r.sup, x(a.inf).abs()).or(eq(r.sup, x(a.sup).abs())));
    }
    iv_minmax [C02 Rounded] covers ["Scalar::{min,max} for Interval"] |c| {
        let a = iv(c, "a");
        let b = iv(c, "b");
        let (p, q) = (member(c, "p", a), member(c, "q", b));
        let lo = <I as Scalar>::min(a, b);
        let hi = <I as Scalar>::max(a, b);
        c.ensure("min contains every minimum", inside(lo, p.min(q)));
        c.ensure("max contains every maximum", inside(hi, p.max(q)));
        c.ensure("min is exact below", eq(lo.inf, x(a.inf).min(x(b.inf))));
        c.ensure("min is exact above", eq(lo.sup, x(a.sup).min(x(b.sup))));
        c.ensure("max is exact below", eq(hi.inf, x(a.inf).max(x(b.inf))));
        c.ensure("max is exact above", eq(hi.sup, x(a.sup).max(x(b.sup))));
    }
    iv_union [C02 Rounded] covers ["Interval::union"] |c| {
        let a = iv(c, "a");
        let b = iv(c, "b");
        let r = a.union(b);
        c.ensure("inf", eq(r.inf, x(a.inf).min(x(b.inf))));
        c.ensure("sup", eq(r.sup, x(a.sup).max(x(b.sup))));
    }
    iv_intersect [C02 Rounded] covers ["Interval::intersect"] |c| {
        let a = iv(c, "a");
        let b = iv(c, "b");
        c.require(le(a.inf, b.sup));
        c.require(le(b.inf, a.sup));
        let r = a.intersect(b);
        c.ensure("inf", eq(r.inf, x(a.inf).max(x(b.inf))));
        c.ensure("sup", eq(r.sup, x(a.sup).min(x(b.sup))));
    }
    iv_ulp [C02 Rounded] covers ["Interval::extend_by_ulp", "GFloat::{next_up,next_down} for Interval"] |c| {
        let a = iv(c, "a");
        let r = a.extend_by_ulp();
        c.ensure("inf", eq(r.inf, x(a.inf).down()));
        c.ensure("sup", eq(r.sup, x(a.sup).up()));
        let u = <I as GFloat>::next_up(a);
        c.ensure("up inf", eq(u.inf, x(a.inf).up()));
        c.ensure("up sup", eq(u.sup, x(a.sup).up()));
        let d = <I as GFloat>::next_down(a);
        c.ensure("down inf", eq(d.inf, x(a.inf).down()));
        c.ensure("down sup", eq(d.sup, x(a.sup).down()));
    }
    iv_monotonic [C02 Rounded] covers ["Interval::map_monotonic_inc", "Interval::map_monotonic_dec"] |c| {
        // f is an arbitrary monotone function known through its (faithful) values
        let a = iv(c, "a");
        let (fi, fs) = (c.rf("f_at_inf"), c.rf("f_at_sup"));
        let p = c.ghost("f_at_p");
        let inc = c.pick("dir", 2) == 0;
        if inc {
            c.require(le(fi, fs));
            c.require(le(x(fi).down(), p));
            c.require(le(p, x(fs).up()));
        } else {
            c.require(le(fs, fi));
            c.require(le(x(fs).down(), p));
            c.require(le(p, x(fi).up()));
        }
        let mut calls = vec![];
        let (ai, as_) = (a.inf, a.sup);
        c.require(lt(ai, as_));
        let f = |t: RF| {
            calls.push(t);
            if t == ai { fi } else { fs }
        };
        let r = if inc { a.map_monotonic_inc(f) } else { a.map_monotonic_dec(f) };
        c.ensure("contains every value", inside(r, p));
        c.ensure("evaluated at the two ends only", all(&calls.iter().map(|t| eq(*t, ai).or(eq(*t, as_))).collect::<Vec<_>>()));
        let (lo, hi) = if inc { (fi, fs) } else { (fs, fi) };
        c.ensure("lower", eq(r.inf, x(lo).down()));
        c.ensure("upper", eq(r.sup, x(hi).up()));
    }
    iv_approx [C02 Rounded] covers ["Interval::approx"] |c| {
        let a = iv(c, "a");
        let m = x(a.approx());
        // within one rounding of the midpoint, hence inside up to rounding
        c.ensure("not below", ge(m, a.inf));
        c.ensure("not above", le(m, a.sup));
    }
    iv_from [C02 Rounded] covers ["Interval::{from,new}", "From<(T,T)>", "Scalar::{zero,one,lowest,highest}", "GFloat::{half,from_f32,infinity,neg_infinity,nan,neg_zero}"] |c| {
        let s = c.rf("s");
        let t = c.rf("t");
        c.require(le(s, t));
        let r = I::from(s);
        c.ensure("from a scalar", eq(r.inf, s).and(eq(r.sup, s)));
        let r = I::from((s, t));
        c.ensure("from a pair", eq(r.inf, s).and(eq(r.sup, t)));
        let r = I::new(s, t);
        c.ensure("new", eq(r.inf, s).and(eq(r.sup, t)));
        let z = <I as Scalar>::zero();
        c.ensure("zero", eq(z.inf, 0.0).and(eq(z.sup, 0.0)));
        let o = <I as Scalar>::one();
        c.ensure("one", eq(o.inf, 1.0).and(eq(o.sup, 1.0)));
        let h = <I as GFloat>::half();
        c.ensure("half", eq(h.inf, 0.5).and(eq(h.sup, 0.5)));
        let h = <I as Scalar>::two();
        c.ensure("two", inside(h, k(2.0)));
        let n = <I as GFloat>::nan();
        c.ensure("nan is nan", B::c(<I as GFloat>::is_nan(n)));
        let p = <I as GFloat>::infinity();
        c.ensure("infinity", B::c(GFloat::is_infinite(p.inf) && GFloat::is_infinite(p.sup)));
        c.ensure("infinity is positive", gt(p.inf, 0.0).and(gt(p.sup, 0.0)));
        let p = <I as GFloat>::neg_infinity();
        c.ensure("-infinity", B::c(GFloat::is_infinite(p.inf) && GFloat::is_infinite(p.sup)));
        c.ensure("-infinity is negative", lt(p.inf, 0.0).and(lt(p.sup, 0.0)));
        let q = <I as GFloat>::from_f32(1.5);
        c.ensure("from_f32", eq(q.inf, 1.5).and(eq(q.sup, 1.5)));
    }
    iv_classify [C02 Rounded] covers ["GFloat::{is_nan,is_finite,is_infinite} for Interval"] |c| {
        let a = iv(c, "a");
        c.ensure("finite", B::c(<I as GFloat>::is_finite(a)));
        c.ensure("not nan", B::c(!<I as GFloat>::is_nan(a)));
        c.ensure("not infinite", B::c(!<I as GFloat>::is_infinite(a)));
        let inf = <RF as GFloat>::infinity();
        let w = I::new(a.inf, inf);
        c.ensure("half line is not finite", B::c(!<I as GFloat>::is_finite(w)));
        c.ensure("half line is not infinite", B::c(!<I as GFloat>::is_infinite(w)));
        let w = I::new(inf, inf);
        c.ensure("infinity is infinite", B::c(<I as GFloat>::is_infinite(w)));
        let w = I::new(-inf, inf);
        c.ensure("the line is not infinite", B::c(!<I as GFloat>::is_infinite(w)));
    }

    // ------------------------------------------------------------------ C03
    iv_sin [C03 Rounded] covers ["GFloat::{sin,sin_cos} for Interval"] |c| {
        let a = iv(c, "a");
        let r = if c.pick("op", 2) == 0 { <I as GFloat>::sin(a) } else { <I as GFloat>::sin_cos(a).0 };
        let p = member(c, "p", a);
        trig_facts(c, x(a.inf), x(a.sup), p);
        c.ensure("contains every sine", inside(r, fun1("sin", p)));
    }
    iv_cos [C03 Rounded] covers ["GFloat::{cos,sin_cos} for Interval"] |c| {
        let a = iv(c, "a");
        let r = if c.pick("op", 2) == 0 { <I as GFloat>::cos(a) } else { <I as GFloat>::sin_cos(a).1 };
        let p = member(c, "p", a);
        trig_facts(c, x(a.inf), x(a.sup), p);
        c.ensure("contains every cosine", inside(r, fun1("cos", p)));
    }
    iv_tan [C03 Rounded] covers ["GFloat::tan for Interval"] |c| {
        let a = iv(c, "a");
        let p = member(c, "p", a);
        c.require(ne(fun1("cos", p), 0.0));
        let r = <I as GFloat>::tan(a);
        let (s, k_) = (<I as GFloat>::sin(a), <I as GFloat>::cos(a));
        let t = fun1("tan", p);
        let (sp, cp) = (fun1("sin", p), fun1("cos", p));
        c.lemmas_by(
            |c| trig_facts(c, x(a.inf), x(a.sup), p),
            &[("sine enclosed", inside(s, sp)), ("cosine enclosed", inside(k_, cp))],
        );
        c.fact("tan", eq(t * cp, sp));
        c.ensure("contains every tangent", inside(r, t));
    }
    iv_asin [C03 Rounded] covers ["GFloat::asin for Interval"] |c| {
        let a = iv(c, "a");
        c.require(ge(a.inf, -1.0));
        c.require(le(a.sup, 1.0));
        let r = <I as GFloat>::asin(a);
        let p = member(c, "p", a);
        c.ensure("contains every arc sine", inside(r, fun1("asin", p)));
    }
    iv_acos [C03 Rounded] covers ["GFloat::acos for Interval"] |c| {
        let a = iv(c, "a");
        c.require(ge(a.inf, -1.0));
        c.require(le(a.sup, 1.0));
        let r = <I as GFloat>::acos(a);
        let p = member(c, "p", a);
        c.ensure("contains every arc cosine", inside(r, fun1("acos", p)));
        c.ensure("never negative", ge(r.inf, 0.0));
    }
    iv_atan [C03 Rounded] covers ["GFloat::atan for Interval"] |c| {
        let a = iv(c, "a");
        let r = <I as GFloat>::atan(a);
        let p = member(c, "p", a);
        c.ensure("contains every arc tangent", inside(r, fun1("atan", p)));
    }
    iv_atan2 [C03 Rounded] covers ["GFloat::atan2 for Interval"] |c| {
        c.flag("ulp");
        let y = iv(c, "y");
        let w = iv(c, "x");
        let p = member(c, "p", y);
        let q = member(c, "q", w);
        c.require(ne(p, 0.0).or(ne(q, 0.0)));
        let t = atan2_def(c, p, q);
        let r = <I as GFloat>::atan2(y, w);
        c.ensure("contains every angle", inside(r, t));
    }
    iv_pi [C03 Rounded] covers ["GFloat::{pi,tau,frac_pi_2,frac_pi_4} for Interval"] |c| {
        let _ = c.rf("unused");
        let pi = X::pi();
        c.ensure("pi", inside(<I as GFloat>::pi(), pi));
        c.ensure("tau", inside(<I as GFloat>::tau(), pi * 2.0));
        c.ensure("pi/2", inside(<I as GFloat>::frac_pi_2(), pi * 0.5));
        c.ensure("pi/4", inside(<I as GFloat>::frac_pi_4(), pi * 0.25));
    }

    // ------------------------------------------------------------------ C04
    iv_order [C04 Rounded] covers ["PartialEq/PartialOrd for Interval"] |c| {
        let a = iv(c, "a");
        let b = iv(c, "b");
        let (p, q) = (member(c, "p", a), member(c, "q", b));
        match c.pick("op", 6) {
            0 => { let t = a < b; c.ensure("a < b is certain", truth(t).implies(lt(p, q))); c.ensure("a < b iff disjoint", truth(t).iff(lt(a.sup, b.inf))); }
            1 => { let t = a > b; c.ensure("a > b is certain", truth(t).implies(gt(p, q))); c.ensure("a > b iff disjoint", truth(t).iff(gt(a.inf, b.sup))); }
            2 => { let t = a <= b; c.ensure("a <= b is certain", truth(t).implies(le(p, q))); c.ensure("complete", lt(a.sup, b.inf).implies(truth(t))); }
            3 => { let t = a >= b; c.ensure("a >= b is certain", truth(t).implies(ge(p, q))); c.ensure("complete", gt(a.inf, b.sup).implies(truth(t))); }
            4 => { let t = a == b; c.ensure("a == b is certain", truth(t).implies(eq(p, q))); }
            _ => {
                let t = a.partial_cmp(&b);
                c.ensure("certain", match t {
                    Some(Ordering::Less) => lt(p, q),
                    Some(Ordering::Equal) => eq(p, q),
                    Some(Ordering::Greater) => gt(p, q),
                    None => B::t(),
                });
            }
        }
    }
    iv_order_scalar [C04 Rounded] covers ["PartialEq<T>/PartialOrd<T> for Interval"] |c| {
        let a = iv(c, "a");
        let s = c.rf("s");
        let p = member(c, "p", a);
        match c.pick("op", 5) {
            0 => { let t = a < s; c.ensure("a < s", truth(t).iff(lt(a.sup, s))); c.ensure("certain", truth(t).implies(lt(p, s))); }
            1 => { let t = a > s; c.ensure("a > s", truth(t).iff(gt(a.inf, s))); c.ensure("certain", truth(t).implies(gt(p, s))); }
            2 => { let t = a <= s; c.ensure("a <= s is certain", truth(t).implies(le(p, s))); }
            3 => { let t = a >= s; c.ensure("a >= s is certain", truth(t).implies(ge(p, s))); }
            _ => { let t = a == s; c.ensure("a == s", truth(t).iff(eq(a.inf, s).and(eq(a.sup, s)))); }
        }
    }
    iv_signs [C04 Rounded] covers ["Interval::{is_positive,is_negative,is_nonpositive,is_nonnegative}", "SignedScalar::is_* for Interval", "Scalar::{is_zero,is_one}"] |c| {
        let a = iv(c, "a");
        let p = member(c, "p", a);
        match c.pick("op", 10) {
            0 => { let t = a.is_positive(); c.ensure("positive", truth(t).iff(gt(a.inf, 0.0))); }
            1 => { let t = a.is_negative(); c.ensure("negative", truth(t).iff(lt(a.sup, 0.0))); }
            2 => { let t = a.is_nonpositive(); c.ensure("nonpositive", truth(t).iff(le(a.sup, 0.0))); }
            3 => { let t = a.is_nonnegative(); c.ensure("nonnegative", truth(t).iff(ge(a.inf, 0.0))); }
            4 => { let t = <I as SignedScalar>::is_positive(a); c.ensure("certainly positive", truth(t).implies(gt(p, 0.0))); }
            5 => { let t = <I as SignedScalar>::is_negative(a); c.ensure("certainly negative", truth(t).implies(lt(p, 0.0))); }
            6 => { let t = <I as SignedScalar>::is_nonpositive(a); c.ensure("certainly nonpositive", truth(t).implies(le(p, 0.0))); }
            7 => { let t = <I as SignedScalar>::is_nonnegative(a); c.ensure("certainly nonnegative", truth(t).implies(ge(p, 0.0))); }
            8 => { let t = <I as Scalar>::is_zero(a); c.ensure("certainly zero", truth(t).implies(eq(p, 0.0))); }
            _ => { let t = <I as Scalar>::is_one(a); c.ensure("certainly one", truth(t).implies(eq(p, 1.0))); }
        }
    }
    iv_sets [C04 Rounded] covers ["Interval::{contains,in_range,is_exact,is_same}", "Scalar::in_range for Interval"] |c| {
        let a = iv(c, "a");
        let b = iv(c, "b");
        let (s, t) = (c.rf("s"), c.rf("t"));
        match c.pick("op", 5) {
            0 => { let r = a.contains(s); c.ensure("contains", truth(r).iff(le(a.inf, s).and(le(s, a.sup)))); }
            1 => { let r = a.in_range(s, t); c.ensure("in_range", truth(r).iff(le(s, a.inf).and(le(a.sup, t)))); }
            2 => { let r = a.is_exact(); c.ensure("is_exact", truth(r).iff(eq(a.inf, a.sup))); }
            3 => { let r = a.is_same(b); c.ensure("is_same", truth(r).iff(eq(a.inf, b.inf).and(eq(a.sup, b.sup)))); }
            _ => {
                let r = <I as Scalar>::in_range(a, I::from(s), I::from(t));
                let p = member(c, "p", a);
                c.ensure("certainly in range", truth(r).implies(le(s, p).and(le(p, t))));
            }
        }
    }
    iv_almost [C04 Rounded] covers ["AlmostEqual for Interval", "AlmostEqual<T> for Interval"] |c| {
        let a = iv(c, "a");
        let s = c.rf("s");
        if c.pick("op", 2) == 0 {
            let r = AlmostEqual::<RF>::almost_eq(a, s);
            let (f, g) = (a.inf.fequals(s), a.sup.fequals(s));
            c.ensure("almost equal to a scalar only when it contains it", truth(r).implies(inside(a, x(s))));
            c.ensure("both ends are almost equal", B::c(!r || (f && g)));
            c.ensure("and then it is", inside(a, x(s)).implies(B::c(r == (f && g))));
        } else {
            let b = iv(c, "b");
            let r = AlmostEqual::<I>::almost_eq(a, b);
            let (f, g) = (a.inf.fequals(b.inf), a.sup.fequals(b.sup));
            c.ensure("almost equal intervals", B::c(r == (f && g)));
        }
    }
}
