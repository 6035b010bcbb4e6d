//! Intervals over f32 and f64, bit for bit.
use crate::contracts;
use crate::spec::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::*;

macro_rules! floats {
    ($m:ident, $t:ident, $nan:ident, $inf:ident, $fin:ident) => {
        pub mod $m {
            use super::*;
            fn iv(a: $t, b: $t) -> Interval<$t> { Interval { inf: a, sup: b } }
            contracts! { "C02";
                from_i64 "GFloat::from_i64 for Interval" (v: i64)
                    requires true;
                    call { let i = <Interval<$t> as GFloat>::from_i64(v); (i.inf, i.sup) } => ($t, $t);
                    ensures |r| le_int(r.0 as f64, v) && ge_int(r.1 as f64, v) && r.0 <= r.1;
                from_f64 "GFloat::from_f64 for Interval" (v: f64)
                    requires fin64(v);
                    call { let i = <Interval<$t> as GFloat>::from_f64(v); (i.inf, i.sup) } => ($t, $t);
                    ensures |r| r.0 as f64 <= v && v <= r.1 as f64;
                from_f32 "GFloat::from_f32 for Interval" (v: f32)
                    requires fin32(v);
                    call { let i = <Interval<$t> as GFloat>::from_f32(v); (i.inf, i.sup) } => ($t, $t);
                    ensures |r| r.0 as f64 <= v as f64 && v as f64 <= r.1 as f64;
                from_scalar "From<T> and From<(T, T)> for Interval" (v: $t, w: $t)
                    requires v <= w;
                    call { let i = Interval::from(v); let j = Interval::from((v, w)); (i.inf, i.sup, j.inf, j.sup) } => ($t, $t, $t, $t);
                    ensures |r| r.0 == v && r.1 == v && r.2 == v && r.3 == w;
                classes "GFloat::is_nan, is_finite, is_infinite for Interval" (a: $t, b: $t)
                    requires true;
                    call (GFloat::is_nan(iv(a, b)), GFloat::is_finite(iv(a, b)), GFloat::is_infinite(iv(a, b))) => (bool, bool, bool);
                    ensures |r| r.0 == ($nan(a) || $nan(b)) && r.1 == ($fin(a) && $fin(b)) && r.2 == ($inf(a) && $inf(b) && a == b);
                approx "Interval::approx" (a: $t, b: $t)
                    requires $fin(a) && $fin(b) && a <= b;
                    call iv(a, b).approx() => $t;
                    ensures |r| a <= *r && *r <= b;
                scalar_from "From<Interval> for the scalar" (a: $t, b: $t)
                    requires $fin(a) && $fin(b) && a <= b;
                    call <$t>::from(iv(a, b)) => $t;
                    ensures |r| a <= *r && *r <= b;
                steps "Interval::extend_by_ulp, GFloat::next_up, next_down for Interval" (a: $t, b: $t)
                    requires $fin(a) && $fin(b) && a <= b;
                    call { let (e, u, d) = (iv(a, b).extend_by_ulp(), GFloat::next_up(iv(a, b)), GFloat::next_down(iv(a, b))); ((e.inf, e.sup), (u.inf, u.sup), (d.inf, d.sup)) } => (($t, $t), ($t, $t), ($t, $t));
                    ensures |r| r.0 .0 < a && b < r.0 .1 && r.1 .0 > a && r.1 .1 > b && r.2 .0 < a && r.2 .1 < b && r.1 .0 <= r.1 .1 && r.2 .0 <= r.2 .1;
                sets "Interval::union, intersect" (a: $t, b: $t, c: $t, d: $t, x: $t)
                    requires a <= b && c <= d && !$nan(x) && a <= d && c <= b;
                    call { let (u, i) = (iv(a, b).union(iv(c, d)), iv(a, b).intersect(iv(c, d))); (u.inf, u.sup, i.inf, i.sup) } => ($t, $t, $t, $t);
                    ensures |r| (r.0 == a || r.0 == c) && r.0 <= a && r.0 <= c && (r.1 == b || r.1 == d) && r.1 >= b && r.1 >= d
                        && ((r.2 <= x && x <= r.3) == (a <= x && x <= b && c <= x && x <= d));
                limits "Scalar/GFloat limits for Interval" (y: $t)
                    requires true;
                    call { let f = |i: Interval<$t>| (i.inf, i.sup); [f(<Interval<$t> as Scalar>::zero()), f(<Interval<$t> as Scalar>::one()), f(<Interval<$t> as Scalar>::lowest()), f(<Interval<$t> as Scalar>::highest()), f(<Interval<$t> as GFloat>::nan()), f(<Interval<$t> as GFloat>::infinity()), f(<Interval<$t> as GFloat>::neg_infinity()), f(<Interval<$t> as GFloat>::min_positive_value()), f(<Interval<$t> as GFloat>::neg_zero())] } => [($t, $t); 9];
                    ensures |r| r[0] == (0.0, 0.0) && r[1] == (1.0, 1.0) && r[2] == (<$t>::MIN, <$t>::MIN) && r[3] == (<$t>::MAX, <$t>::MAX) && $nan(r[4].0) && $nan(r[4].1)
                        && r[5] == (<$t>::INFINITY, <$t>::INFINITY) && r[6] == (<$t>::NEG_INFINITY, <$t>::NEG_INFINITY) && r[7] == (<$t>::MIN_POSITIVE, <$t>::MIN_POSITIVE) && r[8] == (0.0, 0.0);
            }
        }
    };
}
floats!(i32_, f32, nan32, inf32, fin32);
floats!(i64_, f64, nan64, inf64, fin64);

pub fn register(v: &mut Vec<crate::Contract>) {
    macro_rules! all { ($($m:ident),*) => { $( {
        let n = v.len();
        $m::register(v);
        for c in &mut v[n..] { c.name = Box::leak(format!("{}::{}", stringify!($m), c.name).into_boxed_str()); }
    } )* } }
    all!(i32_, i64_);
}
