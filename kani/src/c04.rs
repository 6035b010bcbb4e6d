use crate::contracts;
use crate::spec::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::*;

macro_rules! floats {
    ($m:ident, $t:ident, $nan:ident, $inf:ident, $fin:ident) => {
        pub mod $m {
            use super::*;
            fn iv(a: $t, b: $t) -> Interval<$t> { Interval { inf: a, sup: b } }
            contracts! { "C04";
                tests "Interval::contains, is_exact, is_same, in_range and the sign predicates" (a: $t, b: $t, c: $t, d: $t)
                    requires a <= b && c <= d;
                    call { let (x, y) = (iv(a, b), iv(c, d)); ([x.contains(c), x.is_exact(), x.is_same(y), x.in_range(c, d)], [x.is_positive(), x.is_negative(), x.is_nonpositive(), x.is_nonnegative()]) } => ([bool; 4], [bool; 4]);
                    ensures |r| r.0 == [a <= c && c <= b, a == b, a == c && b == d, c <= a && b <= d] && r.1 == [a > 0.0, b < 0.0, b <= 0.0, a >= 0.0];
            }
        }
    };
}
floats!(i32_, f32, nan32, inf32, fin32);
floats!(i64_, f64, nan64, inf64, fin64);

pub fn register(v: &mut Vec<crate::Contract>) {
    macro_rules! all { ($($m:ident),*) => { $( {
        let n = v.len();
        $m::register(v);
        for c in &mut v[n..] { c.name = Box::leak(format!("{}::{}", stringify!($m), c.name).into_boxed_str()); }
    } )* } }
    all!(i32_, i64_);
}
