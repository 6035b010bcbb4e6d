use crate::contracts;
use crate::spec::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::*;

macro_rules! floats {
    ($m:ident, $t:ident, $nan:ident, $inf:ident, $fin:ident) => {
        pub mod $m {
            use super::*;
            fn iv(a: $t, b: $t) -> Interval<$t> { Interval { inf: a, sup: b } }
            contracts! { "C01";
                neg "Neg for Interval" (a: $t, b: $t)
                    requires a <= b;
                    call { let r = -iv(a, b); (r.inf, r.sup) } => ($t, $t);
                    ensures |r| r.0 == -b && r.1 == -a;
                whole "Div for Interval by a divisor that contains zero" (a: $t, b: $t, c: $t, d: $t)
                    requires a <= b && c <= d && c <= 0.0 && d >= 0.0;
                    call { let (r, s) = (iv(a, b) / iv(c, d), iv(a, b) / 0.0); [(r.inf, r.sup), (s.inf, s.sup)] } => [($t, $t); 2];
                    ensures |r| r[0] == (<$t>::NEG_INFINITY, <$t>::INFINITY) && r[1] == r[0];
            }
        }
    };
}
floats!(i32_, f32, nan32, inf32, fin32);
floats!(i64_, f64, nan64, inf64, fin64);

pub fn register(v: &mut Vec<crate::Contract>) {
    macro_rules! all { ($($m:ident),*) => { $( {
        let n = v.len();
        $m::register(v);
        for c in &mut v[n..] { c.name = Box::leak(format!("{}::{}", stringify!($m), c.name).into_boxed_str()); }
    } )* } }
    all!(i32_, i64_);
}
