use crate::contracts;
use crate::spec::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::*;

macro_rules! floats {
    ($m:ident, $t:ident, $nan:ident, $inf:ident, $fin:ident) => {
        pub mod $m {
            use super::*;
            fn iv(a: $t, b: $t) -> Interval<$t> { Interval { inf: a, sup: b } }
            contracts! { "C03";
                pi_intervals "GFloat::pi, tau, frac_pi_2, frac_pi_4, half for Interval" ()
                    requires true;
                    call { let f = |i: Interval<$t>| (i.inf, i.sup); [f(<Interval<$t> as GFloat>::pi()), f(<Interval<$t> as GFloat>::tau()), f(<Interval<$t> as GFloat>::frac_pi_2()), f(<Interval<$t> as GFloat>::frac_pi_4()), f(<Interval<$t> as GFloat>::half())] } => [($t, $t); 5];
                    ensures |r| below(r[0].0 as f64, PI64) && above(r[0].1 as f64, PI64) && below(r[1].0 as f64, TAU64) && above(r[1].1 as f64, TAU64)
                        && below(r[2].0 as f64, PI_2_64) && above(r[2].1 as f64, PI_2_64) && below(r[3].0 as f64, PI_4_64) && above(r[3].1 as f64, PI_4_64)
                        && r[4] == (0.5, 0.5);
                pi_bounds "GFloat::pi_lower, pi_upper, tau_*, frac_pi_2_*, frac_pi_4_*" ()
                    requires true;
                    call ([<$t as GFloat>::pi_lower(), <$t as GFloat>::tau_lower(), <$t as GFloat>::frac_pi_2_lower(), <$t as GFloat>::frac_pi_4_lower()],
                          [<$t as GFloat>::pi_upper(), <$t as GFloat>::tau_upper(), <$t as GFloat>::frac_pi_2_upper(), <$t as GFloat>::frac_pi_4_upper()]) => ([$t; 4], [$t; 4]);
                    ensures |r| below(r.0[0] as f64, PI64) && above(r.1[0] as f64, PI64)
                        && below(r.0[1] as f64, TAU64) && above(r.1[1] as f64, TAU64)
                        && below(r.0[2] as f64, PI_2_64) && above(r.1[2] as f64, PI_2_64)
                        && below(r.0[3] as f64, PI_4_64) && above(r.1[3] as f64, PI_4_64);
            }
        }
    };
}
floats!(i32_, f32, nan32, inf32, fin32);
floats!(i64_, f64, nan64, inf64, fin64);

pub fn register(v: &mut Vec<crate::Contract>) {
    macro_rules! all { ($($m:ident),*) => { $( {
        let n = v.len();
        $m::register(v);
        for c in &mut v[n..] { c.name = Box::leak(format!("{}::{}", stringify!($m), c.name).into_boxed_str()); }
    } )* } }
    all!(i32_, i64_);
}
