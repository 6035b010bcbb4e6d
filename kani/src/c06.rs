use crate::contracts;
use crate::spec::*;
use scarlet::math::scalar::*;

macro_rules! ints {
    ($m:ident, $t:ident) => {
        pub mod $m {
            use super::*;
            contracts! { "C06";
                consts "Scalar::zero, one, two, lowest, highest" (y: $t)
                    requires true;
                    call (<$t as Scalar>::zero(), <$t as Scalar>::one(), <$t as Scalar>::two(), <$t as Scalar>::lowest(), <$t as Scalar>::highest()) => ($t, $t, $t, $t, $t);
                    ensures |r| r.0 == 0 && r.1 == 1 && r.2 == 2 && r.3 <= y && y <= r.4;
                tests "Scalar::is_one, is_zero, in_range, almost_eq" (x: $t, y: $t, z: $t)
                    requires true;
                    call (Scalar::is_one(x), Scalar::is_zero(x), Scalar::in_range(x, y, z), AlmostEqual::almost_eq(x, y)) => (bool, bool, bool, bool);
                    ensures |r| r.0 == (x == 1) && r.1 == (x == 0) && r.2 == (y <= x && x <= z) && r.3 == (x == y);
                min_max "Scalar::min, max, min_max" (x: $t, y: $t)
                    requires true;
                    call (Scalar::min(x, y), Scalar::max(x, y), Scalar::min_max(x, y)) => ($t, $t, ($t, $t));
                    ensures |r| { let (lo, hi) = if x < y { (x, y) } else { (y, x) }; r.0 == lo && r.1 == hi && r.2 == (lo, hi) };
                clamp "Scalar::clamp" (x: $t, lo: $t, hi: $t)
                    requires lo <= hi;
                    call Scalar::clamp(x, lo, hi) => $t;
                    ensures |r| lo <= *r && *r <= hi && (*r == x || (x < lo && *r == lo) || (x > hi && *r == hi));
            }
        }
    };
}
ints!(u8_, u8);
ints!(u16_, u16);
ints!(u32_, u32);
ints!(u64_, u64);
ints!(i8_, i8);
ints!(i16_, i16);
ints!(i32_, i32);
ints!(i64_, i64);

macro_rules! squares {
    ($m:ident, $t:ident) => {
        pub mod $m {
            use super::*;
            contracts! { "C06";
                #[kani::solver(cvc5)]
                square "Scalar::square" (x: $t)
                    requires x.checked_mul(x).is_some();
                    call Scalar::square(x) => $t;
                    ensures |r| *r == x * x;
            }
        }
    };
}
squares!(u8_sq, u8);
squares!(u16_sq, u16);
squares!(u32_sq, u32);
squares!(u64_sq, u64);
squares!(i8_sq, i8);
squares!(i16_sq, i16);
squares!(i32_sq, i32);
squares!(i64_sq, i64);

macro_rules! signed {
    ($m:ident, $t:ident) => {
        pub mod $m {
            use super::*;
            contracts! { "C06";
                signs "SignedScalar::is_positive, is_negative, is_nonpositive, is_nonnegative, signum" (x: $t)
                    requires true;
                    call (SignedScalar::is_positive(x), SignedScalar::is_negative(x), SignedScalar::is_nonpositive(x), SignedScalar::is_nonnegative(x), SignedScalar::signum(x)) => (bool, bool, bool, bool, $t);
                    ensures |r| r.0 == (x > 0) && r.1 == (x < 0) && r.2 == (x <= 0) && r.3 == (x >= 0) && r.4 == (if x > 0 { 1 } else if x < 0 { -1 } else { 0 });
                abs "SignedScalar::abs" (x: $t)
                    requires x != <$t>::MIN;
                    call SignedScalar::abs(x) => $t;
                    ensures |r| *r >= 0 && (*r == x || *r == -x);
            }
        }
    };
}
signed!(i8_s, i8);
signed!(i16_s, i16);
signed!(i32_s, i32);
signed!(i64_s, i64);

macro_rules! floats {
    ($m:ident, $t:ident, $nan:ident, $inf:ident, $fin:ident, $same:ident, $min_pos:literal, $neg_zero:literal, $half_ulp:expr, $ulp:expr) => {
        pub mod $m {
            use super::*;
            // stand-ins for the mathematical library, distinct and injective, so that
            // calling the wrong one (or with other arguments) shows
            macro_rules! stand { ($n:ident, $k:literal) => { #[cfg(kani)] pub fn $n(x: $t) -> $t { $t::from_bits(x.to_bits() ^ $k) } } }
            stand!(s_sqrt, 1);
            stand!(s_sin, 2);
            stand!(s_cos, 3);
            stand!(s_tan, 4);
            stand!(s_asin, 5);
            stand!(s_acos, 6);
            stand!(s_atan, 7);
            #[cfg(kani)]
            pub fn s_sin_cos(x: $t) -> ($t, $t) { ($t::from_bits(x.to_bits() ^ 2), $t::from_bits(x.to_bits() ^ 3)) }
            #[cfg(kani)]
            pub fn s_atan2(x: $t, y: $t) -> $t { $t::from_bits(x.to_bits().rotate_left(1) ^ y.to_bits()) }

            contracts! { "C06";
                limits "Scalar::zero, one, two, lowest, highest; GFloat::half, nan, infinity, neg_infinity, neg_zero, min_positive_value" (y: $t)
                    requires true;
                    call ([<$t as Scalar>::zero(), <$t as Scalar>::one(), <$t as Scalar>::two(), <$t as Scalar>::lowest(), <$t as Scalar>::highest(), <$t as GFloat>::half(), <$t as GFloat>::infinity(), <$t as GFloat>::neg_infinity()],
                          [<$t as GFloat>::nan(), <$t as GFloat>::neg_zero(), <$t as GFloat>::min_positive_value()]) => ([$t; 8], [$t; 3]);
                    ensures |r| r.0[0].to_bits() == 0 && r.0[1] == 1.0 && r.0[2] == 2.0
                        && $fin(r.0[3]) && $fin(r.0[4]) && (!$fin(y) || (r.0[3] <= y && y <= r.0[4]))
                        && r.0[5] == 0.5 && $inf(r.0[6]) && r.0[6] > 0.0 && $inf(r.0[7]) && r.0[7] < 0.0
                        && $nan(r.1[0]) && r.1[1].to_bits() == $neg_zero && r.1[2].to_bits() == $min_pos;
                classes "GFloat::is_nan, is_finite, is_infinite; Scalar::is_one, is_zero" (x: $t)
                    requires true;
                    call (GFloat::is_nan(x), GFloat::is_finite(x), GFloat::is_infinite(x), Scalar::is_one(x), Scalar::is_zero(x)) => (bool, bool, bool, bool, bool);
                    ensures |r| r.0 == $nan(x) && r.1 == $fin(x) && r.2 == $inf(x) && r.3 == (x == 1.0) && r.4 == ((x.to_bits() << 1) == 0);
                pi_consts "GFloat::pi, tau, frac_pi_2, frac_pi_4" ()
                    requires true;
                    call [<$t as GFloat>::pi(), <$t as GFloat>::tau(), <$t as GFloat>::frac_pi_2(), <$t as GFloat>::frac_pi_4()] => [$t; 4];
                    ensures |r| near(r[0] as f64, PI64, $half_ulp) && near(r[1] as f64, TAU64, $half_ulp << 1)
                        && near(r[2] as f64, PI_2_64, $half_ulp >> 1) && near(r[3] as f64, PI_4_64, $half_ulp >> 2);
                pi_bounds "GFloat::pi_lower, pi_upper, tau_*, frac_pi_2_*, frac_pi_4_*" ()
                    requires true;
                    call ([<$t as GFloat>::pi_lower(), <$t as GFloat>::tau_lower(), <$t as GFloat>::frac_pi_2_lower(), <$t as GFloat>::frac_pi_4_lower()],
                          [<$t as GFloat>::pi_upper(), <$t as GFloat>::tau_upper(), <$t as GFloat>::frac_pi_2_upper(), <$t as GFloat>::frac_pi_4_upper()]) => ([$t; 4], [$t; 4]);
                    ensures |r| below(r.0[0] as f64, PI64) && above(r.1[0] as f64, PI64)
                        && below(r.0[1] as f64, TAU64) && above(r.1[1] as f64, TAU64)
                        && below(r.0[2] as f64, PI_2_64) && above(r.1[2] as f64, PI_2_64)
                        && below(r.0[3] as f64, PI_4_64) && above(r.1[3] as f64, PI_4_64);
                epsilons "GFloat::abs_epsilon, rel_epsilon" ()
                    requires true;
                    call (<$t as GFloat>::abs_epsilon(), <$t as GFloat>::rel_epsilon()) => ($t, $t);
                    ensures |r| r.0 > 0.0 && r.0 <= 1e-3 && r.1 > 0.0 && r.1 <= 1e-2;
                min_max "Scalar::min, max, min_max" (x: $t, y: $t)
                    requires !$nan(x) && !$nan(y);
                    call (Scalar::min(x, y), Scalar::max(x, y), Scalar::min_max(x, y)) => ($t, $t, ($t, $t));
                    ensures |r| { let (lo, hi) = if x < y { (x, y) } else { (y, x) }; r.0 == lo && r.1 == hi && r.2 == (lo, hi) };
                clamp "Scalar::clamp" (x: $t, lo: $t, hi: $t)
                    requires !$nan(x) && lo <= hi;
                    call Scalar::clamp(x, lo, hi) => $t;
                    ensures |r| lo <= *r && *r <= hi && (*r == x || (x < lo && *r == lo) || (x > hi && *r == hi));
                in_range "Scalar::in_range" (x: $t, lo: $t, hi: $t)
                    requires true;
                    call Scalar::in_range(x, lo, hi) => bool;
                    ensures |r| *r == (lo <= x && x <= hi);
                #[kani::solver(cvc5)]
                square "Scalar::square" (x: $t)
                    requires true;
                    call Scalar::square(x) => $t;
                    ensures |r| $same(*r, x * x);
                #[kani::solver(cvc5)]
                recip "GFloat::recip" (x: $t)
                    requires true;
                    call GFloat::recip(x) => $t;
                    ensures |r| $same(*r, 1.0 / x);
                signs "SignedScalar::is_positive, is_negative, is_nonpositive, is_nonnegative, signum, abs" (x: $t)
                    requires true;
                    call (SignedScalar::is_positive(x), SignedScalar::is_negative(x), SignedScalar::is_nonpositive(x), SignedScalar::is_nonnegative(x), SignedScalar::signum(x), SignedScalar::abs(x)) => (bool, bool, bool, bool, $t, $t);
                    ensures |r| r.0 == (x > 0.0) && r.1 == (x < 0.0) && r.2 == (x <= 0.0) && r.3 == (x >= 0.0)
                        && ($nan(x) || r.4 == (if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 }))
                        && (if $nan(x) { $nan(r.5) } else { r.5 >= 0.0 && (r.5 == x || r.5 == -x) });
                casts "GFloat::to_i64, to_f32, to_f64" (x: $t)
                    requires true;
                    call (GFloat::to_i64(x), GFloat::to_f32(x), GFloat::to_f64(x)) => (i64, f32, f64);
                    ensures |r| r.0 == x as i64 && same32(r.1, x as f32) && same64(r.2, x as f64);
                from_casts "GFloat::from_i64, from_f32, from_f64" (i: i64, a: f32, b: f64)
                    requires true;
                    call (<$t as GFloat>::from_i64(i), <$t as GFloat>::from_f32(a), <$t as GFloat>::from_f64(b)) => ($t, $t, $t);
                    ensures |r| r.0 == i as $t && $same(r.1, a as $t) && $same(r.2, b as $t);
                #[kani::stub($t::sqrt, super::s_sqrt)]
                sqrt "GFloat::sqrt is the library's" (x: $t)
                    requires true;
                    call GFloat::sqrt(x) => $t;
                    ensures |r| $same(*r, x.sqrt());
                #[kani::stub($t::sin, super::s_sin)]
                #[kani::stub($t::cos, super::s_cos)]
                #[kani::stub($t::sin_cos, super::s_sin_cos)]
                sin_cos "GFloat::sin, cos, sin_cos are the library's" (x: $t)
                    requires true;
                    call (GFloat::sin(x), GFloat::cos(x), GFloat::sin_cos(x)) => ($t, $t, ($t, $t));
                    ensures |r| $same(r.0, x.sin()) && $same(r.1, x.cos()) && $same(r.2 .0, x.sin()) && $same(r.2 .1, x.cos());
                #[kani::stub($t::tan, super::s_tan)]
                #[kani::stub($t::asin, super::s_asin)]
                #[kani::stub($t::acos, super::s_acos)]
                #[kani::stub($t::atan, super::s_atan)]
                #[kani::stub($t::atan2, super::s_atan2)]
                tan_arcs "GFloat::tan, asin, acos, atan, atan2 are the library's" (x: $t, y: $t)
                    requires true;
                    call ([GFloat::tan(x), GFloat::asin(x), GFloat::acos(x), GFloat::atan(x)], GFloat::atan2(x, y)) => ([$t; 4], $t);
                    ensures |r| $same(r.0[0], x.tan()) && $same(r.0[1], x.asin()) && $same(r.0[2], x.acos()) && $same(r.0[3], x.atan()) && $same(r.1, x.atan2(y));
            }
        }
    };
}
// half an ulp of pi is 2^-23 (f32) and 2^-52 (f64), here in units of 2^-64
floats!(f32_, f32, nan32, inf32, fin32, same32, 0x0080_0000, 0x8000_0000, 1u128 << 41, 1u128 << 42);
floats!(f64_, f64, nan64, inf64, fin64, same64, 0x0010_0000_0000_0000, 0x8000_0000_0000_0000, 1u128 << 12, 1u128 << 13);

macro_rules! equals {
    ($m:ident, $t:ident, $nan:ident, $fin:ident) => {
        pub mod $m {
            use super::*;
            contracts! { plain "C06";
                #[kani::solver(cvc5)]
                fequals "GFloat::fequals, AlmostEqual::almost_eq" (x: $t, y: $t)
                    requires $fin(x) && $fin(y);
                    call (GFloat::fequals(x, y), AlmostEqual::almost_eq(x, y)) => (bool, bool);
                    ensures |r| {
                        let d = if x - y < 0.0 { -(x - y) } else { x - y };
                        let (ax, ay) = (if x < 0.0 { -x } else { x }, if y < 0.0 { -y } else { y });
                        let m = if ax > ay { ax } else { ay };
                        let want = d < <$t as GFloat>::abs_epsilon() || d < m * <$t as GFloat>::rel_epsilon();
                        r.0 == want && r.1 == want
                    };
                fequals_nan "GFloat::fequals, AlmostEqual::almost_eq: a NaN equals nothing" (x: $t, y: $t)
                    requires $nan(x) || $nan(y);
                    call (GFloat::fequals(x, y), AlmostEqual::almost_eq(x, y)) => (bool, bool);
                    ensures |r| !r.0 && !r.1;
            }
        }
    };
}
equals!(f32_eq, f32, nan32, fin32);
equals!(f64_eq, f64, nan64, fin64);

pub fn register(v: &mut Vec<crate::Contract>) {
    macro_rules! all { ($($m:ident),*) => { $( {
        let n = v.len();
        $m::register(v);
        for c in &mut v[n..] { c.name = Box::leak(format!("{}::{}", stringify!($m), c.name).into_boxed_str()); }
    } )* } }
    all!(u8_, u16_, u32_, u64_, i8_, i16_, i32_, i64_, u8_sq, u16_sq, u32_sq, u64_sq, i8_sq, i16_sq, i32_sq, i64_sq, i8_s, i16_s, i32_s, i64_s, f32_, f64_, f32_eq, f64_eq);
}
