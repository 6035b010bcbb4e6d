//! C06: the provided (default) bodies of the scalar traits, over all reals.  The
//! bit-precise contracts of the f32, f64 and integer instances are in /verif/kani.
use super::util::*;
use crate::contracts;
use crate::ctx::*;
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};

/// A scalar that overrides nothing, so that the provided bodies run.
#[cfg(scarlet_verif)]
mod plain {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Plain(pub R);
    impl PartialOrd for Plain {
        fn partial_cmp(&self, o: &Plain) -> Option<std::cmp::Ordering> {
            self.0.partial_cmp(&o.0)
        }
        fn lt(&self, o: &Plain) -> bool {
            self.0 < o.0
        }
        fn le(&self, o: &Plain) -> bool {
            self.0 <= o.0
        }
        fn gt(&self, o: &Plain) -> bool {
            self.0 > o.0
        }
        fn ge(&self, o: &Plain) -> bool {
            self.0 >= o.0
        }
    }
    macro_rules! plain_ops {
        ($($t:ident $f:ident $ta:ident $fa:ident $o:tt)*) => { $(
            impl std::ops::$t for Plain {
                type Output = Plain;
                fn $f(self, o: Plain) -> Plain {
                    Plain(self.0 $o o.0)
                }
            }
            impl std::ops::$ta for Plain {
                fn $fa(&mut self, o: Plain) {
                    *self = *self $o o;
                }
            }
        )* };
    }
    plain_ops! { Add add AddAssign add_assign + Sub sub SubAssign sub_assign - Mul mul MulAssign mul_assign *
        Div div DivAssign div_assign / Rem rem RemAssign rem_assign % }
    impl Scalar for Plain {
        fn zero() -> Plain {
            Plain(R::zero())
        }
        fn one() -> Plain {
            Plain(R::one())
        }
        fn lowest() -> Plain {
            Plain(R::lowest())
        }
        fn highest() -> Plain {
            Plain(R::highest())
        }
    }
    pub fn plain(a: R) -> Plain {
        Plain(a)
    }
    pub fn value(a: Plain) -> R {
        a.0
    }
}
/// f32 and f64 override nothing.
#[cfg(not(scarlet_verif))]
mod plain {
    use super::*;
    pub fn plain(a: R) -> R {
        a
    }
    pub fn value(a: R) -> R {
        a
    }
}
use plain::{plain, value};

contracts! {
    scalar_minmax [C06 Exact] covers ["Scalar::min (provided)", "Scalar::max (provided)", "Scalar::min_max (provided)"] |c| {
        let (a, b) = (c.r("a"), c.r("b"));
        let (p, q) = (plain(a), plain(b));
        c.ensure("min", eq(value(Scalar::min(p, q)), x(a).min(x(b))));
        c.ensure("max", eq(value(Scalar::max(p, q)), x(a).max(x(b))));
        let (lo, hi) = Scalar::min_max(p, q);
        let (lo, hi) = (value(lo), value(hi));
        c.ensure("min_max.0", eq(lo, x(a).min(x(b))));
        c.ensure("min_max.1", eq(hi, x(a).max(x(b))));
    }
    scalar_clamp [C06 Exact] covers ["Scalar::clamp (provided)", "Scalar::in_range (provided)"] |c| {
        let (a, lo, hi) = (c.r("a"), c.r("lo"), c.r("hi"));
        c.ensure("in_range", truth(Scalar::in_range(a, lo, hi)).iff(le(lo, a).and(le(a, hi))));
        c.require(le(lo, hi));
        let r = Scalar::clamp(a, lo, hi);
        c.ensure("in the range", le(lo, r).and(le(r, hi)));
        c.ensure("unchanged inside", le(lo, a).and(le(a, hi)).implies(eq(r, a)));
        c.ensure("lower end below", lt(a, lo).implies(eq(r, lo)));
        c.ensure("upper end above", gt(a, hi).implies(eq(r, hi)));
    }
    scalar_small [C06 Exact] covers ["Scalar::{two,is_one,is_zero,square} (provided)", "SignedScalar::{is_positive,is_negative,is_nonpositive,is_nonnegative,signum,abs} (provided)", "GFloat::recip (provided)"] |c| {
        let a = c.r("a");
        c.ensure("two", eq(R::two(), 2.0));
        c.ensure("is_one", truth(Scalar::is_one(a)).iff(eq(a, 1.0)));
        c.ensure("is_zero", truth(Scalar::is_zero(a)).iff(eq(a, 0.0)));
        c.ensure("square", eq(Scalar::square(a), x(a) * a));
        c.ensure("is_positive", truth(SignedScalar::is_positive(a)).iff(gt(a, 0.0)));
        c.ensure("is_negative", truth(SignedScalar::is_negative(a)).iff(lt(a, 0.0)));
        c.ensure("is_nonpositive", truth(SignedScalar::is_nonpositive(a)).iff(le(a, 0.0)));
        c.ensure("is_nonnegative", truth(SignedScalar::is_nonnegative(a)).iff(ge(a, 0.0)));
        let s = SignedScalar::signum(a);
        c.ensure("signum of positive", gt(a, 0.0).implies(eq(s, 1.0)));
        c.ensure("signum of negative", lt(a, 0.0).implies(eq(s, -1.0)));
        c.ensure("signum of zero", eq(a, 0.0).implies(eq(s, 0.0)));
        c.ensure("abs", eq(SignedScalar::abs(a), x(a).abs()));
        c.require(ne(a, 0.0));
        c.ensure("recip", eq(x(GFloat::recip(a)) * a, 1.0));
    }
    scalar_fequals [C06 Exact] covers ["GFloat::fequals (provided)", "AlmostEqual for the scalar"] |c| {
        let (a, b) = (c.r("a"), c.r("b"));
        let d = (x(a) - b).abs();
        let m = x(a).abs().max(x(b).abs());
        let want = lt(d, <R as GFloat>::abs_epsilon()).or(lt(d, m * x(<R as GFloat>::rel_epsilon())));
        c.ensure("fequals", truth(GFloat::fequals(a, b)).iff(want));
        c.ensure("almost_eq", truth(AlmostEqual::almost_eq(a, b)).iff(want));
    }
}
