//! Vectors of integers: the generic code must not assume that division is exact.
use crate::contracts;
use scarlet::math::scalar::*;
use scarlet::math::vector::*;

macro_rules! ints {
    ($m:ident, $t:ident) => {
        pub mod $m {
            use super::*;
            type V = Vector<$t, 3>;
            type P = Point<$t, 3>;
            fn v(a: $t, b: $t, c: $t) -> V { V::new(a, b, c) }
            fn pair(r: [$t; 3]) -> ($t, $t, $t) { (r[0], r[1], r[2]) }
            contracts! { plain "C07";
                div_scalar "GenericVector / scalar (integers)" (a: $t, b: $t, c: $t, s: $t)
                    requires a.checked_div(s).is_some() && b.checked_div(s).is_some() && c.checked_div(s).is_some();
                    call pair((v(a, b, c) / s).vec) => ($t, $t, $t);
                    ensures |r| r.0 == a / s && r.1 == b / s && r.2 == c / s;
                div_vector "GenericVector / GenericVector (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires a.checked_div(d).is_some() && b.checked_div(e).is_some() && c.checked_div(f).is_some();
                    call pair((v(a, b, c) / v(d, e, f)).vec) => ($t, $t, $t);
                    ensures |r| r.0 == a / d && r.1 == b / e && r.2 == c / f;
                mul_scalar "GenericVector * scalar (integers)" (a: $t, b: $t, c: $t, s: $t)
                    requires a.checked_mul(s).is_some() && b.checked_mul(s).is_some() && c.checked_mul(s).is_some();
                    call pair((v(a, b, c) * s).vec) => ($t, $t, $t);
                    ensures |r| r.0 == a * s && r.1 == b * s && r.2 == c * s;
                mul_vector "GenericVector * GenericVector (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires a.checked_mul(d).is_some() && b.checked_mul(e).is_some() && c.checked_mul(f).is_some();
                    call pair((v(a, b, c) * v(d, e, f)).vec) => ($t, $t, $t);
                    ensures |r| r.0 == a * d && r.1 == b * e && r.2 == c * f;
                add_assign "GenericVector += GenericVector (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires a.checked_add(d).is_some() && b.checked_add(e).is_some() && c.checked_add(f).is_some();
                    call { let mut x = v(a, b, c); x += v(d, e, f); pair(x.vec) } => ($t, $t, $t);
                    ensures |r| r.0 == a + d && r.1 == b + e && r.2 == c + f;
                sub_assign "GenericVector -= GenericVector (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires a.checked_sub(d).is_some() && b.checked_sub(e).is_some() && c.checked_sub(f).is_some();
                    call { let mut x = v(a, b, c); x -= v(d, e, f); pair(x.vec) } => ($t, $t, $t);
                    ensures |r| r.0 == a - d && r.1 == b - e && r.2 == c - f;
                point_add "Point + Vector, Vector + Point (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires a.checked_add(d).is_some() && b.checked_add(e).is_some() && c.checked_add(f).is_some();
                    call (pair((P::new(a, b, c) + v(d, e, f)).vec), pair((v(a, b, c) + P::new(d, e, f)).vec)) => (($t, $t, $t), ($t, $t, $t));
                    ensures |r| r.0 == (a + d, b + e, c + f) && r.1 == r.0;
                point_less "Point - Vector (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires a.checked_sub(d).is_some() && b.checked_sub(e).is_some() && c.checked_sub(f).is_some();
                    call pair((P::new(a, b, c) - v(d, e, f)).vec) => ($t, $t, $t);
                    ensures |r| *r == (a - d, b - e, c - f);
                equal "GenericVector == (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires true;
                    call v(a, b, c) == v(d, e, f) => bool;
                    ensures |r| *r == (a == d && b == e && c == f);
                add "GenericVector + GenericVector (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires a.checked_add(d).is_some() && b.checked_add(e).is_some() && c.checked_add(f).is_some();
                    call pair((v(a, b, c) + v(d, e, f)).vec) => ($t, $t, $t);
                    ensures |r| r.0 == a + d && r.1 == b + e && r.2 == c + f;
                sub "GenericVector - GenericVector (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires a.checked_sub(d).is_some() && b.checked_sub(e).is_some() && c.checked_sub(f).is_some();
                    call pair((v(a, b, c) - v(d, e, f)).vec) => ($t, $t, $t);
                    ensures |r| r.0 == a - d && r.1 == b - e && r.2 == c - f;
                point_sub "Point - Point (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires a.checked_sub(d).is_some() && b.checked_sub(e).is_some() && c.checked_sub(f).is_some();
                    call pair((P::new(a, b, c) - P::new(d, e, f)).vec) => ($t, $t, $t);
                    ensures |r| r.0 == a - d && r.1 == b - e && r.2 == c - f;
                min "GenericVector::min (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires true;
                    call pair(v(a, b, c).min(v(d, e, f)).vec) => ($t, $t, $t);
                    ensures |r| r.0 == (if a < d { a } else { d }) && r.1 == (if b < e { b } else { e }) && r.2 == (if c < f { c } else { f });
                max "GenericVector::max (integers)" (a: $t, b: $t, c: $t, d: $t, e: $t, f: $t)
                    requires true;
                    call pair(v(a, b, c).max(v(d, e, f)).vec) => ($t, $t, $t);
                    ensures |r| r.0 == (if a < d { d } else { a }) && r.1 == (if b < e { e } else { b }) && r.2 == (if c < f { f } else { c });
            }
        }
    };
}
ints!(i8_, i8);
ints!(u8_, u8);

pub mod signed_ {
    use super::*;
    fn v(a: i8, b: i8, c: i8) -> Vector3<i32> { Vector3::new(a as i32, b as i32, c as i32) }
    fn k(x: i8) -> i32 { x as i32 }
    contracts! { plain "C07";
        dot "bounded (components of 8 bits): GenericVector::dot of i32" (a: i8, b: i8, c: i8, d: i8, e: i8, f: i8)
            requires true;
            call v(a, b, c).dot(v(d, e, f)) => i32;
            ensures |r| *r == k(a) * k(d) + k(b) * k(e) + k(c) * k(f);
        cross "bounded (components of 8 bits): GenericVector::cross of i32" (a: i8, b: i8, c: i8, d: i8, e: i8, f: i8)
            requires true;
            call { let r = v(a, b, c).cross(v(d, e, f)).vec; (r[0], r[1], r[2]) } => (i32, i32, i32);
            ensures |r| r.0 == k(b) * k(f) - k(c) * k(e) && r.1 == k(c) * k(d) - k(a) * k(f) && r.2 == k(a) * k(e) - k(b) * k(d);
        square_norm "bounded (components of 8 bits): GenericVector::square_norm of i32" (a: i8, b: i8, c: i8)
            requires true;
            call v(a, b, c).square_norm() => i32;
            ensures |r| *r == k(a) * k(a) + k(b) * k(b) + k(c) * k(c);
        square_distance "bounded (components of 8 bits): GenericVector::square_distance of i32" (a: i8, b: i8, c: i8, d: i8, e: i8, f: i8)
            requires true;
            call v(a, b, c).square_distance(v(d, e, f)) => i32;
            ensures |r| *r == (k(a) - k(d)) * (k(a) - k(d)) + (k(b) - k(e)) * (k(b) - k(e)) + (k(c) - k(f)) * (k(c) - k(f));
        neg "-GenericVector (i32)" (a: i32, b: i32, c: i32)
            requires a != i32::MIN && b != i32::MIN && c != i32::MIN;
            call { let r = (-Vector3::new(a, b, c)).vec; (r[0], r[1], r[2]) } => (i32, i32, i32);
            ensures |r| *r == (-a, -b, -c);
    }
}

pub fn register(v: &mut Vec<crate::Contract>) {
    macro_rules! all { ($($m:ident),*) => { $( {
        let n = v.len();
        $m::register(v);
        for c in &mut v[n..] { c.name = Box::leak(format!("{}::{}", stringify!($m), c.name).into_boxed_str()); }
    } )* } }
    all!(i8_, u8_, signed_);
}
