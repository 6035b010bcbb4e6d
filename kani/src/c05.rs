use crate::contracts;
use crate::spec::*;
use scarlet::math::scalar::GFloat;

contracts! { "C05";
    next_up_f32 "GFloat::next_up for f32" (x: f32, y: f32)
        requires true;
        call <f32 as GFloat>::next_up(x) => f32;
        ensures |r| if nan32(x) { nan32(*r) } else if x == f32::INFINITY { *r == f32::INFINITY } else {
            *r > x && !(x < y && y < *r)
        };
    next_down_f32 "GFloat::next_down for f32" (x: f32, y: f32)
        requires true;
        call <f32 as GFloat>::next_down(x) => f32;
        ensures |r| if nan32(x) { nan32(*r) } else if x == f32::NEG_INFINITY { *r == f32::NEG_INFINITY } else {
            *r < x && !(*r < y && y < x)
        };
    next_up_f64 "GFloat::next_up for f64" (x: f64, y: f64)
        requires true;
        call <f64 as GFloat>::next_up(x) => f64;
        ensures |r| if nan64(x) { nan64(*r) } else if x == f64::INFINITY { *r == f64::INFINITY } else {
            *r > x && !(x < y && y < *r)
        };
    next_down_f64 "GFloat::next_down for f64" (x: f64, y: f64)
        requires true;
        call <f64 as GFloat>::next_down(x) => f64;
        ensures |r| if nan64(x) { nan64(*r) } else if x == f64::NEG_INFINITY { *r == f64::NEG_INFINITY } else {
            *r < x && !(*r < y && y < x)
        };
    round_trip_f32 "next_up and next_down undo each other (f32)" (x: f32)
        requires fin32(x);
        call (GFloat::next_down(GFloat::next_up(x)), GFloat::next_up(GFloat::next_down(x))) => (f32, f32);
        ensures |r| (r.0 == x || x == f32::MAX) && (r.1 == x || x == f32::MIN);
    round_trip_f64 "next_up and next_down undo each other (f64)" (x: f64)
        requires fin64(x);
        call (GFloat::next_down(GFloat::next_up(x)), GFloat::next_up(GFloat::next_down(x))) => (f64, f64);
        ensures |r| (r.0 == x || x == f64::MAX) && (r.1 == x || x == f64::MIN);
}
