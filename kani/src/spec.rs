//! Plain Rust specifications, independent of the code under contract.

// pi = 0x3.243F6A8885A308D3_13198A2E... : PI64 / 2^64 < pi < (PI64 + 1) / 2^64
pub const PI64: u128 = 0x3_243F6A8885A308D3;
pub const TAU64: u128 = 0x6_487ED5110B4611A6;
pub const PI_2_64: u128 = 0x1_921FB54442D18469;
pub const PI_4_64: u128 = 0x0_C90FDAA22168C234;

/// value * 2^64 of a float in [2^-11, 2^60), exactly
pub fn fix64(x: f64) -> Option<u128> {
    let b = x.to_bits();
    let (sign, exp, man) = (b >> 63, ((b >> 52) & 0x7ff) as i32, b & ((1 << 52) - 1));
    if sign != 0 || exp < 1012 || exp > 1082 {
        return None;
    }
    let m = (man | (1 << 52)) as u128;
    // value = m * 2^(exp - 1075); times 2^64 = m * 2^(exp - 1011)
    Some(m << (exp - 1011))
}
pub fn below(x: f64, c64: u128) -> bool {
    matches!(fix64(x), Some(v) if v <= c64)
}
pub fn above(x: f64, c64: u128) -> bool {
    matches!(fix64(x), Some(v) if v > c64)
}
/// nearest representable: within half a unit in the last place (2^-exp given in 2^-64 units)
pub fn near(x: f64, c64: u128, half_ulp64: u128) -> bool {
    matches!(fix64(x), Some(v) if if v > c64 { v - c64 <= half_ulp64 } else { c64 - v < half_ulp64 })
}

pub fn nan32(x: f32) -> bool { (x.to_bits() & 0x7fff_ffff) > 0x7f80_0000 }
pub fn inf32(x: f32) -> bool { (x.to_bits() & 0x7fff_ffff) == 0x7f80_0000 }
pub fn fin32(x: f32) -> bool { (x.to_bits() & 0x7f80_0000) != 0x7f80_0000 }
pub fn nan64(x: f64) -> bool { (x.to_bits() & 0x7fff_ffff_ffff_ffff) > 0x7ff0_0000_0000_0000 }
pub fn inf64(x: f64) -> bool { (x.to_bits() & 0x7fff_ffff_ffff_ffff) == 0x7ff0_0000_0000_0000 }
pub fn fin64(x: f64) -> bool { (x.to_bits() & 0x7ff0_0000_0000_0000) != 0x7ff0_0000_0000_0000 }
pub fn same32(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (nan32(a) && nan32(b)) }
pub fn same64(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (nan64(a) && nan64(b)) }

/// a finite f32 is <= an integer / >= an integer, exactly
pub fn le_int(x: f64, v: i64) -> bool {
    // |v| <= 2^63; compare without rounding v
    if x >= 9223372036854775808.0 { return false; }
    if x < -9223372036854775808.0 { return true; }
    let t = x as i64; // truncation, |t| <= |x|
    if t == v { x <= 0.0 || (t as f64 == x && fin64(x)) || exact_trunc_le(x, t) } else { t < v }
}
fn exact_trunc_le(x: f64, t: i64) -> bool {
    // x >= t here; equal iff x has no fraction
    x.fract() == 0.0
}
pub fn ge_int(x: f64, v: i64) -> bool {
    if x >= 9223372036854775808.0 { return true; }
    if x < -9223372036854775808.0 { return false; }
    let t = x as i64;
    if t == v { x >= 0.0 || x.fract() == 0.0 } else { t > v }
}
