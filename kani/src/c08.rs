//! Matrices of integers.
use crate::contracts;
use scarlet::math::transform::*;

pub mod ints_ {
    use super::*;
    /// sixteen 4-bit entries
    pub fn small(x: u64) -> [[i32; 4]; 4] {
        let e = |i: u32| ((x >> (4 * i)) & 15) as i32 - 8;
        [[e(0), e(1), e(2), e(3)], [e(4), e(5), e(6), e(7)], [e(8), e(9), e(10), e(11)], [e(12), e(13), e(14), e(15)]]
    }
    /// sixteen 8-bit entries
    pub fn entries(lo: u64, hi: u64) -> [[i32; 4]; 4] {
        let (l, h) = (lo.to_le_bytes(), hi.to_le_bytes());
        let e = |i: usize| (if i < 8 { l[i] } else { h[i - 8] }) as i8 as i32;
        [[e(0), e(1), e(2), e(3)], [e(4), e(5), e(6), e(7)], [e(8), e(9), e(10), e(11)], [e(12), e(13), e(14), e(15)]]
    }
    fn is_product(r: &[[i32; 4]; 4], a: [[i32; 4]; 4], b: [[i32; 4]; 4]) -> bool {
        let e = |i: usize, j: usize| r[i][j] == a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j];
        let row = |i: usize| e(i, 0) && e(i, 1) && e(i, 2) && e(i, 3);
        row(0) && row(1) && row(2) && row(3)
    }
    fn is_scaled(r: &[[i32; 4]; 4], a: [[i32; 4]; 4], s: i32) -> bool {
        let e = |i: usize, j: usize| r[i][j] == s * a[i][j];
        let row = |i: usize| e(i, 0) && e(i, 1) && e(i, 2) && e(i, 3);
        row(0) && row(1) && row(2) && row(3)
    }
    contracts! { plain "C08";
        product "bounded (entries of 4 bits): Matrix4x4 * Matrix4x4 of i32" (a: u64, b: u64)
            requires true;
            call (Matrix4x4::from(small(a)) * Matrix4x4::from(small(b))).data => [[i32; 4]; 4];
            ensures |r| is_product(r, small(a), small(b));
        scaled "bounded (entries of 4 bits): Matrix4x4 * scalar of i32" (a: u64, s: i8)
            requires true;
            call (Matrix4x4::from(small(a)) * (s as i32)).data => [[i32; 4]; 4];
            ensures |r| is_scaled(r, small(a), s as i32);
        shape "bounded (entries of 8 bits): Matrix4x4::transpose, row, col, index, ==, identity, zero of i32" (a0: u64, a1: u64, b0: u64, b1: u64, i: u8, j: u8)
            requires i < 4 && j < 4;
            call {
                let (m, i, j) = (Matrix4x4::from(entries(a0, a1)), i as usize, j as usize);
                ([m.transpose()[(j, i)], m.row(i)[j], m.col(j)[i], m[i][j], m[(i, j)], m.row_vec(i)[j], m.col_vec(j)[i]],
                 [Matrix4x4::<i32>::identity()[(i, j)], Matrix4x4::<i32>::zero()[(i, j)]], m == Matrix4x4::from(entries(b0, b1)))
            } => ([i32; 7], [i32; 2], bool);
            ensures |r| {
                let e = entries(a0, a1)[i as usize][j as usize];
                r.0 == [e; 7] && r.1 == [(i == j) as i32, 0] && r.2 == (a0 == b0 && a1 == b1)
            };
    }
}

pub fn register(v: &mut Vec<crate::Contract>) {
    let n = v.len();
    ints_::register(v);
    for c in &mut v[n..] { c.name = Box::leak(format!("ints_::{}", c.name).into_boxed_str()); }
}
