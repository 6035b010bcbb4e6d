//! C08: 4x4 matrix algebra and the inverse.
use super::util::*;
use crate::contracts;
use crate::ctx::*;
use scarlet::math::scalar::{AlmostEqual, GFloat};
use scarlet::math::transform::*;

fn det3(a: [[X; 3]; 3]) -> X {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}
pub fn det4(m: M4) -> X {
    let mut s = zero();
    for c in 0..4 {
        let sub: [[X; 3]; 3] = std::array::from_fn(|i| {
            std::array::from_fn(|j| m[i + 1][if j < c { j } else { j + 1 }])
        });
        let t = m[0][c] * det3(sub);
        s = if c % 2 == 0 { s + t } else { s - t };
    }
    s
}

contracts! {
    mat_basics [C08 Exact] covers ["Matrix4x4::{new,default,identity,zero,transpose,row,col,row_vec,col_vec,index,index_mut,from}"] |c| {
        ens_meq(c, "identity", mx(Matrix4x4::<R>::identity()), ident());
        ens_meq(c, "new", mx(Matrix4x4::<R>::new()), ident());
        ens_meq(c, "default", mx(Matrix4x4::<R>::default()), ident());
        ens_meq(c, "zero", mx(Matrix4x4::<R>::zero()), [[zero(); 4]; 4]);
        let m = rm(c, "m");
        let mm = mx(m);
        ens_meq(c, "transpose", mx(m.transpose()), std::array::from_fn(|i| std::array::from_fn(|j| mm[j][i])));
        for i in 0..4 {
            let col: [X; 4] = std::array::from_fn(|j| mm[j][i]);
            ens_eq(c, "row", m.row(i).map(|a| x(a)), mm[i]);
            ens_eq(c, "col", m.col(i).map(|a| x(a)), col);
            ens_eq(c, "row_vec", xs(m.row_vec(i)), mm[i]);
            ens_eq(c, "col_vec", xs(m.col_vec(i)), col);
            ens_eq(c, "index", m[i].map(|a| x(a)), mm[i]);
            for j in 0..4 {
                c.ensure("index pair", eq(m[(i, j)], mm[i][j]));
                let t = c.r("t");
                let mut a = m;
                a[(i, j)] = t;
                let mut b = m;
                b[i][j] = t;
                let want: M4 = std::array::from_fn(|r| std::array::from_fn(|s| if (r, s) == (i, j) { x(t) } else { mm[r][s] }));
                ens_meq(c, "assign through index pair", mx(a), want);
                ens_meq(c, "assign through index", mx(b), want);
            }
        }
    }
    mat_mul [C08 Exact] covers ["Matrix4x4 * Matrix4x4", "Matrix4x4 * scalar"] |c| {
        let a = rm(c, "a");
        let b = rm(c, "b");
        let s = c.r("s");
        ens_meq(c, "a * b", mx(a * b), mmul(mx(a), mx(b)));
        ens_meq(c, "a * s", mx(a * s), mx(a).map(|r| r.map(|e| e * x(s))));
        ens_meq(c, "a * 1", mx(a * Matrix4x4::identity()), mx(a));
        ens_meq(c, "1 * a", mx(Matrix4x4::identity() * a), mx(a));
    }
    mat_inverse [C08 Exact] covers ["Matrix4x4::inverse", "inverse_impl"] |c| {
        let m = rm(c, "m");
        c.require(ne(det4(mx(m)), 0.0));
        let i = m.inverse();
        ens_meq(c, "m * inverse", mmul(mx(m), mx(i)), ident());
        ens_meq(c, "inverse * m", mmul(mx(i), mx(m)), ident());
    }
    mat_equality [C08 Exact] covers ["Matrix4x4::eq", "Matrix4x4::almost_eq"] |c| {
        let m = rm(c, "m");
        let (i, j) = (c.pick("row", 4), c.pick("col", 4));
        let mut b = m;
        b[i][j] = c.r("t");
        c.ensure("equal to itself", B::c(m == m));
        c.ensure("equal iff all entries are", B::c(m == b).iff(eq(m[i][j], b[i][j])));
        c.ensure("almost equal iff all entries are", B::c(m.almost_eq(b) == m[i][j].fequals(b[i][j])));
    }
}
