//! The contracts, one module per part of the library.
use crate::ctx::Contract;

/// contracts! { fn name [PROP Mode] covers [..] |c| body ... }
#[macro_export]
macro_rules! contracts {
    ($( $name:ident [$prop:ident $mode:ident] covers [$($cov:expr),* $(,)?] |$c:ident| $body:block )*) => {
        $( fn $name($c: &mut $crate::ctx::Ctx) $body )*
        pub fn list() -> Vec<$crate::ctx::Contract> {
            vec![$( $crate::ctx::Contract {
                prop: stringify!($prop),
                name: stringify!($name),
                mode: $crate::ctx::Mode::$mode,
                covers: &[$($cov),*],
                run: $name,
            } ),*]
        }
    };
}

#[cfg(feature = "bbox")]
mod bbox;
#[cfg(feature = "camera")]
mod camera;
#[cfg(feature = "interval")]
mod interval;
#[cfg(feature = "ivector")]
mod ivector;
#[cfg(feature = "matrix")]
mod matrix;
#[cfg(feature = "primitive")]
mod primitive;
#[cfg(feature = "scalar")]
mod scalar;
#[cfg(feature = "sphere")]
mod sphere;
#[cfg(feature = "transform")]
mod transform;
mod util;
#[cfg(feature = "vector")]
mod vector;

pub fn all_contracts() -> Vec<Contract> {
    let mut v = vec![];
    #[cfg(feature = "interval")]
    v.extend(interval::list());
    #[cfg(feature = "vector")]
    v.extend(vector::list());
    #[cfg(feature = "bbox")]
    v.extend(bbox::list());
    #[cfg(feature = "matrix")]
    v.extend(matrix::list());
    #[cfg(feature = "transform")]
    v.extend(transform::list());
    #[cfg(feature = "sphere")]
    v.extend(sphere::list());
    #[cfg(feature = "primitive")]
    v.extend(primitive::list());
    #[cfg(feature = "camera")]
    v.extend(camera::list());
    #[cfg(feature = "scalar")]
    v.extend(scalar::list());
    #[cfg(feature = "ivector")]
    v.extend(ivector::list());
    v
}
