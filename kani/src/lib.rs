//! Bit-precise contracts on the scalar layer of scarlet, discharged by Kani (CBMC)
//! for every bit pattern of every argument.  All functions are loop-free, so there
//! is no unwinding bound.  The same contracts can be run on concrete arguments
//! (`src/main.rs`), which is how Kani's counterexamples are replayed.
//!
//! Every contract is a function whose body is a single call of the real function;
//! the function carries `kani::requires` / `kani::ensures` and is checked by
//! `kani::proof_for_contract`.  A quantifier inside a postcondition ("for every
//! float y ...") is an extra unconstrained argument of the contract.
#![allow(clippy::all, unused)]

pub mod spec;
mod c05;
mod c06;
mod c01;
mod c02;
mod c03;
mod c04;
mod c07;
mod c08;

pub trait Val: Sized + Copy + std::fmt::Debug {
    fn from_u64(b: u64) -> Self;
    fn bits(self) -> u64;
    const WIDTH: usize;
    const FLOAT: bool = false;
}
macro_rules! val_int { ($($t:ty),*) => { $( impl Val for $t {
    fn from_u64(b: u64) -> Self { b as $t }
    fn bits(self) -> u64 { self as u64 }
    const WIDTH: usize = std::mem::size_of::<$t>();
} )* } }
val_int!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Val for f32 {
    fn from_u64(b: u64) -> Self { f32::from_bits(b as u32) }
    fn bits(self) -> u64 { self.to_bits() as u64 }
    const WIDTH: usize = 4;
    const FLOAT: bool = true;
}
impl Val for f64 {
    fn from_u64(b: u64) -> Self { f64::from_bits(b) }
    fn bits(self) -> u64 { self.to_bits() }
    const WIDTH: usize = 8;
    const FLOAT: bool = true;
}

pub enum Outcome {
    Held,
    Rejected,
    Failed(String),
}

/// where the arguments of a concrete run come from
pub trait Source {
    fn next(&mut self, width: usize, float: bool) -> u64;
}

pub struct Contract {
    pub prop: &'static str,
    pub name: &'static str,
    pub covers: &'static str,
    pub run: fn(&mut dyn Source) -> Outcome,
}

pub fn contracts() -> Vec<Contract> {
    let mut v = Vec::new();
    macro_rules! all { ($($m:ident),*) => { $( {
        let n = v.len();
        $m::register(&mut v);
        for c in &mut v[n..] { c.name = Box::leak(format!("{}::{}", stringify!($m), c.name).into_boxed_str()); }
    } )* } }
    all!(c01, c02, c03, c04, c05, c06, c07, c08);
    v
}

/// contracts! { PROP; name "what it covers" (args) requires e; call e => Type; ensures |r| e; ... }
#[macro_export]
macro_rules! contracts {
    // the same contract, checked by assuming `requires`, calling and asserting `ensures`:
    // Kani's frame instrumentation makes loops slow
    (plain $prop:literal; $( $(#[$attr:meta])* $name:ident $covers:literal ( $($a:ident : $t:ty),* )
        requires $req:expr; call $body:expr => $r:ty; ensures |$res:ident| $ens:expr; )*) => {
        $(
            #[allow(non_snake_case)]
            pub mod $name {
                use super::*;
                pub fn contract($($a: $t),*) -> $r {
                    $body
                }
                #[cfg(kani)]
                #[kani::proof]
                $(#[$attr])*
                fn proof() {
                    $( let $a: $t = kani::any(); )*
                    kani::assume($req);
                    let result = contract($($a),*);
                    let $res = &result;
                    assert!($ens, "postcondition");
                }
                $crate::runner!(($($a: $t),*) $req; |$res| $ens);
            }
        )*
        $crate::registry!($prop; $( $name $covers )*);
    };
    ($prop:literal; $( $(#[$attr:meta])* $name:ident $covers:literal ( $($a:ident : $t:ty),* )
        requires $req:expr; call $body:expr => $r:ty; ensures |$res:ident| $ens:expr; )*) => {
        $(
            #[allow(non_snake_case)]
            pub mod $name {
                use super::*;
                #[cfg_attr(kani, kani::requires($req))]
                #[cfg_attr(kani, kani::ensures(|$res: &$r| $ens))]
                pub fn contract($($a: $t),*) -> $r {
                    $body
                }
                #[cfg(kani)]
                #[kani::proof_for_contract(contract)]
                $(#[$attr])*
                fn proof() {
                    $( let $a: $t = kani::any(); )*
                    contract($($a),*);
                }
                $crate::runner!(($($a: $t),*) $req; |$res| $ens);
            }
        )*
        $crate::registry!($prop; $( $name $covers )*);
    };
}

#[macro_export]
macro_rules! runner {
    (($($a:ident : $t:ty),*) $req:expr; |$res:ident| $ens:expr) => {
        pub fn run(src: &mut dyn $crate::Source) -> $crate::Outcome {
            $( let $a: $t = <$t as $crate::Val>::from_u64(src.next(<$t as $crate::Val>::WIDTH, <$t as $crate::Val>::FLOAT)); )*
            if !($req) {
                return $crate::Outcome::Rejected;
            }
            let args: Vec<String> = vec![$( format!("{} = {:?} (bits {:#x})", stringify!($a), $a, <$t as $crate::Val>::bits($a)) ),*];
            let args = args.join(", ");
            match std::panic::catch_unwind(|| contract($($a),*)) {
                Err(_) => $crate::Outcome::Failed(format!("{}: panics", args)),
                Ok(result) => {
                    let $res = &result;
                    if $ens { $crate::Outcome::Held } else { $crate::Outcome::Failed(format!("{}: result {:?}", args, result)) }
                }
            }
        }
    };
}
#[macro_export]
macro_rules! registry {
    ($prop:literal; $( $name:ident $covers:literal )*) => {
        pub fn register(v: &mut Vec<$crate::Contract>) {
            $( v.push($crate::Contract { prop: $prop, name: stringify!($name), covers: $covers, run: $name::run }); )*
        }
    };
}
