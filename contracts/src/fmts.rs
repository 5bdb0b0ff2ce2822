//! The bridge from the crate's public types to the format descriptions of `spec`.

use crate::spec::*;
use rustc_apfloat::{ieee, Category, Float, Round, Status};

pub trait Ty: Float + Copy {
    const F: Fmt;
    const NAME: &'static str;
}

macro_rules! ty {
    ($($t:ident $f:ident $n:literal;)*) => {
        $(impl Ty for ieee::$t { const F: Fmt = $f; const NAME: &'static str = $n; })*
    };
}
ty! {
    Half HALF "half";
    BFloat BFLOAT "bfloat";
    Single SINGLE "single";
    Double DOUBLE "double";
    Quad QUAD "quad";
    X87DoubleExtended X87 "x87";
    Float8E5M2 E5M2 "e5m2";
    Float8E4M3FN E4M3 "e4m3";
}

pub const FMT_NAMES: [&str; 8] = ["half", "bfloat", "single", "double", "quad", "x87", "e5m2", "e4m3"];
pub const FMTS: [Fmt; 8] = [HALF, BFLOAT, SINGLE, DOUBLE, QUAD, X87, E5M2, E4M3];

/// `with_fmt!(index, T => expr)`: `expr` with `T` bound to the crate's type of that index.
#[macro_export]
macro_rules! with_fmt {
    ($i:expr, $T:ident => $e:expr) => {
        match $i {
            0 => { type $T = rustc_apfloat::ieee::Half; $e }
            1 => { type $T = rustc_apfloat::ieee::BFloat; $e }
            2 => { type $T = rustc_apfloat::ieee::Single; $e }
            3 => { type $T = rustc_apfloat::ieee::Double; $e }
            4 => { type $T = rustc_apfloat::ieee::Quad; $e }
            5 => { type $T = rustc_apfloat::ieee::X87DoubleExtended; $e }
            6 => { type $T = rustc_apfloat::ieee::Float8E5M2; $e }
            _ => { type $T = rustc_apfloat::ieee::Float8E4M3FN; $e }
        }
    };
}

pub fn rnd(rm: Rm) -> Round {
    match rm {
        Rm::Ne => Round::NearestTiesToEven,
        Rm::Up => Round::TowardPositive,
        Rm::Dn => Round::TowardNegative,
        Rm::Tz => Round::TowardZero,
        Rm::Na => Round::NearestTiesToAway,
    }
}

pub fn st(s: Status) -> u8 {
    s.bits()
}

pub fn cls(c: Category) -> Cls {
    match c {
        Category::NaN => Cls::Nan,
        Category::Infinity => Cls::Inf,
        Category::Zero => Cls::Zero,
        Category::Normal => Cls::Fin,
    }
}
