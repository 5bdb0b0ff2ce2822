//! Kani proof harnesses: the executable contracts of `chk`, on the full symbolic domain of the real
//! public functions.  No bound other than the loop unwindings (limb counts fixed by the format;
//! checked by unwinding assertions).  Each harness draws its inputs in the order `a, b, c, n, rm`
//! (only those its operation takes), which is the order the driver reads a counterexample back in.
//!
//! The name says what it is: k_<operation>_<format>[_<target format>].

use crate::chk;
use crate::fmts::*;
use crate::spec::*;
use rustc_apfloat::ieee::*;

fn word<T: Ty>() -> u128 {
    let a: u128 = kani::any();
    kani::assume(a <= T::F.all());
    a
}
fn raw() -> u128 {
    kani::any()
}
fn rm() -> Rm {
    let r: u8 = kani::any();
    kani::assume(r < 5);
    RMS[r as usize]
}
fn width() -> u32 {
    let n: u32 = kani::any();
    kani::assume(n >= 1 && n <= 128);
    n
}
fn scale() -> i32 {
    kani::any()
}
fn hold(p: chk::Pair) {
    let (g, w) = p;
    kani::cover!(true, "the harness reaches its assertion");
    assert!(g.v == w.v, "value");
    assert!(g.s == w.s, "status");
    assert!(g.x == w.x, "secondary result");
}

macro_rules! harness {
    ($($name:ident: $e:expr;)*) => {
        $(#[kani::proof]
        #[kani::unwind(18)]
        fn $name() {
            hold($e)
        })*
    };
}
macro_rules! per_format {
    ($($T:ident $bits:ident $add:ident $sub:ident $mul:ident $cmp:ident $min:ident $max:ident $minimum:ident $maximum:ident
       $to_u:ident $to_i:ident $from_u:ident $from_i:ident $round_int:ident $is_integer:ident $next_up:ident $next_down:ident
       $scalbn:ident $ilogb:ident $frexp:ident $signs:ident $consts:ident;)*) => {
        harness! { $(
            $bits: chk::bits::<$T>(word::<$T>());
            $add: chk::add::<$T>(word::<$T>(), word::<$T>(), rm());
            $sub: chk::sub::<$T>(word::<$T>(), word::<$T>(), rm());
            $mul: chk::mul::<$T>(word::<$T>(), word::<$T>(), rm());
            $cmp: chk::cmp::<$T>(word::<$T>(), word::<$T>());
            $min: chk::minmax::<$T>(0, word::<$T>(), word::<$T>());
            $max: chk::minmax::<$T>(1, word::<$T>(), word::<$T>());
            $minimum: chk::minmax::<$T>(2, word::<$T>(), word::<$T>());
            $maximum: chk::minmax::<$T>(3, word::<$T>(), word::<$T>());
            $to_u: chk::to_u::<$T>(word::<$T>(), width(), rm());
            $to_i: chk::to_i::<$T>(word::<$T>(), width(), rm());
            $from_u: chk::from_u::<$T>(raw(), rm());
            $from_i: chk::from_i::<$T>(raw(), rm());
            $round_int: chk::round_int::<$T>(word::<$T>(), rm());
            $is_integer: chk::is_integer::<$T>(word::<$T>());
            $next_up: chk::next_up::<$T>(word::<$T>());
            $next_down: chk::next_down::<$T>(word::<$T>());
            $scalbn: chk::scalbn::<$T>(word::<$T>(), scale(), rm());
            $ilogb: chk::ilogb::<$T>(word::<$T>());
            $frexp: chk::frexp::<$T>(word::<$T>(), rm());
            $signs: chk::signs::<$T>(word::<$T>(), word::<$T>());
            $consts: chk::consts::<$T>(raw());
        )* }
    };
}
macro_rules! conv {
    ($($name:ident $T:ident $U:ident;)*) => { harness! { $($name: chk::convert::<$T, $U>(word::<$T>(), rm());)* } };
}
per_format! {
    Half k_bits_half k_add_half k_sub_half k_mul_half k_cmp_half k_min_half k_max_half k_minimum_half k_maximum_half k_to_u_half k_to_i_half k_from_u_half k_from_i_half k_round_int_half k_is_integer_half k_next_up_half k_next_down_half k_scalbn_half k_ilogb_half k_frexp_half k_signs_half k_consts_half;
    BFloat k_bits_bfloat k_add_bfloat k_sub_bfloat k_mul_bfloat k_cmp_bfloat k_min_bfloat k_max_bfloat k_minimum_bfloat k_maximum_bfloat k_to_u_bfloat k_to_i_bfloat k_from_u_bfloat k_from_i_bfloat k_round_int_bfloat k_is_integer_bfloat k_next_up_bfloat k_next_down_bfloat k_scalbn_bfloat k_ilogb_bfloat k_frexp_bfloat k_signs_bfloat k_consts_bfloat;
    Single k_bits_single k_add_single k_sub_single k_mul_single k_cmp_single k_min_single k_max_single k_minimum_single k_maximum_single k_to_u_single k_to_i_single k_from_u_single k_from_i_single k_round_int_single k_is_integer_single k_next_up_single k_next_down_single k_scalbn_single k_ilogb_single k_frexp_single k_signs_single k_consts_single;
    Double k_bits_double k_add_double k_sub_double k_mul_double k_cmp_double k_min_double k_max_double k_minimum_double k_maximum_double k_to_u_double k_to_i_double k_from_u_double k_from_i_double k_round_int_double k_is_integer_double k_next_up_double k_next_down_double k_scalbn_double k_ilogb_double k_frexp_double k_signs_double k_consts_double;
    Quad k_bits_quad k_add_quad k_sub_quad k_mul_quad k_cmp_quad k_min_quad k_max_quad k_minimum_quad k_maximum_quad k_to_u_quad k_to_i_quad k_from_u_quad k_from_i_quad k_round_int_quad k_is_integer_quad k_next_up_quad k_next_down_quad k_scalbn_quad k_ilogb_quad k_frexp_quad k_signs_quad k_consts_quad;
    X87DoubleExtended k_bits_x87 k_add_x87 k_sub_x87 k_mul_x87 k_cmp_x87 k_min_x87 k_max_x87 k_minimum_x87 k_maximum_x87 k_to_u_x87 k_to_i_x87 k_from_u_x87 k_from_i_x87 k_round_int_x87 k_is_integer_x87 k_next_up_x87 k_next_down_x87 k_scalbn_x87 k_ilogb_x87 k_frexp_x87 k_signs_x87 k_consts_x87;
    Float8E5M2 k_bits_e5m2 k_add_e5m2 k_sub_e5m2 k_mul_e5m2 k_cmp_e5m2 k_min_e5m2 k_max_e5m2 k_minimum_e5m2 k_maximum_e5m2 k_to_u_e5m2 k_to_i_e5m2 k_from_u_e5m2 k_from_i_e5m2 k_round_int_e5m2 k_is_integer_e5m2 k_next_up_e5m2 k_next_down_e5m2 k_scalbn_e5m2 k_ilogb_e5m2 k_frexp_e5m2 k_signs_e5m2 k_consts_e5m2;
    Float8E4M3FN k_bits_e4m3 k_add_e4m3 k_sub_e4m3 k_mul_e4m3 k_cmp_e4m3 k_min_e4m3 k_max_e4m3 k_minimum_e4m3 k_maximum_e4m3 k_to_u_e4m3 k_to_i_e4m3 k_from_u_e4m3 k_from_i_e4m3 k_round_int_e4m3 k_is_integer_e4m3 k_next_up_e4m3 k_next_down_e4m3 k_scalbn_e4m3 k_ilogb_e4m3 k_frexp_e4m3 k_signs_e4m3 k_consts_e4m3;
}
conv! {
    k_convert_half_half Half Half;
    k_convert_half_bfloat Half BFloat;
    k_convert_half_single Half Single;
    k_convert_half_double Half Double;
    k_convert_half_quad Half Quad;
    k_convert_half_x87 Half X87DoubleExtended;
    k_convert_half_e5m2 Half Float8E5M2;
    k_convert_half_e4m3 Half Float8E4M3FN;
    k_convert_bfloat_half BFloat Half;
    k_convert_bfloat_bfloat BFloat BFloat;
    k_convert_bfloat_single BFloat Single;
    k_convert_bfloat_double BFloat Double;
    k_convert_bfloat_quad BFloat Quad;
    k_convert_bfloat_x87 BFloat X87DoubleExtended;
    k_convert_bfloat_e5m2 BFloat Float8E5M2;
    k_convert_bfloat_e4m3 BFloat Float8E4M3FN;
    k_convert_single_half Single Half;
    k_convert_single_bfloat Single BFloat;
    k_convert_single_single Single Single;
    k_convert_single_double Single Double;
    k_convert_single_quad Single Quad;
    k_convert_single_x87 Single X87DoubleExtended;
    k_convert_single_e5m2 Single Float8E5M2;
    k_convert_single_e4m3 Single Float8E4M3FN;
    k_convert_double_half Double Half;
    k_convert_double_bfloat Double BFloat;
    k_convert_double_single Double Single;
    k_convert_double_double Double Double;
    k_convert_double_quad Double Quad;
    k_convert_double_x87 Double X87DoubleExtended;
    k_convert_double_e5m2 Double Float8E5M2;
    k_convert_double_e4m3 Double Float8E4M3FN;
    k_convert_quad_half Quad Half;
    k_convert_quad_bfloat Quad BFloat;
    k_convert_quad_single Quad Single;
    k_convert_quad_double Quad Double;
    k_convert_quad_quad Quad Quad;
    k_convert_quad_x87 Quad X87DoubleExtended;
    k_convert_quad_e5m2 Quad Float8E5M2;
    k_convert_quad_e4m3 Quad Float8E4M3FN;
    k_convert_x87_half X87DoubleExtended Half;
    k_convert_x87_bfloat X87DoubleExtended BFloat;
    k_convert_x87_single X87DoubleExtended Single;
    k_convert_x87_double X87DoubleExtended Double;
    k_convert_x87_quad X87DoubleExtended Quad;
    k_convert_x87_x87 X87DoubleExtended X87DoubleExtended;
    k_convert_x87_e5m2 X87DoubleExtended Float8E5M2;
    k_convert_x87_e4m3 X87DoubleExtended Float8E4M3FN;
    k_convert_e5m2_half Float8E5M2 Half;
    k_convert_e5m2_bfloat Float8E5M2 BFloat;
    k_convert_e5m2_single Float8E5M2 Single;
    k_convert_e5m2_double Float8E5M2 Double;
    k_convert_e5m2_quad Float8E5M2 Quad;
    k_convert_e5m2_x87 Float8E5M2 X87DoubleExtended;
    k_convert_e5m2_e5m2 Float8E5M2 Float8E5M2;
    k_convert_e5m2_e4m3 Float8E5M2 Float8E4M3FN;
    k_convert_e4m3_half Float8E4M3FN Half;
    k_convert_e4m3_bfloat Float8E4M3FN BFloat;
    k_convert_e4m3_single Float8E4M3FN Single;
    k_convert_e4m3_double Float8E4M3FN Double;
    k_convert_e4m3_quad Float8E4M3FN Quad;
    k_convert_e4m3_x87 Float8E4M3FN X87DoubleExtended;
    k_convert_e4m3_e5m2 Float8E4M3FN Float8E5M2;
    k_convert_e4m3_e4m3 Float8E4M3FN Float8E4M3FN;
}
harness! {
    k_status: chk::status_map(kani::any());
    k_dd_bits: chk::dd_bits(raw());
    k_dd_signs: chk::dd_signs(raw(), raw());
    k_dd_consts: chk::dd_consts(raw());
}
