//! One checking function per public operation: `(what the crate did, what the contract says)`.
//! The same functions are run on symbolic inputs by Kani and on concrete ones by the witness
//! search and by replays.

use crate::fmts::*;
use crate::spec::*;
use core::cmp::Ordering;
use rustc_apfloat::{Category, Float, FloatConvert, Round, Status, StatusAnd};

/// An observation: a value, a status, and one more word (flags, secondary results).
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Out {
    pub v: u128,
    pub s: u8,
    pub x: u128,
}
pub type Pair = (Out, Out);

pub fn out(v: u128, s: u8, x: u128) -> Out {
    Out { v, s, x }
}

/// The bits of a result, plus bit 0 of `x` set when its classification disagrees with its bits.
fn obs<T: Ty>(v: T, s: u8) -> Out {
    let b = v.to_bits();
    let d = T::F.decode(b);
    let bad = cls(v.category()) != d.cls || v.is_negative() != d.neg;
    out(b, s, bad as u128)
}
fn obs_st<T: Ty>(r: StatusAnd<T>) -> Out {
    obs(r.value, st(r.status))
}
fn want((v, s): (u128, u8)) -> Out {
    out(v, s, 0)
}
fn fb<T: Ty>(b: u128) -> T {
    T::from_bits(b)
}

// ---- A01 ------------------------------------------------------------------------------------

pub fn bits<T: Ty>(a: u128) -> Pair {
    let f = T::F;
    let x = fb::<T>(a);
    let d = f.decode(a);
    let got = x.to_bits();
    let flags = (cls(x.category()) as u128)
        | (x.is_negative() as u128) << 4
        | (x.is_nan() as u128) << 5
        | (x.is_infinite() as u128) << 6
        | (x.is_zero() as u128) << 7
        | (x.is_finite() as u128) << 8
        | (x.is_non_zero() as u128) << 9
        | (x.is_finite_non_zero() as u128) << 10
        | (x.is_normal() as u128) << 11
        | (x.is_denormal() as u128) << 12
        | (x.is_signaling() as u128) << 13
        | (x.is_pos_zero() as u128) << 14
        | (x.is_neg_zero() as u128) << 15
        | (x.is_pos_infinity() as u128) << 16
        | (x.is_neg_infinity() as u128) << 17
        | (x.is_smallest() as u128) << 18
        | (x.is_largest() as u128) << 19
        | (x.is_smallest_normalized() as u128) << 20;
    let fin = d.cls == Cls::Fin;
    let sub = fin && d.sig >> (f.p - 1) == 0;
    let c = f.canon(a);
    let mag = c & !f.sign_bit();
    let small_norm = f.encode(false, 1u128 << (f.p - 1), f.elsb());
    let wf = (d.cls as u128)
        | (d.neg as u128) << 4
        | ((d.cls == Cls::Nan) as u128) << 5
        | ((d.cls == Cls::Inf) as u128) << 6
        | ((d.cls == Cls::Zero) as u128) << 7
        | ((fin || d.cls == Cls::Zero) as u128) << 8
        | ((d.cls != Cls::Zero) as u128) << 9
        | (fin as u128) << 10
        | ((fin && !sub) as u128) << 11
        | (sub as u128) << 12
        | (f.is_snan(d) as u128) << 13
        | ((d.cls == Cls::Zero && !d.neg) as u128) << 14
        | ((d.cls == Cls::Zero && d.neg) as u128) << 15
        | ((d.cls == Cls::Inf && !d.neg) as u128) << 16
        | ((d.cls == Cls::Inf && d.neg) as u128) << 17
        | ((fin && mag == 1) as u128) << 18
        | ((fin && mag == f.max_bits(false)) as u128) << 19
        | ((fin && mag == small_norm) as u128) << 20;
    (out(got, 0, flags), out(c, 0, wf))
}

// ---- A02..A06 -------------------------------------------------------------------------------

pub fn add<T: Ty>(a: u128, b: u128, rm: Rm) -> Pair {
    (obs_st(fb::<T>(a).add_r(fb(b), rnd(rm))), want(T::F.add(a, b, false, rm)))
}
pub fn sub<T: Ty>(a: u128, b: u128, rm: Rm) -> Pair {
    (obs_st(fb::<T>(a).sub_r(fb(b), rnd(rm))), want(T::F.add(a, b, true, rm)))
}
pub fn mul<T: Ty>(a: u128, b: u128, rm: Rm) -> Pair {
    (obs_st(fb::<T>(a).mul_r(fb(b), rnd(rm))), want(T::F.mul(a, b, rm)))
}
pub fn div<T: Ty>(a: u128, b: u128, rm: Rm) -> Pair {
    (obs_st(fb::<T>(a).div_r(fb(b), rnd(rm))), want(T::F.div(a, b, rm)))
}
pub fn fma<T: Ty>(a: u128, b: u128, c: u128, rm: Rm) -> Pair {
    (obs_st(fb::<T>(a).mul_add_r(fb(b), fb(c), rnd(rm))), want(T::F.fma(a, b, c, rm)))
}
pub fn ieee_rem<T: Ty>(a: u128, b: u128) -> Pair {
    (obs_st(fb::<T>(a).ieee_rem(fb(b))), want(T::F.rem(a, b, true)))
}
pub fn c_fmod<T: Ty>(a: u128, b: u128) -> Pair {
    (obs_st(fb::<T>(a).c_fmod(fb(b))), want(T::F.rem(a, b, false)))
}

// ---- A08: derived forms agree with the explicit ones ------------------------------------------

fn same<T: Ty>(p: StatusAnd<T>, q: StatusAnd<T>) -> bool {
    p.status == q.status && p.value.to_bits() == q.value.to_bits()
}

/// `x`: bit i set when form i disagrees.
pub fn forms2<T: Ty>(a: u128, b: u128) -> Pair
where
    T: core::ops::AddAssign + core::ops::SubAssign + core::ops::MulAssign + core::ops::DivAssign + core::ops::RemAssign,
{
    const NE: Round = Round::NearestTiesToEven;
    let (x, y) = (fb::<T>(a), fb::<T>(b));
    let (s, d, m, q, r) = (x.add_r(y, NE), x.sub_r(y, NE), x.mul_r(y, NE), x.div_r(y, NE), x.c_fmod(y));
    let mut bad = 0u128;
    let mut put = |i: u32, ok: bool| {
        if !ok {
            bad |= 1 << i
        }
    };
    put(0, same(x + y, s));
    put(1, same(x - y, d));
    put(2, same(x * y, m));
    put(3, same(x / y, q));
    put(4, same(x % y, r));
    let mut t = x;
    t += y;
    put(5, t.to_bits() == s.value.to_bits());
    t = x;
    t -= y;
    put(6, t.to_bits() == d.value.to_bits());
    t = x;
    t *= y;
    put(7, t.to_bits() == m.value.to_bits());
    t = x;
    t /= y;
    put(8, t.to_bits() == q.value.to_bits());
    t = x;
    t %= y;
    put(9, t.to_bits() == r.value.to_bits());
    (out(0, 0, bad), out(0, 0, 0))
}

/// The operator form of one binary operation only (cheap enough for symbolic wide operands).
pub fn form_op<T: Ty>(which: u8, a: u128, b: u128) -> Pair
where
    T: core::ops::AddAssign + core::ops::SubAssign + core::ops::MulAssign + core::ops::DivAssign + core::ops::RemAssign,
{
    const NE: Round = Round::NearestTiesToEven;
    let (x, y) = (fb::<T>(a), fb::<T>(b));
    let mut t = x;
    let (p, q) = match which {
        0 => {
            t += y;
            (x.add_r(y, NE), x + y)
        }
        1 => {
            t -= y;
            (x.sub_r(y, NE), x - y)
        }
        2 => {
            t *= y;
            (x.mul_r(y, NE), x * y)
        }
        3 => {
            t /= y;
            (x.div_r(y, NE), x / y)
        }
        _ => {
            t %= y;
            (x.c_fmod(y), x % y)
        }
    };
    let bad = !same(p, q) || t.to_bits() != p.value.to_bits();
    (out(0, 0, bad as u128), out(0, 0, 0))
}

pub fn forms_fma<T: Ty>(a: u128, b: u128, c: u128) -> Pair {
    let (x, y, z) = (fb::<T>(a), fb::<T>(b), fb::<T>(c));
    let ok = same(x.mul_add(y, z), x.mul_add_r(y, z, Round::NearestTiesToEven));
    (out(0, 0, !ok as u128), out(0, 0, 0))
}

pub fn forms1<T: Ty>(a: u128, n: i32, width: u32) -> Pair {
    let x = fb::<T>(a);
    let mut bad = 0u128;
    let mut put = |i: u32, ok: bool| {
        if !ok {
            bad |= 1 << i
        }
    };
    let w = width as usize;
    let (mut e1, mut e2) = (false, false);
    let (p, q) = (x.to_i128(w), x.to_i128_r(w, Round::TowardZero, &mut e1));
    put(0, p.status == q.status && p.value == q.value);
    let (p, q) = (x.to_u128(w), x.to_u128_r(w, Round::TowardZero, &mut e2));
    put(1, p.status == q.status && p.value == q.value);
    put(2, x.scalbn(n).to_bits() == x.scalbn_r(n, Round::NearestTiesToEven).to_bits());
    let (mut k1, mut k2) = (0, 0);
    let (p, q) = (x.frexp(&mut k1), x.frexp_r(&mut k2, Round::NearestTiesToEven));
    put(3, p.to_bits() == q.to_bits() && k1 == k2);
    (out(0, 0, bad), out(0, 0, 0))
}

pub fn forms_int<T: Ty>(n: u128) -> Pair {
    const NE: Round = Round::NearestTiesToEven;
    let mut bad = 0u128;
    if !same(T::from_u128(n), T::from_u128_r(n, NE)) {
        bad |= 1
    }
    if !same(T::from_i128(n as i128), T::from_i128_r(n as i128, NE)) {
        bad |= 2
    }
    (out(0, 0, bad), out(0, 0, 0))
}

pub fn forms_conv<T: Ty + FloatConvert<U>, U: Ty>(a: u128) -> Pair {
    let x = fb::<T>(a);
    let (mut l1, mut l2) = (false, true);
    let (p, q) = (x.convert(&mut l1), x.convert_r(Round::NearestTiesToEven, &mut l2));
    let ok = same::<U>(p, q) && l1 == l2;
    (out(0, 0, !ok as u128), out(0, 0, 0))
}

// ---- A09, A10 -------------------------------------------------------------------------------

fn ord(o: Option<Ordering>) -> u128 {
    match o {
        None => 7,
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
    }
}

pub fn cmp<T: Ty>(a: u128, b: u128) -> Pair {
    let f = T::F;
    let (x, y) = (fb::<T>(a), fb::<T>(b));
    let (p, q) = (f.decode(a), f.decode(b));
    let nan = p.cls == Cls::Nan || q.cls == Cls::Nan;
    let w = if nan { None } else { Some(f.key(a).cmp(&f.key(b))) };
    let absw = if p.cls == Cls::Fin && q.cls == Cls::Fin {
        Some((f.canon(a) & !f.sign_bit()).cmp(&(f.canon(b) & !f.sign_bit())))
    } else {
        None
    };
    let absg = if p.cls == Cls::Fin && q.cls == Cls::Fin { Some(x.cmp_abs_normal(y)) } else { None };
    let g = x.partial_cmp(&y);
    let gx = ((x == y) as u128)
        | ((x != y) as u128) << 1
        | ((x < y) as u128) << 2
        | ((x <= y) as u128) << 3
        | ((x > y) as u128) << 4
        | ((x >= y) as u128) << 5
        | (x.bitwise_eq(y) as u128) << 6
        | ord(absg) << 8;
    let lt = w == Some(Ordering::Less);
    let eq = w == Some(Ordering::Equal);
    let gt = w == Some(Ordering::Greater);
    let wx = (eq as u128)
        | (!eq as u128) << 1
        | (lt as u128) << 2
        | ((lt || eq) as u128) << 3
        | (gt as u128) << 4
        | ((gt || eq) as u128) << 5
        | ((f.canon(a) == f.canon(b)) as u128) << 6
        | ord(absw) << 8;
    (out(ord(g), 0, gx), out(ord(w), 0, wx))
}

/// which: 0 min, 1 max, 2 minimum, 3 maximum
pub fn minmax<T: Ty>(which: u8, a: u128, b: u128) -> Pair {
    let f = T::F;
    let (x, y) = (fb::<T>(a), fb::<T>(b));
    let r = match which {
        0 => x.min(y),
        1 => x.max(y),
        2 => x.minimum(y),
        _ => x.maximum(y),
    };
    let g = r.to_bits();
    let (p, q) = (f.decode(a), f.decode(b));
    let (ca, cb) = (f.canon(a), f.canon(b));
    let (pn, qn) = (p.cls == Cls::Nan, q.cls == Cls::Nan);
    let w = if pn || qn {
        if which < 2 {
            // the other operand; either NaN when both are
            if !pn {
                ca
            } else if !qn {
                cb
            } else if g == ca {
                ca
            } else {
                cb
            }
        } else {
            // a NaN operand, possibly quieted
            let (na, nb) = (f.nan_result(p).0, f.nan_result(q).0);
            if pn && (g == ca || g == na) {
                g
            } else if qn && (g == cb || g == nb) {
                g
            } else if pn {
                ca
            } else {
                cb
            }
        }
    } else {
        let (ka, kb) = (f.key(a), f.key(b));
        if ka == kb {
            if ca == cb || which < 2 {
                // equal: any representation of the common value
                if g == ca {
                    ca
                } else {
                    cb
                }
            } else {
                f.zero_bits(which == 2)
            }
        } else if (ka < kb) == (which == 0 || which == 2) {
            ca
        } else {
            cb
        }
    };
    (obs(r, 0), out(w, 0, 0))
}

// ---- A11, A12 -------------------------------------------------------------------------------

pub fn to_u<T: Ty>(a: u128, width: u32, rm: Rm) -> Pair {
    // the flag is an output only: whatever it held before must not matter
    let mut e = true;
    let r = fb::<T>(a).to_u128_r(width as usize, rnd(rm), &mut e);
    let w = T::F.to_int(a, width, false, rm);
    (out(r.value, st(r.status), e as u128), out(w.0, w.1, w.2 as u128))
}
pub fn to_i<T: Ty>(a: u128, width: u32, rm: Rm) -> Pair {
    let mut e = true;
    let r = fb::<T>(a).to_i128_r(width as usize, rnd(rm), &mut e);
    let w = T::F.to_int(a, width, true, rm);
    (out(r.value as u128, st(r.status), e as u128), out(w.0, w.1, w.2 as u128))
}
pub fn from_u<T: Ty>(n: u128, rm: Rm) -> Pair {
    (obs_st(T::from_u128_r(n, rnd(rm))), want(T::F.from_int(false, n, rm)))
}
pub fn from_i<T: Ty>(n: u128, rm: Rm) -> Pair {
    let i = n as i128;
    (obs_st(T::from_i128_r(i, rnd(rm))), want(T::F.from_int(i < 0, i.unsigned_abs(), rm)))
}

// ---- A13 ------------------------------------------------------------------------------------

pub fn convert<T: Ty + FloatConvert<U>, U: Ty>(a: u128, rm: Rm) -> Pair {
    let mut l = true;
    let r: StatusAnd<U> = fb::<T>(a).convert_r(rnd(rm), &mut l);
    let w = T::F.convert(U::F, a, rm);
    let o = obs_st(r);
    (out(o.v, o.s, o.x | (l as u128) << 1), out(w.0, w.1, (w.2 as u128) << 1))
}

// ---- A14..A16 -------------------------------------------------------------------------------

pub fn round_int<T: Ty>(a: u128, rm: Rm) -> Pair {
    (obs_st(fb::<T>(a).round_to_integral(rnd(rm))), want(T::F.round_to_integral(a, rm)))
}
pub fn is_integer<T: Ty>(a: u128) -> Pair {
    (out(fb::<T>(a).is_integer() as u128, 0, 0), out(T::F.is_integer(a) as u128, 0, 0))
}
pub fn next_up<T: Ty>(a: u128) -> Pair {
    (obs_st(fb::<T>(a).next_up()), want(T::F.next_up(a)))
}
pub fn next_down<T: Ty>(a: u128) -> Pair {
    let f = T::F;
    let (v, s) = f.next_up(a ^ f.sign_bit());
    (obs_st(fb::<T>(a).next_down()), want((v ^ f.sign_bit(), s)))
}
pub fn scalbn<T: Ty>(a: u128, n: i32, rm: Rm) -> Pair {
    (obs(fb::<T>(a).scalbn_r(n, rnd(rm)), 0), want((T::F.scalbn(a, n, rm), 0)))
}
pub fn ilogb<T: Ty>(a: u128) -> Pair {
    (out(fb::<T>(a).ilogb() as u32 as u128, 0, 0), out(T::F.ilogb(a) as u32 as u128, 0, 0))
}
pub fn frexp<T: Ty>(a: u128, rm: Rm) -> Pair {
    let f = T::F;
    let mut k = 77;
    let r = fb::<T>(a).frexp_r(&mut k, rnd(rm));
    let d = f.decode(a);
    let (v, e) = match d.cls {
        Cls::Nan => (f.nan_result(d).0, i32::MIN),
        Cls::Inf => (a, i32::MAX),
        Cls::Zero => (a, 0),
        Cls::Fin => {
            let n = 128 - d.sig.leading_zeros();
            // the fraction in [1/2, 1): leading bit at weight 2^-1
            (f.encode(d.neg, d.sig << (f.p - n), -(f.p as i32)), n as i32 + d.e)
        }
    };
    let o = obs(r, 0);
    (out(o.v, 0, o.x | (k as u32 as u128) << 1), out(v, 0, (e as u32 as u128) << 1))
}

// ---- A21, A22 -------------------------------------------------------------------------------

pub fn signs<T: Ty>(a: u128, b: u128) -> Pair {
    let f = T::F;
    let (x, y) = (fb::<T>(a), fb::<T>(b));
    let m = f.canon(a) & !f.sign_bit();
    let sa = a & f.sign_bit();
    let sb = b & f.sign_bit();
    let n = (-x).to_bits();
    let p = x.abs().to_bits();
    let q = x.copy_sign(y).to_bits();
    let bad = (n != m | (sa ^ f.sign_bit())) as u128
        | ((p != m) as u128) << 1
        | ((q != m | sb) as u128) << 2
        | (((-x).is_negative() != (sa == 0)) as u128) << 3
        | ((x.abs().is_negative()) as u128) << 4
        | ((x.copy_sign(y).is_negative() != (sb != 0)) as u128) << 5
        | (((-x).category() != x.category()) as u128) << 6;
    (out(0, 0, bad), out(0, 0, 0))
}

pub fn consts<T: Ty + Default>(payload: u128) -> Pair {
    let f = T::F;
    let mut bad = 0u128;
    let mut put = |i: u32, ok: bool| {
        if !ok {
            bad |= 1 << i
        }
    };
    let is = |v: T, b: u128| v.to_bits() == b && cls(v.category()) == f.decode(b).cls && v.is_negative() == f.decode(b).neg;
    put(0, is(T::ZERO, 0));
    put(1, is(T::INFINITY, f.inf_bits(false)));
    put(2, is(T::NAN, f.nan_bits(false)));
    put(3, is(T::largest(), f.max_bits(false)));
    put(4, is(T::SMALLEST, 1));
    put(5, is(T::smallest_normalized(), f.encode(false, 1u128 << (f.p - 1), f.elsb())));
    put(6, is(T::qnan(None), f.nan_bits(false)));
    put(7, is(T::qnan(Some(payload)), f.nan_bits(false) | (payload & f.payload_mask())));
    let sp = if f.nanonly {
        f.nan_bits(false)
    } else {
        let base = f.nan_bits(false) & !f.quiet_bit();
        let p = payload & f.payload_mask() & !f.quiet_bit();
        base | if p == 0 { f.quiet_bit() >> 1 } else { p }
    };
    put(8, is(T::snan(Some(payload)), sp));
    let sp0 = if f.nanonly { f.nan_bits(false) } else { (f.nan_bits(false) & !f.quiet_bit()) | (f.quiet_bit() >> 1) };
    put(9, is(T::snan(None), sp0));
    put(10, is(T::default(), 0));
    put(11, T::BITS == f.bits as usize);
    put(12, T::PRECISION == f.p as usize);
    put(13, T::MAX_EXP == f.emax);
    put(14, T::MIN_EXP == f.emin);
    put(15, T::snan(Some(payload)).is_signaling() != f.nanonly);
    put(16, !T::qnan(Some(payload)).is_signaling());
    (out(0, 0, bad), out(0, 0, 0))
}

pub fn inverse<T: Ty>(a: u128) -> Pair {
    let f = T::F;
    let d = f.decode(a);
    let r = fb::<T>(a).get_exact_inverse();
    let mut w = None;
    if d.cls == Cls::Fin && d.sig == 1u128 << (f.p - 1) {
        let k = -(d.e + f.p as i32 - 1);
        if k >= f.emin && k <= f.emax {
            w = Some(f.encode(d.neg, d.sig, k - (f.p as i32 - 1)));
        }
    }
    let g = match r {
        Some(v) => out(v.to_bits(), 1, 0),
        None => out(0, 0, 0),
    };
    (g, match w {
        Some(b) => out(b, 1, 0),
        None => out(0, 0, 0),
    })
}

/// Status algebra helpers of the crate used by callers.
pub fn status_map(s: u8) -> Pair {
    let s = Status::from_bits_truncate(s);
    let r = s.and(5u8).map(|v| v as u16 + 1);
    (out(r.value as u128, st(r.status), 0), out(6, st(s), 0))
}

pub fn cat_code(c: Category) -> u8 {
    cls(c) as u8
}

// ---- A23: double-double ---------------------------------------------------------------------

use rustc_apfloat::ppc::DoubleDouble;

fn dd(b: u128) -> DoubleDouble {
    DoubleDouble::from_bits(b)
}
fn lo64(b: u128) -> u128 {
    b & mask(64)
}
fn hi64(b: u128) -> u128 {
    b >> 64
}

/// the first component of the pair is stored in the low 64 bits
pub fn dd_bits(a: u128) -> Pair {
    let f = DOUBLE;
    let x = dd(a);
    let d = f.decode(lo64(a));
    let g = (cls(x.category()) as u128)
        | (x.is_negative() as u128) << 4
        | (x.is_signaling() as u128) << 5
        | (x.is_nan() as u128) << 6
        | (x.is_infinite() as u128) << 7
        | (x.is_zero() as u128) << 8
        | (x.is_finite() as u128) << 9;
    let w = (d.cls as u128)
        | (d.neg as u128) << 4
        | (f.is_snan(d) as u128) << 5
        | ((d.cls == Cls::Nan) as u128) << 6
        | ((d.cls == Cls::Inf) as u128) << 7
        | ((d.cls == Cls::Zero) as u128) << 8
        | ((d.cls == Cls::Fin || d.cls == Cls::Zero) as u128) << 9;
    (out(x.to_bits(), 0, g), out(a, 0, w))
}

/// Negation negates the value: both parts, except that a second part which is not a nonzero finite
/// number keeps its sign.
fn dd_neg_bits(a: u128) -> u128 {
    let lo = DOUBLE.decode(hi64(a));
    a ^ (1u128 << 63) ^ if lo.cls == Cls::Fin { 1u128 << 127 } else { 0 }
}
pub fn dd_signs(a: u128, b: u128) -> Pair {
    let (x, y) = (dd(a), dd(b));
    let na = dd_neg_bits(a);
    let (sa, sb) = (lo64(a) >> 63 != 0, lo64(b) >> 63 != 0);
    let bad = ((-x).to_bits() != na) as u128
        | ((x.abs().to_bits() != if sa { na } else { a }) as u128) << 1
        | ((x.copy_sign(y).to_bits() != if sa != sb { na } else { a }) as u128) << 2
        | ((x.bitwise_eq(y) != (a == b)) as u128) << 3;
    (out(0, 0, bad), out(0, 0, 0))
}

/// comparison is that of the pairs' values (for pairs whose second part is below half an ulp of the
/// first, which is what every pair produced by the library satisfies)
pub fn dd_cmp(a: u128, b: u128) -> Pair {
    let f = DOUBLE;
    let (x, y) = (dd(a), dd(b));
    let nan = |v: u128| f.decode(lo64(v)).cls == Cls::Nan;
    let w = if nan(a) || nan(b) {
        None
    } else {
        Some(f.key(lo64(a)).cmp(&f.key(lo64(b))).then(f.key(hi64(a)).cmp(&f.key(hi64(b)))))
    };
    let g = x.partial_cmp(&y);
    let gx = ((x == y) as u128) | ((x < y) as u128) << 1 | (x.bitwise_eq(y) as u128) << 2;
    let wx = ((w == Some(Ordering::Equal)) as u128)
        | ((w == Some(Ordering::Less)) as u128) << 1
        | ((a == b) as u128) << 2;
    (out(ord(g), 0, gx), out(ord(w), 0, wx))
}

/// sign-magnitude comparison of two finite nonzero pairs
pub fn dd_cmp_abs(a: u128, b: u128) -> Pair {
    let f = DOUBLE;
    let g = dd(a).cmp_abs_normal(dd(b));
    let (pa, pb) = (if lo64(a) >> 63 != 0 { dd_neg_bits(a) } else { a }, if lo64(b) >> 63 != 0 { dd_neg_bits(b) } else { b });
    let w = f.key(lo64(pa)).cmp(&f.key(lo64(pb))).then(f.key(hi64(pa)).cmp(&f.key(hi64(pb))));
    (out(ord(Some(g)), 0, 0), out(ord(Some(w)), 0, 0))
}

/// Addition/multiplication where at least one operand is NaN, infinite or zero. The category of a
/// pair is that of its first part.
pub fn dd_special(mulop: bool, a: u128, b: u128, rm: Rm) -> Pair {
    let f = DOUBLE;
    let (x, y) = (dd(a), dd(b));
    let (p, q) = (f.decode(lo64(a)), f.decode(lo64(b)));
    let r = if mulop { x.mul_r(y, rnd(rm)) } else { x.add_r(y, rnd(rm)) };
    let v = r.value;
    let got = f.decode(lo64(v.to_bits()));
    // NaN operands are handed back unchanged; sign and payload of others are not specified
    let (w, ws) = if p.cls == Cls::Nan {
        (Some(a), OK)
    } else if q.cls == Cls::Nan {
        (Some(b), OK)
    } else if mulop {
        match (p.cls, q.cls) {
            (Cls::Inf, Cls::Zero) | (Cls::Zero, Cls::Inf) => (None, OK),
            (Cls::Zero, _) | (Cls::Inf, _) => (Some(a ^ (q.neg as u128) << 63), OK),
            _ => (Some(b ^ (p.neg as u128) << 63), OK),
        }
    } else {
        match (p.cls, q.cls) {
            (Cls::Inf, Cls::Inf) if p.neg != q.neg => (None, INV),
            (Cls::Zero, Cls::Zero) if p.neg != q.neg => (Some(f.zero_bits(rm == Rm::Dn)), OK),
            (Cls::Inf, _) | (_, Cls::Zero) => (Some(a), OK),
            _ => (Some(b), OK),
        }
    };
    match w {
        Some(w) => (out(v.to_bits(), st(r.status), 0), out(w, ws, 0)),
        None => (out((got.cls == Cls::Nan) as u128, st(r.status), 0), out(1, ws, 0)),
    }
}

fn dd1(b: u128) -> DoubleDouble {
    dd(lo64(b))
}

/// The sum/product of two doubles, as a pair, is exact: first part the rounded result, second part
/// the rounding error (away from overflow and underflow).
pub fn dd_exact(mulop: bool, a: u128, b: u128) -> Pair {
    let f = DOUBLE;
    let r = if mulop { dd1(a).mul_r(dd1(b), Round::NearestTiesToEven) } else { dd1(a).add_r(dd1(b), Round::NearestTiesToEven) };
    let got = r.value.to_bits();
    let (x, y) = (f.decode(a), f.decode(b));
    let exact = if mulop {
        Sum { neg: x.neg != y.neg, m: U256::mul(x.sig, y.sig), e: x.e + y.e, sticky: false }
    } else {
        sum(x.neg, U256::from(x.sig), x.e, y.neg, U256::from(y.sig), y.e)
    };
    let (hi, _) = f.round(exact.neg, exact.m, exact.e, false, Rm::Ne);
    let h = f.decode(hi);
    let rest = if h.cls == Cls::Zero {
        exact
    } else {
        sum(exact.neg, exact.m, exact.e, !h.neg, U256::from(h.sig), h.e)
    };
    let lo = if rest.m.is_zero() { 0 } else { f.round(rest.neg, rest.m, rest.e, rest.sticky, Rm::Ne).0 };
    // the sign of a zero second part is not significant
    let gz = if hi64(got) << 65 == 0 { lo64(got) } else { got };
    let gz = if lo64(got) << 65 == 0 { gz & !(1 << 63) } else { gz };
    let w = lo64(hi) | lo << 64;
    let w = if lo64(w) << 65 == 0 { 0 } else { w };
    (out(gz, 0, 0), out(w, 0, 0))
}

pub fn dd_forms(a: u128, b: u128) -> Pair {
    const NE: Round = Round::NearestTiesToEven;
    let (x, y) = (dd(a), dd(b));
    let same = |p: StatusAnd<DoubleDouble>, q: StatusAnd<DoubleDouble>| p.status == q.status && p.value.to_bits() == q.value.to_bits();
    let mut bad = 0;
    let mut t = x;
    t += y;
    if !same(x + y, x.add_r(y, NE)) || t.to_bits() != x.add_r(y, NE).value.to_bits() {
        bad |= 1
    }
    t = x;
    t -= y;
    if !same(x - y, x.sub_r(y, NE)) || t.to_bits() != x.sub_r(y, NE).value.to_bits() || !same(x - y, x + (-y)) {
        bad |= 2
    }
    t = x;
    t *= y;
    if !same(x * y, x.mul_r(y, NE)) || t.to_bits() != x.mul_r(y, NE).value.to_bits() {
        bad |= 4
    }
    t = x;
    t /= y;
    if !same(x / y, x.div_r(y, NE)) || t.to_bits() != x.div_r(y, NE).value.to_bits() {
        bad |= 8
    }
    (out(0, 0, bad), out(0, 0, 0))
}

/// integers of at most 106 bits are represented exactly
pub fn dd_from_int(n: u128, neg: bool) -> Pair {
    let f = DOUBLE;
    let r = if neg {
        DoubleDouble::from_i128_r(-(n as i128), Round::NearestTiesToEven)
    } else {
        DoubleDouble::from_u128_r(n, Round::NearestTiesToEven)
    };
    let (hi, lo) = dd_split(neg, n, 0);
    let _ = f;
    let g = r.value.to_bits();
    let g = if hi64(g) << 65 == 0 { lo64(g) } else { g };
    (out(g, st(r.status), 0), out(hi | lo << 64, OK, 0))
}

/// nearest-even split of a dyadic of at most 106 significant bits
pub fn dd_split(neg: bool, m: u128, e: i32) -> (u128, u128) {
    let f = DOUBLE;
    let (hi, _) = f.round(neg, U256::from(m), e, false, Rm::Ne);
    let h = f.decode(hi);
    if h.cls != Cls::Fin {
        return (hi, 0);
    }
    let rest = sum(neg, U256::from(m), e, !h.neg, U256::from(h.sig), h.e);
    (hi, if rest.m.is_zero() { 0 } else { f.round(rest.neg, rest.m, rest.e, rest.sticky, Rm::Ne).0 })
}

/// conversion to an integer rounds the value of the pair (canonical pairs of at most 106 bits)
pub fn dd_to_int(a: u128, width: u32, signed: bool, rm: Rm) -> Pair {
    let f = DOUBLE;
    let (h, l) = (f.decode(lo64(a)), f.decode(hi64(a)));
    let mut e = true;
    let (gv, gs) = if signed {
        let r = dd(a).to_i128_r(width as usize, rnd(rm), &mut e);
        (r.value as u128, st(r.status))
    } else {
        let r = dd(a).to_u128_r(width as usize, rnd(rm), &mut e);
        (r.value, st(r.status))
    };
    let s = if l.cls == Cls::Fin {
        sum(h.neg, U256::from(h.sig), h.e, l.neg, U256::from(l.sig), l.e)
    } else {
        Sum { neg: h.neg, m: U256::from(h.sig), e: h.e, sticky: false }
    };
    // reduce to a 128-bit significand; pairs wider than 106 bits are outside the claim
    let mut k = 0;
    while k < 255 && !s.m.bit(k) {
        k += 1;
    }
    let m = s.m.shr(k);
    if s.sticky || m.bitlen() > 106 || s.m.is_zero() {
        return (out(0, 0, 0), out(0, 0, 0));
    }
    let d = Dec { cls: Cls::Fin, neg: s.neg, sig: m.lo, e: s.e + k as i32 };
    let w = Fmt::to_int_dec(d, width, signed, rm);
    (out(gv, gs, e as u128), out(w.0, w.1, w.2 as u128))
}

pub fn dd_consts(payload: u128) -> Pair {
    let f = DOUBLE;
    let mut bad = 0u128;
    let mut put = |i: u32, ok: bool| {
        if !ok {
            bad |= 1 << i
        }
    };
    put(0, DoubleDouble::ZERO.to_bits() == 0);
    put(1, DoubleDouble::INFINITY.to_bits() == f.inf_bits(false));
    put(2, DoubleDouble::NAN.to_bits() == f.nan_bits(false));
    put(3, DoubleDouble::qnan(Some(payload)).to_bits() == f.nan_bits(false) | (payload & f.payload_mask()));
    put(4, DoubleDouble::snan(Some(payload)).is_signaling() && DoubleDouble::snan(Some(payload)).is_nan());
    // largest: first part the largest double, second the largest below half an ulp of it
    put(5, DoubleDouble::largest().to_bits() == 0x7c8ffffffffffffe_7fefffffffffffff);
    put(6, DoubleDouble::SMALLEST.to_bits() == 1);
    put(7, DoubleDouble::smallest_normalized().to_bits() == 0x0360000000000000);
    put(8, DoubleDouble::BITS == 128 && DoubleDouble::PRECISION == 106);
    put(9, DoubleDouble::default().to_bits() == 0);
    (out(0, 0, bad), out(0, 0, 0))
}

/// every operation has an answer on every pair (a panic is the failure)
pub fn dd_total(a: u128, b: u128, c: u128, n: i32, rm: Rm) -> Pair {
    let (x, y, z, m) = (dd(a), dd(b), dd(c), rnd(rm));
    let nan = x.is_nan();
    let mut bad = 0u128;
    let mut put = |i: u32, ok: bool| {
        if !ok {
            bad |= 1 << i
        }
    };
    put(0, !nan || x.add_r(y, m).value.is_nan());
    put(1, !nan || x.sub_r(y, m).value.is_nan());
    put(2, !nan || x.mul_r(y, m).value.is_nan());
    put(3, !nan || x.div_r(y, m).value.is_nan());
    put(4, !nan || x.mul_add_r(y, z, m).value.is_nan());
    put(5, !nan || x.ieee_rem(y).value.is_nan());
    put(6, !nan || x.c_fmod(y).value.is_nan());
    put(7, !nan || x.round_to_integral(m).value.is_nan());
    put(8, !nan || x.next_up().value.is_nan());
    put(9, !nan || x.next_down().value.is_nan());
    put(10, !nan || x.to_u128_r(64, m, &mut false).value == 0);
    put(11, !nan || x.to_i128_r(128, m, &mut false).value == 0);
    put(12, !nan || x.get_exact_inverse().is_none());
    put(13, !nan || x.scalbn_r(n, m).is_nan());
    let mut e = 0;
    put(14, !nan || x.frexp_r(&mut e, m).is_nan());
    put(15, !nan || x.partial_cmp(&y).is_none());
    put(16, !nan || !x.is_integer());
    put(17, !nan || !x.is_denormal());
    put(18, !x.is_smallest() || !nan);
    put(19, !x.is_largest() || !nan);
    let _ = (x.ilogb(), x.min(y), x.max(y), x.minimum(y), x.maximum(y));
    (out(0, 0, bad), out(0, 0, 0))
}
