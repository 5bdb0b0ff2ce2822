//! Oracles for parsing and printing.

use crate::big::Big;
use crate::chk::{out, Out, Pair};
use crate::fmts::*;
use crate::spec::*;

/// What the grammar says about a string.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Lex {
    Err,
    Inf(bool),
    Nan { neg: bool, snan: bool, payload: Option<u128> },
    /// digits (most significant first, no leading zeros), power of ten of the last digit
    Dec { neg: bool, digits: Vec<u8>, exp: i64 },
    /// hex digits and power of two of the last digit's unit
    Hex { neg: bool, digits: Vec<u8>, exp: i64 },
}

fn payload(s: &str) -> Option<Option<u128>> {
    if s.is_empty() {
        return Some(None);
    }
    let t = if s.len() > 2 && s.starts_with('(') && s.ends_with(')') { &s[1..s.len() - 1] } else { s };
    let (radix, t) = if t.len() > 1 && t.starts_with('0') {
        let u = &t[1..];
        if u.starts_with('x') || u.starts_with('X') {
            (16, &u[1..])
        } else {
            (8, u)
        }
    } else {
        (10, t)
    };
    // digits, optionally preceded by '+'
    let u = t.strip_prefix('+').unwrap_or(t);
    if u.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for c in u.chars() {
        v = v.checked_mul(radix as u128)?.checked_add(c.to_digit(radix)? as u128)?;
    }
    Some(Some(v))
}

pub fn lex(s: &str) -> Lex {
    let neg = s.starts_with('-');
    let plus = s.starts_with('+');
    let b = if neg || plus { &s[1..] } else { s };
    if b == "Inf" && (neg || plus) || (b == "inf" || b == "INFINITY") && !plus {
        return Lex::Inf(neg);
    }
    if !plus {
        let (snan, t) = match b.strip_prefix('s').or(b.strip_prefix('S')) {
            Some(t) => (true, t),
            None => (false, b),
        };
        if let Some(t) = t.strip_prefix("nan").or(t.strip_prefix("NaN")) {
            if let Some(p) = payload(t) {
                return Lex::Nan { neg, snan, payload: p };
            }
        }
    }
    let hex = b.starts_with("0x") || b.starts_with("0X");
    let b = if hex { &b[2..] } else { b };
    let radix = if hex { 16 } else { 10 };
    let mut digits = vec![];
    let mut any = false;
    let mut frac: i64 = 0;
    let mut dot = false;
    let mut rest: Option<&str> = None;
    for (i, c) in b.char_indices() {
        if c == '.' {
            if dot {
                return Lex::Err;
            }
            dot = true;
        } else if !hex && (c == 'e' || c == 'E') || hex && (c == 'p' || c == 'P') {
            rest = Some(&b[i + 1..]);
            break;
        } else if let Some(d) = c.to_digit(radix) {
            any = true;
            if dot {
                frac += 1;
            }
            if d != 0 || !digits.is_empty() {
                digits.push(d as u8);
            }
        } else {
            return Lex::Err;
        }
    }
    if !any {
        return Lex::Err;
    }
    let mut e: i64 = 0;
    let mut any_exp = false;
    if let Some(r) = rest {
        let eneg = r.starts_with('-');
        let r = if eneg || r.starts_with('+') { &r[1..] } else { r };
        for c in r.chars() {
            match c.to_digit(10) {
                Some(d) => {
                    any_exp = true;
                    e = (e * 10 + d as i64).min(1 << 55);
                }
                None => return Lex::Err,
            }
        }
        if eneg {
            e = -e;
        }
    }
    if hex && !any_exp {
        return Lex::Err;
    }
    if hex {
        Lex::Hex { neg, digits, exp: e - 4 * frac }
    } else {
        Lex::Dec { neg, digits, exp: e - frac }
    }
}

/// Correct rounding of digits * 10^exp.
pub fn dec_value(f: Fmt, neg: bool, digits: &[u8], exp: i64, rm: Rm) -> (u128, u8) {
    let mut d = digits;
    let mut exp = exp;
    while let [rest @ .., 0] = d {
        d = rest;
        exp += 1;
    }
    if d.is_empty() {
        return (f.zero_bits(neg), OK);
    }
    let top = exp.saturating_add(d.len() as i64);
    if top > 6000 {
        return f.overflow(neg, rm);
    }
    if top < -6000 {
        // far below half the smallest subnormal of every format
        return f.round(neg, U256::from(1), -100_000, false, rm);
    }
    let ascii: Vec<u8> = d.iter().map(|x| x + b'0').collect();
    let n = Big::from_digits(&ascii);
    let (m, e, sticky) = if exp >= 0 {
        n.mul(&Big::pow(10, exp as u32)).top()
    } else {
        Big::ratio(&n, &Big::pow(10, -exp as u32))
    };
    f.round(neg, m, e, sticky, rm)
}

pub fn hex_value(f: Fmt, neg: bool, digits: &[u8], exp: i64, rm: Rm) -> (u128, u8) {
    let mut m = U256::from(0);
    let mut sticky = false;
    let mut e = exp;
    for (i, d) in digits.iter().enumerate() {
        if i < 62 {
            m = m.shl(4);
            m.lo |= *d as u128;
        } else {
            e += 4;
            sticky |= *d != 0;
        }
    }
    if m.is_zero() {
        return (f.zero_bits(neg), OK);
    }
    f.round(neg, m, e.clamp(-100_000, 100_000) as i32, sticky, rm)
}

pub fn parse_want(f: Fmt, s: &str, rm: Rm) -> Option<(u128, u8)> {
    Some(match lex(s) {
        Lex::Err => return None,
        Lex::Inf(neg) => (f.inf_bits(neg), OK),
        Lex::Nan { neg, snan, payload } => {
            let p = payload.unwrap_or(0) & f.payload_mask();
            let b = if f.nanonly {
                f.nan_bits(neg)
            } else if snan {
                let q = p & !f.quiet_bit();
                (f.nan_bits(neg) & !f.quiet_bit()) | if q == 0 { f.quiet_bit() >> 1 } else { q }
            } else {
                f.nan_bits(neg) | p
            };
            (b, OK)
        }
        Lex::Dec { neg, digits, exp } => dec_value(f, neg, &digits, exp, rm),
        Lex::Hex { neg, digits, exp } => hex_value(f, neg, &digits, exp, rm),
    })
}

pub const ERR: u8 = 0xff;

pub fn parse<T: Ty>(s: &str, rm: Rm) -> Pair {
    let g = match T::from_str_r(s, rnd(rm)) {
        Ok(r) => out(r.value.to_bits(), st(r.status), 0),
        Err(_) => out(0, ERR, 0),
    };
    let w = match parse_want(T::F, s, rm) {
        Some((v, s)) => out(v, s, 0),
        None => out(0, ERR, 0),
    };
    (g, w)
}

/// `FromStr` is nearest-even parsing with the status dropped.
pub fn parse_form<T: Ty + std::str::FromStr>(s: &str) -> Pair {
    let g = match s.parse::<T>() {
        Ok(r) => out(r.to_bits(), 0, 0),
        Err(_) => out(0, ERR, 0),
    };
    let w = match T::from_str_r(s, rnd(Rm::Ne)) {
        Ok(r) => out(r.value.to_bits(), 0, 0),
        Err(_) => out(0, ERR, 0),
    };
    (g, w)
}

/// precision/width/alternate as the formatter sees them; `None` leaves the default.
#[derive(Copy, Clone, Debug)]
pub struct Style {
    pub prec: Option<u32>,
    pub width: Option<u32>,
    pub alt: bool,
}

pub fn show<T: Ty + std::fmt::Display>(x: T, s: Style) -> String {
    match (s.prec, s.width, s.alt) {
        (None, None, false) => format!("{}", x),
        (None, Some(w), false) => format!("{:1$}", x, w as usize),
        (Some(p), None, false) => format!("{:.1$}", x, p as usize),
        (Some(p), Some(w), false) => format!("{:1$.2$}", x, w as usize, p as usize),
        (None, None, true) => format!("{:#}", x),
        (None, Some(w), true) => format!("{:#1$}", x, w as usize),
        (Some(p), None, true) => format!("{:#.1$}", x, p as usize),
        (Some(p), Some(w), true) => format!("{:#1$.2$}", x, w as usize, p as usize),
    }
}

/// Default precision: reading the text back gives the very same value (NaNs come back as NaN).
/// Any precision >= 1: the text is a decimal number of that many significant digits at most whose
/// distance from the value is less than one unit of the last of those digits.
/// `x` holds failed clauses.
pub fn display<T: Ty + std::fmt::Display>(a: u128, s: Style) -> (Pair, String) {
    let f = T::F;
    let x = T::from_bits(a);
    let d = f.decode(a);
    let text = show(x, s);
    let mut bad = 0u128;
    let ok = (out(0, 0, 0), out(0, 0, 0));
    match d.cls {
        Cls::Nan => {
            if text != "NaN" {
                bad |= 1
            }
        }
        Cls::Inf => {
            if text != if d.neg { "-Inf" } else { "+Inf" } {
                bad |= 1
            }
        }
        _ => {}
    }
    // reading back
    match T::from_str_r(&text, rnd(Rm::Ne)) {
        Ok(r) => {
            if s.prec.is_none() || s.prec == Some(0) {
                let b = r.value.to_bits();
                if d.cls == Cls::Nan {
                    if f.decode(b).cls != Cls::Nan {
                        bad |= 2;
                    }
                } else if d.cls == Cls::Inf && f.nanonly {
                } else if b != f.canon(a) {
                    bad |= 4;
                }
            }
        }
        Err(_) => bad |= 8,
    }
    if d.cls == Cls::Fin || d.cls == Cls::Zero {
        match lex(&text) {
            Lex::Dec { neg, mut digits, mut exp } => {
                if neg != d.neg {
                    bad |= 16;
                }
                if d.cls == Cls::Zero {
                    if !digits.is_empty() {
                        bad |= 32;
                    }
                } else {
                    while let [.., 0] = digits[..] {
                        digits.pop();
                        exp += 1;
                    }
                    if digits.is_empty() {
                        bad |= 64;
                    } else if let Some(p) = s.prec.filter(|p| *p > 0) {
                        let p = p as usize;
                        if digits.len() > p {
                            bad |= 128;
                        } else {
                            // unit of the p-th significant digit of the text
                            let k = p - digits.len();
                            digits.extend(std::iter::repeat(0).take(k));
                            let e = exp - k as i64;
                            if !within_unit(&d, &digits, e) {
                                bad |= 256;
                            }
                        }
                    }
                }
            }
            _ => bad |= 512,
        }
    }
    // layout: 0 means always scientific; alternate uses 'e' and two exponent digits
    if d.cls == Cls::Fin {
        let sci = text.contains('E') || text.contains('e');
        if s.width == Some(0) && !sci {
            bad |= 1024;
        }
        if sci && (s.alt != text.contains('e')) {
            bad |= 2048;
        }
    }
    ((Out { x: bad, ..ok.0 }, ok.1), text)
}

/// | digits * 10^e - sig * 2^d.e | < 10^e
fn within_unit(d: &Dec, digits: &[u8], e: i64) -> bool {
    let ascii: Vec<u8> = digits.iter().map(|x| x + b'0').collect();
    let mut t = Big::from_digits(&ascii);
    let mut v = Big::from(d.sig);
    let mut u = Big::from(1);
    if e >= 0 {
        let p = Big::pow(10, e as u32);
        t = t.mul(&p);
        u = u.mul(&p);
    } else {
        v = v.mul(&Big::pow(10, -e as u32));
    }
    if d.e >= 0 {
        v = v.shl(d.e as usize);
    } else {
        t = t.shl(-d.e as usize);
        u = u.shl(-d.e as usize);
    }
    use std::cmp::Ordering::*;
    let diff = if t.cmp(&v) == Less {
        v.sub_assign(&t);
        v
    } else {
        t.sub_assign(&v);
        t
    };
    diff.cmp(&u) == Less
}

/// Decimal text of an exactly representable value reads back as the exact pair.
pub fn dd_parse(s: &str) -> Pair {
    use rustc_apfloat::Float;
    let g = match rustc_apfloat::ppc::DoubleDouble::from_str_r(s, rnd(Rm::Ne)) {
        Ok(r) => out(r.value.to_bits(), st(r.status), 0),
        Err(_) => out(0, ERR, 0),
    };
    let w = match lex(s) {
        Lex::Dec { neg, digits, exp } => {
            // digits * 10^exp = m * 2^-k exactly by construction of the cases
            let ascii: Vec<u8> = digits.iter().map(|x| x + b'0').collect();
            let n = Big::from_digits(&ascii);
            if n.is_zero() {
                return (g, out(if neg { 1 << 63 } else { 0 }, 0, 0));
            }
            let (m, e, _) = if exp >= 0 { n.mul(&Big::pow(10, exp as u32)).top() } else { Big::ratio(&n, &Big::pow(10, -exp as u32)) };
            let mut k = 0;
            while !m.bit(k) {
                k += 1;
            }
            let (hi, lo) = crate::chk::dd_split(neg, m.shr(k).lo, e + k as i32);
            out(hi | lo << 64, 0, 0)
        }
        _ => out(0, ERR, 0),
    };
    let g = if g.v >> 64 << 65 == 0 { out(g.v & mask(64), g.s, 0) } else { g };
    (g, w)
}

/// text of NaNs as a double-double
pub fn dd_nan(s: &str) -> Pair {
    use rustc_apfloat::Float;
    let g = match rustc_apfloat::ppc::DoubleDouble::from_str_r(s, rnd(Rm::Ne)) {
        Ok(r) => out((r.value.is_nan() as u128) | (r.value.is_signaling() as u128) << 1 | (r.value.is_negative() as u128) << 2, st(r.status), 0),
        Err(_) => out(0, ERR, 0),
    };
    let w = out(1 | (s.contains("snan") as u128) << 1 | (s.starts_with('-') as u128) << 2, 0, 0);
    (g, w)
}
