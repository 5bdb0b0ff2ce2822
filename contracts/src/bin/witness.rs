//! Concrete runs of the executable contracts: replay of a single case, and a deterministic search
//! for failing ones (exhaustive for the 8-bit formats, boundary-biased elsewhere).
//!
//!   witness search <PROPERTY> <seed> <quick|thorough>
//!   witness replay <case>

use apf_contracts::chk::{self, Out, Pair};
use apf_contracts::fmts::*;
use apf_contracts::spec::*;
use apf_contracts::text::{self, Style};
use apf_contracts::with_fmt;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Case {
    op: &'static str,
    fmt: usize,
    fmt2: usize,
    rm: usize,
    a: u128,
    b: u128,
    c: u128,
    n: i64,
    s: String,
}

impl Case {
    fn new(op: &'static str, fmt: usize) -> Case {
        Case { op, fmt, fmt2: fmt, rm: 0, a: 0, b: 0, c: 0, n: 0, s: String::new() }
    }
    fn text(&self) -> String {
        format!(
            "{} {} {} {} {:#x} {:#x} {:#x} {} |{}",
            self.op,
            FMT_NAMES[self.fmt],
            FMT_NAMES[self.fmt2],
            RM_NAMES[self.rm],
            self.a,
            self.b,
            self.c,
            self.n,
            self.s
        )
    }
    fn parse(t: &str) -> Option<Case> {
        let (h, s) = t.split_once('|')?;
        let w: Vec<&str> = h.split_whitespace().collect();
        let hex = |x: &str| u128::from_str_radix(x.trim_start_matches("0x"), 16).ok();
        let f = |x: &str| FMT_NAMES.iter().position(|n| *n == x);
        Some(Case {
            op: OPS.iter().find(|o| **o == w[0])?,
            fmt: f(w[1])?,
            fmt2: f(w[2])?,
            rm: RM_NAMES.iter().position(|n| *n == w[3])?,
            a: hex(w[4])?,
            b: hex(w[5])?,
            c: hex(w[6])?,
            n: w[7].parse().ok()?,
            s: s.to_string(),
        })
    }
}

const RM_NAMES: [&str; 5] = ["NearestTiesToEven", "TowardPositive", "TowardNegative", "TowardZero", "NearestTiesToAway"];
const OPS: &[&str] = &[
    "bits", "add", "sub", "mul", "div", "fma", "ieee_rem", "c_fmod", "forms2", "forms_fma", "forms1", "forms_int",
    "forms_conv", "cmp", "min", "max", "minimum", "maximum", "to_u", "to_i", "from_u", "from_i", "convert",
    "round_int", "is_integer", "next_up", "next_down", "scalbn", "ilogb", "frexp", "signs", "consts", "inverse",
    "status", "parse", "parse_form", "display", "dd_bits", "dd_signs", "dd_cmp", "dd_cmp_abs", "dd_add_special",
    "dd_mul_special", "dd_add_exact", "dd_mul_exact", "dd_forms", "dd_from_int", "dd_to_int", "dd_parse", "dd_consts", "dd_total", "dd_nan",
];

fn style(c: &Case) -> Style {
    let o = |v: u128| if v == 0 { None } else { Some(v as u32 - 1) };
    Style { prec: o(c.b), width: o(c.c), alt: c.n != 0 }
}

fn run(c: &Case) -> Pair {
    let rm = RMS[c.rm];
    let (a, b, n) = (c.a, c.b, c.n as i32);
    match c.op {
        "bits" => with_fmt!(c.fmt, T => chk::bits::<T>(a)),
        "add" => with_fmt!(c.fmt, T => chk::add::<T>(a, b, rm)),
        "sub" => with_fmt!(c.fmt, T => chk::sub::<T>(a, b, rm)),
        "mul" => with_fmt!(c.fmt, T => chk::mul::<T>(a, b, rm)),
        "div" => with_fmt!(c.fmt, T => chk::div::<T>(a, b, rm)),
        "fma" => with_fmt!(c.fmt, T => chk::fma::<T>(a, b, c.c, rm)),
        "ieee_rem" => with_fmt!(c.fmt, T => chk::ieee_rem::<T>(a, b)),
        "c_fmod" => with_fmt!(c.fmt, T => chk::c_fmod::<T>(a, b)),
        "forms2" => with_fmt!(c.fmt, T => chk::forms2::<T>(a, b)),
        "forms_fma" => with_fmt!(c.fmt, T => chk::forms_fma::<T>(a, b, c.c)),
        "forms1" => with_fmt!(c.fmt, T => chk::forms1::<T>(a, n, c.b as u32)),
        "forms_int" => with_fmt!(c.fmt, T => chk::forms_int::<T>(a)),
        "forms_conv" => with_fmt!(c.fmt, T => with_fmt!(c.fmt2, U => chk::forms_conv::<T, U>(a))),
        "cmp" => with_fmt!(c.fmt, T => chk::cmp::<T>(a, b)),
        "min" => with_fmt!(c.fmt, T => chk::minmax::<T>(0, a, b)),
        "max" => with_fmt!(c.fmt, T => chk::minmax::<T>(1, a, b)),
        "minimum" => with_fmt!(c.fmt, T => chk::minmax::<T>(2, a, b)),
        "maximum" => with_fmt!(c.fmt, T => chk::minmax::<T>(3, a, b)),
        "to_u" => with_fmt!(c.fmt, T => chk::to_u::<T>(a, c.n as u32, rm)),
        "to_i" => with_fmt!(c.fmt, T => chk::to_i::<T>(a, c.n as u32, rm)),
        "from_u" => with_fmt!(c.fmt, T => chk::from_u::<T>(a, rm)),
        "from_i" => with_fmt!(c.fmt, T => chk::from_i::<T>(a, rm)),
        "convert" => with_fmt!(c.fmt, T => with_fmt!(c.fmt2, U => chk::convert::<T, U>(a, rm))),
        "round_int" => with_fmt!(c.fmt, T => chk::round_int::<T>(a, rm)),
        "is_integer" => with_fmt!(c.fmt, T => chk::is_integer::<T>(a)),
        "next_up" => with_fmt!(c.fmt, T => chk::next_up::<T>(a)),
        "next_down" => with_fmt!(c.fmt, T => chk::next_down::<T>(a)),
        "scalbn" => with_fmt!(c.fmt, T => chk::scalbn::<T>(a, n, rm)),
        "ilogb" => with_fmt!(c.fmt, T => chk::ilogb::<T>(a)),
        "frexp" => with_fmt!(c.fmt, T => chk::frexp::<T>(a, rm)),
        "signs" => with_fmt!(c.fmt, T => chk::signs::<T>(a, b)),
        "consts" => with_fmt!(c.fmt, T => chk::consts::<T>(a)),
        "inverse" => with_fmt!(c.fmt, T => chk::inverse::<T>(a)),
        "status" => chk::status_map(a as u8),
        "parse" => with_fmt!(c.fmt, T => text::parse::<T>(&c.s, rm)),
        "parse_form" => with_fmt!(c.fmt, T => text::parse_form::<T>(&c.s)),
        "display" => with_fmt!(c.fmt, T => text::display::<T>(a, style(c)).0),
        "dd_bits" => chk::dd_bits(a),
        "dd_signs" => chk::dd_signs(a, b),
        "dd_cmp" => chk::dd_cmp(a, b),
        "dd_cmp_abs" => chk::dd_cmp_abs(a, b),
        "dd_add_special" => chk::dd_special(false, a, b, rm),
        "dd_mul_special" => chk::dd_special(true, a, b, rm),
        "dd_add_exact" => chk::dd_exact(false, a, b),
        "dd_mul_exact" => chk::dd_exact(true, a, b),
        "dd_forms" => chk::dd_forms(a, b),
        "dd_from_int" => chk::dd_from_int(a, c.n != 0),
        "dd_to_int" => chk::dd_to_int(a, c.n as u32, c.b != 0, rm),
        "dd_parse" => text::dd_parse(&c.s),
        "dd_consts" => chk::dd_consts(a),
        "dd_total" => chk::dd_total(a, b, c.c, c.n as i32, rm),
        "dd_nan" => text::dd_nan(&c.s),
        _ => unreachable!(),
    }
}

/// None: the contract holds on this case.
fn judge(c: &Case) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(|| run(c))) {
        Ok((g, w)) if g == w => None,
        Ok((g, w)) => Some(format!("{} ; got {} ; contract says {}", c.text(), show(g), show(w))),
        Err(_) => Some(format!("{} ; panicked", c.text())),
    }
}

fn show(o: Out) -> String {
    format!("value={:#x} status={:#04x} extra={:#x}", o.v, o.s, o.x)
}

// ---- generators -------------------------------------------------------------------------------

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn u128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() as u128 * n as u128 >> 64) as u64
    }
    fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
}

/// a significand of exactly n bits with an interesting shape
fn shape(r: &mut Rng, n: u32) -> u128 {
    let top = 1u128 << (n - 1);
    let m = mask(n);
    (match r.below(8) {
        0 => 0,
        1 => m,
        2 => {
            let mut v = 0;
            for _ in 0..r.below(3) + 1 {
                v |= 1 << r.below(n as u64);
            }
            v
        }
        3 => m ^ (1 << r.below(n as u64)),
        4 => mask(r.below(n as u64 + 1) as u32),
        5 => m ^ mask(r.below(n as u64 + 1) as u32),
        _ => r.u128(),
    } & m)
        | top
}

/// exponent of the leading bit, biased to the edges
fn any_exp(r: &mut Rng, f: Fmt) -> i32 {
    match r.below(6) {
        0 => f.emin + r.range(-(f.p as i64), 3) as i32,
        1 => f.emax - r.range(0, 3) as i32,
        2 | 3 => r.range(-(f.p as i64) - 2, f.p as i64 + 2).clamp(f.emin as i64, f.emax as i64) as i32,
        _ => r.range(f.emin as i64 - f.p as i64 + 1, f.emax as i64) as i32,
    }
}

fn finite(r: &mut Rng, f: Fmt, top: i32) -> u128 {
    let m = shape(r, f.p);
    let neg = r.coin();
    let top = top.clamp(f.emin - f.p as i32 + 1, f.emax);
    let (b, _) = f.round(neg, U256::from(m), top - f.p as i32 + 1, false, Rm::Tz);
    b
}

fn any(r: &mut Rng, f: Fmt) -> u128 {
    match r.below(16) {
        0 => r.u128() & f.all(),
        1 => f.zero_bits(r.coin()),
        2 => f.inf_bits(r.coin()),
        3 => f.nan_bits(r.coin()) ^ (r.u128() & f.payload_mask() & mask(r.below(128) as u32)),
        4 => {
            let s = f.zero_bits(r.coin());
            let k = r.below(4) as u128;
            s | *r.pick(&[
                1 + k,
                f.max_bits(false) - k,
                f.encode(false, 1 << (f.p - 1), f.elsb()) + k,
                f.encode(false, 1 << (f.p - 1), f.elsb()) - 1 - k.min(2),
            ])
        }
        5 => {
            // small integers and simple fractions
            let k = r.range(1, 40) as u128;
            f.round(r.coin(), U256::from(k), r.range(-3, 3) as i32, false, Rm::Ne).0
        }
        6 if f.x87 => {
            // non-canonical patterns
            let e = *r.pick(&[0u128, 1, 0x3fff, 0x7ffe, 0x7fff]);
            f.zero_bits(r.coin()) | e << 64 | (r.u128() & mask(64))
        }
        _ => {
            let e = any_exp(r, f);
            finite(r, f, e)
        }
    }
}

fn pair(r: &mut Rng, f: Fmt) -> (u128, u128) {
    let a = any(r, f);
    let b = match r.below(6) {
        0 => any(r, f),
        1 => a.wrapping_add(r.range(-3, 3) as i128 as u128) & f.all(),
        2 => (a ^ f.sign_bit()).wrapping_add(r.range(-3, 3) as i128 as u128) & f.all(),
        _ => {
            let d = f.decode(a);
            if d.cls == Cls::Fin {
                let top = 128 - d.sig.leading_zeros() as i32 + d.e - 1;
                let k = r.range(-(f.p as i64) - 3, f.p as i64 + 3) as i32;
                finite(r, f, top + k)
            } else {
                any(r, f)
            }
        }
    };
    if r.coin() {
        (a, b)
    } else {
        (b, a)
    }
}

/// operands whose product or quotient lands near the overflow or underflow threshold
fn edge_pair(r: &mut Rng, f: Fmt, div: bool) -> (u128, u128) {
    let e1 = any_exp(r, f);
    let target = match r.below(3) {
        0 => f.emax + r.range(-2, 2) as i32,
        1 => f.emin + r.range(-2, 2) as i32,
        _ => f.elsb() + r.range(-3, f.p as i64) as i32,
    };
    let e2 = if div { e1 - target } else { target - e1 };
    (finite(r, f, e1), finite(r, f, e2))
}

fn value_in(r: &mut Rng, f: Fmt, m: u128, e: i32) -> u128 {
    let rm = *r.pick(&RMS);
    let b = f.round(r.coin(), U256::from(m), e, false, rm).0;
    match r.below(4) {
        0 => b.wrapping_add(1) & f.all(),
        1 => b.wrapping_sub(1) & f.all(),
        _ => b,
    }
}

fn finite_op(op: &'static str, fi: usize, r: &mut Rng) -> Case {
    let f = FMTS[fi];
    let mut c = Case::new(op, fi);
    c.rm = r.below(5) as usize;
    match op {
        "add" | "sub" | "cmp" | "min" | "max" | "minimum" | "maximum" | "signs" => (c.a, c.b) = pair(r, f),
        "mul" | "div" | "forms2" => {
            (c.a, c.b) = if r.below(3) == 0 { edge_pair(r, f, op == "div") } else { pair(r, f) };
            if op == "forms2" {
                // keep the remainder loop short
                limit_rem(r, f, &mut c)
            }
            if op == "div" && r.below(4) == 0 {
                // short divisors take their own code paths
                let n = 1 + r.below(64.min(f.p as u64)) as u32;
                let m = shape(r, n);
                let e = any_exp(r, f) - f.p as i32;
                c.b = f.round(r.coin(), U256::from(m), e, false, Rm::Tz).0;
            }
        }
        "ieee_rem" | "c_fmod" => {
            (c.a, c.b) = pair(r, f);
            limit_rem(r, f, &mut c);
            if r.below(3) == 0 {
                // near multiples and near halfway multiples of b
                let d = f.decode(c.b);
                if d.cls == Cls::Fin && d.sig < 1 << 100 {
                    let lim = r.below(20);
                    let k = r.below(1 << lim) as u128;
                    let m = U256::mul(d.sig, 2 * k + 1);
                    let v = f.round(r.coin(), m, d.e - 1, false, Rm::Ne).0;
                    c.a = v.wrapping_add(r.range(-1, 1) as i128 as u128) & f.all();
                }
            }
        }
        "fma" | "forms_fma" => {
            (c.a, c.b) = if r.coin() { edge_pair(r, f, false) } else { pair(r, f) };
            c.c = match r.below(6) {
                0 => any(r, f),
                1 | 2 => {
                    // near cancellation
                    let rm = *r.pick(&RMS);
                    let p = f.mul(c.a, c.b, rm).0;
                    (p ^ if r.below(5) > 0 { f.sign_bit() } else { 0 }).wrapping_add(r.range(-2, 2) as i128 as u128) & f.all()
                }
                _ => {
                    let (x, y) = (f.decode(c.a), f.decode(c.b));
                    let k = r.range(-2 * f.p as i64 - 4, 2 * f.p as i64 + 4) as i32;
                    finite(r, f, x.e + y.e + 2 * f.p as i32 + k)
                }
            };
        }
        "to_u" | "to_i" => {
            c.n = if r.coin() { r.range(1, 128) } else { *r.pick(&[1, 8, 16, 31, 32, 63, 64, 127, 128]) };
            c.a = if r.below(3) == 0 {
                any(r, f)
            } else {
                let top = if r.coin() { c.n + r.range(-2, 1) } else { r.range(-3, 129) };
                let e = (top as i32).clamp(f.emin, f.emax);
                let v = finite(r, f, e);
                v.wrapping_add(r.range(-1, 1) as i128 as u128) & f.all()
            };
        }
        "from_u" | "from_i" | "forms_int" => {
            let n = r.below(128) as u32 + 1;
            let v = shape(r, n);
            c.a = match r.below(4) {
                0 => v.wrapping_neg(),
                1 => v.wrapping_add(r.range(-2, 2) as i128 as u128),
                _ => v,
            };
        }
        "convert" | "forms_conv" => {
            c.fmt2 = r.below(8) as usize;
            let t = FMTS[c.fmt2];
            c.a = if r.below(3) == 0 {
                any(r, f)
            } else {
                // near a rounding boundary of the target
                let m = shape(r, t.p) << 2 | r.below(4) as u128;
                let e = any_exp(r, t) - t.p as i32 - 1;
                value_in(r, f, m & mask(115).max(m), e)
            };
        }
        "round_int" | "is_integer" => {
            c.a = if r.below(4) == 0 {
                any(r, f)
            } else {
                let e = r.range(-3, f.p as i64 + 1) as i32;
                finite(r, f, e.clamp(f.emin, f.emax))
            }
        }
        "scalbn" => {
            c.a = any(r, f);
            let d = f.decode(c.a);
            c.n = match r.below(8) {
                0 => *r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 0, 1, -1]) as i64,
                1 => r.next() as i32 as i64,
                2 | 3 => (f.elsb() - d.e) as i64 + r.range(-4 - f.p as i64, f.p as i64 + 4),
                4 => (f.emax - d.e) as i64 - r.range(-4, f.p as i64 + 4),
                _ => r.range(-40, 40),
            };
        }
        "forms1" => {
            c.a = any(r, f);
            c.b = r.range(1, 128) as u128;
            c.n = if r.coin() { r.range(-300, 300) } else { r.next() as i32 as i64 };
        }
        "consts" => c.a = r.u128() & mask(r.below(129) as u32),
        "display" => {
            c.a = any(r, f);
            if r.below(4) == 0 {
                // below a power of two and above a power of ten that is close: there the digits are farthest
                // apart and the numbers closest together
                for _ in 0..100 {
                    let k = r.range(f.emin as i64, f.emax as i64);
                    let t = k as f64 * 2f64.log10();
                    if t - t.floor() < 0.05 {
                        let w = r.below(4) as u32 + 4;
                        let sig = mask(f.p) - (r.u128() & mask(f.p.saturating_sub(w)));
                        c.a = f.encode(r.coin(), sig, k as i32 - f.p as i32);
                        break;
                    }
                }
            }
            c.b = r.below(24) as u128;
            c.c = r.below(8) as u128;
            c.n = (r.below(4) == 0) as i64;
            if r.coin() {
                c.b = 0;
            }
        }
        _ => c.a = any(r, f),
    }
    c
}

/// c_fmod reduces one quotient bit per iteration: keep the exponents close for wide formats
fn limit_rem(r: &mut Rng, f: Fmt, c: &mut Case) {
    let (x, y) = (f.decode(c.a), f.decode(c.b));
    if x.cls == Cls::Fin && y.cls == Cls::Fin && x.e - y.e > 400 && r.below(200) != 0 {
        let k = r.range(-3, 150) as i32;
        c.a = finite(r, f, y.e + f.p as i32 + k);
    }
}

// ---- strings ------------------------------------------------------------------------------------

fn dec_string(r: &mut Rng, neg: bool, digits: &str, exp: i64) -> String {
    // place the dot and split the exponent in a random way
    let mut s = String::new();
    if neg {
        s.push('-')
    } else if r.below(8) == 0 {
        s.push('+')
    }
    for _ in 0..(if r.below(6) == 0 { r.below(5) } else { 0 }) {
        s.push('0');
    }
    let n = digits.len() as i64;
    let mut exp = exp;
    match r.below(4) {
        0 => s += digits,
        1 => {
            let k = r.range(0, n);
            s += &digits[..k as usize];
            s.push('.');
            s += &digits[k as usize..];
            exp += n - k;
        }
        2 => {
            let k = r.range(0, 6);
            s += "0.";
            for _ in 0..k {
                s.push('0')
            }
            s += digits;
            exp += n + k;
        }
        _ => {
            s += digits;
            for _ in 0..r.below(4) {
                s.push('0');
                exp -= 1;
            }
            if r.coin() {
                s.push('.')
            }
        }
    }
    if exp != 0 || r.below(4) == 0 {
        s.push(if r.coin() { 'e' } else { 'E' });
        if exp >= 0 && r.coin() {
            s.push('+')
        }
        s += &exp.to_string();
    }
    s
}

fn gen_dec(r: &mut Rng, f: Fmt) -> String {
    use apf_contracts::big::Big;
    let neg = r.coin();
    match r.below(8) {
        0 => {
            let lim = 1 + r.below(40);
            let n = 1 + r.below(lim);
            let d: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            let lim = (f.emax as f64 * 0.302) as i64 + 10;
            let e = r.range(-lim - f.p as i64 / 3, lim);
            dec_string(r, neg, &d, e)
        }
        1 => {
            // wildly out of range, saturating exponents
            let d = r.range(0, 999).to_string();
            let e = *r.pick(&[
                "2147483647", "-2147483648", "2147483648", "-2147483649", "99999999999999999999", "-99999999999999999999",
                "5000", "-5000", "6000", "-6000", "0", "00", "+", "-", "", "-0",
            ]);
            format!("{}{}e{}", if neg { "-" } else { "" }, d, e)
        }
        _ => {
            // the exact decimal expansion of a datum or of a midpoint, possibly disturbed far out
            let e = any_exp(r, f);
            // keep the decimal expansions of the widest formats affordable
            let e = if f.emax > 1100 && r.below(20) != 0 { e.clamp(-400, 400) } else { e };
            let a = if f.emax > 1100 || r.below(5) > 0 { finite(r, f, e) } else { any(r, f) };
            let d = f.decode(a);
            if d.cls != Cls::Fin {
                return format!("{}1e{}", if neg { "-" } else { "" }, r.range(-300, 300));
            }
            let half = r.coin();
            let (m, e) = if half { (d.sig * 2 + 1, d.e - 1) } else { (d.sig, d.e) };
            let (n, exp) = if e >= 0 {
                (Big::from(m).shl(e as usize), 0)
            } else {
                (Big::from(m).mul(&Big::pow(5, -e as u32)), e as i64)
            };
            let mut digits = to_dec(&n);
            let mut exp = exp;
            match r.below(4) {
                0 => {
                    // just above
                    let k = r.below(40);
                    for _ in 0..k {
                        digits.push('0');
                    }
                    digits.push('1');
                    exp -= k as i64 + 1;
                }
                1 => {
                    // just below
                    let k = r.below(40) as usize;
                    let mut n = Big::from_digits(digits.as_bytes());
                    for _ in 0..k {
                        n.mul_small(10, 0);
                    }
                    n.sub_assign(&Big::from(1));
                    exp -= k as i64;
                    digits = if n.is_zero() { "0".into() } else { to_dec(&n) };
                }
                _ => {}
            }
            dec_string(r, neg, &digits, exp)
        }
    }
}

fn to_dec(n: &apf_contracts::big::Big) -> String {
    let mut v = n.0.clone();
    let mut out: Vec<u8> = vec![];
    while !v.is_empty() {
        let mut rem = 0u128;
        for x in v.iter_mut().rev() {
            let t = rem << 64 | *x as u128;
            *x = (t / 1_000_000_000_000_000_000) as u64;
            rem = t % 1_000_000_000_000_000_000;
        }
        while v.last() == Some(&0) {
            v.pop();
        }
        let mut k = rem as u64;
        for _ in 0..18 {
            out.push(b'0' + (k % 10) as u8);
            k /= 10;
        }
    }
    while out.last() == Some(&b'0') {
        out.pop();
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

fn gen_hex(r: &mut Rng, f: Fmt) -> String {
    let e = any_exp(r, f);
    let lim = if r.coin() { 60 } else { (f.p as u64 + 12) / 4 };
    let n = 1 + r.below(lim) as usize;
    let mut d: Vec<u8> = (0..n).map(|_| r.below(16) as u8).collect();
    match r.below(6) {
        0 | 1 => {
            // a significand and one of the interesting tails
            let m = shape(r, f.p);
            let k = r.below(4) as u32;
            let m = if f.p + k <= 124 { m << k } else { m };
            d = format!("{:x}", m).bytes().map(|c| (c as char).to_digit(16).unwrap() as u8).collect();
            match r.below(5) {
                0 => d.push(8),
                1 => d.extend([8, 0, 0, 0, 1]),
                2 => d.extend([7, 15, 15, 15]),
                3 => {
                    d.push(*r.pick(&[0, 7, 8]));
                    d.extend(std::iter::repeat(0).take(r.below(40) as usize));
                    d.push(r.below(2) as u8)
                }
                _ => {}
            }
        }
        2 => d = vec![0; n],
        3 => d = vec![15; n],
        _ => {}
    }
    let dig = |x: u8, up: bool| {
        let c = char::from_digit(x as u32, 16).unwrap();
        if up {
            c.to_ascii_uppercase()
        } else {
            c
        }
    };
    let up = r.coin();
    let mut s = String::from(*r.pick(&["", "-", "+"]));
    s += *r.pick(&["0x", "0X"]);
    for _ in 0..r.below(3) {
        s.push('0');
    }
    let k = r.below(d.len() as u64 + 2) as usize;
    for (i, x) in d.iter().enumerate() {
        if i == k {
            s.push('.');
        }
        s.push(dig(*x, up));
    }
    let mut frac = d.len().saturating_sub(k) as i64;
    if k > d.len() {
        frac = 0;
    }
    let lead = d.iter().position(|x| *x != 0).map_or(0, |i| d.len() - i) as i64 * 4;
    let exp = match r.below(12) {
        0 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, -(1 << 40), 1 << 40]),
        1 => 0,
        _ => e as i64 - lead + 4 * frac + r.range(-1, 4),
    };
    s.push(if r.coin() { 'p' } else { 'P' });
    if exp >= 0 && r.coin() {
        s.push('+');
    }
    s += &exp.to_string();
    s
}

const SEEDS: &[&str] = &[
    "Inf", "-Inf", "+Inf", "inf", "-inf", "+inf", "INFINITY", "-INFINITY", "+INFINITY", "nan", "NaN", "-nan", "snan",
    "SNaN", "nan(123)", "nan(0x12)", "nan0x7", "nan077", "snan(0)", "nan()", "nan(", "nan)", "nan(+1)", "-sNaN12",
    "1.5e10", "0x1.8p3", "0x.8p-1", "1e", "1e+", "1e-", ".e1", "1.", ".5", ".", "", "+", "-", "0", "0x", "0x1", "0x1p",
    "0xp1", "0x.p1", "00x1p1", "1e5.5", "1_0", " 1", "1 ", "--1", "+-1", "-+1", "e5", "1e5e5", "1.2.3", "0x1.2.3p1",
    "nan(340282366920938463463374607431768211455)", "nan(340282366920938463463374607431768211456)", "nan09", "nan0",
    "nan00", "NAN", "Nan", "infinity", "Infinity", "nan(0x)", "nan0x", "1\u{e9}", "\u{661}", "0x1p\u{661}", "1p5", "0x1e5",
];

fn gen_junk(r: &mut Rng) -> String {
    let alpha: Vec<char> = "0123456789+-.eEpPxXaAnNiIfFsS()yTYt_ \u{e9}\u{661}".chars().collect();
    if r.below(3) == 0 {
        let n = r.below(9);
        return (0..n).map(|_| *r.pick(&alpha)).collect();
    }
    let mut s: Vec<char> = r.pick(SEEDS).chars().collect();
    for _ in 0..r.below(3) {
        let k = r.below(s.len() as u64 + 1) as usize;
        match r.below(3) {
            0 if k < s.len() => {
                s.remove(k);
            }
            1 if k < s.len() => s[k] = *r.pick(&alpha),
            _ => s.insert(k, *r.pick(&alpha)),
        }
    }
    s.into_iter().collect()
}

// ---- double-double --------------------------------------------------------------------------------

fn dd_pair(r: &mut Rng) -> u128 {
    let f = DOUBLE;
    if r.below(10) == 0 {
        return r.u128();
    }
    let a = any(r, f);
    dd_with(r, a)
}
/// canonical partner for the first component: |lo| < ulp(hi)/2
fn dd_with(r: &mut Rng, a: u128) -> u128 {
    let f = DOUBLE;
    let d = f.decode(a);
    let lo = if d.cls == Cls::Fin && d.sig >> 52 != 0 && r.below(4) > 0 {
        let top = d.e - 2 - r.below(60) as i32;
        if top < f.elsb() {
            0
        } else {
            finite(r, f, top)
        }
    } else {
        0
    };
    a | lo << 64
}

fn dd_op(op: &'static str, r: &mut Rng) -> Case {
    let f = DOUBLE;
    let mut c = Case::new(op, 3);
    c.rm = r.below(5) as usize;
    match op {
        "dd_cmp" | "dd_cmp_abs" | "dd_signs" | "dd_forms" => {
            c.a = dd_pair(r);
            if op != "dd_signs" {
                let a = any(r, f);
                c.a = dd_with(r, a);
            }
            c.b = match r.below(4) {
                0 => dd_pair(r),
                1 => {
                    let a = mask(64) & c.a;
                    dd_with(r, a)
                }
                2 if op == "dd_signs" => c.a ^ 1 << r.below(128),
                2 => c.a,
                _ => c.a ^ 1 << 127,
            };
            if op == "dd_signs" && r.below(4) == 0 {
                // a zero second part, of either sign
                c.a = c.a & mask(64) | (r.coin() as u128) << 127;
                c.b = c.b & mask(64) | (r.coin() as u128) << 127;
                if r.coin() {
                    c.b = c.b & !mask(64) | c.a & mask(64)
                }
            }
            if op != "dd_signs" {
                let d = f.decode(c.b & mask(64));
                let _ = d;
                let a = c.b & mask(64);
                if r.coin() {
                    c.b = dd_with(r, a);
                }
                // keep both operands canonical
                if !dd_canonical(c.b) {
                    c.b = dd_with(r, a)
                }
                if op == "dd_cmp_abs" {
                    let fin = |v: u128| f.decode(v & mask(64)).cls == Cls::Fin;
                    if !fin(c.a) {
                        c.a = finite(r, f, 3);
                    }
                    if !fin(c.b) {
                        c.b = finite(r, f, 3);
                    }
                }
            }
        }
        "dd_add_special" | "dd_mul_special" => {
            let sp = |r: &mut Rng| match r.below(3) {
                0 => f.zero_bits(r.coin()),
                1 => f.inf_bits(r.coin()),
                _ => f.nan_bits(r.coin()) | (r.u128() & f.payload_mask()),
            };
            let s = sp(r);
            let a = any(r, f);
            let o = dd_with(r, a);
            (c.a, c.b) = if r.coin() { (s, o) } else { (o, s) };
        }
        "dd_add_exact" | "dd_mul_exact" => {
            // doubles well inside the range, so that nothing overflows or underflows
            let e = r.range(-300, 300) as i32;
            c.a = finite(r, f, e);
            let k = if op == "dd_add_exact" { r.range(-110, 110) as i32 } else { r.range(-250, 250) as i32 };
            c.b = finite(r, f, e + k);
        }
        "dd_from_int" => {
            let n = 1 + r.below(106) as u32;
            c.a = shape(r, n);
            c.n = r.coin() as i64;
        }
        "dd_to_int" => {
            let e = r.range(-2, 127) as i32;
            let a = finite(r, f, e);
            c.a = dd_with(r, a);
            c.n = r.range(2, 128);
            c.b = r.coin() as u128;
        }
        "dd_parse" => {
            // integers and dyadic fractions of at most 100 significant bits
            let n = 1 + r.below(100) as u32;
            let m = shape(r, n);
            let k = r.below(30) as u32;
            let b = apf_contracts::big::Big::from(m).mul(&apf_contracts::big::Big::pow(5, k));
            let d = to_dec(&b);
            let neg = r.coin();
            c.s = dec_string(r, neg, &d, -(k as i64));
        }
        "dd_consts" => c.a = r.u128(),
        "dd_total" => {
            let one = |r: &mut Rng| match r.below(4) {
                0 => f.nan_bits(r.coin()) | (r.u128() & f.payload_mask()),
                1 => (f.inf_bits(r.coin()) | (r.u128() & f.payload_mask())) & !(r.coin() as u128) << 51,
                _ => any(r, f),
            } & mask(64);
            c.a = one(r) | one(r) << 64;
            c.b = one(r) | one(r) << 64;
            c.c = one(r) | one(r) << 64;
            if r.coin() {
                c.b = dd_pair(r)
            }
            c.n = r.range(-5000, 5000);
        }
        "dd_nan" => {
            let sign = ["", "-"][r.below(2) as usize];
            let kind = ["nan", "snan"][r.below(2) as usize];
            let n = r.u128() >> r.below(128).max(75);
            let arg = match r.below(4) {
                0 => String::new(),
                1 => format!("({})", n),
                2 => format!("({:#x})", n),
                _ => format!("{}", n % 1000),
            };
            c.s = format!("{}{}{}", sign, kind, arg);
        }
        _ => c.a = dd_pair(r),
    }
    c
}

fn dd_canonical(v: u128) -> bool {
    let f = DOUBLE;
    let (h, l) = (f.decode(v & mask(64)), f.decode(v >> 64));
    match (h.cls, l.cls) {
        (Cls::Fin, Cls::Zero) => !l.neg,
        (Cls::Fin, Cls::Fin) => 128 - l.sig.leading_zeros() as i32 + l.e <= h.e - 1,
        _ => v >> 64 == 0,
    }
}

// ---- jobs -----------------------------------------------------------------------------------------

#[derive(Clone)]
enum Job {
    /// exhaustive over operand bits (1, 2 or 3 operands) for an 8-bit format, or 1 operand of 16 bits
    All { op: &'static str, fmt: usize, arity: u32, part: u128, parts: u128 },
    Rand { op: &'static str, fmt: usize, count: u64, salt: u64 },
    Short { fmt: usize, len: usize },
}

const ROUNDED: &[&str] = &[
    "add", "sub", "mul", "div", "fma", "to_u", "to_i", "from_u", "from_i", "convert", "round_int", "scalbn", "frexp",
];

fn uses_rm(op: &str) -> bool {
    ROUNDED.contains(&op)
}

fn do_job(j: &Job, seed: u64, sink: &mut dyn FnMut(Case)) {
    match j {
        Job::All { op, fmt, arity, part, parts } => {
            let f = FMTS[*fmt];
            let n = 1u128 << f.bits;
            let rms = if uses_rm(op) { 5 } else { 1 };
            let total = (0..*arity).fold(1u128, |t, _| t * n);
            let mut i = *part;
            while i < total {
                let (a, b, c) = (i % n, i / n % n, i / n / n);
                i += parts;
                for rm in 0..rms {
                    let mut k = Case { rm, a, b, c, ..Case::new(op, *fmt) };
                    match *op {
                        "to_u" | "to_i" => {
                            for w in [1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 18, 31, 32, 64, 127, 128] {
                                k.n = w;
                                sink(k.clone());
                            }
                            continue;
                        }
                        "convert" | "forms_conv" => {
                            for t in 0..8 {
                                k.fmt2 = t;
                                sink(k.clone());
                            }
                            continue;
                        }
                        "scalbn" | "forms1" => {
                            let lim = f.emax - f.elsb() + 3;
                            for n in (-lim..=lim).chain([i32::MIN, i32::MIN + 1, i32::MAX, -100000, 100000]) {
                                k.n = n as i64;
                                if *op == "forms1" {
                                    k.b = 1 + (n as i64).rem_euclid(128) as u128;
                                }
                                sink(k.clone());
                            }
                            continue;
                        }
                        "display" => {
                            for p in 0..8 {
                                for w in 0..6 {
                                    for alt in 0..2 {
                                        k.b = p;
                                        k.c = w;
                                        k.n = alt;
                                        sink(k.clone());
                                    }
                                }
                            }
                            continue;
                        }
                        "from_u" | "from_i" | "forms_int" => {
                            // arity counts the 16-bit integers here
                            let base = a;
                            for sh in [0u32, 1, 5, 40, 100, 112] {
                                k.a = base << sh;
                                sink(k.clone());
                                if *op != "from_u" {
                                    k.a = (base << sh).wrapping_neg();
                                    sink(k.clone());
                                }
                            }
                            continue;
                        }
                        _ => {}
                    }
                    sink(k);
                }
            }
        }
        Job::Rand { op, fmt, count, salt } => {
            let mut r = Rng(seed ^ salt.wrapping_mul(0x2545f4914f6cdd1d) ^ hash(op) ^ (*fmt as u64) << 56);
            for _ in 0..*count {
                let c = if op.starts_with("dd_") {
                    dd_op(op, &mut r)
                } else if op.starts_with("parse") {
                    let f = FMTS[*fmt];
                    let mut c = Case::new(if r.below(16) == 0 { "parse_form" } else { "parse" }, *fmt);
                    c.rm = r.below(5) as usize;
                    c.s = match *op {
                        "parse_dec" => gen_dec(&mut r, f),
                        "parse_hex" => gen_hex(&mut r, f),
                        _ => gen_junk(&mut r),
                    };
                    c
                } else if let Some(op) = op.strip_prefix("nan:") {
                    let op = OPS.iter().find(|o| **o == op).unwrap();
                    let f = FMTS[*fmt];
                    let mut c = finite_op(op, *fmt, &mut r);
                    let nan = |r: &mut Rng| f.canon(f.nan_bits(r.coin()) ^ (r.u128() & f.payload_mask() & mask(r.below(128) as u32)));
                    match r.below(4) {
                        0 => c.a = nan(&mut r),
                        1 => c.b = nan(&mut r),
                        2 => c.c = nan(&mut r),
                        _ => {
                            c.a = nan(&mut r);
                            c.b = nan(&mut r);
                        }
                    }
                    c
                } else {
                    finite_op(op, *fmt, &mut r)
                };
                sink(c);
            }
        }
        Job::Short { fmt, len } => {
            let alpha: Vec<char> = "019+-.epxaInfsN(".chars().collect();
            let total = (0..*len).fold(1usize, |t, _| t * alpha.len());
            for i in 0..total {
                let mut s = String::new();
                let mut k = i;
                for _ in 0..*len {
                    s.push(alpha[k % alpha.len()]);
                    k /= alpha.len();
                }
                for pre in ["", "nan", "0x1", "1e"] {
                    if *len == 4 && !pre.is_empty() {
                        continue;
                    }
                    let mut c = Case::new("parse", *fmt);
                    c.s = format!("{}{}", pre, s);
                    c.rm = i % 5;
                    sink(c);
                }
            }
        }
    }
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn jobs(prop: &str, thorough: bool) -> Vec<Job> {
    let k: u64 = match (prop, thorough) {
        ("A17", false) => 3,
        ("A17", true) => 50,
        ("A20", false) => 5,
        ("A20", true) => 80,
        (_, false) => 15,
        (_, true) => 150,
    };
    let mut v = vec![];
    let mut push_rand = |op: &'static str, fmts: &[usize], count: u64| {
        for &f in fmts {
            let parts = 4;
            for p in 0..parts {
                v.push(Job::Rand { op, fmt: f, count: count * k / parts, salt: p + 1 });
            }
        }
    };
    const WIDE: &[usize] = &[0, 1, 2, 3, 4, 5];
    const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7];
    let mut all: Vec<(&'static str, &[usize], u32)> = vec![];
    match prop {
        "A01" => {
            push_rand("bits", WIDE, 400_000);
            all.push(("bits", &[0, 1, 6, 7], 1));
        }
        "A02" => {
            push_rand("add", WIDE, 300_000);
            push_rand("sub", WIDE, 300_000);
            all.extend([("add", &[6usize, 7][..], 2), ("sub", &[6, 7], 2)]);
        }
        "A03" => {
            push_rand("mul", WIDE, 400_000);
            all.push(("mul", &[6, 7], 2));
        }
        "A04" => {
            push_rand("div", WIDE, 150_000);
            all.push(("div", &[6, 7], 2));
        }
        "A05" => {
            push_rand("fma", ALL, 300_000);
            if thorough {
                all.push(("fma", &[6, 7], 3));
            }
        }
        "A06" => {
            push_rand("ieee_rem", WIDE, 15_000);
            push_rand("c_fmod", WIDE, 15_000);
            all.extend([("ieee_rem", &[6usize, 7][..], 2), ("c_fmod", &[6, 7], 2)]);
        }
        "A07" => {
            for op in [
                "nan:add", "nan:sub", "nan:mul", "nan:div", "nan:fma", "nan:ieee_rem", "nan:c_fmod", "nan:round_int",
                "nan:convert", "nan:next_up", "nan:next_down", "nan:scalbn", "nan:frexp",
            ] {
                push_rand(op, ALL, 20_000);
            }
            all.extend([("add", &[6usize, 7][..], 2), ("mul", &[6, 7], 2), ("next_up", &[0, 1, 6, 7], 1)]);
        }
        "A08" => {
            push_rand("forms2", WIDE, 8_000);
            push_rand("forms_fma", WIDE, 60_000);
            push_rand("forms1", WIDE, 60_000);
            push_rand("forms_int", ALL, 60_000);
            push_rand("forms_conv", WIDE, 60_000);
            push_rand("parse_dec", &[2, 3], 3_000);
            push_rand("dd_forms", &[3], 20_000);
            all.extend([("forms2", &[6usize, 7][..], 2), ("forms_conv", &[6, 7], 1), ("forms1", &[6, 7], 1)]);
        }
        "A09" => {
            push_rand("cmp", WIDE, 400_000);
            all.push(("cmp", &[6, 7], 2));
        }
        "A10" => {
            for op in ["min", "max", "minimum", "maximum"] {
                push_rand(op, WIDE, 200_000);
                all.push((op, &[6, 7], 2));
            }
        }
        "A11" => {
            push_rand("to_u", WIDE, 300_000);
            push_rand("to_i", WIDE, 300_000);
            all.extend([("to_u", &[0usize, 1, 6, 7][..], 1), ("to_i", &[0, 1, 6, 7], 1)]);
        }
        "A12" => {
            push_rand("from_u", ALL, 300_000);
            push_rand("from_i", ALL, 300_000);
            all.extend([("from_u", &[0usize, 1][..], 1), ("from_i", &[0, 1], 1)]);
        }
        "A13" => {
            push_rand("convert", WIDE, 600_000);
            all.push(("convert", &[0, 1, 6, 7], 1));
        }
        "A14" => {
            push_rand("round_int", WIDE, 300_000);
            push_rand("is_integer", WIDE, 150_000);
            all.extend([("round_int", &[0usize, 1, 6, 7][..], 1), ("is_integer", &[0, 1, 6, 7], 1)]);
        }
        "A15" => {
            push_rand("next_up", WIDE, 300_000);
            push_rand("next_down", WIDE, 300_000);
            all.extend([("next_up", &[0usize, 1, 6, 7][..], 1), ("next_down", &[0, 1, 6, 7], 1)]);
        }
        "A16" => {
            push_rand("scalbn", WIDE, 400_000);
            push_rand("ilogb", WIDE, 150_000);
            push_rand("frexp", WIDE, 200_000);
            all.extend([("scalbn", &[6usize, 7][..], 1), ("ilogb", &[0, 1, 6, 7], 1), ("frexp", &[0, 1, 6, 7], 1)]);
        }
        "A17" => {
            push_rand("parse_dec", &[0, 1, 2, 6, 7], 60_000);
            push_rand("parse_dec", &[3, 5], 16_000);
            push_rand("parse_dec", &[4], 8_000);
        }
        "A18" => push_rand("parse_hex", ALL, 150_000),
        "A19" => {
            push_rand("parse_junk", ALL, 120_000);
            for f in [3, 5, 7] {
                for len in 0..=(if thorough { 4 } else { 3 }) {
                    all.push(("short", if f == 3 { &[3] } else if f == 5 { &[5] } else { &[7] }, len));
                }
            }
        }
        "A20" => {
            push_rand("display", &[0, 1, 2], 40_000);
            push_rand("display", &[3], 15_000);
            push_rand("display", &[4, 5], 3_000);
            all.push(("display", &[6, 7], 1));
        }
        "A21" => {
            push_rand("signs", WIDE, 200_000);
            push_rand("consts", ALL, 50_000);
            all.push(("signs", &[6, 7], 2));
        }
        "A22" => {
            push_rand("inverse", WIDE, 200_000);
            all.push(("inverse", &[0, 1, 6, 7], 1));
        }
        "A23" => {
            for op in ["dd_bits", "dd_signs", "dd_cmp", "dd_cmp_abs", "dd_consts"] {
                push_rand(op, &[3], 300_000);
            }
            for op in ["dd_add_special", "dd_mul_special"] {
                push_rand(op, &[3], 300_000);
            }
            push_rand("dd_total", &[3], 5_000);
            push_rand("dd_nan", &[3], 2_000);
        }
        "A24" => {
            for op in ["dd_add_exact", "dd_mul_exact", "dd_from_int", "dd_to_int"] {
                push_rand(op, &[3], 200_000);
            }
            push_rand("dd_parse", &[3], 20_000);
        }
        _ => panic!("unknown property {}", prop),
    }
    for (op, fmts, arity) in all {
        for &f in fmts {
            if op == "short" {
                v.push(Job::Short { fmt: f, len: arity as usize });
                continue;
            }
            let parts = 1u128 << (4 * (arity - 1)).max(2);
            for part in 0..parts {
                v.push(Job::All { op, fmt: f, arity, part, parts });
            }
        }
    }
    v
}

/// no call on the unchanged tree takes anywhere near this long (seconds)
const HANG: u64 = 40;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let c = Case::parse(&args[2]).expect("malformed case");
            if args.get(3).map(|s| s.as_str()) == Some("-v") {
                let _ = std::panic::take_hook();
            }
            let text = c.text();
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(HANG));
                println!("FAILS {} ; did not return within {} s", text, HANG);
                std::process::exit(1);
            });
            match judge(&c) {
                None => {
                    println!("HOLDS {}", c.text());
                }
                Some(m) => {
                    println!("FAILS {}", m);
                    std::process::exit(1);
                }
            }
        }
        Some("search") => {
            let prop = &args[2];
            let seed: u64 = args[3].parse().unwrap();
            let thorough = args[4] == "thorough";
            let js = jobs(prop, thorough);
            let next = AtomicUsize::new(0);
            let fails: Mutex<Vec<String>> = Mutex::new(vec![]);
            let nfails = AtomicUsize::new(0);
            let done: Mutex<(u64, HashSet<u64>, Vec<String>)> = Mutex::new((0, HashSet::new(), vec![]));
            let current: std::sync::Arc<Vec<Mutex<Option<(std::time::Instant, Case)>>>> =
                std::sync::Arc::new((0..8).map(|_| Mutex::new(None)).collect());
            let watch = current.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_secs(2));
                for w in watch.iter() {
                    if let Some((t, c)) = &*w.lock().unwrap() {
                        if t.elapsed().as_secs() >= HANG {
                            println!("EVALUATIONS 0\nDISTINCT 0\nFAILURES 1");
                            println!("FAIL {} ; did not return within {} s", c.text(), HANG);
                            std::process::exit(1);
                        }
                    }
                }
            });
            std::thread::scope(|sc| {
                // WITNESS_TRACE=<file>: one thread, and the case about to be run is kept in <file>, so that the
                // driver can name it if the process dies
                let trace = std::env::var("WITNESS_TRACE").ok();
                for w in 0..(if trace.is_some() { 1 } else { 8 }) {
                    let mut trace = trace.as_ref().map(|p| std::fs::File::create(p).unwrap());
                    let current = &current;
                    let (js, next, fails, nfails, done) = (&js, &next, &fails, &nfails, &done);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= js.len() {
                                break;
                            }
                            let mut n = 0u64;
                            let mut seen: Vec<u64> = vec![];
                            let mut sample = None;
                            do_job(&js[i], seed, &mut |c: Case| {
                                n += 1;
                                // non-trivial: the first operand (or the text) is not empty/zero/NaN
                                let t = !c.s.is_empty()
                                    || (c.a != 0 && (c.op.starts_with("dd") || FMTS[c.fmt].decode(c.a).cls == Cls::Fin));
                                if t {
                                    use std::hash::{Hash, Hasher};
                                    if seen.len() < 2_000_000 {
                                        let mut h = std::collections::hash_map::DefaultHasher::new();
                                        c.hash(&mut h);
                                        seen.push(h.finish());
                                    }
                                    if n % 1000 == 7 || sample.is_none() {
                                        sample = Some(c.text());
                                    }
                                }
                                *current[w].lock().unwrap() = Some((std::time::Instant::now(), c.clone()));
                                if let Some(t) = &mut trace {
                                    use std::os::unix::fs::FileExt;
                                    let line = format!("{}\n", c.text());
                                    t.set_len(line.len() as u64).unwrap();
                                    t.write_all_at(line.as_bytes(), 0).unwrap();
                                }
                                let verdict = judge(&c);
                                *current[w].lock().unwrap() = None;
                                if let Some(m) = verdict {
                                    if nfails.fetch_add(1, Ordering::SeqCst) < 2000 {
                                        fails.lock().unwrap().push(m);
                                    }
                                }
                            });
                            let mut d = done.lock().unwrap();
                            d.0 += n;
                            if d.1.len() < 20_000_000 {
                                d.1.extend(seen);
                            }
                            if d.2.len() < 8 && (i * 7) % 5 == 0 {
                                d.2.extend(sample);
                            }
                        })
                        .unwrap();
                }
            });
            let d = done.into_inner().unwrap();
            println!("EVALUATIONS {}", d.0);
            println!("DISTINCT {}", d.1.len());
            for s in &d.2 {
                println!("SAMPLE {}", s);
            }
            let mut f = fails.into_inner().unwrap();
            f.sort_by_key(|s| (s.len(), s.clone()));
            println!("FAILURES {}", nfails.load(Ordering::SeqCst));
            for m in &f {
                println!("FAIL {}", m);
            }
            if !f.is_empty() {
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: witness search <property> <seed> <tier> | replay <case>");
            std::process::exit(2);
        }
    }
}
