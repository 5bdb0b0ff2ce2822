//! Executable postconditions: what IEEE 754 says the answer is, computed independently of the crate
//! under test, on exact integers.  Loop-free (except division), so the same text serves as the
//! postcondition of the Kani contracts and as the judge of concrete replays.

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Fmt {
    pub bits: u32,
    /// significand bits, integer bit included
    pub p: u32,
    pub emin: i32,
    pub emax: i32,
    /// explicit integer bit (x87)
    pub x87: bool,
    /// no infinities, one NaN payload (E4M3FN)
    pub nanonly: bool,
}

pub const HALF: Fmt = Fmt { bits: 16, p: 11, emin: -14, emax: 15, x87: false, nanonly: false };
pub const BFLOAT: Fmt = Fmt { bits: 16, p: 8, emin: -126, emax: 127, x87: false, nanonly: false };
pub const SINGLE: Fmt = Fmt { bits: 32, p: 24, emin: -126, emax: 127, x87: false, nanonly: false };
pub const DOUBLE: Fmt = Fmt { bits: 64, p: 53, emin: -1022, emax: 1023, x87: false, nanonly: false };
pub const QUAD: Fmt = Fmt { bits: 128, p: 113, emin: -16382, emax: 16383, x87: false, nanonly: false };
pub const X87: Fmt = Fmt { bits: 80, p: 64, emin: -16382, emax: 16383, x87: true, nanonly: false };
pub const E5M2: Fmt = Fmt { bits: 8, p: 3, emin: -14, emax: 15, x87: false, nanonly: false };
pub const E4M3: Fmt = Fmt { bits: 8, p: 4, emin: -6, emax: 8, x87: false, nanonly: true };

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Cls {
    Nan,
    Inf,
    Zero,
    Fin,
}

/// A decoded datum.  For `Fin` the value is `(-1)^neg * sig * 2^e`; for `Nan`, `sig` is the stored
/// significand field.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Dec {
    pub cls: Cls,
    pub neg: bool,
    pub sig: u128,
    pub e: i32,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Rm {
    Ne,
    Up,
    Dn,
    Tz,
    Na,
}
pub const RMS: [Rm; 5] = [Rm::Ne, Rm::Up, Rm::Dn, Rm::Tz, Rm::Na];

pub const OK: u8 = 0;
pub const INV: u8 = 1;
pub const DZ: u8 = 2;
pub const OVF: u8 = 4;
pub const UNF: u8 = 8;
pub const INX: u8 = 16;

/// mask of n low bits, n <= 128
pub fn mask(n: u32) -> u128 {
    if n == 0 {
        0
    } else {
        !0u128 >> (128 - n)
    }
}

impl Fmt {
    pub fn all(self) -> u128 {
        mask(self.bits)
    }
    /// number of stored significand bits
    pub fn fw(self) -> u32 {
        if self.x87 {
            self.p
        } else {
            self.p - 1
        }
    }
    pub fn expw(self) -> u32 {
        self.bits - 1 - self.fw()
    }
    pub fn emask(self) -> u128 {
        mask(self.expw())
    }
    pub fn sign_bit(self) -> u128 {
        1u128 << (self.bits - 1)
    }
    pub fn inf_bits(self, neg: bool) -> u128 {
        let m = if self.nanonly {
            mask(self.bits - 1)
        } else if self.x87 {
            (self.emask() << self.fw()) | (1u128 << 63)
        } else {
            self.emask() << self.fw()
        };
        m | if neg { self.sign_bit() } else { 0 }
    }
    pub fn zero_bits(self, neg: bool) -> u128 {
        if neg {
            self.sign_bit()
        } else {
            0
        }
    }
    /// the canonical NaN the library produces for invalid operations (sign as given)
    pub fn nan_bits(self, neg: bool) -> u128 {
        let m = if self.nanonly {
            mask(self.bits - 1)
        } else if self.x87 {
            (self.emask() << self.fw()) | (3u128 << 62)
        } else {
            (self.emask() << self.fw()) | (1u128 << (self.p - 2))
        };
        m | if neg { self.sign_bit() } else { 0 }
    }
    pub fn max_bits(self, neg: bool) -> u128 {
        let m = if self.nanonly {
            mask(self.bits - 1) - 1
        } else {
            ((self.emask() - 1) << self.fw()) | mask(self.fw())
        };
        m | if neg { self.sign_bit() } else { 0 }
    }
    /// bits that carry NaN payload (quiet bit included)
    pub fn payload_mask(self) -> u128 {
        if self.nanonly {
            0
        } else {
            mask(self.p - 1)
        }
    }
    pub fn quiet_bit(self) -> u128 {
        if self.nanonly {
            0
        } else {
            1u128 << (self.p - 2)
        }
    }
    /// exponent of the least significant bit of the smallest subnormal
    pub fn elsb(self) -> i32 {
        self.emin - (self.p as i32 - 1)
    }

    pub fn decode(self, b: u128) -> Dec {
        let neg = b & self.sign_bit() != 0;
        let ef = (b >> self.fw()) & self.emask();
        let f = b & mask(self.fw());
        let mut d = Dec { cls: Cls::Fin, neg, sig: f, e: 0 };
        if self.nanonly {
            if b & mask(self.bits - 1) == mask(self.bits - 1) {
                d.cls = Cls::Nan;
                return d;
            }
        } else if self.x87 {
            let int = f >> 63 != 0;
            if ef == self.emask() {
                d.cls = if f == 1u128 << 63 { Cls::Inf } else { Cls::Nan };
                return d;
            }
            if ef != 0 && !int {
                d.cls = Cls::Nan; // "unnormal"
                return d;
            }
        } else if ef == self.emask() {
            d.cls = if f == 0 { Cls::Inf } else { Cls::Nan };
            return d;
        }
        if ef == 0 {
            if f == 0 {
                d.cls = Cls::Zero;
            }
            d.e = self.elsb();
        } else {
            if !self.x87 {
                d.sig |= 1u128 << (self.p - 1);
            }
            d.e = ef as i32 - 1 + self.elsb();
        }
        d
    }

    /// Encode `sig * 2^e` where `sig < 2^p`, and either `sig >= 2^(p-1)` or `e == elsb`.
    pub fn encode(self, neg: bool, sig: u128, e: i32) -> u128 {
        let int = sig >> (self.p - 1) != 0;
        let ef = if int { (e - self.elsb() + 1) as u128 } else { 0 };
        (ef << self.fw()) | (sig & mask(self.fw())) | if neg { self.sign_bit() } else { 0 }
    }

    /// What re-encoding a decoded pattern must give: the identity, except for x87's non-canonical
    /// patterns (unnormals read as NaN, pseudo-denormals as normal numbers).
    pub fn canon(self, b: u128) -> u128 {
        let b = b & self.all();
        if self.x87 {
            let d = self.decode(b);
            match d.cls {
                Cls::Nan => (self.emask() << self.fw()) | d.sig | (b & self.sign_bit()),
                Cls::Fin => self.encode(d.neg, d.sig, d.e),
                _ => b,
            }
        } else {
            b
        }
    }

    pub fn is_snan(self, d: Dec) -> bool {
        d.cls == Cls::Nan
            && !self.nanonly
            && if self.x87 { d.sig >> 62 != 3 } else { d.sig & self.quiet_bit() == 0 }
    }

    /// The NaN delivered when NaN `d` is an operand: same sign and payload, quieted.
    pub fn nan_result(self, d: Dec) -> (u128, u8) {
        let snan = self.is_snan(d);
        let mut sig = d.sig;
        if snan {
            sig |= self.quiet_bit();
        }
        ((self.emask() << self.fw()) | sig | if d.neg { self.sign_bit() } else { 0 }, if snan { INV } else { OK })
    }

    pub fn overflow(self, neg: bool, rm: Rm) -> (u128, u8) {
        let away = match rm {
            Rm::Ne | Rm::Na => true,
            Rm::Tz => false,
            Rm::Up => !neg,
            Rm::Dn => neg,
        };
        if away {
            (self.inf_bits(neg), OVF | INX)
        } else {
            (self.max_bits(neg), INX)
        }
    }

    /// Correct rounding of `(-1)^neg * V`, where `V = m * 2^e` if `!sticky`, and
    /// `m * 2^e < V < (m + 1) * 2^e` if `sticky`.  With `sticky`, `m` must have more than `p + 1`
    /// bits or `e` must be below `elsb - 1`.
    pub fn round(self, neg: bool, m: U256, e: i32, sticky: bool, rm: Rm) -> (u128, u8) {
        let n = m.bitlen() as i32;
        if n == 0 && !sticky {
            return (self.zero_bits(neg), OK);
        }
        // exponent of the last place of the result
        let mut el = e + n - self.p as i32;
        if el < self.elsb() {
            el = self.elsb();
        }
        let (q, half, rest); // truncated significand; first dropped bit; any lower bit
        if el >= e {
            let k = (el - e) as u32;
            q = m.shr(k).lo;
            half = k > 0 && m.bit(k - 1);
            rest = sticky || (k > 1 && m.any_below(k - 1));
        } else {
            // exact, room to spare (sticky excluded by the precondition)
            q = m.shl((e - el) as u32).lo;
            half = false;
            rest = false;
        }
        let inexact = half || rest;
        let up = match rm {
            Rm::Tz => false,
            Rm::Up => inexact && !neg,
            Rm::Dn => inexact && neg,
            Rm::Ne => half && (rest || q & 1 == 1),
            Rm::Na => half,
        };
        // Largest finite number of the format, as a significand at exponent emax.
        let mut q = q;
        if el > self.emax - (self.p as i32 - 1) {
            return self.overflow(neg, rm);
        }
        let at_top = el == self.emax - (self.p as i32 - 1);
        let maxq = if self.nanonly { mask(self.p) - 1 } else { mask(self.p) };
        if at_top && q > maxq {
            return self.overflow(neg, rm);
        }
        if up {
            q += 1;
            if at_top && q > maxq {
                return self.overflow(neg, rm);
            }
            if q >> self.p != 0 {
                q >>= 1;
                el += 1;
            }
        }
        let b = self.encode(neg, q, el);
        if !inexact {
            (b, OK)
        } else if q >> (self.p - 1) == 0 {
            (b, UNF | INX)
        } else {
            (b, INX)
        }
    }

    pub fn nan2(self, a: Dec, b: Dec) -> Option<(u128, u8)> {
        if a.cls == Cls::Nan {
            let (v, s) = self.nan_result(a);
            Some((v, if self.is_snan(b) { s | INV } else { s }))
        } else if b.cls == Cls::Nan {
            Some(self.nan_result(b))
        } else {
            None
        }
    }

    pub fn zero_sum_sign(an: bool, bn: bool, rm: Rm) -> bool {
        if an == bn {
            an
        } else {
            rm == Rm::Dn
        }
    }

    /// a + b (or a - b when `sub`)
    pub fn add(self, a: u128, b: u128, sub: bool, rm: Rm) -> (u128, u8) {
        let (x, mut y) = (self.decode(a), self.decode(b));
        if let Some(r) = self.nan2(x, y) {
            return r;
        }
        if sub {
            y.neg = !y.neg;
        }
        match (x.cls, y.cls) {
            (Cls::Inf, Cls::Inf) => {
                if x.neg == y.neg {
                    (self.inf_bits(x.neg), OK)
                } else {
                    (self.nan_bits(false), INV)
                }
            }
            (Cls::Inf, _) => (self.inf_bits(x.neg), OK),
            (_, Cls::Inf) => (self.inf_bits(y.neg), OK),
            (Cls::Zero, Cls::Zero) => (self.zero_bits(Self::zero_sum_sign(x.neg, y.neg, rm)), OK),
            _ => {
                let s = sum(x.neg, U256::from(x.sig), x.e, y.neg, U256::from(y.sig), y.e);
                if s.m.is_zero() && !s.sticky {
                    return (self.zero_bits(Self::zero_sum_sign(x.neg, y.neg, rm)), OK);
                }
                self.round(s.neg, s.m, s.e, s.sticky, rm)
            }
        }
    }

    pub fn mul(self, a: u128, b: u128, rm: Rm) -> (u128, u8) {
        let (x, y) = (self.decode(a), self.decode(b));
        if let Some(r) = self.nan2(x, y) {
            return r;
        }
        let neg = x.neg != y.neg;
        match (x.cls, y.cls) {
            (Cls::Inf, Cls::Zero) | (Cls::Zero, Cls::Inf) => (self.nan_bits(false), INV),
            (Cls::Inf, _) | (_, Cls::Inf) => (self.inf_bits(neg), OK),
            (Cls::Zero, _) | (_, Cls::Zero) => (self.zero_bits(neg), OK),
            _ => self.round(neg, U256::mul(x.sig, y.sig), x.e + y.e, false, rm),
        }
    }

    pub fn div(self, a: u128, b: u128, rm: Rm) -> (u128, u8) {
        let (x, y) = (self.decode(a), self.decode(b));
        if let Some(r) = self.nan2(x, y) {
            return r;
        }
        let neg = x.neg != y.neg;
        match (x.cls, y.cls) {
            (Cls::Inf, Cls::Inf) | (Cls::Zero, Cls::Zero) => (self.nan_bits(false), INV),
            (Cls::Inf, _) => (self.inf_bits(neg), OK),
            (Cls::Zero, _) | (_, Cls::Inf) => (self.zero_bits(neg), OK),
            (_, Cls::Zero) => (self.inf_bits(neg), DZ),
            _ => {
                if self.p <= 16 {
                    // small formats: 40 quotient bits more than either operand has
                    let n = x.sig << 40;
                    let q = n / y.sig;
                    let r = n % y.sig;
                    self.round(neg, U256::from(q), x.e - y.e - 40, r != 0, rm)
                } else {
                    let n = U256::from(x.sig);
                    let k = 250 - n.bitlen();
                    let (q, r) = n.shl(k).divrem(y.sig);
                    self.round(neg, q, x.e - y.e - k as i32, r != 0, rm)
                }
            }
        }
    }

    /// a * b + c, one rounding
    pub fn fma(self, a: u128, b: u128, c: u128, rm: Rm) -> (u128, u8) {
        let (x, y, z) = (self.decode(a), self.decode(b), self.decode(c));
        let neg = x.neg != y.neg;
        if let Some((v, s)) = self.nan2(x, y) {
            return (v, if self.is_snan(z) { s | INV } else { s });
        }
        let prod = match (x.cls, y.cls) {
            (Cls::Inf, Cls::Zero) | (Cls::Zero, Cls::Inf) => return (self.nan_bits(false), INV),
            (Cls::Inf, _) | (_, Cls::Inf) => Cls::Inf,
            (Cls::Zero, _) | (_, Cls::Zero) => Cls::Zero,
            _ => Cls::Fin,
        };
        if z.cls == Cls::Nan {
            return self.nan_result(z);
        }
        match (prod, z.cls) {
            (Cls::Inf, Cls::Inf) => {
                if neg == z.neg {
                    (self.inf_bits(neg), OK)
                } else {
                    (self.nan_bits(false), INV)
                }
            }
            (Cls::Inf, _) => (self.inf_bits(neg), OK),
            (_, Cls::Inf) => (self.inf_bits(z.neg), OK),
            (Cls::Zero, Cls::Zero) => (self.zero_bits(Self::zero_sum_sign(neg, z.neg, rm)), OK),
            _ => {
                let s = sum(neg, U256::mul(x.sig, y.sig), x.e + y.e, z.neg, U256::from(z.sig), z.e);
                if s.m.is_zero() && !s.sticky {
                    return (self.zero_bits(Self::zero_sum_sign(neg, z.neg, rm)), OK);
                }
                self.round(s.neg, s.m, s.e, s.sticky, rm)
            }
        }
    }

    /// integral rounding of the magnitude: returns (integer part after rounding, inexact); the
    /// magnitude must be below 2^128
    fn to_int_mag(d: Dec, rm: Rm) -> (U256, bool) {
        let (q, half, rest) = if d.e >= 0 {
            (U256::from(d.sig).shl(d.e as u32), false, false)
        } else {
            let k = d.e.unsigned_abs();
            let m = U256::from(d.sig);
            (m.shr(k), m.bit(k - 1), k > 1 && m.any_below(k - 1))
        };
        let inexact = half || rest;
        let up = match rm {
            Rm::Tz => false,
            Rm::Up => inexact && !d.neg,
            Rm::Dn => inexact && d.neg,
            Rm::Ne => half && (rest || q.lo & 1 == 1),
            Rm::Na => half,
        };
        (if up { q.add(U256::from(1)) } else { q }, inexact)
    }

    /// float -> integer of `width` bits; returns (value bits, status, exact)
    pub fn to_int(self, a: u128, width: u32, signed: bool, rm: Rm) -> (u128, u8, bool) {
        Self::to_int_dec(self.decode(a), width, signed, rm)
    }
    pub fn to_int_dec(d: Dec, width: u32, signed: bool, rm: Rm) -> (u128, u8, bool) {
        let max_pos = if signed { mask(width - 1) } else { mask(width) };
        let max_neg = if signed { 1u128 << (width - 1) } else { 0 };
        let sat = if d.neg { max_neg.wrapping_neg() } else { max_pos };
        match d.cls {
            Cls::Nan => (0, INV, false),
            Cls::Inf => (sat, INV, false),
            Cls::Zero => (0, OK, !d.neg),
            Cls::Fin => {
                let top = U256::from(d.sig).bitlen() as i32 + d.e;
                if top > 129 {
                    return (sat, INV, false);
                }
                let (q, inexact) = Self::to_int_mag(d, rm);
                let lim = if d.neg { max_neg } else { max_pos };
                if q.gt(U256::from(lim)) {
                    return (sat, INV, false);
                }
                (if d.neg { q.lo.wrapping_neg() } else { q.lo }, if inexact { INX } else { OK }, !inexact)
            }
        }
    }

    pub fn from_int(self, neg: bool, mag: u128, rm: Rm) -> (u128, u8) {
        self.round(neg && mag != 0, U256::from(mag), 0, false, rm)
    }

    pub fn round_to_integral(self, a: u128, rm: Rm) -> (u128, u8) {
        let d = self.decode(a);
        match d.cls {
            Cls::Nan => self.nan_result(d),
            Cls::Inf | Cls::Zero => (a, OK),
            Cls::Fin => {
                if d.e >= 0 {
                    return (self.canon(a), OK);
                }
                let (q, inexact) = Self::to_int_mag(d, rm);
                if q.is_zero() {
                    return (self.zero_bits(d.neg), INX);
                }
                let (b, s) = self.round(d.neg, q, 0, false, Rm::Ne);
                (b, s | if inexact { INX } else { OK })
            }
        }
    }

    pub fn is_integer(self, a: u128) -> bool {
        let d = self.decode(a);
        match d.cls {
            Cls::Nan | Cls::Inf => false,
            Cls::Zero => true,
            Cls::Fin => d.e >= 0 || !U256::from(d.sig).any_below(d.e.unsigned_abs()),
        }
    }

    /// Order key of a non-NaN datum: an integer monotone in the value, equal for +0 and -0.
    /// (Canonical bits of every format order like sign-magnitude integers.)
    pub fn key(self, a: u128) -> (i8, u128) {
        let a = self.canon(a);
        let m = a & !self.sign_bit();
        if m == 0 {
            (0, 0)
        } else if a & self.sign_bit() != 0 {
            (-1, !m)
        } else {
            (1, m)
        }
    }

    pub fn next_up(self, a: u128) -> (u128, u8) {
        let d = self.decode(a);
        let a = self.canon(a);
        match d.cls {
            Cls::Nan => {
                if self.is_snan(d) {
                    (self.nan_bits(d.neg), INV)
                } else {
                    (a, OK)
                }
            }
            Cls::Inf => (if d.neg { self.max_bits(true) } else { a }, OK),
            Cls::Zero => (1, OK),
            Cls::Fin => {
                if !d.neg && a == self.max_bits(false) {
                    return (self.inf_bits(false), OK);
                }
                // magnitude moves by one unit in the last place
                let b = if d.neg {
                    if d.sig == 1u128 << (self.p - 1) && d.e > self.elsb() {
                        self.encode(true, mask(self.p), d.e - 1)
                    } else if d.sig == 1 {
                        self.zero_bits(true)
                    } else {
                        self.encode(true, d.sig - 1, d.e)
                    }
                } else if d.sig == mask(self.p) {
                    self.encode(false, 1u128 << (self.p - 1), d.e + 1)
                } else {
                    self.encode(false, d.sig + 1, d.e)
                };
                (b, OK)
            }
        }
    }

    pub fn scalbn(self, a: u128, n: i32, rm: Rm) -> u128 {
        let d = self.decode(a);
        match d.cls {
            Cls::Nan => self.nan_result(d).0,
            Cls::Inf | Cls::Zero => a,
            Cls::Fin => {
                let e = (d.e as i64 + n as i64).clamp(-200_000, 200_000) as i32;
                self.round(d.neg, U256::from(d.sig), e, false, rm).0
            }
        }
    }

    pub fn ilogb(self, a: u128) -> i32 {
        let d = self.decode(a);
        match d.cls {
            Cls::Nan => i32::MIN,
            Cls::Inf => i32::MAX,
            Cls::Zero => i32::MIN + 1,
            Cls::Fin => U256::from(d.sig).bitlen() as i32 - 1 + d.e,
        }
    }

    /// (bits, status, loses_info)
    pub fn convert(self, t: Fmt, a: u128, rm: Rm) -> (u128, u8, bool) {
        let d = self.decode(a);
        match d.cls {
            Cls::Zero => (t.zero_bits(d.neg), OK, false),
            Cls::Inf => {
                if t.nanonly {
                    (t.nan_bits(d.neg), INX, true)
                } else {
                    (t.inf_bits(d.neg), OK, false)
                }
            }
            Cls::Fin => {
                let (b, s) = t.round(d.neg, U256::from(d.sig), d.e, false, rm);
                (b, s, s != OK)
            }
            Cls::Nan => {
                let (q, s) = self.nan_result(d);
                let sig = q & mask(self.fw());
                let sh = t.p as i32 - self.p as i32;
                let pseudo = self.x87 && !t.x87 && d.sig >> 62 != 3;
                let (m, lost) = if sh >= 0 {
                    (sig << sh, false)
                } else if self.nanonly {
                    (sig, false)
                } else {
                    (sig >> -sh, sig & mask((-sh) as u32) != 0)
                };
                let loses = lost || pseudo || (!self.nanonly && t.nanonly);
                (t.nan_bits(d.neg) | (m & t.payload_mask()), s, loses)
            }
        }
    }

    /// x - n*y, with n = trunc(x/y) (`ieee == false`) or the nearest-even integer (`ieee == true`)
    pub fn rem(self, a: u128, b: u128, ieee: bool) -> (u128, u8) {
        let (x, y) = (self.decode(a), self.decode(b));
        if let Some(r) = self.nan2(x, y) {
            return r;
        }
        match (x.cls, y.cls) {
            (Cls::Inf, _) | (_, Cls::Zero) => (self.nan_bits(false), INV),
            (Cls::Zero, _) | (_, Cls::Inf) => (self.canon(a), OK),
            _ => {
                // common scale: e = min(ex, ey)
                let (r, odd, yy, e); // |x| mod |y|, parity of quotient, |y|, scale
                if x.e >= y.e {
                    let mut rr = x.sig % y.sig;
                    let mut qodd = (x.sig / y.sig) & 1 == 1;
                    let mut k = x.e - y.e;
                    if k > 0 {
                        qodd = false;
                    }
                    while k > 0 {
                        rr <<= 1;
                        qodd = rr >= y.sig;
                        if qodd {
                            rr -= y.sig;
                        }
                        k -= 1;
                    }
                    (r, odd, yy, e) = (U256::from(rr), qodd, U256::from(y.sig), y.e);
                } else if y.e - x.e > 120 {
                    // |x| < |y| / 2
                    return (self.canon(a), OK);
                } else {
                    yy = U256::from(y.sig).shl((y.e - x.e) as u32);
                    e = x.e;
                    let xs = U256::from(x.sig);
                    // here sig_x < 2^p: the quotient can exceed 1 only for small shifts
                    let mut rr = xs;
                    let mut q = 0u128;
                    if !yy.gt(xs) {
                        q = x.sig / yy.lo;
                        rr = U256::from(x.sig % yy.lo);
                    }
                    (r, odd) = (rr, q & 1 == 1);
                }
                let mut neg = x.neg;
                let mut mag = r;
                if ieee {
                    let twice = r.shl(1);
                    if twice.gt(yy) || (twice == yy && odd) {
                        mag = yy.sub(r);
                        neg = !neg;
                    }
                }
                if mag.is_zero() {
                    return (self.zero_bits(x.neg), OK);
                }
                self.round(neg, mag, e, false, Rm::Ne)
            }
        }
    }
}

/// Exact sum of two signed dyadics as sign, magnitude window, exponent and sticky flag.
#[derive(Copy, Clone, Debug)]
pub struct Sum {
    pub neg: bool,
    pub m: U256,
    pub e: i32,
    pub sticky: bool,
}

pub fn sum(an: bool, am: U256, ae: i32, bn: bool, bm: U256, be: i32) -> Sum {
    if bm.is_zero() {
        return Sum { neg: an, m: am, e: ae, sticky: false };
    }
    if am.is_zero() {
        return Sum { neg: bn, m: bm, e: be, sticky: false };
    }
    // put the operand with the higher leading bit first, normalised to 251 bits
    let at = am.bitlen() as i32 + ae;
    let bt = bm.bitlen() as i32 + be;
    let (xn, xm, xe, yn, ym, ye) =
        if at >= bt { (an, am, ae, bn, bm, be) } else { (bn, bm, be, an, am, ae) };
    let (xm, xe) = if xm.bitlen() > 251 {
        let z = xm.trailing_zeros();
        (xm.shr(z), xe + z as i32)
    } else {
        (xm, xe)
    };
    let k = 251 - xm.bitlen();
    let xm = xm.shl(k);
    let e = xe - k as i32;
    let (ym, sticky) = if ye >= e {
        (ym.shl((ye - e) as u32), false)
    } else {
        let s = (e - ye) as u32;
        (ym.shr(s), ym.any_below(s))
    };
    if xn == yn {
        Sum { neg: xn, m: xm.add(ym), e, sticky }
    } else if sticky {
        // X - (Y + eps) = (X - Y - 1) + (1 - eps)
        Sum { neg: xn, m: xm.sub(ym).sub(U256::from(1)), e, sticky }
    } else if ym.gt(xm) {
        Sum { neg: yn, m: ym.sub(xm), e, sticky }
    } else {
        Sum { neg: xn, m: xm.sub(ym), e, sticky }
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct U256 {
    pub hi: u128,
    pub lo: u128,
}

impl U256 {
    pub fn from(lo: u128) -> U256 {
        U256 { hi: 0, lo }
    }
    pub fn is_zero(self) -> bool {
        self.hi == 0 && self.lo == 0
    }
    pub fn bitlen(self) -> u32 {
        if self.hi != 0 {
            256 - self.hi.leading_zeros()
        } else {
            128 - self.lo.leading_zeros()
        }
    }
    pub fn trailing_zeros(self) -> u32 {
        if self.lo != 0 {
            self.lo.trailing_zeros()
        } else {
            128 + self.hi.trailing_zeros()
        }
    }
    pub fn gt(self, o: U256) -> bool {
        self.hi > o.hi || (self.hi == o.hi && self.lo > o.lo)
    }
    pub fn shl(self, k: u32) -> U256 {
        if k >= 256 {
            U256 { hi: 0, lo: 0 }
        } else if k >= 128 {
            U256 { hi: self.lo << (k - 128), lo: 0 }
        } else if k == 0 {
            self
        } else {
            U256 { hi: (self.hi << k) | (self.lo >> (128 - k)), lo: self.lo << k }
        }
    }
    pub fn shr(self, k: u32) -> U256 {
        if k >= 256 {
            U256 { hi: 0, lo: 0 }
        } else if k >= 128 {
            U256 { hi: 0, lo: self.hi >> (k - 128) }
        } else if k == 0 {
            self
        } else {
            U256 { hi: self.hi >> k, lo: (self.lo >> k) | (self.hi << (128 - k)) }
        }
    }
    pub fn bit(self, k: u32) -> bool {
        if k >= 256 {
            false
        } else if k >= 128 {
            (self.hi >> (k - 128)) & 1 == 1
        } else {
            (self.lo >> k) & 1 == 1
        }
    }
    /// any of the k lowest bits set
    pub fn any_below(self, k: u32) -> bool {
        if k >= 256 {
            !self.is_zero()
        } else if k > 128 {
            self.lo != 0 || self.hi & mask(k - 128) != 0
        } else {
            self.lo & mask(k) != 0
        }
    }
    pub fn add(self, o: U256) -> U256 {
        let (lo, c) = self.lo.overflowing_add(o.lo);
        U256 { hi: self.hi.wrapping_add(o.hi).wrapping_add(c as u128), lo }
    }
    pub fn sub(self, o: U256) -> U256 {
        let (lo, c) = self.lo.overflowing_sub(o.lo);
        U256 { hi: self.hi.wrapping_sub(o.hi).wrapping_sub(c as u128), lo }
    }
    pub fn mul(a: u128, b: u128) -> U256 {
        if a >> 64 == 0 && b >> 64 == 0 {
            return U256 { hi: 0, lo: a * b };
        }
        let m = mask(64);
        let (a0, a1, b0, b1) = (a & m, a >> 64, b & m, b >> 64);
        let p00 = a0 * b0;
        let p01 = a0 * b1;
        let p10 = a1 * b0;
        let p11 = a1 * b1;
        U256 { hi: p11, lo: p00 }.add(U256 { hi: p01 >> 64, lo: p01 << 64 }).add(U256 { hi: p10 >> 64, lo: p10 << 64 })
    }
    /// bit-serial long division
    pub fn divrem(self, d: u128) -> (U256, u128) {
        let mut q = U256 { hi: 0, lo: 0 };
        let mut r = U256 { hi: 0, lo: 0 };
        let dd = U256::from(d);
        let mut i = 256;
        while i > 0 {
            i -= 1;
            r = r.shl(1);
            if self.bit(i) {
                r = r.add(U256::from(1));
            }
            q = q.shl(1);
            if !dd.gt(r) {
                r = r.sub(dd);
                q = q.add(U256::from(1));
            }
        }
        (q, r.lo)
    }
}
