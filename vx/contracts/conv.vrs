@module conv sig rnd flt nrm arith
@raw
/// rounding a number down is rounding its negation up
pub proof fn rnd_neg(f: Fm, s: bool, num: nat, den: nat, e: int, rm: Round)
    ensures ({
        let a = rnd(f, s, num, den, e, rm);
        let b = rnd(f, !s, num, den, e, rneg(rm));
        b.st == a.st && b.v == signed(a.v, !s) && a.v.sign == s
    })
{
    reveal(rnd);
    reveal(finish);
}

/// |d| rounded to an integer: the integer and the class of what was cut off
pub open spec fn int_floor(f: Fm, d: Dat) -> nat {
    let k = d.exp - (f.p - 1);
    if k >= 0 { d.m * pow2(k as nat) } else { d.m / pow2((-k) as nat) }
}
pub open spec fn int_loss(f: Fm, d: Dat) -> Loss {
    let k = d.exp - (f.p - 1);
    if k >= 0 { Loss::ExactlyZero } else { loss_of(d.m % pow2((-k) as nat), pow2((-k) as nat)) }
}
pub open spec fn int_round(f: Fm, d: Dat, rm: Round) -> nat {
    int_floor(f, d) + if up(d.sign, int_floor(f, d) % 2 == 1, int_loss(f, d), rm) { 1nat } else { 0 }
}

pub ghost struct IntOut { pub st: Status, pub v: int, pub exact: bool }

/// conversion of `d` to an integer in lo..=hi, saturating
pub open spec fn int_spec(f: Fm, d: Dat, lo: int, hi: int, rm: Round) -> IntOut {
    let sat = if d.sign { lo } else { hi };
    match d.cat {
        Category::NaN => IntOut { st: Status::INVALID_OP, v: 0, exact: false },
        Category::Infinity => IntOut { st: Status::INVALID_OP, v: sat, exact: false },
        Category::Zero => IntOut { st: Status::OK, v: 0, exact: !d.sign },
        Category::Normal => {
            let n = sgn(d.sign, int_round(f, d, rm));
            if n < lo || n > hi { IntOut { st: Status::INVALID_OP, v: sat, exact: false } }
            else if int_loss(f, d) == Loss::ExactlyZero { IntOut { st: Status::OK, v: n, exact: true } }
            else { IntOut { st: Status::INEXACT, v: n, exact: false } }
        }
    }
}

/// a number whose exponent is negative is less than one
pub proof fn int_small(f: Fm, d: Dat)
    requires wff(f), d.cat == Category::Normal, 0 < d.m < pow2(f.p), d.exp < 0
    ensures int_floor(f, d) == 0, int_loss(f, d) != Loss::ExactlyZero,
        int_loss(f, d) == Loss::ExactlyHalf ==> f.p - 1 - d.exp < 128 && !nbit(d.m, (f.p - 1 - d.exp) as nat)
{
    let t = (f.p - 1 - d.exp) as nat;
    pow2_le(f.p, t);
    div_unique(d.m as int, pow2(t) as int, 0, d.m as int);
    assert(0 * pow2(t) == 0);
    pow2_half(t);
    if int_loss(f, d) == Loss::ExactlyHalf {
        if t > f.p { pow2_le(f.p, (t - 1) as nat); }
    }
}

/// at least 2^exp
pub proof fn int_size(f: Fm, d: Dat)
    requires wff(f), d.cat == Category::Normal, pow2((f.p - 1) as nat) <= d.m < pow2(f.p), d.exp >= 0
    ensures pow2(d.exp as nat) <= int_floor(f, d) < pow2((d.exp + 1) as nat)
{
    let k = d.exp - (f.p - 1);
    if k >= 0 {
        pow2_add((f.p - 1) as nat, k as nat);
        pow2_add(f.p, k as nat);
        lemma_pow2_pos(k as nat);
        lemma_mul_inequality(pow2((f.p - 1) as nat) as int, d.m as int, pow2(k as nat) as int);
        lemma_mul_strict_inequality(d.m as int, pow2(f.p) as int, pow2(k as nat) as int);
    } else {
        let t = (-k) as nat;
        lemma_pow2_pos(t);
        pow2_add(d.exp as nat, t);
        pow2_add((d.exp + 1) as nat, t);
        div_lt(d.m as int, pow2(t) as int, pow2((d.exp + 1) as nat) as int);
        div_ge(d.m as int, pow2(t) as int, pow2(d.exp as nat) as int);
    }
}

pub proof fn max_shr(w: u128)
    requires 0 < w <= 128
    ensures (!0u128) >> ((128 - w) as u128) == pow2(w as nat) - 1
{
    p128();
    let k = (128 - w) as nat;
    shr_div(!0u128, k as u128);
    assert(!0u128 == u128::MAX) by (bit_vector);
    pow2_add(w as nat, k);
    lemma_pow2_pos(k);
    lemma_pow2_pos(w as nat);
    let (a, b) = (pow2(w as nat) as int, pow2(k) as int);
    assert(a * b - 1 == (a - 1) * b + (b - 1)) by (nonlinear_arith);
    div_unique(a * b - 1, b, a - 1, b - 1);
}

pub proof fn neg_shl(k: u128)
    requires k < 128
    ensures (-1i128) << k == -(pow2(k as nat) as int)
{
    one_shl(k);
    let t = 1u128 << k;
    assert(t == 1u128 << k && k < 128 ==> (-1i128) << k < 0 && t <= 0x8000_0000_0000_0000_0000_0000_0000_0000u128
        && add((-1i128) << k, sub(t, 1) as i128) == -1i128) by (bit_vector);
}

/// the two's complement of a number up to 2^127
pub proof fn neg_cast(r: u128)
    requires r <= 0x8000_0000_0000_0000_0000_0000_0000_0000u128
    ensures sub(0u128, r) as i128 == -(r as int), i128::MIN as u128 == 0x8000_0000_0000_0000_0000_0000_0000_0000u128, r == 0 || sub(0u128, r) == u128::MAX - r + 1
{
    assert(r <= 0x8000_0000_0000_0000_0000_0000_0000_0000u128 ==> r == 0 || ((sub(0u128, r) as i128) < 0
        && add(sub(0u128, r) as i128, sub(r, 1) as i128) == -1i128)) by (bit_vector);
    assert(sub(0u128, 0u128) as i128 == 0i128) by (bit_vector);
    assert(i128::MIN == -0x8000_0000_0000_0000_0000_0000_0000_0000i128);
    assert((-0x8000_0000_0000_0000_0000_0000_0000_0000i128) as u128 == 0x8000_0000_0000_0000_0000_0000_0000_0000u128) by (bit_vector);
    assert(r != 0 ==> sub(0u128, r) == add(sub(!0u128, r), 1)) by (bit_vector);
    assert(!0u128 == u128::MAX) by (bit_vector);
}

/// rounding to an integer and changing sign commute
pub proof fn rnd_up_neg(f: Fm, d: Dat, rm: Round)
    ensures int_round(f, signed(d, !d.sign), rneg(rm)) == int_round(f, d, rm),
        int_loss(f, signed(d, !d.sign)) == int_loss(f, d)
{
}
@fn IeeeFloat::from_u128_r
    requires wfs::<S>()
    ensures out(r) == rnd(fm::<S>(), false, input as nat, 1, 0, round), wf(r.value)
@hint start
    proof {
        wfs_basic::<S>();
        reveal(rnd);
        reveal(norm);
        if input > 0 {
            assert(input as nat / 1 == input && input as nat % 1 == 0);
            norm_cut(fm::<S>(), false, input as nat, 1, 0, round);
        }
    }
@fn Float::from_u128
    requires wfs::<S>()
    ensures out(r) == rnd(fm::<S>(), false, input as nat, 1, 0, Round::NearestTiesToEven), wf(r.value)
@fn Float::from_i128_r
    requires wfs::<S>()
    ensures out(r) == rnd(fm::<S>(), input < 0, iabs(input as int), 1, 0, round), wf(r.value)
@hint start
    proof { rnd_neg(fm::<S>(), false, iabs(input as int), 1, 0, rneg(round)); assert(rneg(rneg(round)) == round); neg_cast(0); }
@fn Float::from_i128
    requires wfs::<S>()
    ensures out(r) == rnd(fm::<S>(), input < 0, iabs(input as int), 1, 0, Round::NearestTiesToEven), wf(r.value)
@fn IeeeFloat::to_u128_r
    requires wf(self), width <= 128
    ensures ({
        let x = int_spec(fm::<S>(), dat(self), 0, pow2(width as nat) - 1, round);
        r.status == x.st && r.value == x.v && *final(is_exact) == x.exact
    })
@hint start
    let ghost f = fm::<S>();
    let ghost d = dat(self);
    proof {
        wfs_basic::<S>();
        val1(self.sig@);
        p128();
        lemma_pow2_pos(width as nat);
        if width > 0 { max_shr(width as u128); }
        if d.cat == Category::Normal {
            if d.exp < 0 {
                int_small(f, d);
            } else {
                int_size(f, d);
                let bits = (d.exp + 1) as nat;
                if bits > width { pow2_le(width as nat, d.exp as nat); } else {
                    pow2_le(bits, 128);
                    if bits < f.p { shr_div(self.sig@[0], (f.p - bits) as u128); }
                    else { shl_nowrap(self.sig@[0], (bits - f.p) as u128); }
                }
            }
        }
    }
@hint before 0 ifr>overflow
    proof {
        if d.exp >= 0 { assert(loss == int_loss(f, d)); }
        assert(loss == int_loss(f, d));
        assert(r == int_round(f, d, round));
    }
@fn Float::to_u128
    requires wf(self), width <= 128
    ensures ({
        let x = int_spec(fm::<S>(), dat(self), 0, pow2(width as nat) - 1, Round::TowardZero);
        r.status == x.st && r.value == x.v
    })
@fn Float::to_i128_r
    requires wf(self), 1 <= width <= 128
    ensures ({
        let h = pow2((width - 1) as nat) as int;
        let x = int_spec(fm::<S>(), dat(self), -h, h - 1, round);
        r.status == x.st && r.value == x.v && *final(is_exact) == x.exact
    })
@hint start
    proof {
        p128();
        pow2_half(width as nat);
        pow2_le(width as nat, 128);
        pow2_le((width - 1) as nat, 127);
        assert(pow2(127) * 2 == pow2(128)) by { pow2_half(128); }
        one_shl((width - 1) as u128);
        neg_shl((width - 1) as u128);
        lemma_pow2_pos((width - 1) as nat);
        rnd_up_neg(fm::<S>(), dat(self), round);
    }
@hint after 0 letr={
    proof { if r <= 0x8000_0000_0000_0000_0000_0000_0000_0000u128 { neg_cast(r); } }
@fn Float::to_i128
    requires wf(self), 1 <= width <= 128
    ensures ({
        let h = pow2((width - 1) as nat) as int;
        let x = int_spec(fm::<S>(), dat(self), -h, h - 1, Round::TowardZero);
        r.status == x.st && r.value == x.v
    })
@module cvt sig rnd flt nrm arith mag
@raw
/// what is left of a NaN's payload in another format
pub open spec fn nan_shift(m: nat, p: nat, q: nat, cut: bool) -> nat {
    if q >= p { m * pow2((q - p) as nat) } else if cut { m / pow2((p - q) as nat) } else { m }
}

pub ghost struct CvtOut { pub o: Out, pub loses: bool }

pub open spec fn cvt_spec<S: Semantics, T: Semantics>(d: Dat, rm: Round) -> CvtOut {
    let f = fm::<S>();
    let g = fm::<T>();
    match d.cat {
        Category::Normal => { let o = rnd(g, d.sign, d.m, 1, d.exp - (f.p - 1), rm); CvtOut { o, loses: o.st != Status::OK } },
        Category::Zero => CvtOut { o: Out { st: Status::OK, v: zero_d(g, d.sign) }, loses: false },
        // a format without infinities answers with a NaN, which is not exact
        Category::Infinity => CvtOut { o: Out { st: if g.no_inf { Status::INEXACT } else { Status::OK }, v: inf_d(g, d.sign) }, loses: g.no_inf },
        Category::NaN => {
            let x = nan_one::<S>(d);
            let m = nan_shift(x.v.m, f.p, g.p, S::NAN_PAYLOAD_MASK != 0);
            let cut = f.p > g.p && S::NAN_PAYLOAD_MASK != 0 && x.v.m % pow2((f.p - g.p) as nat) != 0;
            let pseudo = S::QNAN_SIGNIFICAND == X87DoubleExtendedS::QNAN_SIGNIFICAND && T::QNAN_SIGNIFICAND != X87DoubleExtendedS::QNAN_SIGNIFICAND
                && d.m as u128 & S::QNAN_SIGNIFICAND != S::QNAN_SIGNIFICAND;
            CvtOut {
                o: Out { st: x.st, v: Dat { cat: Category::NaN, sign: d.sign, m: ((T::NAN_SIGNIFICAND_BASE | T::QNAN_SIGNIFICAND) | (m as u128 & T::NAN_PAYLOAD_MASK)) as nat, exp: nan_exp(g) } },
                loses: cut || pseudo || (S::NAN_PAYLOAD_MASK != 0 && T::NAN_PAYLOAD_MASK == 0),
            }
        }
    }
}

/// cutting s bits off before normalizing does not change the rounding
pub proof fn pre_cut(g: Fm, sign: bool, m: nat, e: int, s: nat, rm: Round)
    requires wff(g), m > 0, g.qn < pow2(g.p), blen(m) <= s ==> e + s == qmin(g), s > 0 ==> blen(m) - s >= g.p || e + s <= qmin(g)
    ensures norm(g, sign, m / pow2(s), e + s, loss_of(m % pow2(s), pow2(s)), rm) == rnd(g, sign, m, 1, e, rm),
        loss_of(m % pow2(s), pow2(s)) != Loss::ExactlyZero && m / pow2(s) > 0 ==> unit(g, blen(m / pow2(s)) - 1 + (e + s)) >= e + s
{
    lemma_pow2_pos(s);
    blen_shr(m, s);
    blen_bounds(m);
    blen0();
    p128();
    let q = m / pow2(s);
    if m < pow2(s) { div_unique(m as int, pow2(s) as int, 0, m as int); assert(0 * pow2(s) == 0); }
    if s == 0 { assert(m % 1 == 0); }
    norm_cut(g, sign, m, pow2(s), e + s, rm);
    rnd_shift(g, sign, m, 1, e, rm, 0, s);
    assert(m * 1 == m && 1 * pow2(s) == pow2(s));
}

/// the statuses rounding can produce
pub proof fn rnd_st(f: Fm, sign: bool, num: nat, den: nat, e: int, rm: Round)
    ensures ({
        let st = rnd(f, sign, num, den, e, rm).st;
        &&& st == Status::OK || st == Status::INEXACT || st == st_ovf() || st == st_unf()
        &&& st.bits | 0 == st.bits && 0 | st.bits == st.bits
        &&& (st.bits & !Status::INVALID_OP.bits == 0) == (st == Status::OK)
    })
{
    reveal(rnd);
    reveal(finish);
    let b = rnd(f, sign, num, den, e, rm).st.bits;
    assert((0x04u8 | 0x10) == 0x14 && (0x08u8 | 0x10) == 0x18) by (bit_vector);
    assert(b | 0 == b && 0 | b == b) by (bit_vector);
    assert(b == 0 || b == 0x10 || b == 0x14 || b == 0x18 ==> (b & !1u8 == 0) == (b == 0)) by (bit_vector);
}
@fn IeeeFloat::convert_r rlimit(60)
    requires wf(self), wfs::<T>()
    ensures ({
        let x = cvt_spec::<S, T>(dat(self), round);
        out(r) == x.o && *final(loses_info) == x.loses && wf(r.value)
    })
@hint start
    let ghost f = fm::<S>();
    let ghost g = fm::<T>();
    let ghost d = dat(self);
    let ghost m = d.m;
    let ghost e = d.exp - (f.p - 1);
    proof {
        wfs_basic::<S>();
        wfs_basic::<T>();
        p128();
        st_facts();
        val1(self.sig@);
        blen0();
        blen_bounds(d.m);
        if d.cat == Category::Normal { blen_le(d.m, f.p); }
    }
@hint before 0 letmutloss
    let ghost s = if shift < 0 { (-shift) as nat } else { 0 };
    let ghost sig0 = sig@[0] as nat;
    proof {
        val1(sig@);
        assert(d.cat == Category::Normal ==> sig0 == m && (g.p <= f.p ==> exp - (g.p - 1) == e + s && shift <= 0));
        assert(d.cat == Category::Normal && g.p > f.p ==> exp == d.exp && shift == g.p - f.p);
        if d.cat == Category::Normal && g.p < f.p {
            let dd = (f.p - g.p) as int;
            let ec0 = blen(m) - f.p;
            let ec1 = if d.exp + ec0 < g.lo { g.lo - d.exp } else { ec0 };
            let ec2 = if ec1 < -dd { -dd } else { ec1 };
            let ec3 = if ec2 < 0 { ec2 } else if blen(m) <= dd { blen(m) - dd - 1 } else { 0 };
            assert(val(self.sig@) == m);
            assert(blen(m) > 0);
            assert(exp == d.exp + ec3);
            assert(s == dd + ec3);
            assert(blen(m) <= s ==> e + s == qmin(g));
            assert(s > 0 ==> blen(m) - s >= g.p || e + s <= qmin(g));
        }
        assert(d.cat == Category::Normal && g.p <= f.p ==> (blen(m) <= s ==> e + s == qmin(g)) && (s > 0 ==> blen(m) - s >= g.p || e + s <= qmin(g)));
        if d.cat == Category::Normal && g.p <= f.p { pre_cut(g, d.sign, m, e, s, round); }
        if g.p > f.p && d.cat != Category::Infinity {
            let k = (g.p - f.p) as nat;
            pow2_add(f.p, k);
            lemma_pow2_pos(k);
            lemma_mul_strict_inequality(sig0 as int, pow2(f.p) as int, pow2(k) as int);
            pow2_lt(g.p, 128);
            lemma_small_mod(sig0 * pow2(k), pow2(128));
            if d.cat == Category::Normal {
                let n = m * pow2(k);
                lemma_mul_strictly_positive(m as int, pow2(k) as int);
                rnd_shift(g, d.sign, m, 1, e, round, k, 0);
                assert(1 * pow2(0) == 1);
                assert(n / 1 == n && n % 1 == 0);
                norm_cut(g, d.sign, n, 1, e - k, round);
            }
        }
    }
@hint before 0 letr=match
    proof {
        val1(sig@);
        if d.cat == Category::Normal {
            rnd_st(g, d.sign, m, 1, e, round);
            assert(m as int / 1 == m && m as int * 1 == m && m as int % 1 == 0);
            assert(shift < 0 ==> s == -shift && loss == loss_of(m % pow2(s), pow2(s)));
            assert(shift < 0 ==> sig@[0] as nat == m / pow2(s));
            assert(shift > 0 ==> sig@[0] as nat == m * pow2(shift as nat));
            assert(shift == 0 ==> sig@[0] as nat == m && s == 0);
            assert(sig@[0] as nat == if g.p <= f.p { m / pow2(s) } else { m * pow2((g.p - f.p) as nat) });
            assert(loss == if g.p <= f.p { loss_of(m % pow2(s), pow2(s)) } else { Loss::ExactlyZero });
            assert(norm(g, d.sign, sig@[0] as nat, exp - (g.p - 1), loss, round) == rnd(g, d.sign, m, 1, e, round));
        }
        if d.cat == Category::NaN {
            assert(sig0 == nan_one::<S>(d).v.m);
            assert(sig0 as int / 1 == sig0 && sig0 as int * 1 == sig0 && sig0 as int % 1 == 0);
            assert(shift == g.p - f.p);
            assert(shift < 0 && S::NAN_PAYLOAD_MASK != 0 ==> sig@[0] as nat == sig0 / pow2((f.p - g.p) as nat));
            assert(shift < 0 && S::NAN_PAYLOAD_MASK == 0 ==> sig@[0] as nat == sig0);
            assert(shift > 0 ==> sig@[0] as nat == sig0 * pow2(shift as nat));
            assert(shift == 0 ==> sig@[0] as nat == sig0);
            assert(sig@[0] as nat == nan_shift(sig0, f.p, g.p, S::NAN_PAYLOAD_MASK != 0));
            assert((loss != Loss::ExactlyZero) == (f.p > g.p && S::NAN_PAYLOAD_MASK != 0 && sig0 % pow2((f.p - g.p) as nat) != 0));
        }
        let b = status.bits;
        assert((b == 0 || b == 1 ==> b & !1u8 == 0) && 0u8 | 1u8 == 1 && 0u8 | 0u8 == 0 && (0x10u8 & !1u8) == 0x10) by (bit_vector);
    }
@hint end
    proof {
        let x = cvt_spec::<S, T>(d, round);
        assert(d.cat == Category::Normal ==> dat(r) == x.o.v && status == x.o.st);
        assert(d.cat == Category::Normal ==> *loses_info == x.loses);
        assert(d.cat == Category::Zero ==> dat(r) == x.o.v && status == x.o.st && *loses_info == x.loses);
        assert(d.cat == Category::Infinity ==> dat(r) == x.o.v);
        assert(d.cat == Category::Infinity ==> status == x.o.st);
        assert(d.cat == Category::Infinity ==> *loses_info == x.loses);
        assert(d.cat == Category::NaN ==> dat(r) == x.o.v);
        assert(d.cat == Category::NaN ==> status == x.o.st);
        assert(d.cat == Category::NaN ==> *loses_info == x.loses);
        assert(wf(r));
    }
@fn FloatConvert::convert
    requires wf(self), wfs::<T>()
    ensures ({
        let x = cvt_spec::<S, T>(dat(self), Round::NearestTiesToEven);
        out(r) == x.o && *final(loses_info) == x.loses && wf(r.value)
    })
