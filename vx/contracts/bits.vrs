@module bits sig rnd flt
@raw
/// the shape of the interchange format
#[verifier::opaque]
pub open spec fn wfenc<S: Semantics>() -> bool {
    let f = fm::<S>();
    &&& wfs::<S>()
    &&& 2 <= S::EXP_BITS <= 15 && S::BITS <= 128 && S::BITS == S::EXP_BITS + S::PRECISION
    &&& f.hi == pow2(S::EXP_BITS as nat) + f.lo - (if f.no_inf { 2int } else { 3 })
    &&& !f.no_inf ==> S::QNAN_SIGNIFICAND == pow2((f.p - 2) as nat)
}
pub open spec fn e_of<S: Semantics>(bits: nat) -> nat { (bits / pow2((fm::<S>().p - 1) as nat)) % pow2(S::EXP_BITS as nat) }
pub open spec fn f_of<S: Semantics>(bits: nat) -> nat { bits % pow2((fm::<S>().p - 1) as nat) }
pub open spec fn s_of<S: Semantics>(bits: nat) -> bool { nbit(bits, (S::BITS - 1) as nat) }
pub open spec fn e_max<S: Semantics>() -> nat { (pow2(S::EXP_BITS as nat) - 1) as nat }
pub open spec fn i_of<S: Semantics>() -> nat { pow2((fm::<S>().p - 1) as nat) }

/// the datum a bit pattern stands for
pub open spec fn dec<S: Semantics>(bits: nat) -> Dat {
    let f = fm::<S>();
    let (ex, fr, sign) = (e_of::<S>(bits), f_of::<S>(bits), s_of::<S>(bits));
    if ex == 0 {
        if fr == 0 { zero_d(f, sign) } else { Dat { cat: Category::Normal, sign, m: fr, exp: f.lo } }
    } else if ex == e_max::<S>() && (if f.no_inf { fr == i_of::<S>() - 1 } else { true }) {
        if !f.no_inf && fr == 0 { inf_d(f, sign) } else { Dat { cat: Category::NaN, sign, m: fr, exp: nan_exp(f) } }
    } else {
        Dat { cat: Category::Normal, sign, m: i_of::<S>() + fr, exp: ex + f.lo - 1 }
    }
}
/// the exponent field of a datum
pub open spec fn e_enc<S: Semantics>(d: Dat) -> int {
    let f = fm::<S>();
    match d.cat {
        Category::Zero => 0,
        Category::Normal => if d.m < i_of::<S>() { 0 } else { d.exp - f.lo + 1 },
        Category::Infinity => e_max::<S>() as int,
        Category::NaN => e_max::<S>() as int,
    }
}
/// the bit pattern of a datum
pub open spec fn enc<S: Semantics>(d: Dat) -> int {
    (if d.sign { pow2((S::BITS - 1) as nat) as int } else { 0 }) + e_enc::<S>(d) * i_of::<S>() + d.m as int % i_of::<S>() as int
}

pub proof fn enc_basic<S: Semantics>()
    requires wfenc::<S>()
    ensures wfs::<S>(), wff(fm::<S>()), pow2(fm::<S>().p) <= pow2(113), pow2(128) == u128::MAX + 1, i_of::<S>() >= 4, pow2(fm::<S>().p) == 2 * i_of::<S>(),
        4 <= pow2(S::EXP_BITS as nat) <= 32768, 2 <= S::EXP_BITS <= 15, S::BITS <= 128, S::BITS == S::EXP_BITS + S::PRECISION,
        pow2((S::BITS - 1) as nat) == i_of::<S>() * pow2(S::EXP_BITS as nat), pow2((S::BITS - 1) as nat) * 2 <= pow2(128),
        fm::<S>().hi == pow2(S::EXP_BITS as nat) + fm::<S>().lo - (if fm::<S>().no_inf { 2int } else { 3 }),
        fm::<S>().p == S::PRECISION
{
    reveal(wfenc);
    wfs_basic::<S>();
    let e = S::EXP_BITS as nat;
    let p = fm::<S>().p;
    pow2_le(2, e);
    pow2_le(e, 15);
    lemma2_to64();
    pow2_add((p - 1) as nat, e);
    pow2_half(S::BITS as nat);
    pow2_le(S::BITS as nat, 128);
}

/// the fields as the code takes them out
pub proof fn take_fields(bits: u128, b: u128, e: u128)
    requires 2 <= e < b < 128
    ensures ({
        let sign = bits & (1u128 << b);
        &&& (sign != 0) == nbit(bits as nat, b as nat)
        &&& (((bits & !sign) >> ((b - e) as u128)) & sub(1u128 << e, 1)) as nat == (bits as nat / pow2((b - e) as nat)) % pow2(e as nat)
        &&& sub(1u128 << e, 1) == (1u128 << e) - 1
        &&& (bits & sub(1u128 << ((b - e) as u128), 1)) as nat == bits as nat % pow2((b - e) as nat)
        &&& sub(1u128 << ((b - e) as u128), 1) == (1u128 << ((b - e) as u128)) - 1
    })
{
    let s = bits & (1u128 << b);
    let k = (b - e) as u128;
    bit_test(bits, b);
    assert(s == bits & (1u128 << b) && k == sub(b, e) && e < b && b < 128 ==> ((bits & !s) >> k) & sub(1u128 << e, 1) == (bits >> k) & sub(1u128 << e, 1)) by (bit_vector);
    shr_div(bits, k);
    mask_mod(bits >> k, e);
    mask_mod(bits, k);
}

/// decoding the encoding of a datum
pub proof fn dec_enc<S: Semantics>(d: Dat)
    requires wfenc::<S>(), wfd(fm::<S>(), d), d.cat == Category::NaN ==> d.m < i_of::<S>() && (if fm::<S>().no_inf { d.m == i_of::<S>() - 1 } else { d.m > 0 })
    ensures 0 <= enc::<S>(d) < pow2(S::BITS as nat), dec::<S>(enc::<S>(d) as nat) == d
{
    enc_basic::<S>();
    let f = fm::<S>();
    let (i, w, t) = (i_of::<S>() as int, pow2(S::EXP_BITS as nat) as int, pow2((S::BITS - 1) as nat) as int);
    let ex = e_enc::<S>(d);
    pow2_half(f.p);
    pow2_half(S::BITS as nat);
    let fr = d.m as int % i;
    let m = d.m as int;
    if d.cat == Category::Normal && m >= i { div_unique(m, i, 1, m - i); assert(1 * i == i); } else { div_unique(m, i, 0, m); assert(0 * i == 0); }
    assert(0 <= fr < i);
    assert(0 <= ex < w);
    let s = if d.sign { 1int } else { 0 };
    assert(t == i * w);
    let x = enc::<S>(d);
    let hi = s * w + ex;
    assert(x == hi * i + fr) by (nonlinear_arith) requires x == s * t + ex * i + fr, t == i * w, hi == s * w + ex;
    assert(1 * t == t && 0 * t == 0);
    assert(s * t == if d.sign { t } else { 0 });
    assert(hi >= 0) by (nonlinear_arith) requires hi == s * w + ex, s >= 0, w >= 0, ex >= 0;
    assert(x >= 0) by (nonlinear_arith) requires x == hi * i + fr, hi >= 0, i >= 0, fr >= 0;
    div_unique(x, i, hi, fr);
    div_unique(hi, w, s, ex);
    assert(ex * i + fr < t) by (nonlinear_arith) requires ex <= w - 1, fr < i, t == i * w, i >= 0;
    assert(x < 2 * t);
    assert(ex * i + fr >= 0) by (nonlinear_arith) requires ex >= 0, fr >= 0, i >= 0;
    div_unique(x, t, s, ex * i + fr);
    assert(e_of::<S>(x as nat) == ex && f_of::<S>(x as nat) == fr);
    assert(s_of::<S>(x as nat) == d.sign);
}

/// encoding the datum of a bit pattern
pub proof fn enc_dec<S: Semantics>(bits: nat)
    requires wfenc::<S>(), bits < pow2(S::BITS as nat)
    ensures enc::<S>(dec::<S>(bits)) == bits, wfd(fm::<S>(), dec::<S>(bits))
{
    enc_basic::<S>();
    let f = fm::<S>();
    let (i, w, t) = (i_of::<S>() as int, pow2(S::EXP_BITS as nat) as int, pow2((S::BITS - 1) as nat) as int);
    let b = bits as int;
    pow2_half(f.p);
    pow2_half(S::BITS as nat);
    div_mod_id(b, i);
    let q = b / i;
    div_mod_id(q, w);
    div_div(b, i, w);
    let (ex, fr) = (e_of::<S>(bits) as int, f_of::<S>(bits) as int);
    assert(i * w == t);
    let s = b / t;
    assert(q / w == s);
    assert(b < 2 * t);
    div_lt(b, t, 2);
    div_ge(b, t, 0);
    assert(0 <= s < 2);
    assert(s % 2 == s);
    assert(b == s * t + ex * i + fr) by (nonlinear_arith) requires b == q * i + fr, q == s * w + ex, t == i * w;
    let d = dec::<S>(bits);
    let m = d.m as int;
    if m >= i { div_unique(m, i, 1, m - i); assert(1 * i == i); } else { div_unique(m, i, 0, m); assert(0 * i == 0); }
    assert(0 <= fr < i && 0 <= ex < w);
    assert(1 * t == t && 0 * t == 0);
    assert(s * t == if d.sign { t } else { 0 });
    assert(m % i == fr);
    assert(0 * i == 0);
    assert(e_enc::<S>(d) == ex);
}

/// the three fields put together
pub proof fn put_fields(sgn: u128, ex: u128, fr: u128, b: u128, k: u128)
    requires sgn <= 1, b < 128, k < b, (fr as nat) < pow2(k as nat), (ex as nat) < pow2((b - k) as nat)
    ensures ((sgn << b) | (ex << k) | fr) as int == (if sgn == 1 { pow2(b as nat) as int } else { 0 }) + ex * pow2(k as nat) + fr
{
    let (i, t, w) = (pow2(k as nat) as int, pow2(b as nat) as int, pow2((b - k) as nat) as int);
    pow2_add(k as nat, (b - k) as nat);
    lemma_pow2_pos(k as nat);
    lemma_pow2_pos(b as nat);
    pow2_lt(b as nat, 128);
    assert(ex as int * i + fr < t && ex as int * i < t) by (nonlinear_arith) requires ex as int <= w - 1, fr < i, t == i * w, i > 0, fr >= 0;
    shl_nowrap(ex, k);
    let y = ex << k;
    let yi = ex as int * i;
    lemma_mod_multiples_basic(ex as int, i);
    or_disjoint(y, fr, k);
    one_shl(b);
    assert(0u128 << b == 0u128) by (bit_vector);
    let s = sgn << b;
    assert(s == if sgn == 1 { 1u128 << b } else { 0 });
    let z = y | fr;
    assert(s | z == (s | y) | fr) by (bit_vector) requires z == y | fr;
    lemma_mod_self_0(t);
    lemma_small_mod(0, t as nat);
    or_disjoint(s, z, b);
}

@fn Semantics::from_bits
    requires wfenc::<S>()
    ensures dat(r) == dec::<S>(bits as nat), plain(r), wf(r)
@hint start
    proof {
        enc_basic::<S>();
        let (b, e, k) = ((S::BITS - 1) as u128, S::EXP_BITS as u128, (S::PRECISION - 1) as u128);
        take_fields(bits, b, e);
        one_shl(e);
        one_shl(b);
        one_shl(k);
        assert(b - e == k);
    }
@hint before 0 letspecials=
    let ghost r0 = r;
    proof {
        let f = fm::<S>();
        reveal(wfs);
        reveal(wfenc);
        let (fr, k, m) = (r.sig[0], (S::PRECISION - 1) as u128, S::NAN_PAYLOAD_MASK);
        let q = S::NAN_SIGNIFICAND_BASE | S::QNAN_SIGNIFICAND;
        assert(fr as nat == f_of::<S>(bits as nat));
        assert(r.exp == e_of::<S>(bits as nat) + f.lo - 1);
        one_shl((k - 1) as u128);
        assert(fr & !0u128 == fr && 0u128 & !0u128 == 0u128) by (bit_vector);
        let (qs, bs) = (S::QNAN_SIGNIFICAND, S::NAN_SIGNIFICAND_BASE);
        assert(0u128 | qs == qs && bs | 0u128 == bs) by (bit_vector);
        if !f.no_inf {
            pow2_half((f.p - 1) as nat);
            assert(bs == 0 && q == qs);
            assert(m == (1u128 << k) - 1);
            assert(fr <= m);
            assert(q <= m);
            assert(k < 128 && m == sub(1u128 << k, 1) && fr <= m ==> fr & !m == 0) by (bit_vector);
            assert(k < 128 && m == sub(1u128 << k, 1) && q <= m ==> q & !m == 0) by (bit_vector);
        } else {
            assert(q == bs && q & !0u128 == q) by { assert(bs & !0u128 == bs) by (bit_vector); }
            assert(fr & !m == fr && q & !m == q) by { assert(m == 0 ==> fr & !m == fr && q & !m == q) by (bit_vector); }
        }
        val1(r.sig@);
        pow2_half(f.p);
        lemma_small_mod(1, 2);
        lemma_basic_div(fr as int, i_of::<S>() as int);
        assert(!nbit(fr as nat, (f.p - 1) as nat));
    }
@hint before 0 r.read_only_category_do_not_mutate=category
    proof { val1(r.sig@); }
@hint end
    proof {
        assert(s_of::<S>(bits as nat) == dat(r).sign);
        assert(dat(r).cat == dec::<S>(bits as nat).cat);
        assert(dat(r).m == dec::<S>(bits as nat).m);
        assert(dat(r).exp == dec::<S>(bits as nat).exp);
        let fr = f_of::<S>(bits as nat);
    }
@fn Semantics::to_bits
    requires wfenc::<S>(), wf(x)
    ensures r == enc::<S>(dat(x))
@hint start
    proof {
        enc_basic::<S>();
        let f = fm::<S>();
        let (k, m) = ((S::PRECISION - 1) as u128, x.sig[0]);
        one_shl(k);
        mask_mod(m, k);
        val1(x.sig@);
        let i = i_of::<S>() as int;
        pow2_half(f.p);
        if dat(x).cat != Category::Infinity {
            if m as int >= i { div_unique(m as int, i, 1, m as int - i); assert(1 * i == i); } else { div_unique(m as int, i, 0, m as int); assert(0 * i == 0); }
            assert(nbit(m as nat, k as nat) == (m >= i));
        }
        lemma_small_mod(0, i as nat);
    }
@hint before 0 (x.is_negative()asu128)
    proof {
        let (b, k) = ((S::BITS - 1) as u128, (S::PRECISION - 1) as u128);
        assert(exponent == e_enc::<S>(dat(x)));
        assert(significand as int == dat(x).m as int % i_of::<S>() as int);
        let s = if dat(x).sign { 1u128 } else { 0u128 };
        put_fields(s, exponent, significand, b, k);
    }
@fn IeeeFloat::from_bits
    requires wfenc::<S>()
    ensures dat(r) == dec::<S>(input as nat), plain(r), wf(r)
@fn IeeeFloat::to_bits
    requires wfenc::<S>(), wf(self)
    ensures r == enc::<S>(dat(self))
@module bits87 sig rnd flt bits sem
@raw
pub type SX = FmtX87DoubleExtendedS;
pub open spec fn fx() -> Fm { fm::<SX>() }
pub open spec fn xi() -> nat { 0x8000_0000_0000_0000 }
/// the datum an 80-bit pattern stands for: the integer bit is explicit; patterns without it that are neither
/// zero nor denormal are NaNs, and with a zero exponent field the bit is allowed
pub open spec fn decx(bits: nat) -> Dat {
    let (ex, m, sign) = ((bits / 0x1_0000_0000_0000_0000) % 0x8000, bits % 0x1_0000_0000_0000_0000, (bits / 0x8000_0000_0000_0000_0000) % 2 == 1);
    if ex == 0 {
        if m == 0 { zero_d(fx(), sign) } else { Dat { cat: Category::Normal, sign, m, exp: -16382 } }
    } else if ex == 0x7fff {
        if m == xi() { inf_d(fx(), sign) } else { Dat { cat: Category::NaN, sign, m, exp: 16384 } }
    } else if m < xi() {
        Dat { cat: Category::NaN, sign, m, exp: 16384 }
    } else {
        Dat { cat: Category::Normal, sign, m, exp: ex - 16383 }
    }
}
pub open spec fn e_encx(d: Dat) -> int {
    match d.cat {
        Category::Zero => 0,
        Category::Normal => if d.m < xi() { 0 } else { d.exp + 16383 },
        Category::Infinity => 0x7fff,
        Category::NaN => 0x7fff,
    }
}
pub open spec fn encx(d: Dat) -> int {
    (if d.sign { 0x8000_0000_0000_0000_0000int } else { 0 }) + e_encx(d) * 0x1_0000_0000_0000_0000 + (if d.cat == Category::Infinity { xi() as int } else if d.cat == Category::Zero { 0 } else { d.m as int })
}
pub proof fn x_basic()
    ensures SX::BITS == 80, SX::EXP_BITS == 15, SX::PRECISION == 64, SX::MIN_EXP == -16382, SX::MAX_EXP == 16383, wfs::<SX>(), wff(fx()), fx().p == 64, fx().lo == -16382, fx().hi == 16383, !fx().no_inf, pow2(63) == 0x8000_0000_0000_0000, pow2(64) == 0x1_0000_0000_0000_0000,
        pow2(15) == 0x8000, pow2(79) == 0x8000_0000_0000_0000_0000, pow2(16) == 65536
{
    wfs_X87DoubleExtendedS();
    consts_X87DoubleExtendedS();
    wfs_basic::<SX>();
    lemma2_to64();
    lemma2_to64_rest();
    pow2_add(64, 15);
}

/// what decoding and encoding make of each other
pub proof fn decx_encx(d: Dat)
    requires wfd(fx(), d), d.cat == Category::NaN ==> d.m != xi()
    ensures 0 <= encx(d) < 0x1_0000_0000_0000_0000_0000, decx(encx(d) as nat) == d
{
    x_basic();
    let ex = e_encx(d);
    let m = if d.cat == Category::Infinity { xi() as int } else if d.cat == Category::Zero { 0 } else { d.m as int };
    let x = encx(d);
    assert(0 <= m < 0x1_0000_0000_0000_0000 && 0 <= ex < 0x8000);
    let s = if d.sign { 1int } else { 0 };
    assert(x == s * 0x8000_0000_0000_0000_0000 + ex * 0x1_0000_0000_0000_0000 + m);
    div_unique(x, 0x1_0000_0000_0000_0000, s * 0x8000 + ex, m);
    div_unique(s * 0x8000 + ex, 0x8000, s, ex);
    div_unique(x, 0x8000_0000_0000_0000_0000, s, ex * 0x1_0000_0000_0000_0000 + m);
}
/// a pattern survives unless it is one that the hardware does not produce
pub proof fn encx_decx(bits: nat)
    requires bits < 0x1_0000_0000_0000_0000_0000,
        ({ let (ex, m) = ((bits / 0x1_0000_0000_0000_0000) % 0x8000, bits % 0x1_0000_0000_0000_0000); (ex == 0 <==> m < xi()) || ex == 0x7fff })
    ensures encx(decx(bits)) == bits
{
    x_basic();
    let b = bits as int;
    let q = b / 0x1_0000_0000_0000_0000;
    div_mod_id(b, 0x1_0000_0000_0000_0000);
    div_mod_id(q, 0x8000);
    div_div(b, 0x1_0000_0000_0000_0000, 0x8000);
    let s = b / 0x8000_0000_0000_0000_0000;
    div_lt(b, 0x8000_0000_0000_0000_0000, 2);
    div_ge(b, 0x8000_0000_0000_0000_0000, 0);
    assert(s == 0 || s == 1);
}
@fn X87DoubleExtendedS::from_bits
    ensures dat(r) == decx(bits as nat), plain(r), wf(r)
@hint start
    proof {
        x_basic();
        take_fields(bits, 79, 15);
        one_shl(79);
        one_shl(15);
        one_shl(64);
        one_shl(63);
    }
@hint before 0 letcategory=
    proof {
        shr_div(r.sig[0], 63);
        let m = r.sig[0] as int;
        if m >= xi() { div_ge(m, xi() as int, 1); } else { div_unique(m, xi() as int, 0, m); }
        assert(r.exp == (bits as nat / 0x1_0000_0000_0000_0000) % 0x8000 - 16383);
    }
@fn X87DoubleExtendedS::to_bits
    requires wf(x)
    ensures r == encx(dat(x))
@hint start
    proof {
        x_basic();
        one_shl(64);
        one_shl(63);
        let m = x.sig[0];
        mask_mod(m, 64);
        val1(x.sig@);
        if m < 0x1_0000_0000_0000_0000 { lemma_small_mod(m as nat, pow2(64)); }
        let i = xi() as int;
        let mi = m as int;
        if mi >= i && mi < 2 * i { div_unique(mi, i, 1, mi - i); } else if mi < i { div_unique(mi, i, 0, mi); }
        assert(mi < 2 * i ==> nbit(m as nat, 63) == (mi >= i));
    }
@hint before 0 (x.is_negative()asu128)
    proof {
        let s = if dat(x).sign { 1u128 } else { 0u128 };
        put_fields(s, exponent, significand, 79, 64);
    }
@fn IeeeFloat::from_bits#x87
    ensures dat(r) == decx(input as nat), plain(r), wf(r)
@fn IeeeFloat::to_bits#x87
    requires wf(self)
    ensures r == encx(dat(self))
