@module flt sig rnd
@raw
pub open spec fn fm<S: Semantics>() -> Fm {
    Fm { p: S::PRECISION as nat, lo: S::MIN_EXP as int, hi: S::MAX_EXP as int, no_inf: S::NONFINITE_BEHAVIOR == NonfiniteBehavior::NanOnly,
        qn: (S::NAN_SIGNIFICAND_BASE | S::QNAN_SIGNIFICAND) as nat }
}

/// what is assumed of the constants of a format (evaluated for every format on each run)
#[verifier::opaque]
pub open spec fn wfs<S: Semantics>() -> bool {
    let p = S::PRECISION as nat;
    &&& wff(fm::<S>())
    &&& match S::NONFINITE_BEHAVIOR {
        NonfiniteBehavior::IEEE754 => S::NAN_SIGNIFICAND_BASE == 0 && S::NAN_PAYLOAD_MASK == pow2((p - 1) as nat) - 1
            && (S::QNAN_SIGNIFICAND == pow2((p - 2) as nat) || (p == 64 && S::QNAN_SIGNIFICAND == 3 * pow2((p - 2) as nat))),
        NonfiniteBehavior::NanOnly => S::NAN_SIGNIFICAND_BASE == pow2((p - 1) as nat) - 1 && S::NAN_PAYLOAD_MASK == 0 && S::QNAN_SIGNIFICAND == 0,
    }
}

pub proof fn wfs_basic<S: Semantics>()
    requires wfs::<S>()
    ensures wff(fm::<S>()), fm::<S>().qn < pow2(fm::<S>().p), pow2(fm::<S>().p) <= pow2(113), pow2(113) < pow2(128), pow2(128) == u128::MAX + 1,
        pow2(fm::<S>().p) == 2 * pow2((fm::<S>().p - 1) as nat), pow2((fm::<S>().p - 1) as nat) == 2 * pow2((fm::<S>().p - 2) as nat), pow2((fm::<S>().p - 2) as nat) >= 2
{
    reveal(wfs);
    let p = fm::<S>().p;
    p128();
    pow2_half(p);
    pow2_half((p - 1) as nat);
    pow2_half((p - 2) as nat);
    lemma_pow2_pos((p - 3) as nat);
    pow2_le(p, 113);
    pow2_lt(113, 128);
    let (a, b) = (S::NAN_SIGNIFICAND_BASE, S::QNAN_SIGNIFICAND);
    assert(0u128 | b == b && a | 0u128 == a) by (bit_vector);
}

/// the datum a float stands for; the exponent field of zeros, infinities and NaNs carries no information (scalbn_r changes it),
/// nor does the significand of infinities (x87's has its integer bit when it comes from a bit pattern)
pub open spec fn dat<S: Semantics>(x: IeeeFloat<S>) -> Dat {
    Dat { cat: x.read_only_category_do_not_mutate, sign: x.read_only_sign_do_not_mutate, m: if x.read_only_category_do_not_mutate == Category::Infinity { 0 } else { x.sig@[0] as nat },
        exp: cexp(fm::<S>(), x.read_only_category_do_not_mutate, x.exp as int) }
}
pub open spec fn cexp(f: Fm, c: Category, e: int) -> int {
    if c == Category::Normal { e } else if c == Category::Zero { f.lo - 1 } else if c == Category::Infinity { f.hi + 1 } else { nan_exp(f) }
}

/// the exponent field is the canonical one
pub open spec fn plain<S: Semantics>(x: IeeeFloat<S>) -> bool { x.exp == dat(x).exp }

/// a value of the format in its canonical representation
pub open spec fn wf<S: Semantics>(x: IeeeFloat<S>) -> bool { wfs::<S>() && wfd(fm::<S>(), dat(x)) }

pub open spec fn out<S: Semantics>(r: StatusAnd<IeeeFloat<S>>) -> Out { Out { st: r.status, v: dat(r.value) } }

pub open spec fn signed(d: Dat, s: bool) -> Dat { Dat { cat: d.cat, sign: s, m: d.m, exp: d.exp } }

pub proof fn or_lt(a: u128, b: u128, p: nat)
    requires (a as nat) < pow2(p), (b as nat) < pow2(p), p < 128
    ensures ((a | b) as nat) < pow2(p)
{
    let k = p as u128;
    one_shl(k);
    let t = 1u128 << k;
    assert(a < t && b < t && t == 1u128 << k && k < 128 ==> (a | b) < t) by (bit_vector);
}

pub proof fn and_le(a: u128, b: u128)
    ensures a & b <= b, a & b <= a
{
    assert(a & b <= b && a & b <= a) by (bit_vector);
}

pub proof fn odd_clear(t: u128)
    ensures t % 2 == 1 ==> t & !1u128 == t - 1, t % 2 == 0 ==> t & !1u128 == t
{
    assert(t % 2 == 1 ==> t & !1u128 == sub(t, 1)) by (bit_vector);
    assert(t % 2 == 0 ==> t & !1u128 == t) by (bit_vector);
}

pub proof fn qnan_fits<S: Semantics>(payload: Option<u128>)
    requires wfs::<S>()
    ensures ({
        let q = S::NAN_SIGNIFICAND_BASE | S::QNAN_SIGNIFICAND;
        let x = match payload { Some(p) => p & S::NAN_PAYLOAD_MASK, None => 0 };
        (q | x) < pow2(fm::<S>().p) && q | 0u128 == q
    })
{
    wfs_basic::<S>();
    reveal(wfs);
    let q = S::NAN_SIGNIFICAND_BASE | S::QNAN_SIGNIFICAND;
    let x = match payload { Some(p) => p & S::NAN_PAYLOAD_MASK, None => 0 };
    if payload is Some { and_le(payload->0, S::NAN_PAYLOAD_MASK); }
    or_lt(q, x, fm::<S>().p);
    assert(q | 0u128 == q) by (bit_vector);
}

/// the significand of E4M3's NaN, up to the integer bit
pub proof fn nan_like<S: Semantics>(x: u128)
    requires wfs::<S>(), S::NONFINITE_BEHAVIOR == NonfiniteBehavior::NanOnly, x < pow2(fm::<S>().p)
    ensures ({
        let p = fm::<S>().p;
        let b = S::NAN_SIGNIFICAND_BASE;
        fm::<S>().qn == b && ((x & b == b) <==> (x == pow2(p) - 1 || x == pow2((p - 1) as nat) - 1)) && x & b < pow2(p) && b > 0
    })
{
    wfs_basic::<S>();
    reveal(wfs);
    let p = fm::<S>().p;
    let k = (p - 1) as u128;
    one_shl(k);
    mask_mod(x, k);
    let b = S::NAN_SIGNIFICAND_BASE;
    assert(b == (1u128 << k) - 1);
    assert(b | 0u128 == b) by (bit_vector);
    let t = pow2((p - 1) as nat) as int;
    if x as int >= t { div_unique(x as int, t, 1, x as int - t); assert(1 * t == t); } else { div_unique(x as int, t, 0, x as int); assert(0 * t == 0); }
}

pub open spec fn rneg(r: Round) -> Round {
    match r { Round::TowardPositive => Round::TowardNegative, Round::TowardNegative => Round::TowardPositive, r => r }
}
pub proof fn overflow_sign(f: Fm, sign: bool, rm: Round)
    ensures overflow(f, false, if sign { rneg(rm) } else { rm }).st == overflow(f, sign, rm).st,
        signed(overflow(f, false, if sign { rneg(rm) } else { rm }).v, sign) == overflow(f, sign, rm).v,
        up(sign, true, Loss::MoreThanHalf, rm) ==> overflow(f, sign, rm) == (Out { st: st_ovf(), v: inf_d(f, sign) })
{
}
@fn Round::neg
    ensures r == rneg(self)
@fn NegExt::negate_if#i32
@fn NegExt::negate_if#Round
    ensures r == if negate { rneg(self) } else { self }
@fn Status::and
    ensures r.status == self, r.value == value
@fn IeeeFloat::is_negative
    ensures r == dat(self).sign
@fn IeeeFloat::category
    ensures r == dat(self).cat
@fn IeeeFloat::neg
    ensures dat(r) == signed(dat(self), !dat(self).sign), r.exp == self.exp, r.sig@ == self.sig@
@fn NegExt::negate_if
    ensures dat(r) == signed(dat(self), dat(self).sign != negate), r.exp == self.exp, r.sig@ == self.sig@
@fn NegExt::with_sign
    ensures dat(r) == signed(dat(self), sign), r.exp == self.exp, r.sig@ == self.sig@
@fn Float::copy_sign
    ensures dat(r) == signed(dat(self), dat(rhs).sign), r.exp == self.exp, r.sig@ == self.sig@
@fn Float::abs
    ensures dat(r) == signed(dat(self), false), r.exp == self.exp, r.sig@ == self.sig@
@fn Float::is_zero
    ensures r == (dat(self).cat == Category::Zero)
@fn Float::is_infinite
    ensures r == (dat(self).cat == Category::Infinity)
@fn Float::is_nan
    ensures r == (dat(self).cat == Category::NaN)
@fn Float::is_finite
    ensures r == (dat(self).cat == Category::Zero || dat(self).cat == Category::Normal)
@fn Float::is_finite_non_zero
    ensures r == (dat(self).cat == Category::Normal)
@fn Float::is_non_zero
    ensures r == (dat(self).cat != Category::Zero)
@fn Float::is_pos_zero
    ensures r == (dat(self).cat == Category::Zero && !dat(self).sign)
@fn Float::is_neg_zero
    ensures r == (dat(self).cat == Category::Zero && dat(self).sign)
@fn Float::is_pos_infinity
    ensures r == (dat(self).cat == Category::Infinity && !dat(self).sign)
@fn Float::is_neg_infinity
    ensures r == (dat(self).cat == Category::Infinity && dat(self).sign)
@fn IeeeFloat::is_denormal
    requires wf(self)
    ensures r == (dat(self).cat == Category::Normal && dat(self).m < pow2((fm::<S>().p - 1) as nat))
@hint start
    proof {
        wfs_basic::<S>();
        val1(self.sig@);
        if dat(self).m < pow2(fm::<S>().p) { bit_top(dat(self).m, fm::<S>().p); }
    }
@fn Float::is_normal
    requires wf(self)
    ensures r == (dat(self).cat == Category::Normal && dat(self).m >= pow2((fm::<S>().p - 1) as nat))
@fn const:IeeeFloat::ZERO
    requires wfs::<S>()
    ensures dat(r) == zero_d(fm::<S>(), false), plain(r)
@hint start
    proof { wfs_basic::<S>(); }
@fn IeeeFloat::qnan
    requires wfs::<S>()
    ensures r.sig@[0] == (S::NAN_SIGNIFICAND_BASE | S::QNAN_SIGNIFICAND) | (match payload { Some(p) => p & S::NAN_PAYLOAD_MASK, None => 0 }),
        dat(r).cat == Category::NaN, !dat(r).sign, r.exp == nan_exp(fm::<S>()),
        payload is None ==> dat(r) == nan_d(fm::<S>(), false), wf(r)
@hint start
    proof {
        wfs_basic::<S>();
        reveal(wfs);
        qnan_fits::<S>(payload);
    }
@fn const:IeeeFloat::NAN
    requires wfs::<S>()
    ensures r.exp == nan_exp(fm::<S>()), plain(r), dat(r) == nan_d(fm::<S>(), false), wf(r)
@fn const:IeeeFloat::INFINITY
    requires wfs::<S>()
    ensures dat(r) == inf_d(fm::<S>(), false), wf(r), plain(r), dat(r).cat == Category::Infinity ==> r.sig@[0] == 0
@hint start
    proof { wfs_basic::<S>(); }
@fn const:IeeeFloat::SMALLEST
    requires wfs::<S>()
    ensures dat(r) == smallest_d(fm::<S>(), false), wf(r)
@hint start
    proof { wfs_basic::<S>(); }
@fn IeeeFloat::largest
    requires wfs::<S>()
    ensures dat(r) == largest_d(fm::<S>(), false), wf(r)
@hint start
    proof {
        wfs_basic::<S>();
        let p = S::PRECISION as u128;
        one_shl(p);
        let t = ((1u128 << p) - 1) as u128;
        assert(t & !0u128 == t) by (bit_vector);
        pow2_half(fm::<S>().p);
        odd_clear(t);
    }
@fn IeeeFloat::smallest_normalized
    requires wfs::<S>()
    ensures dat(r) == (Dat { cat: Category::Normal, sign: false, m: pow2((fm::<S>().p - 1) as nat), exp: fm::<S>().lo }), wf(r)
@hint start
    proof {
        wfs_basic::<S>();
        one_shl((S::PRECISION - 1) as u128);
    }
@fn IeeeFloat::overflow_result
    requires wfs::<S>()
    ensures out(r) == overflow(fm::<S>(), false, round), wf(r.value), plain(r.value)
@fn IeeeFloat::round_away_from_zero
    requires dat(*self).cat == Category::Normal || dat(*self).cat == Category::Zero, loss != Loss::ExactlyZero, loss == Loss::ExactlyHalf ==> bit < 128
    ensures r == up(dat(*self).sign, dat(*self).cat != Category::Zero && nbit(dat(*self).m, bit as nat), loss, round)
@hint start
    proof { val1(self.sig@); }
@module nrm sig rnd flt
@fn IeeeFloat::normalize rlimit(200)
    requires wfs::<S>(), dat(self).cat == Category::Normal ==> ({
        let (m, e) = (dat(self).m, dat(self).exp - (fm::<S>().p - 1));
        (loss != Loss::ExactlyZero && m > 0 ==> unit(fm::<S>(), blen(m) - 1 + e) >= e)
    })
    ensures dat(self).cat != Category::Normal ==> out(r) == (Out { st: Status::OK, v: dat(self) }),
        dat(self).cat == Category::Normal ==> wf(r.value) && plain(r.value)
            && out(r) == norm(fm::<S>(), dat(self).sign, dat(self).m, dat(self).exp - (fm::<S>().p - 1), loss, round)
@hint top
    hide(blen); hide(nz_l); hide(nz_q); hide(val); hide(nbit); hide(wfd); hide(overflow); hide(rneg); hide(up);
@hint start
    let ghost f = fm::<S>();
    let ghost (m, e, l0, sg) = (dat(self).m, dat(self).exp - (f.p - 1), loss, dat(self).sign);
    let ghost u = unit(f, blen(m) - 1 + e);
    proof {
        wfs_basic::<S>();
        val1(self.sig@);
        p128();
        overflow_sign(f, sg, round);
        norm_steps(f, sg, m, e, loss, round);
        if m > 0 {
            nz_size(f, m, e);
            finish_cases(f, sg, nz_q(m, e, u), u, nz_l(m, e, u, loss), round);
        } else {
            blen0();
            finish_cases(f, sg, 0, qmin(f), loss, round);
        }
    }
@hint before 0 sig::shift_left
    proof {
        val1(this.sig@);
        let k = (e - u) as nat;
        nz_lt(m, e, u, l0);
        pow2_le(f.p, 128);
        lemma_small_mod(m * pow2(k), pow2(128));
        // an even significand is not all ones
        pow2_half(k);
        let h = pow2((k - 1) as nat) as int;
        let mi = m as int;
        assert(mi * (2 * h) == 2 * (mi * h)) by (nonlinear_arith);
        assert(nz_q(m, e, u) == m * pow2(k));
        assert(nz_q(m, e, u) != pow2(f.p) - 1);
    }
@hint after 0 sig::shift_left
    proof { val1(this.sig@); }
@hint after 0 loss=sig::shift_right
    proof { val1(this.sig@); nz_gt(m, e, u, l0); }
@hint before 1 ifS::NONFINITE_BEHAVIOR
    proof {
        val1(this.sig@);
        if u == e { nz_eq(m, e, l0); }
        nbit0(this.sig@[0] as nat);
        assert(m > 0 ==> u >= e);
        assert(m > 0 ==> this.exp == u + f.p - 1);
        assert(m > 0 ==> this.sig@[0] as nat == nz_q(m, e, u));
        assert(m > 0 ==> loss == nz_l(m, e, u, l0));
        assert(m > 0 ==> omsb == blen(this.sig@[0] as nat));
        assert(m == 0 ==> this.sig@[0] == 0 && loss == l0 && omsb == 0);
        if f.no_inf && this.sig@[0] < pow2(f.p) { nan_like::<S>(this.sig@[0]); }
    }
@hint before 0 vx_assert(sig::increment
    let ghost q0 = this.sig@[0] as nat;
    proof {
        val1(this.sig@);
        inc_size(q0, f.p);
    }
@hint after 0 vx_assert(sig::increment
    proof {
        val1(this.sig@);
        pow2_lt(f.p, 128);
        assert(this.sig@[0] as nat == q0 + 1);
        if f.no_inf && this.sig@[0] < pow2(f.p) { nan_like::<S>(this.sig@[0]); }
    }
@hint after 0 let_:Loss=sig::shift_right
    proof { val1(this.sig@); }
