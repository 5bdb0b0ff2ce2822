@module dd ddx conv nanm nxt rint bits sem
@raw
// ---- pairs of doubles ------------------------------------------------------------------------------

pub open spec fn hi(x: DD) -> Dat { dat(x.0) }
pub open spec fn lo(x: DD) -> Dat { dat(x.1) }
pub open spec fn wf2(x: DD) -> bool { wf(x.0) && wf(x.1) }
/// the number a finite pair stands for
pub open spec fn ddv(x: DD) -> int { dv(hi(x)) + dv(lo(x)) }
pub open spec fn dd_neg(x: DD) -> (Dat, Dat) { (neg_d(hi(x)), if lo(x).cat == Category::Normal { neg_d(lo(x)) } else { lo(x) }) }
pub open spec fn pair(x: DD) -> (Dat, Dat) { (hi(x), lo(x)) }

/// `t`, in the direction of a number of significand `m` and unit `u` (the least unit: `low`), leaves that number the nearest one (even on ties)
pub open spec fn near(m: int, u: int, low: bool, t: int) -> bool {
    &&& -u <= 2 * t <= u
    &&& (2 * t == u || 2 * t == -u) ==> m % 2 == 0
    &&& m == 0x10_0000_0000_0000 && !low && t < 0 ==> -u <= 4 * t
}
pub open spec fn unit_of(h: Dat) -> int { pow2((h.exp - fd().lo) as nat) as int }
pub open spec fn along(h: Dat, l: Dat) -> int { if h.sign { -dv(l) } else { dv(l) } }
/// the first part is the second part's sum with it, rounded to nearest even
pub open spec fn canon(x: DD) -> bool {
    let (h, l) = (hi(x), lo(x));
    match h.cat {
        Category::Normal => finite(l) && near(h.m as int, unit_of(h), h.exp == fd().lo, along(h, l)),
        Category::Zero => l.cat == Category::Zero,
        _ => l.cat == Category::Zero,
    }
}

pub proof fn enc_ok(d: Dat)
    requires wfd(fd(), d)
    ensures 0 <= enc::<SD>(d) < 0x1_0000_0000_0000_0000
{
    facts();
    lemma2_to64();
    consts_DoubleS();
    one_shl(63);
    assert(1u128 << 63u128 == 0x8000_0000_0000_0000) by (bit_vector);
    let (e, i) = (e_enc::<SD>(d), i_of::<SD>() as int);
    assert(e_max::<SD>() == 2047);
    assert(0 <= e <= 2047);
    lemma_mod_bound(d.m as int, i);
}

pub proof fn near_lt(m1: int, k1: nat, t1: int, m2: int, k2: nat, t2: int)
    requires near(m1, pow2(k1) as int, k1 == 0, t1), near(m2, pow2(k2) as int, k2 == 0, t2),
        0 < m1 < 0x20_0000_0000_0000, 0 < m2 < 0x20_0000_0000_0000, m1 >= 0x10_0000_0000_0000 || k1 == 0, m2 >= 0x10_0000_0000_0000 || k2 == 0,
        m1 * pow2(k1) < m2 * pow2(k2)
    ensures m1 * pow2(k1) + t1 < m2 * pow2(k2) + t2
{
    let (u, w) = (pow2(k1) as int, pow2(k2) as int);
    let h = 0x10_0000_0000_0000int;
    lemma_pow2_pos(k1); lemma_pow2_pos(k2);
    if k1 == k2 {
        assert(m1 < m2) by (nonlinear_arith) requires m1 * u < m2 * u, u > 0;
        if m2 >= m1 + 2 {
            assert(m2 * u >= m1 * u + 2 * u) by (nonlinear_arith) requires m2 >= m1 + 2, u > 0;
        } else {
            assert(m2 * u == m1 * u + u) by (nonlinear_arith) requires m2 == m1 + 1;
        }
    } else if k1 < k2 {
        pow2_half(k2);
        pow2_le(k1, (k2 - 1) as nat);
        assert(w >= 2 * u);
        assert(2 * (m1 * u) + 2 * t1 < (4 * h - 1) * u) by {
            if m1 == 2 * h - 1 {
                assert(2 * (m1 * u) == (4 * h - 2) * u) by (nonlinear_arith) requires m1 == 2 * h - 1;
                assert(2 * t1 < u);
                assert((4 * h - 2) * u + u == (4 * h - 1) * u) by (nonlinear_arith);
            } else {
                assert(2 * (m1 * u) + u <= (4 * h - 3) * u) by (nonlinear_arith) requires m1 <= 2 * h - 2, u > 0;
                assert((4 * h - 3) * u < (4 * h - 1) * u) by (nonlinear_arith) requires u > 0;
            }
        }
        assert(2 * (m2 * w) + 2 * t2 >= (4 * h - 1) * u) by {
            if m2 == h && t2 < 0 {
                assert(4 * (m2 * w) - w == (4 * h - 1) * w) by (nonlinear_arith) requires m2 == h;
                assert((4 * h - 1) * w >= 2 * ((4 * h - 1) * u)) by (nonlinear_arith) requires w >= 2 * u, h > 0;
            } else if m2 == h {
                assert(2 * (m2 * w) >= 4 * h * u) by (nonlinear_arith) requires m2 == h, w >= 2 * u, h > 0;
                assert((4 * h - 1) * u <= 4 * h * u) by (nonlinear_arith) requires u > 0;
            } else {
                assert(2 * (m2 * w) - w >= (2 * h + 1) * w) by (nonlinear_arith) requires m2 >= h + 1, w > 0;
                assert((2 * h + 1) * w >= (2 * h + 1) * (2 * u)) by (nonlinear_arith) requires w >= 2 * u, h > 0;
                assert((2 * h + 1) * (2 * u) >= (4 * h - 1) * u) by (nonlinear_arith) requires u > 0;
            }
        }
    } else {
        pow2_half(k1);
        pow2_le(k2, (k1 - 1) as nat);
        assert(m2 * w < 2 * h * w) by (nonlinear_arith) requires m2 < 2 * h, w > 0;
        assert(2 * h * w <= h * u) by (nonlinear_arith) requires u >= 2 * w, h > 0;
        assert(h * u <= m1 * u) by (nonlinear_arith) requires m1 >= h, u > 0;
    }
}

/// |x| of a canonical pair
pub open spec fn abs_of(x: DD) -> int { mag(fd(), hi(x)) + along(hi(x), lo(x)) }

pub proof fn abs_pos(x: DD)
    requires wf2(x), canon(x), hi(x).cat == Category::Normal
    ensures abs_of(x) > 0, ddv(x) == if hi(x).sign { -abs_of(x) } else { abs_of(x) }
{
    facts();
    let k = (hi(x).exp - fd().lo) as nat;
    lemma_pow2_pos(k);
    let (m, u) = (hi(x).m as int, pow2(k) as int);
    assert(m * u >= u) by (nonlinear_arith) requires m >= 1, u > 0;
}

pub proof fn abs_lt(x: DD, y: DD)
    requires wf2(x), wf2(y), canon(x), canon(y), hi(x).cat == Category::Normal, hi(y).cat == Category::Normal, mag(fd(), hi(x)) < mag(fd(), hi(y))
    ensures abs_of(x) < abs_of(y)
{
    facts();
    near_lt(hi(x).m as int, (hi(x).exp - fd().lo) as nat, along(hi(x), lo(x)), hi(y).m as int, (hi(y).exp - fd().lo) as nat, along(hi(y), lo(y)));
}

/// lexicographic order of the parts
pub open spec fn lex(x: DD, y: DD) -> Option<Ordering> {
    match cmp_spec(fd(), hi(x), hi(y)) { Some(Ordering::Equal) => cmp_spec(fd(), lo(x), lo(y)), c => c }
}
/// the order of the numbers that canonical pairs stand for
pub open spec fn dd_cmp(x: DD, y: DD) -> Option<Ordering> {
    if finite(hi(x)) && finite(hi(y)) { Some(iord(ddv(x), ddv(y))) } else { cmp_spec(fd(), hi(x), hi(y)) }
}
pub proof fn lex_cmp(x: DD, y: DD)
    requires wf2(x), wf2(y), canon(x), canon(y)
    ensures lex(x, y) == dd_cmp(x, y)
{
    facts();
    if hi(x).cat == Category::Normal { abs_pos(x); mag_pos(fd(), hi(x)); }
    if hi(y).cat == Category::Normal { abs_pos(y); mag_pos(fd(), hi(y)); }
    if hi(x).cat == Category::Normal && hi(y).cat == Category::Normal {
        if mag(fd(), hi(x)) < mag(fd(), hi(y)) { abs_lt(x, y); }
        if mag(fd(), hi(y)) < mag(fd(), hi(x)) { abs_lt(y, x); }
    }
}

/// the sum, for operands that are not two nonzero finite numbers
pub open spec fn add_special(x: DD, y: DD, rm: Round) -> (Status, (Dat, Dat)) {
    let (a, b) = (hi(x), hi(y));
    let z = zero_d(fd(), rm == Round::TowardNegative);
    if a.cat == Category::NaN { (Status::OK, pair(x)) }
    else if b.cat == Category::NaN { (Status::OK, pair(y)) }
    else if a.cat == Category::Infinity && b.cat == Category::Infinity && a.sign != b.sign { (Status::INVALID_OP, (nan_d(fd(), a.sign), zero_d(fd(), false))) }
    else if a.cat == Category::Zero && b.cat == Category::Zero && a.sign != b.sign { (Status::OK, (z, zero_d(fd(), false))) }
    else if a.cat == Category::Infinity || b.cat == Category::Zero { (Status::OK, pair(x)) }
    else { (Status::OK, pair(y)) }
}
pub open spec fn with_xor(x: DD, s: bool) -> (Dat, Dat) { if s { dd_neg(x) } else { pair(x) } }
pub open spec fn mul_special(x: DD, y: DD) -> (Status, (Dat, Dat)) {
    let (a, b) = (hi(x), hi(y));
    if a.cat == Category::NaN { (Status::OK, pair(x)) }
    else if b.cat == Category::NaN { (Status::OK, pair(y)) }
    else if (a.cat == Category::Zero && b.cat == Category::Infinity) || (a.cat == Category::Infinity && b.cat == Category::Zero) { (Status::OK, (nan_d(fd(), false), zero_d(fd(), false))) }
    else if a.cat == Category::Zero || a.cat == Category::Infinity { (Status::OK, with_xor(x, b.sign)) }
    else { (Status::OK, with_xor(y, a.sign)) }
}
/// a double away from overflow
pub open spec fn single(x: DD) -> bool { lo(x).cat == Category::Zero && within(hi(x), 2090) }
/// what is claimed of a sum: special values, and exactness for two doubles
pub open spec fn added(x: DD, y: DD, rm: Round, st: Status, v: DD) -> bool {
    &&& wf2(v)
    &&& !both_normal(x, y) ==> (st, pair(v)) == add_special(x, y, rm)
    &&& nearest(rm) && both_normal(x, y) && single(x) && single(y) ==> finite(hi(v)) && finite(lo(v)) && ddv(v) == ddv(x) + ddv(y)
        && if ddv(v) == 0 { hi(v).cat == Category::Zero } else { hi(v) == rint_of(ddv(v), rm) }
}
pub open spec fn mulled(x: DD, y: DD, rm: Round, st: Status, v: DD) -> bool {
    &&& wf2(v)
    &&& !both_normal(x, y) ==> (st, pair(v)) == mul_special(x, y)
    &&& nearest(rm) && both_normal(x, y) && exact_prod(x, y) ==> finite(hi(v)) && finite(lo(v)) && ddv(v) == prod(hi(x), hi(y)) && hi(v) == rint_of(ddv(v), rm)
}
/// two doubles whose product neither overflows nor underflows
pub open spec fn exact_prod(x: DD, y: DD) -> bool {
    lo(x).cat == Category::Zero && lo(y).cat == Category::Zero && prod_exp(hi(x), hi(y)) >= 0 && ab(prod(hi(x), hi(y))) < pow2(2090)
}
pub open spec fn intd(d: Dat) -> bool { d.cat == Category::Zero || (d.cat == Category::Normal && int_loss(fd(), d) == Loss::ExactlyZero) }
pub open spec fn subn(d: Dat) -> bool { d.cat == Category::Normal && d.m < pow2(52) }
pub open spec fn both_normal(x: DD, y: DD) -> bool { hi(x).cat == Category::Normal && hi(y).cat == Category::Normal }
pub proof fn dv_zero()
    ensures forall|d: Dat| #![trigger dv(d)] d.cat == Category::Zero ==> dv(d) == 0
{}
@fn DoubleFloat::category
    ensures r == hi(self).cat
@fn DoubleFloat::is_negative
    ensures r == hi(self).sign
@fn DoubleFloat::is_signaling
    requires wf2(self)
    ensures r == snan::<SD>(hi(self))
@fn DoubleFloat::neg
    ensures pair(r) == dd_neg(self), r.0.exp == self.0.exp, r.1.exp == self.1.exp, wf2(self) ==> wf2(r)
@fn Float::copy_sign#DoubleFloat
    ensures pair(r) == with_xor(self, hi(self).sign != hi(rhs).sign), wf2(self) ==> wf2(r)
@fn Float::abs#DoubleFloat
    ensures pair(r) == with_xor(self, hi(self).sign), wf2(self) ==> wf2(r)
@fn Float::is_zero#DoubleFloat
    ensures r == (hi(self).cat == Category::Zero)
@fn Float::is_infinite#DoubleFloat
    ensures r == (hi(self).cat == Category::Infinity)
@fn Float::is_nan#DoubleFloat
    ensures r == (hi(self).cat == Category::NaN)
@fn Float::is_finite#DoubleFloat
    ensures r == finite(hi(self))
@fn Float::is_finite_non_zero#DoubleFloat
    ensures r == (hi(self).cat == Category::Normal)
@fn const:DoubleFloat::ZERO
    ensures hi(r) == zero_d(fd(), false), lo(r) == zero_d(fd(), false), wf2(r)
@hint start
    proof { facts(); }
@fn const:DoubleFloat::INFINITY
    ensures hi(r) == inf_d(fd(), false), lo(r) == zero_d(fd(), false), wf2(r)
@hint start
    proof { facts(); }
@fn const:DoubleFloat::NAN
    ensures hi(r) == nan_d(fd(), false), lo(r) == zero_d(fd(), false), wf2(r)
@hint start
    proof { facts(); }
@fn const:DoubleFloat::SMALLEST
    ensures hi(r) == smallest_d(fd(), false), lo(r) == zero_d(fd(), false), wf2(r), ddv(r) == 1
@hint start
    proof { facts(); p128(); }
@fn DoubleFloat::default
    ensures hi(r) == zero_d(fd(), false), lo(r) == zero_d(fd(), false), wf2(r)
@fn DoubleFloat::from_bits
    ensures hi(r) == dec::<SD>(input as nat % 0x1_0000_0000_0000_0000), lo(r) == dec::<SD>(input as nat / 0x1_0000_0000_0000_0000), wf2(r), plain(r.0), plain(r.1)
@hint start
    proof {
        facts(); wfenc_DoubleS();
        assert(input & (sub(1u128 << 64, 1)) == input % 0x1_0000_0000_0000_0000u128 && (input >> 64) & (sub(1u128 << 64, 1)) == input / 0x1_0000_0000_0000_0000u128) by (bit_vector);
        assert(1u128 << 64 == 0x1_0000_0000_0000_0000) by (bit_vector);
    }
@fn DoubleFloat::to_bits
    requires wf2(self)
    ensures r == enc::<SD>(hi(self)) + enc::<SD>(lo(self)) * 0x1_0000_0000_0000_0000,
        forall|b: u128| #![trigger dec::<SD>(b as nat % 0x1_0000_0000_0000_0000)] hi(self) == dec::<SD>(b as nat % 0x1_0000_0000_0000_0000) && lo(self) == dec::<SD>(b as nat / 0x1_0000_0000_0000_0000) ==> r == b
@hint start
    proof {
        facts(); wfenc_DoubleS(); lemma2_to64();
        let (x, y) = (hi(self), lo(self));
        enc_ok(x); enc_ok(y);
        let (u, v) = (enc::<SD>(x) as u128, enc::<SD>(y) as u128);
        assert(u < 0x1_0000_0000_0000_0000u128 && v < 0x1_0000_0000_0000_0000u128 ==> (u | (v << 64usize)) == add(u, mul(v, 0x1_0000_0000_0000_0000u128))) by (bit_vector);
        assert forall|b: u128| #![trigger dec::<SD>(b as nat % 0x1_0000_0000_0000_0000)] x == dec::<SD>(b as nat % 0x1_0000_0000_0000_0000) && y == dec::<SD>(b as nat / 0x1_0000_0000_0000_0000)
            implies u + v * 0x1_0000_0000_0000_0000 == b by {
            enc_dec::<SD>(b as nat % 0x1_0000_0000_0000_0000);
            enc_dec::<SD>(b as nat / 0x1_0000_0000_0000_0000);
        }
    }
@fn DoubleFloat::eq
    requires wf2(*self), wf2(*rhs)
    ensures r == (lex(*self, *rhs) == Some(Ordering::Equal)), canon(*self) && canon(*rhs) ==> r == (dd_cmp(*self, *rhs) == Some(Ordering::Equal))
@hint start
    proof { if canon(*self) && canon(*rhs) { lex_cmp(*self, *rhs); } }
@fn DoubleFloat::partial_cmp
    requires wf2(*self), wf2(*rhs)
    ensures r == lex(*self, *rhs), canon(*self) && canon(*rhs) ==> r == dd_cmp(*self, *rhs)
@hint start
    proof { if canon(*self) && canon(*rhs) { lex_cmp(*self, *rhs); } }
@fn DoubleFloat::cmp_abs_normal
    requires wf2(self), wf2(rhs), both_normal(self, rhs)
    ensures canon(self) && canon(rhs) ==> r == iord(abs_of(self), abs_of(rhs))
@hint start
    proof {
        facts();
        if canon(self) && canon(rhs) {
            if mag(fd(), hi(self)) < mag(fd(), hi(rhs)) { abs_lt(self, rhs); }
            if mag(fd(), hi(rhs)) < mag(fd(), hi(self)) { abs_lt(rhs, self); }
        }
    }
@fn DoubleFloat::bitwise_eq
    requires wf2(self), wf2(rhs)
    ensures r == (pair(self) == pair(rhs))
@fn DoubleFloat::add_r rlimit(80)
    requires wf2(self), wf2(rhs)
    ensures added(self, rhs, round, r.status, r.value)
@hint top
    hide(add_spec); hide(mag); hide(rint_of);
@hint start
    proof {
        facts();
        dv_zero();
        if nearest(round) && both_normal(self, rhs) && single(self) && single(rhs) { dd_add(hi(self), hi(rhs), lo(self), lo(rhs), round); }
    }
@fn DoubleFloat::mul_r rlimit(80)
    requires wf2(self), wf2(rhs)
    ensures mulled(self, rhs, round, r.status, r.value)
@hint top
    hide(add_spec); hide(mul_spec); hide(fma_spec); hide(mag); hide(rint_of); hide(prod);
@hint start
    proof {
        facts();
        dv_zero();
        if nearest(round) && both_normal(self, rhs) && exact_prod(self, rhs) { dd_mul(hi(self), hi(rhs), lo(self), lo(rhs), round); }
    }
@fn Float::sub_r#DoubleFloat
    requires wf2(self), wf2(rhs)
    ensures exists|n: DD| #[trigger] wf2(n) && pair(n) == dd_neg(rhs) && added(self, n, round, r.status, r.value)
