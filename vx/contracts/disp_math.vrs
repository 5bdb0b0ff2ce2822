@module dig dec
@raw
// ---- decimal digits ----------------------------------------------------------------------------------

/// the number written with these digits, the least significant first
pub open spec fn dnum(b: Seq<u8>) -> nat decreases b.len()
{ if b.len() == 0 { 0 } else { ((b[0] as int - 48) as nat) + 10 * dnum(b.skip(1)) } }
#[verifier::opaque]
pub open spec fn isd(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> 48 <= #[trigger] b[i] <= 57 }

pub proof fn isd_at(b: Seq<u8>, i: int)
    requires isd(b), 0 <= i < b.len()
    ensures 48 <= b[i] <= 57
{ reveal(isd); }

pub proof fn dnum_push(b: Seq<u8>, x: u8)
    requires 48 <= x <= 57
    ensures dnum(b.push(x)) == dnum(b) + (x - 48) * ten(b.len())
    decreases b.len()
{
    p10_small();
    let w = b.push(x);
    if b.len() == 0 {
        assert(w.skip(1).len() == 0);
        assert(dnum(w.skip(1)) == 0 && w[0] == x && dnum(b) == 0);
        assert((x - 48) * 1 == x - 48);
        assert(ten(b.len()) == 1);
    } else {
        assert(w.skip(1) =~= b.skip(1).push(x));
        dnum_push(b.skip(1), x);
        p10_add((b.len() - 1) as nat, 1);
        let (p, y) = (ten((b.len() - 1) as nat) as int, x as int - 48);
        assert(10 * (y * p) == y * (p * 10)) by (nonlinear_arith);
    }
}

pub proof fn dnum_split(b: Seq<u8>, f: int)
    requires isd(b), 0 <= f <= b.len()
    ensures dnum(b) == dnum(b.take(f)) + dnum(b.skip(f)) * ten(f as nat), dnum(b.take(f)) < ten(f as nat)
    decreases f
{
    reveal(isd);
    p10_small();
    if f == 0 {
        assert(b.skip(0) =~= b);
        assert(b.take(0).len() == 0);
        let y = dnum(b) as int;
        lemma_mul_basics(y);
        assert(ten(0) == 1 && dnum(b.take(0)) == 0);
    } else {
        let c = b.skip(1);
        assert forall|i: int| 0 <= i < c.len() implies 48 <= #[trigger] c[i] <= 57 by { assert(c[i] == b[i + 1]); }
        dnum_split(c, f - 1);
        assert(b.take(f).skip(1) =~= c.take(f - 1));
        assert(c.skip(f - 1) =~= b.skip(f));
        assert(b.take(f)[0] == b[0]);
        p10_add((f - 1) as nat, 1);
        let (p, y) = (ten((f - 1) as nat) as int, dnum(b.skip(f)) as int);
        assert(10 * (y * p) == y * (p * 10)) by (nonlinear_arith);
    }
}

/// n digits without a leading zero
pub proof fn dnum_size(b: Seq<u8>)
    ensures isd(b) ==> dnum(b) < ten(b.len()), isd(b) && b.len() > 0 && b.last() != 48 ==> dnum(b) >= ten((b.len() - 1) as nat)
{
    reveal(isd);
    if isd(b) {
        dnum_split(b, b.len() as int);
        assert(b.take(b.len() as int) =~= b);
        if b.len() > 0 && b.last() != 48 {
            let f = b.len() - 1;
            dnum_split(b, f);
            let c = b.skip(f);
            assert(c[0] == b[f]);
            assert(c.skip(1).len() == 0);
            assert(dnum(c.skip(1)) == 0);
            let (p, y) = (ten(f as nat) as int, dnum(c) as int);
            assert(y >= 1);
            assert(y * p >= p) by (nonlinear_arith) requires y >= 1, p >= 0;
        }
    }
}

pub proof fn ten_ge(n: nat)
    ensures ten(n) >= pow2(n), ten(n) > 0
{
    p10_split(n);
    p10_pos(n);
    lemma_pow2_pos(n);
    let (a, b) = (five(n) as int, pow2(n) as int);
    assert(a * b >= b) by (nonlinear_arith) requires a >= 1, b >= 0;
}

pub proof fn ten_le(a: nat, b: nat)
    requires a <= b
    ensures ten(a) <= ten(b)
{
    p10_add(a, (b - a) as nat);
    p10_pos(a);
    p10_pos((b - a) as nat);
    let (x, y) = (ten(a) as int, ten((b - a) as nat) as int);
    assert(x * y >= x) by (nonlinear_arith) requires y >= 1, x >= 0;
}

// ---- 196/59 is more than log2(10) --------------------------------------------------------------------

pub proof fn five59()
    ensures five(59) <= pow2(137), ten(59) <= pow2(196)
{
    p5_eight();
    p5_add(7, 7);
    p5_add(14, 14);
    p5_add(28, 28);
    p5_add(56, 3);
    p128();
    pow2_add(128, 9);
    lemma2_to64();
    let f14 = 6103515625int;
    assert(five(14) == f14);
    let f28 = 37252902984619140625int;
    assert(6103515625int * 6103515625 == 37252902984619140625) by (compute);
    assert(five(28) == f14 * f14);
    assert(five(28) == f28);
    assert(five(56) == f28 * f28);
    assert(five(59) == f28 * f28 * 125);
    assert(37252902984619140625int * 37252902984619140625 * 125 <= 0x1_0000_0000_0000_0000_0000_0000_0000_0000int * 512) by (compute);
    p10_split(59);
    pow2_add(137, 59);
    mul_le(five(59) as int, pow2(137) as int, pow2(59) as int);
}

pub proof fn pow_mono(a: nat, b: nat, n: nat)
    requires a < b, n > 0
    ensures pow(a as int, n) < pow(b as int, n)
    decreases n
{
    reveal(pow);
    lemma_pow1(a as int);
    lemma_pow1(b as int);
    if n > 1 {
        pow_mono(a, b, (n - 1) as nat);
        let (x, y, ai, bi) = (pow(a as int, (n - 1) as nat), pow(b as int, (n - 1) as nat), a as int, b as int);
        if a > 0 { lemma_pow_positive(ai, (n - 1) as nat); } else { lemma0_pow((n - 1) as nat); }
        assert(ai * x < bi * y) by (nonlinear_arith) requires 0 <= ai < bi, 0 <= x < y;
    }
}
pub proof fn pow_mono_le(a: nat, b: nat, n: nat)
    requires a <= b
    ensures pow(a as int, n) <= pow(b as int, n)
{
    if n == 0 { lemma_pow0(a as int); lemma_pow0(b as int); }
    else if a < b { pow_mono(a, b, n); }
}

pub proof fn ten_bits(a: nat, b: nat)
    requires 196 * a <= 59 * b
    ensures ten(a) <= pow2(b)
{
    five59();
    p10_pos(a);
    p10_pos(59);
    lemma_pow2_pos(196);
    lemma_pow2_pos(b);
    if ten(a) > pow2(b) {
        pow_mono(pow2(b), ten(a), 59);
        lemma_pow_multiplies(10, a, 59);
        lemma_pow_multiplies(10, 59, a);
        lemma_pow2(b);
        lemma_pow_multiplies(2, b, 59);
        lemma_pow2(196);
        lemma_pow_multiplies(2, 196, a);
        pow_mono_le(ten(59), pow2(196), a);
        lemma_pow2(196 * a);
        lemma_pow2(b * 59);
        pow2_le(196 * a, b * 59);
        assert(a * 59 == 59 * a);
    }
}

// ---- what is printed ---------------------------------------------------------------------------------

/// m * 2^e0 is n / 10^k
#[verifier::opaque]
pub open spec fn decimal_of(m: nat, e0: int, n: nat, k: nat) -> bool { n * pow2(posn(-e0)) == (m * pow2(posn(e0))) * ten(k) }

pub proof fn decimal_up(m: nat, m1: nat, e0: int, tz: nat, n: nat)
    requires m == m1 * pow2(tz), e0 + tz >= 0, n == m1 * pow2((e0 + tz) as nat)
    ensures decimal_of(m, e0, n, 0)
{
    reveal(decimal_of);
    p10_small();
    let (a, b, c) = ((e0 + tz) as nat, posn(-e0), posn(e0));
    pow2_add(a, b);
    pow2_add(tz, c);
    assert(a + b == tz + c);
    let (mi, pa, pb, pt, pc) = (m1 as int, pow2(a) as int, pow2(b) as int, pow2(tz) as int, pow2(c) as int);
    assert((mi * pa) * pb == ((mi * pt) * pc) * 1) by (nonlinear_arith) requires pa * pb == pt * pc;
}

pub proof fn decimal_down(m: nat, m1: nat, e0: int, tz: nat, k: nat)
    requires m == m1 * pow2(tz), e0 + tz == -k, k > 0
    ensures decimal_of(m, e0, m1 * five(k), k)
{
    reveal(decimal_of);
    p128();
    p10_split(k);
    let b = posn(-e0);
    pow2_add(k, tz);
    assert(b == k + tz);
    let (mi, f, pk, pt) = (m1 as int, five(k) as int, pow2(k) as int, pow2(tz) as int);
    assert((mi * f) * (pk * pt) == ((mi * pt) * 1) * (f * pk)) by (nonlinear_arith);
}

/// a number of this many bits has at least that many digits
pub open spec fn bits_for(prec: nat) -> nat { (prec * 196 + 58) / 59 }
/// n in d significant digits or fewer: exactly d * 10^t, or within half a unit in the place of the last requested digit, or cut off there
/// when that place is further down than it has to be
#[verifier::opaque]
pub open spec fn near_dec(n: nat, d: nat, t: nat, prec: nat) -> bool {
    d * ten(t) == n || exists|u: nat| u <= t && n >= #[trigger] ten((prec - 1 + u) as nat)
        && (2 * mabs(d * ten(t) - n) <= ten(u) || mabs(d * ten(t) - n) < ten(u) && n >= pow2((bits_for(prec) - 1) as nat) * ten(u))
}

/// how many low digits may be left out
pub proof fn discard_ok(n: nat, prec: nat, req: nat, dis: nat)
    requires n > 0, prec > 0, req == (prec * 196 + 58) / 59, dis == (if blen(n) < req { 0nat } else { (blen(n) - req) as nat }) * 59 / 196
    ensures dis > 0 ==> n >= ten((prec - 1 + dis) as nat) && n >= pow2((bits_for(prec) - 1) as nat) * ten(dis), dis <= blen(n)
{
    if dis > 0 {
        let b = blen(n);
        blen_bounds(n);
        assert(196 * dis <= 59 * (b - req));
        assert(196 * prec <= 59 * req);
        ten_bits(prec + dis, b);
        p10_add((prec - 1 + dis) as nat, 1);
        p10_small();
        pow2_half(b);
        assert(ten(prec + dis) == ten((prec - 1 + dis) as nat) * 10);
        ten_bits(dis, (b - req) as nat);
        pow2_add((req - 1) as nat, (b - req) as nat);
        assert((req - 1) as nat + (b - req) as nat == (b - 1) as nat);
        let (x, y, z) = (pow2((req - 1) as nat) as int, ten(dis) as int, pow2((b - req) as nat) as int);
        assert(x * y <= x * z) by (nonlinear_arith) requires x >= 0, y <= z;
    }
}

/// sv in front of the digits b, 10^t times; low is left out, which is at most u digits
#[verifier::opaque]
pub open spec fn dst(n: nat, sv: nat, b: Seq<u8>, t: nat, low: nat, u: nat) -> bool {
    &&& n == (sv * ten(b.len()) + dnum(b)) * ten(t) + low
    &&& low < ten(u) && u <= t
    &&& isd(b) && (b.len() > 0 ==> b[0] != 48) && (sv > 0 || b.len() > 0 && b.last() != 48)
}

pub proof fn dst_start(n: nat)
    requires n > 0
    ensures dst(n, n, Seq::<u8>::empty(), 0, 0, 0)
{
    reveal(isd);
    reveal(dst);
    p10_small();
    assert(dnum(Seq::<u8>::empty()) == 0);
    assert((n * 1 + 0) * 1 + 0 == n);
}

pub proof fn dst_size(n: nat, sv: nat, b: Seq<u8>, t: nat, low: nat, u: nat)
    requires dst(n, sv, b, t, low, u), sv > 0
    ensures b.len() + t <= blen(n)
{
    reveal(dst);
    let (x, y, z) = (ten(b.len()) as int, ten(t) as int, dnum(b) as int);
    let s = sv as int;
    p10_pos(b.len());
    p10_pos(t);
    p10_add(b.len(), t);
    ten_ge(b.len() + t);
    assert((s * x + z) * y >= x * y) by (nonlinear_arith) requires s >= 1, z >= 0, x >= 1, y >= 1;
    blen_bounds(n);
    if b.len() + t > blen(n) { pow2_le(blen(n), b.len() + t); }
}

pub proof fn dst_skip(n: nat, q: nat, r: nat, b: Seq<u8>, t: nat, low: nat)
    requires dst(n, q * 10 + r, b, t, low, t), b.len() == 0, q > 0, r < 10
    ensures dst(n, q, b, t + 1, low + r * ten(t), t + 1)
{
    reveal(dst);
    p10_small();
    p10_add(t, 1);
    let (x, qi, ri, l) = (ten(t) as int, q as int, r as int, low as int);
    assert(ten(b.len()) == 1 && dnum(b) == 0);
    assert(((qi * 10 + ri) * 1 + 0) * x + l == (qi * 1 + 0) * (x * 10) + (l + ri * x)) by (nonlinear_arith);
    assert(l + ri * x < x * 10 && l + ri * x >= 0) by (nonlinear_arith) requires 0 <= l < x, 0 <= ri <= 9;
}

pub proof fn dst_zero(n: nat, q: nat, b: Seq<u8>, t: nat, low: nat, u: nat)
    requires dst(n, q * 10, b, t, low, u), b.len() == 0, q > 0
    ensures dst(n, q, b, t + 1, low, u)
{
    reveal(dst);
    p10_small();
    p10_add(t, 1);
    let (x, qi) = (ten(t) as int, q as int);
    assert(ten(b.len()) == 1 && dnum(b) == 0);
    assert(((qi * 10) * 1 + 0) * x == (qi * 1 + 0) * (x * 10)) by (nonlinear_arith);
}

pub proof fn dst_push(n: nat, q: nat, r: nat, b: Seq<u8>, c: u8, t: nat, low: nat, u: nat)
    requires dst(n, q * 10 + r, b, t, low, u), r < 10, q * 10 + r > 0, c == 48 + r, b.len() > 0 || r > 0
    ensures dst(n, q, b.push(c), t, low, u)
{
    reveal(isd);
    reveal(dst);
    p10_small();
    p10_add(b.len(), 1);
    dnum_push(b, c);
    let (x, y, z, qi, ri) = (ten(b.len()) as int, ten(t) as int, dnum(b) as int, q as int, r as int);
    assert(((qi * 10 + ri) * x + z) == qi * (x * 10) + (z + ri * x)) by (nonlinear_arith);
    assert(b.push(c)[0] == if b.len() > 0 { b[0] } else { c });
}

/// all digits printed
pub proof fn dst_end(n: nat, b: Seq<u8>, t: nat, low: nat, u: nat, prec: nat)
    requires dst(n, 0, b, t, low, u), b.len() <= prec, u > 0 ==> n >= ten((prec - 1 + u) as nat) && n >= pow2((bits_for(prec) - 1) as nat) * ten(u)
    ensures near_dec(n, dnum(b), t, prec), isd(b), b.len() > 0, b[0] != 48, b.last() != 48
{
    reveal(dst);
    reveal(near_dec);
    let x = ten(b.len()) as int;
    assert(0 * x == 0);
    p10_small();
    if u == 0 { assert(low == 0); } else {
        assert(mabs(dnum(b) * ten(t) - n) < ten(u));
    }
}

/// digits dropped
pub proof fn dst_cut(n: nat, b: Seq<u8>, t: nat, low: nat, u: nat, prec: nat, fs: int, c: Seq<u8>)
    requires dst(n, 0, b, t, low, u), 0 < prec < b.len(), b.len() - prec <= fs, fs <= b.len(), isd(c),
        ({ let f = b.len() - prec;
           (b[f - 1] <= 52 && dnum(b.skip(f)) == dnum(c) * ten((fs - f) as nat))
             || (b[f - 1] >= 53 && dnum(b.skip(f)) + 1 == dnum(c) * ten((fs - f) as nat)) })
    ensures near_dec(n, dnum(c), t + fs as nat, prec)
{
    reveal(isd);
    reveal(dst);
    reveal(near_dec);
    let f = b.len() - prec;
    dnum_split(b, f);
    let top = b.skip(f);
    assert forall|i: int| 0 <= i < top.len() implies 48 <= #[trigger] top[i] <= 57 by { assert(top[i] == b[i + f]); }
    assert(top.last() == b.last());
    dnum_size(top);
    let bot = b.take(f);
    assert forall|i: int| 0 <= i < bot.len() implies 48 <= #[trigger] bot[i] <= 57 by { assert(bot[i] == b[i]); }
    assert(bot.last() == b[f - 1]);
    dnum_size(bot);
    let w = f as nat + t;
    p10_pos(f as nat);
    p10_pos(t);
    p10_pos((f - 1) as nat);
    p10_add(f as nat, t);
    p10_add((fs - f) as nat, w);
    p10_add((prec - 1) as nat, w);
    assert((fs - f) as nat + w == t + fs as nat);
    let (lo, hi, pf, pt, lw, dc, pg) = (dnum(bot) as int, dnum(top) as int, ten(f as nat) as int, ten(t) as int, low as int, dnum(c) as int, ten((fs - f) as nat) as int);
    let x = ten(b.len()) as int;
    assert(0 * x == 0);
    ten_le(u, t);
    assert(n == (lo + hi * pf) * pt + lw);
    assert(dc * (pg * (pf * pt)) == (dc * pg) * (pf * pt)) by (nonlinear_arith);
    assert((lo + hi * pf) * pt == lo * pt + hi * (pf * pt)) by (nonlinear_arith);
    assert(lo * pt + lw < pf * pt) by (nonlinear_arith) requires lo + 1 <= pf, lw < pt, pt > 0;
    assert(lo * pt >= 0) by (nonlinear_arith) requires lo >= 0, pt > 0;
    let big = ten((prec - 1) as nat) as int;
    assert(hi * (pf * pt) >= big * (pf * pt)) by (nonlinear_arith) requires hi >= big, pf * pt >= 0;
    assert(n >= ten((prec - 1 + w) as nat)) by { assert((prec - 1) as nat + w == (prec - 1 + w) as nat); }
    let dd = dnum(c) * ten(t + fs as nat);
    dnum_split(bot, f - 1);
    let last = bot.skip(f - 1);
    assert(last[0] == b[f - 1] && last.skip(1).len() == 0);
    assert(dnum(last.skip(1)) == 0);
    let dg = b[f - 1] as int - 48;
    assert(dnum(last) == dg);
    let (p1, ls) = (ten((f - 1) as nat) as int, dnum(bot.take(f - 1)) as int);
    p10_small();
    p10_add((f - 1) as nat, 1);
    assert(pf == p1 * 10);
    assert(lo == ls + dg * p1);
    if dg <= 4 {
        assert(lo + 1 <= 5 * p1) by (nonlinear_arith) requires lo == ls + dg * p1, ls + 1 <= p1, dg <= 4, p1 >= 0;
        assert(2 * (lo * pt + lw) <= pf * pt) by (nonlinear_arith) requires lo + 1 <= 5 * p1, pf == p1 * 10, lw < pt, pt > 0;
    } else {
        assert(lo >= 5 * p1) by (nonlinear_arith) requires lo == ls + dg * p1, ls >= 0, dg >= 5, p1 >= 0;
        assert(2 * (lo * pt) >= pf * pt) by (nonlinear_arith) requires lo >= 5 * p1, pf == p1 * 10, pt > 0;
    }
    assert(ten(w) == pf * pt);
    if dnum(top) == dnum(c) * ten((fs - f) as nat) {
        assert(dd == hi * (pf * pt));
    } else {
        assert(dd == (hi + 1) * (pf * pt));
        assert((hi + 1) * (pf * pt) == hi * (pf * pt) + pf * pt) by (nonlinear_arith);
    }
    assert(w <= t + fs as nat && 2 * mabs(dd - n) <= ten(w));
}

pub proof fn dst_fin(n: nat, b: Seq<u8>, t: nat, low: nat, u: nat)
    requires dst(n, 0, b, t, low, u)
    ensures isd(b), b.len() > 0, b[0] != 48, b.last() != 48
{ reveal(dst); }

/// ten(d) <= 10 q + r
pub proof fn ten_quot(q: nat, r: nat, d: nat)
    requires q * 10 + r >= ten(d), d > 0, r < 10
    ensures q >= ten((d - 1) as nat), q > 0
{
    p10_small();
    p10_add((d - 1) as nat, 1);
    p10_pos((d - 1) as nat);
}

/// zeros at the end
pub proof fn zero_step(b: Seq<u8>, f: int, i: int)
    requires 0 <= f <= i < b.len(), b[i] == 48, dnum(b.skip(f)) == dnum(b.skip(i)) * ten((i - f) as nat)
    ensures dnum(b.skip(f)) == dnum(b.skip(i + 1)) * ten((i + 1 - f) as nat)
{
    let c = b.skip(i);
    assert(c.skip(1) =~= b.skip(i + 1));
    p10_small();
    p10_add((i - f) as nat, 1);
    let (y, p) = (dnum(b.skip(i + 1)) as int, ten((i - f) as nat) as int);
    assert((10 * y) * p == y * (p * 10)) by (nonlinear_arith);
}
pub proof fn nine_step(b: Seq<u8>, f: int, i: int)
    requires 0 <= f <= i < b.len(), b[i] == 57, dnum(b.skip(f)) + 1 == (dnum(b.skip(i)) + 1) * ten((i - f) as nat)
    ensures dnum(b.skip(f)) + 1 == (dnum(b.skip(i + 1)) + 1) * ten((i + 1 - f) as nat)
{
    let c = b.skip(i);
    assert(c.skip(1) =~= b.skip(i + 1));
    p10_small();
    p10_add((i - f) as nat, 1);
    let (y, p) = (dnum(b.skip(i + 1)) as int, ten((i - f) as nat) as int);
    assert((9 + 10 * y + 1) * p == (y + 1) * (p * 10)) by (nonlinear_arith);
}
pub proof fn step_start(b: Seq<u8>, f: int)
    ensures dnum(b.skip(f)) == dnum(b.skip(f)) * ten((f - f) as nat), dnum(b.skip(f)) + 1 == (dnum(b.skip(f)) + 1) * ten((f - f) as nat)
{
    p10_small();
    assert((f - f) as nat == 0);
    lemma_mul_basics(dnum(b.skip(f)) as int);
    lemma_mul_basics(dnum(b.skip(f)) as int + 1);
}

/// rounded down: the zeros are dropped too
pub proof fn cut_down(n: nat, b: Seq<u8>, t: nat, low: nat, u: nat, prec: nat, fs: int)
    requires dst(n, 0, b, t, low, u), 0 < prec < b.len(), b.len() - prec <= fs < b.len(), b[b.len() - prec - 1] < 53, b[fs] != 48,
        dnum(b.skip(b.len() - prec)) == dnum(b.skip(fs)) * ten((fs - (b.len() - prec)) as nat)
    ensures ({ let c = b.subrange(fs, b.len() as int); near_dec(n, dnum(c), t + fs as nat, prec) && isd(c) && 0 < c.len() <= prec && c[0] != 48 && c.last() != 48 })
{
    reveal(isd);
    dst_fin(n, b, t, low, u);
    let c = b.subrange(fs, b.len() as int);
    assert(c =~= b.skip(fs));
    assert forall|i: int| 0 <= i < c.len() implies 48 <= #[trigger] c[i] <= 57 by { assert(c[i] == b[i + fs]); }
    dst_cut(n, b, t, low, u, prec, fs, c);
}
/// rounded up: the nines are dropped
pub proof fn cut_up(n: nat, b: Seq<u8>, t: nat, low: nat, u: nat, prec: nat, fs: int, v: Seq<u8>)
    requires dst(n, 0, b, t, low, u), 0 < prec < b.len(), b.len() - prec <= fs <= b.len(), b[b.len() - prec - 1] >= 53,
        dnum(b.skip(b.len() - prec)) + 1 == (dnum(b.skip(fs)) + 1) * ten((fs - (b.len() - prec)) as nat),
        fs < b.len() ==> b[fs] < 57 && v == b.update(fs, (b[fs] + 1) as u8), fs == b.len() ==> v == b
    ensures ({ let c = v.subrange(fs, v.len() as int); let w = if fs < b.len() { c } else { c.push(49) };
        near_dec(n, dnum(w), t + fs as nat, prec) && isd(w) && 0 < w.len() <= prec && w[0] != 48 && w.last() != 48 && (c.len() == 0 <==> fs == b.len()) })
{
    reveal(isd);
    dst_fin(n, b, t, low, u);
    let c = v.subrange(fs, v.len() as int);
    if fs < b.len() {
        assert(c.skip(1) =~= b.skip(fs).skip(1));
        assert(c[0] == b[fs] + 1 && b.skip(fs)[0] == b[fs]);
        assert(48 <= b[fs]);
        assert(dnum(c) == dnum(b.skip(fs)) + 1);
        assert forall|i: int| 0 <= i < c.len() implies 48 <= #[trigger] c[i] <= 57 by { assert(c[i] == v[i + fs]); if i > 0 { assert(v[i + fs] == b[i + fs]); } }
        assert(c.len() > 1 ==> c.last() == b.last());
        dst_cut(n, b, t, low, u, prec, fs, c);
    } else {
        let w = c.push(49);
        assert(c.len() == 0);
        assert(w.skip(1).len() == 0);
        assert(dnum(w.skip(1)) == 0);
        assert(dnum(w) == 1);
        assert(b.skip(fs).len() == 0);
        assert(dnum(b.skip(fs)) == 0);
        dst_cut(n, b, t, low, u, prec, fs, w);
    }
}

/// bits of the decimal expansion
pub proof fn n_size(m1: nat, e1: int, n: nat)
    requires m1 > 0, m1 < pow2(113), -0x7000 <= e1 <= 0x9000, e1 >= 0 ==> n == m1 * pow2(e1 as nat), e1 < 0 ==> n == m1 * five((-e1) as nat)
    ensures n > 0, blen(n) <= 0x1_8000
{
    lemma_pow2_pos(113);
    if e1 >= 0 {
        lemma_pow2_pos(e1 as nat);
        pow2_add(113, e1 as nat);
        mul_lt(m1 as int, pow2(113) as int, pow2(e1 as nat) as int);
        lemma_mul_strictly_positive(m1 as int, pow2(e1 as nat) as int);
        blen_le(n, 113 + e1 as nat);
    } else {
        let k = (-e1) as nat;
        p5_size(k);
        p10_pos(k);
        pow2_add(113, 3 * k);
        let (a, b, c, d) = (m1 as int, pow2(113) as int, five(k) as int, pow2(3 * k) as int);
        assert(a * c < b * d) by (nonlinear_arith) requires 0 < a < b, 0 < c <= d;
        lemma_mul_strictly_positive(a, c);
        blen_le(n, 113 + 3 * k);
    }
}
