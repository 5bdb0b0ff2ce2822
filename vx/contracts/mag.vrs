@module mag sig rnd flt
@raw
// ---- magnitudes: every finite number is a whole multiple of the least subnormal ---------------------

/// |d| in units of 2^qmin
pub open spec fn mag(f: Fm, d: Dat) -> nat { if d.cat == Category::Normal { d.m * pow2((d.exp - f.lo) as nat) } else { 0 } }

/// canonical, but the exponent may be one more than the format allows (ieee_rem compares such values)
pub open spec fn wfc(f: Fm, d: Dat) -> bool {
    d.cat == Category::Normal ==> f.lo <= d.exp <= f.hi + 1 && 0 < d.m && d.m < pow2(f.p) && (d.m >= pow2((f.p - 1) as nat) || d.exp == f.lo)
}

/// the greatest finite magnitude
pub open spec fn maxmag(f: Fm) -> nat { mag(f, largest_d(f, false)) }

pub proof fn mag_lt(f: Fm, a: Dat, b: Dat)
    requires wff(f), wfc(f, a), wfc(f, b), a.cat == Category::Normal, b.cat == Category::Normal
    ensures a.exp < b.exp ==> mag(f, a) < mag(f, b),
        a.exp == b.exp ==> (mag(f, a) < mag(f, b)) == (a.m < b.m) && (mag(f, a) == mag(f, b)) == (a.m == b.m),
        mag(f, a) > 0
{
    let ka = (a.exp - f.lo) as nat;
    lemma_pow2_pos(ka);
    let (x, y, t) = (a.m as int, b.m as int, pow2(ka) as int);
    assert(x * t > 0) by (nonlinear_arith) requires x > 0, t > 0;
    if a.exp < b.exp {
        let kb = (b.exp - f.lo) as nat;
        pow2_half(f.p);
        pow2_le(ka + 1, kb);
        pow2_half(ka + 1);
        let (h, w) = (pow2((f.p - 1) as nat) as int, pow2(kb) as int);
        assert(x * t < y * w) by (nonlinear_arith) requires 0 < x < 2 * h, y >= h, w >= 2 * t, t > 0, h > 0;
    }
    if a.exp == b.exp {
        assert(x < y ==> x * t < y * t) by (nonlinear_arith) requires t > 0;
        assert(x > y ==> x * t > y * t) by (nonlinear_arith) requires t > 0;
    }
}

/// a magnitude determines the canonical number
pub proof fn mag_inj(f: Fm, a: Dat, b: Dat)
    requires wff(f), wfd(f, a), wfd(f, b), a.cat == Category::Normal || a.cat == Category::Zero, b.cat == Category::Normal || b.cat == Category::Zero,
        mag(f, a) == mag(f, b), a.sign == b.sign
    ensures a == b
{
    if a.cat == Category::Normal { mag_pos(f, a); }
    if b.cat == Category::Normal { mag_pos(f, b); }
    if a.cat == Category::Normal && b.cat == Category::Normal {
        mag_lt(f, a, b);
        mag_lt(f, b, a);
    }
}

pub proof fn mag_pos(f: Fm, a: Dat)
    requires wff(f), wfc(f, a), a.cat == Category::Normal
    ensures mag(f, a) > 0
{
    mag_lt(f, a, a);
}

pub proof fn mag_max(f: Fm, a: Dat)
    requires wff(f), wfd(f, a), a.cat == Category::Normal
    ensures mag(f, a) <= maxmag(f), wfd(f, largest_d(f, false))
{
    p128();
    pow2_half(f.p);
    pow2_half((f.p - 1) as nat);
    lemma_pow2_pos((f.p - 2) as nat);
    mag_lt(f, a, largest_d(f, false));
    mag_lt(f, largest_d(f, false), a);
}

/// bits in a magnitude
pub proof fn mag_blen(f: Fm, a: Dat)
    requires wff(f), a.cat == Category::Normal, a.m > 0, a.exp >= f.lo
    ensures blen(mag(f, a)) == blen(a.m) + (a.exp - f.lo)
{
    blen_mul_pow(a.m, (a.exp - f.lo) as nat);
}

/// numbers of at most p significant bits within the range are not changed by rounding
pub proof fn rnd_exact(f: Fm, s: bool, n: nat, e: int, rm: Round)
    requires wff(f), 0 < n < pow2(f.p), e >= qmin(f), n * pow2((e - qmin(f)) as nat) <= maxmag(f), f.qn < pow2(f.p)
    ensures ({
        let r = rnd(f, s, n, 1, e, rm);
        &&& r.st == Status::OK && r.v.cat == Category::Normal && r.v.sign == s && wfd(f, r.v)
        &&& mag(f, r.v) == n * pow2((e - qmin(f)) as nat)
    })
{
    p128();
    let g = (e - qmin(f)) as nat;
    assert(n / 1 == n && n % 1 == 0);
    norm_cut(f, s, n, 1, e, rm);
    norm_steps(f, s, n, e, Loss::ExactlyZero, rm);
    blen_le(n, f.p);
    blen0();
    blen_bounds(n);
    let u = unit(f, blen(n) - 1 + e);
    assert(u <= e);
    if u < e { nz_lt(n, e, u, Loss::ExactlyZero); } else { nz_eq(n, e, Loss::ExactlyZero); }
    nz_size(f, n, e);
    let q = nz_q(n, e, u);
    let k = (e - u) as nat;
    let j = (u - qmin(f)) as nat;
    pow2_add(k, j);
    lemma_mul_is_associative(n as int, pow2(k) as int, pow2(j) as int);
    assert(n * 1 == n);
    assert(q == n * pow2(k));
    assert(q * pow2(j) == n * pow2(g));
    // within the range
    pow2_half(f.p);
    pow2_half((f.p - 1) as nat);
    lemma_pow2_pos((f.p - 2) as nat);
    let x = u + f.p - 1;
    lemma_pow2_pos(k);
    lemma_mul_strictly_positive(n as int, pow2(k) as int);
    let big = largest_d(f, s);
    let h = (f.hi - f.lo) as nat;
    lemma_pow2_pos(j);
    let (qi, t, w, m) = (q as int, pow2(j) as int, pow2(h) as int, big.m as int);
    lemma_pow2_pos(h);
    if x > f.hi {
        pow2_le(h + 1, j);
        pow2_half(h + 1);
        let z = pow2((f.p - 1) as nat) as int;
        assert(q >= z);
        assert(qi * t > m * w) by (nonlinear_arith) requires qi >= z, t >= 2 * w, m < 2 * z, w > 0, z > 0;
        assert(false);
    }
    if x == f.hi && q > big.m {
        assert(qi * t > m * w) by (nonlinear_arith) requires qi > m, t == w, w > 0;
        assert(false);
    }
    finish_cases(f, s, q, u, Loss::ExactlyZero, rm);
}

/// the same, for a magnitude given as a number of the format's digits
pub proof fn rnd_same(f: Fm, d: Dat, rm: Round)
    requires wff(f), wfd(f, d), d.cat == Category::Normal, f.qn < pow2(f.p)
    ensures rnd(f, d.sign, d.m, 1, d.exp - (f.p - 1), rm) == (Out { st: Status::OK, v: d })
{
    mag_max(f, d);
    rnd_exact(f, d.sign, d.m, d.exp - (f.p - 1), rm);
    mag_inj(f, d, rnd(f, d.sign, d.m, 1, d.exp - (f.p - 1), rm).v);
}
