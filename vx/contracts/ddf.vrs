@module ddf dd ddx cvt conv nanm nxt rint bits sem
@raw
// ---- pairs of doubles and the 106-bit format --------------------------------------------------------

pub type FB = FmtFallbackS;
pub type FE = FmtFallbackExtendedS;
pub open spec fn ff() -> Fm { fm::<FB>() }
pub open spec fn fe() -> Fm { fm::<FE>() }
/// a finite number of the 106-bit format in units of the least subnormal (which is that of doubles)
pub open spec fn fv(d: Dat) -> int { sg(d.sign, mag(ff(), d)) }
pub spec const NE: Round = Round::NearestTiesToEven;
/// the 106-bit rounding of an integer
pub open spec fn fint_of(x: int, rm: Round) -> Dat { rnd(ff(), x < 0, iabs(x), 1, -1074, rm).v }

pub proof fn ffacts()
    ensures wfs::<FB>(), wfs::<FE>(), wff(ff()), wff(fe()), ff().p == 106, ff().lo == -969, ff().hi == 1023, !ff().no_inf, fe().p == 106, fe().lo == -1022, fe().hi == 1023, !fe().no_inf,
        ff().qn < pow2(106), fe().qn < pow2(106), pow2(106) == P53 * P53, qmin(ff()) == -1074, qmin(fe()) == -1127,
        FB::QNAN_SIGNIFICAND == FE::QNAN_SIGNIFICAND, FB::NAN_PAYLOAD_MASK == FE::NAN_PAYLOAD_MASK, FB::NAN_SIGNIFICAND_BASE == 0, FE::NAN_SIGNIFICAND_BASE == 0,
        FB::NAN_PAYLOAD_MASK != 0, FB::QNAN_SIGNIFICAND != X87DoubleExtendedS::QNAN_SIGNIFICAND, SD::QNAN_SIGNIFICAND != X87DoubleExtendedS::QNAN_SIGNIFICAND, SD::NAN_PAYLOAD_MASK != 0,
        SD::NAN_SIGNIFICAND_BASE == 0, pow2(1) == 2, pow2(0) == 1
{
    facts();
    wfs_FallbackS(); wfs_FallbackExtendedS();
    consts_DoubleS();
    consts_FallbackS(); consts_FallbackExtendedS();
    wfs_basic::<FB>(); wfs_basic::<FE>();
    reveal(wfs);
    pow2_add(53, 53);
    assert(X87DoubleExtendedS::QNAN_SIGNIFICAND == 3u128 << 62);
    assert(3u128 << 62 == 0xC000_0000_0000_0000u128) by (bit_vector);
}

pub proof fn quieted(q: u128, x: u128)
    ensures ((0u128 | q) | x) & q == q
{ assert(((0u128 | q) | x) & q == q) by (bit_vector); }

/// the unit a rounding is written in does not matter
pub proof fn int_f(f: Fm, x: int, y: int, g: nat, base: int, rm: Round)
    requires y != 0, x == y * pow2(g)
    ensures rnd(f, y < 0, iabs(y), 1, base + g, rm) == rnd(f, x < 0, iabs(x), 1, base, rm), x != 0
{
    let w = pow2(g) as int;
    lemma_pow2_pos(g);
    p128();
    assert((x < 0) == (y < 0) && iabs(x) == iabs(y) * pow2(g) && x != 0) by {
        if y < 0 {
            assert(y * w < 0 && -(y * w) == (-y) * w) by (nonlinear_arith) requires y < 0, w > 0;
        } else {
            assert(y * w > 0) by (nonlinear_arith) requires y > 0, w > 0;
        }
    }
    rnd_shift(f, y < 0, iabs(y), 1, base + g, rm, g, 0);
}

/// the largest magnitudes: below 2^2098 units
pub proof fn tops()
    ensures maxmag(ff()) < pow2(2098), maxmag(fd()) < pow2(2098), maxmag(fe()) == maxmag(ff()) * pow2(53), maxmag(fe()) < pow2(2151)
{
    facts(); ffacts();
    pow2_add(106, 1992);
    pow2_add(53, 2045);
    pow2_add(1992, 53);
    pow2_add(2098, 53);
    let (a, b, c, d) = (largest_d(ff(), false).m as int, largest_d(fd(), false).m as int, pow2(1992) as int, pow2(2045) as int);
    lemma_pow2_pos(1992); lemma_pow2_pos(2045); lemma_pow2_pos(53);
    assert(a * c < pow2(106) * c) by (nonlinear_arith) requires a < pow2(106), c > 0;
    assert(b * d < pow2(53) * d) by (nonlinear_arith) requires b < pow2(53), d > 0;
    lemma_mul_is_associative(a, c, pow2(53) as int);
    let (x, y, z) = (a * c, pow2(2098) as int, pow2(53) as int);
    assert(x * z < y * z) by (nonlinear_arith) requires x < y, z > 0;
}

/// a finite number in a format as an integer of its least unit: rounding it anywhere
pub proof fn dat_mag(f: Fm, g: Fm, d: Dat, rm: Round)
    requires wff(f), wfd(f, d), d.cat == Category::Normal
    ensures rnd(g, d.sign, d.m, 1, d.exp - (f.p - 1), rm) == rnd(g, d.sign, mag(f, d), 1, qmin(f), rm), mag(f, d) > 0
{
    let e = (d.exp - f.lo) as nat;
    let y = sg(d.sign, d.m);
    let (m, w) = (d.m as int, pow2(e) as int);
    lemma_pow2_pos(e);
    assert(-(m * w) == (-m) * w) by (nonlinear_arith);
    assert(m * w > 0) by (nonlinear_arith) requires m > 0, w > 0;
    int_f(g, sg(d.sign, mag(f, d)), y, e, qmin(f), rm);
}

/// an exact conversion to a format with more precision and range
pub proof fn cvt_up<S: Semantics, T: Semantics>(d: Dat)
    requires wfs::<S>(), wfs::<T>(), wfd(fm::<S>(), d), d.cat == Category::Normal, fm::<S>().p <= fm::<T>().p, qmin(fm::<S>()) >= qmin(fm::<T>()),
        mag(fm::<S>(), d) * pow2((qmin(fm::<S>()) - qmin(fm::<T>())) as nat) <= maxmag(fm::<T>())
    ensures ({
        let x = cvt_spec::<S, T>(d, NE);
        let r = x.o.v;
        &&& x.o.st == Status::OK && !x.loses && r.cat == Category::Normal && r.sign == d.sign && wfd(fm::<T>(), r)
        &&& mag(fm::<T>(), r) == mag(fm::<S>(), d) * pow2((qmin(fm::<S>()) - qmin(fm::<T>())) as nat)
    })
{
    wfs_basic::<S>(); wfs_basic::<T>();
    let (f, g) = (fm::<S>(), fm::<T>());
    pow2_le(f.p, g.p);
    let a = (d.exp - f.lo) as nat;
    let b = (qmin(f) - qmin(g)) as nat;
    pow2_add(a, b);
    lemma_mul_is_associative(d.m as int, pow2(a) as int, pow2(b) as int);
    rnd_exact(g, d.sign, d.m, d.exp - (f.p - 1), NE);
}

/// a double in the 106-bit formats
pub proof fn cvt_wide(d: Dat)
    requires wfd(fd(), d), d.cat == Category::Normal
    ensures ({
        let x = cvt_spec::<SD, FB>(d, NE);
        let y = cvt_spec::<SD, FE>(d, NE);
        &&& x.o.st == Status::OK && !x.loses && x.o.v.cat == Category::Normal && x.o.v.sign == d.sign && wfd(ff(), x.o.v) && mag(ff(), x.o.v) == mag(fd(), d)
        &&& y.o.st == Status::OK && !y.loses && y.o.v.cat == Category::Normal && y.o.v.sign == d.sign && wfd(fe(), y.o.v) && mag(fe(), y.o.v) == mag(fd(), d) * pow2(53)
    })
{
    facts(); ffacts();
    mag_max(fd(), d);
    tops();
    pow2_half(106); pow2_half(53);
    // the largest double is below the largest of the wide formats
    pow2_add(53, 1992);
    let (a, b, c) = (largest_d(ff(), false).m as int, largest_d(fd(), false).m as int, pow2(1992) as int);
    lemma_pow2_pos(1992);
    let k = pow2(53) as int;
    assert(b * (k * c) == (b * k) * c) by (nonlinear_arith);
    assert(b * k <= a) by (nonlinear_arith) requires b == k - 1, a == k * k - 1, k >= 1;
    assert((b * k) * c <= a * c) by (nonlinear_arith) requires b * k <= a, c > 0;
    assert(mag(fd(), d) * 1 == mag(fd(), d));
    let (x, y) = (mag(fd(), d) as int, maxmag(ff()) as int);
    assert(x * k <= y * k) by (nonlinear_arith) requires x <= y, k > 0;
    cvt_up::<SD, FB>(d);
    cvt_up::<SD, FE>(d);
}

/// conversions of NaNs answer with quiet ones
pub proof fn cvt_nan<S: Semantics, T: Semantics>(d: Dat)
    requires d.cat == Category::NaN, T::NAN_SIGNIFICAND_BASE == 0
    ensures ({
        let x = cvt_spec::<S, T>(d, NE);
        &&& x.o.v.cat == Category::NaN && x.o.v.sign == d.sign && !snan::<T>(x.o.v)
        &&& x.o.st == if snan::<S>(d) { Status::INVALID_OP } else { Status::OK }
    })
{
    let x = nan_one::<S>(d);
    let m = nan_shift(x.v.m, fm::<S>().p, fm::<T>().p, S::NAN_PAYLOAD_MASK != 0);
    quieted(T::QNAN_SIGNIFICAND, m as u128 & T::NAN_PAYLOAD_MASK);
}

pub proof fn subs()
    ensures Status::OK.bits & !Status::INVALID_OP.bits == Status::OK.bits, Status::INVALID_OP.bits & !Status::INVALID_OP.bits == Status::OK.bits,
        ({
            let o = Status::INEXACT.bits | Status::OVERFLOW.bits;
            Status::OK.bits & !o == Status::OK.bits && Status::INEXACT.bits & !o == Status::OK.bits && st_ovf().bits & !o == Status::OK.bits
        })
{
    assert(0u8 & !1u8 == 0 && 1u8 & !1u8 == 0 && 0u8 & !(0x10u8 | 4) == 0 && 0x10u8 & !(0x10u8 | 4) == 0 && (4u8 | 0x10) & !(0x10u8 | 4) == 0) by (bit_vector);
}

/// the first two conversions of DoubleFloat::from, and the difference that remains
pub proof fn split(x: Dat)
    requires wfd(ff(), x), x.cat == Category::Normal
    ensures ({
        let e = cvt_spec::<FB, FE>(x, NE);
        let a = cvt_spec::<FE, SD>(e.o.v, NE);
        let u = cvt_spec::<SD, FE>(a.o.v, NE);
        let v = add_spec::<FE>(e.o.v, neg_d(u.o.v), NE);
        let b = cvt_spec::<FE, SD>(v.v, NE);
        &&& e.o.st == Status::OK && !e.loses && e.o.v.cat == Category::Normal
        &&& a.o.v == rint_of(fv(x), NE) && a.o.v.sign == x.sign
        &&& a.loses == (a.o.st != Status::OK)
        &&& a.o.v == inf_d(fd(), x.sign) && a.o.st == st_ovf() && iabs(fv(x)) >= pow2(TOP)
            || a.o.v.cat == Category::Normal && wfd(fd(), a.o.v) && (a.o.st == Status::OK && dv(a.o.v) == fv(x)
                || a.o.st == Status::INEXACT && u.o.st == Status::OK && !u.loses && u.o.v.cat == Category::Normal
                    && v.st == Status::OK && v.v.cat == Category::Normal && b.o.st == Status::OK && !b.loses && b.o.v.cat == Category::Normal && wfd(fd(), b.o.v) && dv(a.o.v) + dv(b.o.v) == fv(x))
    })
{
    facts(); ffacts(); tops(); p128();
    mag_max(ff(), x);
    mag_pos(ff(), x);
    let X = mag(ff(), x);
    let s = x.sign;
    let w = pow2(53);
    let (xi, wi, mi) = (X as int, w as int, maxmag(ff()) as int);
    assert(xi * wi <= mi * wi) by (nonlinear_arith) requires xi <= mi, wi > 0;
    cvt_up::<FB, FE>(x);
    let e = cvt_spec::<FB, FE>(x, NE).o.v;
    dat_mag(fe(), fd(), e, NE);
    let sx = sg(s, X);
    assert(-(xi * wi) == (-xi) * wi) by (nonlinear_arith);
    int_f(fd(), sg(s, X * w), sx, 53, -1127, NE);
    let a = cvt_spec::<FE, SD>(e, NE);
    assert(a.o == rnd(fd(), s, X, 1, -1074, NE));
    rnd_any(s, X, NE);
    st_facts();
    if a.o.st == Status::INEXACT && a.o.v.cat == Category::Normal {
        let A = mag(fd(), a.o.v);
        let Z = sx - sg(s, A);
        cvt_wide(a.o.v);
        let u = cvt_spec::<SD, FE>(a.o.v, NE).o.v;
        let nu = neg_d(u);
        // the difference, in units of the wide format
        sum_base(e.sign, e.m, e.exp - 105, nu.sign, nu.m, nu.exp - 105, -1127);
        let k = imin(e.exp, nu.exp);
        let y = sum_of(e, nu);
        let t = sg(e.sign, mag(fe(), e)) + sg(nu.sign, mag(fe(), nu));
        let ai = A as int;
        assert((xi - ai) * wi == xi * wi - ai * wi && (ai - xi) * wi == ai * wi - xi * wi) by (nonlinear_arith);
        assert(t == Z * w);
        assert(Z != 0);
        assert(t != 0) by (nonlinear_arith) requires t == Z * wi, Z != 0, wi > 0;
        assert(y == sum2(e.sign, e.m, e.exp - 105, nu.sign, nu.m, nu.exp - 105));
        int_f(fe(), t, y, (k - 105 + 1127) as nat, -1127, NE);
        int_f(fe(), t, Z, 53, -1127, NE);
        let v = add_spec::<FE>(e, nu, NE);
        assert(v == rnd(fe(), Z < 0, iabs(Z), 1, -1074, NE));
        // it has at most 53 bits
        let j0 = (x.exp - ff().lo) as nat;
        lemma_pow2_pos(j0);
        let (m, p) = (x.m as int, pow2(j0) as int);
        assert(m * p < (P53 * P53) * p) by (nonlinear_arith) requires m < P53 * P53, p > 0;
        assert(is_at(X as int, m, j0));
        err106(X as int, j0, A as int);
        err_small(X as int, A as int);
        let D = X - A;
        if D < 0 { rep_neg(D); }
        let n = iabs(Z);
        assert(n == ab(D));
        assert(rep(n as int));
        let j = rep_exp(n as int);
        let c = choose|c: int| is_at(n as int, c, j);
        let q = pow2(j) as int;
        lemma_pow2_pos(j);
        assert(0 < c < P53) by (nonlinear_arith) requires n == c * q, n > 0, n < P53 * q, q > 0;
        pow2_add(j, 53);
        lemma_mul_is_associative(c, q, wi);
        let ni = n as int;
        assert(ni * wi <= mi * wi) by (nonlinear_arith) requires ni <= mi, wi > 0;
        pow2_half(106);
        let zs = sg(Z < 0, c as nat);
        assert(-(c * q) == (-c) * q) by (nonlinear_arith);
        int_f(fe(), Z, zs, j, -1074, NE);
        rnd_exact(fe(), Z < 0, c as nat, j - 1074, NE);
        assert(mag(fe(), v.v) == n * w);
        // so the last conversion is exact
        dat_mag(fe(), fd(), v.v, NE);
        assert(-(ni * wi) == (-ni) * wi) by (nonlinear_arith);
        int_f(fd(), sg(v.v.sign, n * w), sg(v.v.sign, n), 53, -1127, NE);
        pow2_half(2098);
        rnd_any(v.v.sign, n, NE);
        let b = cvt_spec::<FE, SD>(v.v, NE);
        rn_exact(ni, mag(fd(), b.o.v) as int);
    }
}

pub proof fn cvt_nan_same(d: Dat)
    requires d.cat == Category::NaN, !snan::<FB>(d)
    ensures !cvt_spec::<FB, FE>(d, NE).loses
{
    ffacts();
    let q = FB::QNAN_SIGNIFICAND;
}
/// rounding never gives a NaN
pub proof fn rnd_num(f: Fm, s: bool, num: nat, den: nat, e: int, rm: Round)
    requires !f.no_inf
    ensures rnd(f, s, num, den, e, rm).v.cat != Category::NaN
{ reveal(rnd); reveal(finish); }

/// the sum in the 106-bit format
pub proof fn fadd(a: Dat, b: Dat, rm: Round)
    requires wfd(ff(), a), wfd(ff(), b), a.cat == Category::Normal, b.cat == Category::Normal
    ensures ({
        let x = fv(a) + fv(b);
        add_spec::<FB>(a, b, rm).v == if x == 0 { zero_d(ff(), rm == Round::TowardNegative) } else { fint_of(x, rm) }
    })
{
    facts(); ffacts();
    sum_units(a.sign, a.m, a.exp - 105, b.sign, b.m, b.exp - 105);
    let y = sum_of(a, b);
    let x = fv(a) + fv(b);
    assert(y == sum2(a.sign, a.m, a.exp - 105, b.sign, b.m, b.exp - 105));
    let k = imin(a.exp, b.exp);
    let g = (k - 105 + 1074) as nat;
    assert(x == y * pow2(g));
    if x != 0 {
        int_f(ff(), x, y, g, -1074, rm);
        assert(-1074 + g == k - 105);
        assert(add_spec::<FB>(a, b, rm) == rnd(ff(), y < 0, iabs(y), 1, k - 105, rm));
        assert(add_spec::<FB>(a, b, rm).v == fint_of(x, rm));
    } else {
        assert(y == 0);
        assert(add_spec::<FB>(a, b, rm).v == zero_d(ff(), rm == Round::TowardNegative));
    }
}

/// the number of the 106-bit format that a pair is computed with
pub open spec fn fb(x: DD) -> Dat {
    let (h, l) = (hi(x), lo(x));
    let (a, b) = (cvt_spec::<SD, FB>(h, NE).o.v, cvt_spec::<SD, FB>(l, NE).o.v);
    if h.cat != Category::Normal { a }
    else if !finite(l) { b }
    else if l.cat == Category::Zero { a }
    else if ddv(x) == 0 { zero_d(ff(), false) }
    else { fint_of(ddv(x), NE) }
}
/// y is the pair of a number of the 106-bit format: its rounding to a double and the rest
pub open spec fn of_fb(x: Dat, y: DD) -> bool {
    let (h, l) = (hi(y), lo(y));
    &&& wf2(y) && h.sign == x.sign
    &&& match x.cat {
        Category::Normal => h == rint_of(fv(x), NE) && if h.cat == Category::Normal { finite(l) && ddv(y) == fv(x) } else { h.cat == Category::Infinity && iabs(fv(x)) >= pow2(TOP) && l == zero_d(fd(), false) },
        c => h.cat == c && !snan::<SD>(h) && l == zero_d(fd(), false),
    }
}
@fn DoubleFloat::from rlimit(80)
    requires wf(x), !snan::<FB>(dat(x))
    ensures of_fb(dat(x), r)
@hint top
    hide(add_spec); hide(rint_of); hide(mag);
@hint start
    proof {
        facts(); ffacts(); subs(); dv_zero();
        let d = dat(x);
        if d.cat == Category::Normal { split(d); } else if d.cat == Category::NaN { cvt_nan::<FB, FE>(d); cvt_nan::<FE, SD>(cvt_spec::<FB, FE>(d, NE).o.v); cvt_nan_same(d); }
    }
@hint end
    proof {
        let d = dat(x);
        assert(d.cat == Category::Normal ==> of_fb(d, DoubleFloat(a, b)));
        assert(d.cat == Category::NaN ==> of_fb(d, DoubleFloat(a, b)));
        assert(d.cat == Category::Infinity ==> of_fb(d, DoubleFloat(a, b)));
        assert(d.cat == Category::Zero ==> of_fb(d, DoubleFloat(a, b)));
    }
@fn Fallback::from rlimit(80)
    requires wf2(vx_p)
    ensures wf(r), !snan::<FB>(dat(r)), dat(r) == fb(vx_p)
@hint top
    hide(rint_of);
@hint start
    proof {
        facts(); ffacts(); subs();
        let (h, l) = (hi(vx_p), lo(vx_p));
        if h.cat == Category::Normal { cvt_wide(h); } else if h.cat == Category::NaN { cvt_nan::<SD, FB>(h); }
        if l.cat == Category::Normal { cvt_wide(l); } else if l.cat == Category::NaN { cvt_nan::<SD, FB>(l); }
        if h.cat == Category::Normal && l.cat == Category::Normal { fadd(cvt_spec::<SD, FB>(h, NE).o.v, cvt_spec::<SD, FB>(l, NE).o.v, NE); }
        rnd_num(ff(), ddv(vx_p) < 0, iabs(ddv(vx_p)), 1, -1074, NE);
    }
