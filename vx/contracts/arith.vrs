@module arith sig rnd flt nrm
@raw
/// a signalling NaN: not all of the quiet bits are set
pub open spec fn snan<S: Semantics>(d: Dat) -> bool {
    d.cat == Category::NaN && (d.m as u128) & S::QNAN_SIGNIFICAND != S::QNAN_SIGNIFICAND
}

/// the same NaN with its quiet bit set
pub open spec fn quiet<S: Semantics>(d: Dat) -> Dat {
    Dat { cat: d.cat, sign: d.sign, m: ((d.m as u128) | (S::QNAN_SIGNIFICAND & S::NAN_PAYLOAD_MASK)) as nat, exp: d.exp }
}

pub open spec fn nan_one<S: Semantics>(d: Dat) -> Out {
    if snan::<S>(d) { Out { st: Status::INVALID_OP, v: quiet::<S>(d) } } else { Out { st: Status::OK, v: d } }
}

/// an operation on two operands, at least one of which is a NaN
pub open spec fn nan_two<S: Semantics>(a: Dat, b: Dat) -> Out {
    let r = nan_one::<S>(if a.cat == Category::NaN { a } else { b });
    Out { st: if snan::<S>(a) || snan::<S>(b) { Status::INVALID_OP } else { Status::OK }, v: r.v }
}

pub proof fn nan_facts<S: Semantics>(d: Dat)
    requires wfs::<S>(), d.cat == Category::NaN, wfd(fm::<S>(), d)
    ensures wfd(fm::<S>(), quiet::<S>(d)),
        snan::<S>(d) ==> S::NONFINITE_BEHAVIOR == NonfiniteBehavior::IEEE754,
        S::QNAN_SIGNIFICAND == X87DoubleExtendedS::QNAN_SIGNIFICAND || S::QNAN_SIGNIFICAND & S::NAN_PAYLOAD_MASK == S::QNAN_SIGNIFICAND,
{
    wfs_basic::<S>();
    reveal(wfs);
    let p = fm::<S>().p;
    p128();
    let (q, w) = (S::QNAN_SIGNIFICAND, S::NAN_PAYLOAD_MASK);
    and_le(q, w);
    or_lt(d.m as u128, q & w, p);
    let x = d.m as u128;
    assert(x & 0u128 == 0) by (bit_vector);
    if S::NONFINITE_BEHAVIOR == NonfiniteBehavior::IEEE754 {
        if q as nat == pow2((p - 2) as nat) {
            let k = (p - 2) as u128;
            one_shl(k);
            one_shl((k + 1) as u128);
            let t = (k + 1) as u128;
            assert(k < 120 && t == add(k, 1) ==> (1u128 << k) & sub(1u128 << t, 1) == 1u128 << k) by (bit_vector);
        } else {
            one_shl(62);
            assert(3u128 << 62 == 0xC000_0000_0000_0000u128 && 1u128 << 62 == 0x4000_0000_0000_0000u128) by (bit_vector);
            assert(X87DoubleExtendedS::QNAN_SIGNIFICAND == 3u128 << 62);
        }
    } else {
        assert(0u128 & w == 0) by (bit_vector);
    }
}

pub open spec fn mul_spec<S: Semantics>(a: Dat, b: Dat, rm: Round) -> Out {
    let f = fm::<S>();
    let s = a.sign != b.sign;
    match (a.cat, b.cat) {
        (Category::NaN, _) | (_, Category::NaN) => nan_two::<S>(a, b),
        (Category::Zero, Category::Infinity) | (Category::Infinity, Category::Zero) => Out { st: Status::INVALID_OP, v: nan_d(f, false) },
        (Category::Infinity, _) | (_, Category::Infinity) => Out { st: Status::OK, v: inf_d(f, s) },
        (Category::Zero, _) | (_, Category::Zero) => Out { st: Status::OK, v: zero_d(f, s) },
        (Category::Normal, Category::Normal) => rnd(f, s, a.m * b.m, 1, a.exp + b.exp - 2 * (f.p - 1), rm),
    }
}

pub open spec fn div_spec<S: Semantics>(a: Dat, b: Dat, rm: Round) -> Out {
    let f = fm::<S>();
    let s = a.sign != b.sign;
    match (a.cat, b.cat) {
        (Category::NaN, _) | (_, Category::NaN) => nan_two::<S>(a, b),
        (Category::Infinity, Category::Infinity) | (Category::Zero, Category::Zero) => Out { st: Status::INVALID_OP, v: nan_d(f, false) },
        (Category::Infinity, _) => Out { st: Status::OK, v: inf_d(f, s) },
        (_, Category::Infinity) => Out { st: Status::OK, v: zero_d(f, s) },
        (Category::Zero, _) => Out { st: Status::OK, v: zero_d(f, s) },
        (_, Category::Zero) => Out { st: Status::DIV_BY_ZERO, v: inf_d(f, s) },
        (Category::Normal, Category::Normal) => rnd(f, s, a.m, b.m, a.exp - b.exp, rm),
    }
}

pub open spec fn sgn(s: bool, x: nat) -> int { if s { -(x as int) } else { x as int } }
pub open spec fn iabs(x: int) -> nat { if x < 0 { (-x) as nat } else { x as nat } }

/// the exact sum of two finite non-zero numbers, in units of 2^(min exponent - (p - 1))
pub open spec fn sum_of(a: Dat, b: Dat) -> int {
    let k = imin(a.exp, b.exp);
    sgn(a.sign, a.m * pow2((a.exp - k) as nat)) + sgn(b.sign, b.m * pow2((b.exp - k) as nat))
}

pub open spec fn add_spec<S: Semantics>(a: Dat, b: Dat, rm: Round) -> Out {
    let f = fm::<S>();
    match (a.cat, b.cat) {
        (Category::NaN, _) | (_, Category::NaN) => nan_two::<S>(a, b),
        (Category::Infinity, Category::Infinity) =>
            if a.sign != b.sign { Out { st: Status::INVALID_OP, v: nan_d(f, false) } } else { Out { st: Status::OK, v: a } },
        (Category::Infinity, _) => Out { st: Status::OK, v: a },
        (_, Category::Infinity) => Out { st: Status::OK, v: b },
        (Category::Zero, Category::Zero) => Out { st: Status::OK, v: zero_d(f, if a.sign == b.sign { a.sign } else { rm == Round::TowardNegative }) },
        (Category::Normal, Category::Zero) => Out { st: Status::OK, v: a },
        (Category::Zero, Category::Normal) => Out { st: Status::OK, v: b },
        (Category::Normal, Category::Normal) => {
            let s = sum_of(a, b);
            if s == 0 { Out { st: Status::OK, v: zero_d(f, rm == Round::TowardNegative) } }
            else { rnd(f, s < 0, iabs(s), 1, imin(a.exp, b.exp) - (f.p - 1), rm) }
        }
    }
}

/// rounding with something lost is always inexact
pub proof fn norm_inexact(f: Fm, sign: bool, m: nat, e: int, l: Loss, rm: Round)
    requires l != Loss::ExactlyZero, m > 0 ==> unit(f, blen(m) - 1 + e) >= e
    ensures st_or(norm(f, sign, m, e, l, rm).st, Status::INEXACT) == norm(f, sign, m, e, l, rm).st
{
    reveal(norm);
    reveal(finish);
    st_facts();
}

/// a number that is a multiple of the least unit does not round to zero
pub proof fn norm_nonzero(f: Fm, sign: bool, m: nat, e: int, l: Loss, rm: Round)
    requires wff(f), m > 0, e >= qmin(f)
    ensures norm(f, sign, m, e, l, rm).v.cat != Category::Zero, norm(f, sign, m, e, l, rm).v.cat != Category::NaN ==> norm(f, sign, m, e, l, rm).v.sign == sign
{
    reveal(norm);
    reveal(finish);
    nz_size(f, m, e);
    p128();
    lemma_pow2_pos((f.p - 1) as nat);
    blen_bounds(m);
    let u = unit(f, blen(m) - 1 + e);
    if u < e {
        lemma_pow2_pos((e - u) as nat);
        lemma_mul_strictly_positive(m as int, pow2((e - u) as nat) as int);
    }
}
pub proof fn mul_cut<S: Semantics>(a: Dat, b: Dat, rm: Round)
    requires wfs::<S>(), wfd(fm::<S>(), a), wfd(fm::<S>(), b), a.cat == Category::Normal, b.cat == Category::Normal
    ensures ({
        let f = fm::<S>();
        let m = a.m * b.m;
        let s = if blen(m) <= f.p { 0nat } else { (blen(m) - f.p) as nat };
        let e = a.exp + b.exp - 2 * (f.p - 1);
        let l = loss_of(m % pow2(s), pow2(s));
        &&& norm(f, a.sign != b.sign, m / pow2(s), e + s, l, rm) == rnd(f, a.sign != b.sign, m, 1, e, rm)
        &&& m / pow2(s) < pow2(128) && m / pow2(s) > 0
        &&& s <= f.p
        &&& (l != Loss::ExactlyZero ==> blen(m / pow2(s)) == f.p)
        &&& (l != Loss::ExactlyZero ==> unit(f, blen(m / pow2(s)) - 1 + e + s) >= e + s)
    })
{
    wfs_basic::<S>();
    let f = fm::<S>();
    let m = a.m * b.m;
    lemma_mul_strictly_positive(a.m as int, b.m as int);
    let s = if blen(m) <= f.p { 0nat } else { (blen(m) - f.p) as nat };
    let e = a.exp + b.exp - 2 * (f.p - 1);
    p128();
    lemma_pow2_pos(s);
    blen_bounds(m);
    blen_shr(m, s);
    blen_bounds(m / pow2(s));
    pow2_le(blen(m / pow2(s)), f.p);
    assert(m % 1 == 0 && m / 1 == m);
    pow2_add(f.p, f.p);
    let (x, y, w) = (a.m as int, b.m as int, pow2(f.p) as int);
    assert(x * y < w * w) by (nonlinear_arith) requires 0 < x < w, 0 < y < w;
    blen_le(m, f.p + f.p);
    if m < pow2(s) { div_unique(m as int, pow2(s) as int, 0, m as int); assert(0 * pow2(s) == 0); blen0(); }
    norm_cut(f, a.sign != b.sign, m, pow2(s), e + s, rm);
    rnd_shift(f, a.sign != b.sign, m, 1, e, rm, 0, s);
    assert(m * 1 == m && 1 * pow2(s) == pow2(s));
}

pub proof fn div_cut<S: Semantics>(a: Dat, b: Dat, rm: Round, q: nat, l: Loss)
    requires wfs::<S>(), wfd(fm::<S>(), a), wfd(fm::<S>(), b), a.cat == Category::Normal, b.cat == Category::Normal,
        div_res(div_n(a.m, b.m, fm::<S>().p), div_d(b.m, fm::<S>().p), fm::<S>().p, q, l)
    ensures ({
        let f = fm::<S>();
        let e = a.exp - b.exp + div_bd(b.m, f.p) - div_bn(a.m, b.m, f.p) - (f.p - 1);
        &&& norm(f, a.sign != b.sign, q, e, l, rm) == rnd(f, a.sign != b.sign, a.m, b.m, a.exp - b.exp, rm)
        &&& q > 0 && blen(q) >= f.p
        &&& unit(f, blen(q) - 1 + e) >= e
        &&& div_bd(b.m, f.p) <= f.p && div_bn(a.m, b.m, f.p) <= f.p + 1
    })
{
    reveal(div_res);
    wfs_basic::<S>();
    let f = fm::<S>();
    let p = f.p;
    blen_le(a.m, p);
    blen_le(b.m, p);
    div_setup(a.m, b.m, p, 128);
    let (bn, bd) = (div_bn(a.m, b.m, p), div_bd(b.m, p));
    let (n, d) = (div_n(a.m, b.m, p), div_d(b.m, p));
    let t = pow2((p - 1) as nat);
    lemma_pow2_pos((p - 1) as nat);
    let (ni, di, ti) = (n as int, d as int, t as int);
    assert(ni * ti >= ti * di) by (nonlinear_arith) requires ni >= di, ti > 0;
    div_ge(ni * ti, di, ti);
    blen_bounds(q);
    blen_mono(t, q);
    blen_unique(t, p);
    let e = a.exp - b.exp + bd - bn - (p - 1);
    assert(ni * ti >= di) by (nonlinear_arith) requires ni >= di, ti >= 1, di > 0;
    norm_cut(f, a.sign != b.sign, n * t, d, e, rm);
    rnd_shift(f, a.sign != b.sign, a.m, b.m, a.exp - b.exp, rm, bn + (p - 1) as nat, bd);
    pow2_add(bn, (p - 1) as nat);
    lemma_mul_is_associative(a.m as int, pow2(bn) as int, t as int);
}

pub proof fn add_cut_rnd<S: Semantics>(a: Dat, b: Dat, rm: Round, m: nat, e: int, s: bool, l: Loss)
    requires wfs::<S>(), wfd(fm::<S>(), a), wfd(fm::<S>(), b), a.cat == Category::Normal, b.cat == Category::Normal,
        addsub(a.m, a.exp, a.sign, b.m, b.exp, b.sign, m, e, s, l)
    ensures ({
        let f = fm::<S>();
        let e0 = e - (f.p - 1);
        let x = sum_of(a, b);
        &&& imin(a.exp, b.exp) <= e <= imax(a.exp, b.exp)
        &&& (l != Loss::ExactlyZero && m > 0 ==> unit(f, blen(m) - 1 + e0) >= e0)
        &&& (x == 0 ==> m == 0 && l == Loss::ExactlyZero && norm(f, s, m, e0, l, rm) == (Out { st: Status::OK, v: zero_d(f, s) }))
        &&& (x != 0 ==> norm(f, s, m, e0, l, rm) == rnd(f, x < 0, iabs(x), 1, imin(a.exp, b.exp) - (f.p - 1), rm)
                && norm(f, s, m, e0, l, rm).v.cat != Category::Zero)
    })
{
    reveal(addsub);
    wfs_basic::<S>();
    let f = fm::<S>();
    let p = f.p;
    let k = imin(a.exp, b.exp);
    let e0 = e - (p - 1);
    let (aa, bb) = (a.m * pow2((a.exp - k) as nat), b.m * pow2((b.exp - k) as nat));
    lemma_pow2_pos((a.exp - k) as nat);
    lemma_pow2_pos((b.exp - k) as nat);
    lemma_mul_strictly_positive(a.m as int, pow2((a.exp - k) as nat) as int);
    lemma_mul_strictly_positive(b.m as int, pow2((b.exp - k) as nat) as int);
    let n = if a.sign == b.sign { aa + bb } else { absdiff(aa, bb) };
    let t = pow2((e - k) as nat);
    lemma_pow2_pos((e - k) as nat);
    p128();
    let x = sum_of(a, b);
    assert(n == iabs(x));
    div_mod_id(n as int, t as int);
    // something lost: the larger operand is normal
    if l != Loss::ExactlyZero {
        assert(e > k) by { if e == k { assert(n % 1 == 0); } }
        if a.exp > b.exp { blen_mono(pow2((p - 1) as nat), a.m); blen_unique(pow2((p - 1) as nat), p); }
        if b.exp > a.exp { blen_mono(pow2((p - 1) as nat), b.m); blen_unique(pow2((p - 1) as nat), p); }
        assert(blen(m) >= p);
    }
    if x == 0 {
        assert(n == 0);
        assert(0nat / t == 0 && 0nat % t == 0) by { div_unique(0, t as int, 0, 0); assert(0 * t == 0); }
        reveal(norm);
    } else {
        if (n as int) < t as int {
            div_unique(n as int, t as int, 0, n as int);
            blen0();
            assert(false);
        }
        norm_cut(f, s, n, t, e0, rm);
        rnd_shift(f, s, n, 1, k - (p - 1), rm, 0, (e - k) as nat);
        assert(n * 1 == n && 1 * t == t);
        flog_div(n, t);
        norm_nonzero(f, s, m, e0, l, rm);
    }
}
pub open spec fn sum2(sa: bool, ma: nat, ea: int, sb: bool, mb: nat, eb: int) -> int {
    let k = imin(ea, eb);
    sgn(sa, ma * pow2((ea - k) as nat)) + sgn(sb, mb * pow2((eb - k) as nat))
}

pub proof fn sum2_shift(sa: bool, ma: nat, ea: int, s1: nat, sb: bool, mb: nat, eb: int, s2: nat)
    ensures ({
        let g = (imin(ea, eb) - imin(ea - s1, eb - s2)) as nat;
        let x = sum2(sa, ma, ea, sb, mb, eb);
        let y = sum2(sa, ma * pow2(s1), ea - s1, sb, mb * pow2(s2), eb - s2);
        &&& imin(ea, eb) >= imin(ea - s1, eb - s2)
        &&& y == x * pow2(g) && iabs(y) == iabs(x) * pow2(g) && (y < 0) == (x < 0) && (y == 0) == (x == 0)
    })
{
    let k = imin(ea, eb);
    let k2 = imin(ea - s1, eb - s2);
    let g = (k - k2) as nat;
    pow2_add(s1, (ea - s1 - k2) as nat);
    pow2_add(s2, (eb - s2 - k2) as nat);
    pow2_add((ea - k) as nat, g);
    pow2_add((eb - k) as nat, g);
    lemma_pow2_pos(g);
    let (a, b, t) = (ma as int, mb as int, pow2(g) as int);
    let (u, v) = (pow2((ea - k) as nat) as int, pow2((eb - k) as nat) as int);
    lemma_mul_is_associative(a, pow2(s1) as int, pow2((ea - s1 - k2) as nat) as int);
    lemma_mul_is_associative(b, pow2(s2) as int, pow2((eb - s2 - k2) as nat) as int);
    lemma_mul_is_associative(a, u, t);
    lemma_mul_is_associative(b, v, t);
    let (au, bv) = (a * u, b * v);
    assert((au + bv) * t == au * t + bv * t) by (nonlinear_arith);
    assert((au - bv) * t == au * t - bv * t) by (nonlinear_arith);
    assert((bv - au) * t == bv * t - au * t) by (nonlinear_arith);
    assert((-au - bv) * t == -(au * t) - bv * t) by (nonlinear_arith);
    let x = sum2(sa, ma, ea, sb, mb, eb);
    assert(x > 0 ==> x * t > 0) by (nonlinear_arith) requires t > 0;
    assert(x < 0 ==> x * t < 0) by (nonlinear_arith) requires t > 0;
    assert(x == 0 ==> x * t == 0) by (nonlinear_arith);
    assert((-x) * t == -(x * t)) by (nonlinear_arith);
}

pub proof fn sum2_off(sa: bool, ma: nat, ea: int, sb: bool, mb: nat, eb: int, c: int)
    ensures sum2(sa, ma, ea + c, sb, mb, eb + c) == sum2(sa, ma, ea, sb, mb, eb)
{
}

/// the significand after a product has been cut to p bits
pub open spec fn cut_bits(m: nat, p: nat) -> nat { if blen(m) > p { (blen(m) - p) as nat } else { 0 } }
pub open spec fn cut_loss(m: nat, bits: nat, l: Loss) -> Loss { if bits > 0 { loss_comb(loss_of(m % pow2(bits), pow2(bits)), l) } else { l } }

pub proof fn wide_cut(f: Fm, ma: nat, ea: int, sa: bool, mb: nat, eb: int, sb: bool, m: nat, e: int, s: bool, l: Loss, off: int, rm: Round)
    requires wff(f), blen(ma) > f.p, blen(mb) > f.p, addsub(ma, ea, sa, mb, eb, sb, m, e, s, l)
    ensures ({
        let x = sum2(sa, ma, ea, sb, mb, eb);
        let bits = cut_bits(m, f.p);
        let m2 = m / pow2(bits);
        let l2 = cut_loss(m, bits, l);
        let e2 = e + bits - off;
        &&& imin(ea, eb) <= e <= imax(ea, eb)
        &&& (x == 0 ==> m == 0 && l == Loss::ExactlyZero && s == sa && sa != sb)
        &&& (x != 0 ==> m2 > 0 && norm(f, s, m2, e2, l2, rm) == rnd(f, x < 0, iabs(x), 1, imin(ea, eb) - off, rm))
        &&& m2 < pow2(f.p)
        &&& blen(m) <= imax(blen(ma) as int, blen(mb) as int) + 1
        &&& (l2 != Loss::ExactlyZero ==> blen(m2) == f.p && unit(f, blen(m2) - 1 + e2) >= e2)
    })
{
    reveal(addsub);
    let p = f.p;
    let k = imin(ea, eb);
    let (aa, bb) = (ma * pow2((ea - k) as nat), mb * pow2((eb - k) as nat));
    let n = if sa == sb { aa + bb } else { absdiff(aa, bb) };
    let t = pow2((e - k) as nat);
    lemma_pow2_pos((e - k) as nat);
    p128();
    let x = sum2(sa, ma, ea, sb, mb, eb);
    assert(n == iabs(x));
    blen0();
    if ma == 0 || mb == 0 { assert(false); }
    lemma_pow2_pos((ea - k) as nat);
    lemma_pow2_pos((eb - k) as nat);
    lemma_mul_strictly_positive(ma as int, pow2((ea - k) as nat) as int);
    lemma_mul_strictly_positive(mb as int, pow2((eb - k) as nat) as int);
    let bits = cut_bits(m, p);
    let m2 = m / pow2(bits);
    let l2 = cut_loss(m, bits, l);
    let e2 = e + bits - off;
    lemma_pow2_pos(bits);
    blen_shr(m, bits);
    blen_bounds(m2);
    if blen(m2) < p { pow2_lt(blen(m2), p); }
    assert(m / 1 == m);
    if x == 0 {
        assert(0nat / t == 0 && 0nat % t == 0) by { div_unique(0, t as int, 0, 0); assert(0 * t == 0); }
    } else {
        div_mod_id(n as int, t as int);
        if m == 0 { assert(0 * t == 0); assert(false); }
        blen_bounds(m);
        if bits > 0 { cut_twice(n, t, bits); }
        let d = t * pow2(bits);
        assert(t * 1 == t);
        pow2_add((e - k) as nat, bits);
        lemma_pow2_pos((e - k) as nat + bits);
        if m2 == 0 { assert(false); }
        if n < d { div_unique(n as int, d as int, 0, n as int); assert(0 * d == 0); assert(false); }
        norm_cut(f, s, n, d, e2, rm);
        rnd_shift(f, s, n, 1, k - off, rm, 0, (e - k) as nat + bits);
        assert(n * 1 == n && 1 * d == d);
    }
}

/// a zero result of an inexact rounding is an underflow
pub proof fn norm_zero(f: Fm, sign: bool, m: nat, e: int, l: Loss, rm: Round)
    requires wff(f), m > 0
    ensures norm(f, sign, m, e, l, rm).v.cat == Category::Zero ==> norm(f, sign, m, e, l, rm).st == st_unf() && norm(f, sign, m, e, l, rm).v.sign == sign
{
    reveal(norm);
    reveal(finish);
    nz_size(f, m, e);
    p128();
    lemma_pow2_pos((f.p - 1) as nat);
    blen_bounds(m);
    let u = unit(f, blen(m) - 1 + e);
    if u < e {
        lemma_pow2_pos((e - u) as nat);
        lemma_mul_strictly_positive(m as int, pow2((e - u) as nat) as int);
    }
    if u > e {
        lemma_pow2_pos((u - e) as nat);
        div_mod_id(m as int, pow2((u - e) as nat) as int);
        assert(0 * pow2((u - e) as nat) == 0);
    }
}

pub open spec fn fma_spec<S: Semantics>(a: Dat, b: Dat, c: Dat, rm: Round) -> Out {
    let f = fm::<S>();
    if a.cat == Category::Normal && b.cat == Category::Normal && (c.cat == Category::Normal || c.cat == Category::Zero) {
        let s = a.sign != b.sign;
        let e = a.exp + b.exp - 2 * (f.p - 1);
        if c.cat == Category::Zero { rnd(f, s, a.m * b.m, 1, e, rm) } else {
            let ec = c.exp - (f.p - 1);
            let x = sum2(s, a.m * b.m, e, c.sign, c.m, ec);
            if x == 0 { Out { st: Status::OK, v: zero_d(f, rm == Round::TowardNegative) } }
            else { rnd(f, x < 0, iabs(x), 1, imin(e, ec), rm) }
        }
    } else if a.cat == Category::Normal && b.cat == Category::Normal {
        if c.cat == Category::NaN { nan_two::<S>(a, c) } else { Out { st: Status::OK, v: c } }
    } else {
        // the product is exact
        let m = mul_spec::<S>(a, b, rm);
        if m.st == Status::OK { add_spec::<S>(m.v, c, rm) } else { m }
    }
}
pub proof fn fma_last<S: Semantics>(a: Dat, b: Dat, c: Dat, rm: Round, s1: nat, s2: nat, mw: nat, le: Loss, ex: int, sign: bool)
    requires wfs::<S>(), wfd(fm::<S>(), a), wfd(fm::<S>(), b), a.cat == Category::Normal, b.cat == Category::Normal,
        ({
            let f = fm::<S>();
            let prod = a.m * b.m;
            let sg = a.sign != b.sign;
            let ep = a.exp + b.exp - 2 * (f.p - 1);
            let ec = c.exp - (f.p - 1);
            if c.cat == Category::Zero { mw == prod && le == Loss::ExactlyZero && ex == a.exp + b.exp + 2 && sign == sg } else {
                &&& c.cat == Category::Normal && s1 + blen(prod) == 2 * f.p && s2 + blen(c.m) == 2 * f.p
                &&& blen(prod * pow2(s1)) == 2 * f.p && blen(c.m * pow2(s2)) == 2 * f.p
                &&& addsub(prod * pow2(s1), ep + 2 * f.p - s1, sg, c.m * pow2(s2), ec + 2 * f.p - s2, c.sign, mw, ex, sign, le)
            }
        })
    ensures ({
        let f = fm::<S>();
        let bits = cut_bits(mw, f.p);
        let m2 = mw / pow2(bits);
        let l2 = cut_loss(mw, bits, le);
        let e2 = ex + bits - 2 * f.p;
        let n = norm(f, sign, m2, e2, l2, rm);
        let want = fma_spec::<S>(a, b, c, rm);
        &&& m2 < pow2(128) && bits <= f.p + 1 && blen(mw) <= 2 * f.p + 1
        &&& (m2 > 0 ==> n == want)
        &&& (m2 > 0 && l2 != Loss::ExactlyZero ==> unit(f, blen(m2) - 1 + e2) >= e2)
        &&& (m2 > 0 && l2 != Loss::ExactlyZero ==> st_or(n.st, Status::INEXACT) == n.st)
        &&& (m2 > 0 && n.v.cat == Category::Zero ==> n.st == st_unf())
        &&& (m2 == 0 ==> l2 == Loss::ExactlyZero && c.cat == Category::Normal && sign != c.sign
            && n == (Out { st: Status::OK, v: zero_d(f, sign) }) && want == (Out { st: Status::OK, v: zero_d(f, rm == Round::TowardNegative) }))
        &&& (c.cat == Category::Normal ==> imin(ep_of::<S>(a, b) + 2 * f.p - s1, c.exp - (f.p - 1) + 2 * f.p - s2) <= ex
            <= imax(ep_of::<S>(a, b) + 2 * f.p - s1, c.exp - (f.p - 1) + 2 * f.p - s2))
    })
{
    wfs_basic::<S>();
    p128();
    blen0();
    let f = fm::<S>();
    let p = f.p as int;
    let prod = a.m * b.m;
    let sg = a.sign != b.sign;
    let ep = a.exp + b.exp - 2 * (f.p - 1);
    let ec = c.exp - (f.p - 1);
    let bits = cut_bits(mw, f.p);
    let m2 = mw / pow2(bits);
    let l2 = cut_loss(mw, bits, le);
    let e2 = ex + bits - 2 * f.p;
    assert(mw / 1 == mw && mw % 1 == 0);
    pow2_le(f.p, 128);
    if c.cat == Category::Zero {
        mul_cut::<S>(a, b, rm);
        lemma_mul_strictly_positive(a.m as int, b.m as int);
        pow2_add(f.p, f.p);
        let (x, y, w) = (a.m as int, b.m as int, pow2(f.p) as int);
        assert(x * y < w * w) by (nonlinear_arith) requires 0 < x < w, 0 < y < w;
        blen_le(prod, f.p + f.p);
    } else {
        wide_cut(f, prod * pow2(s1), ep + 2 * f.p - s1, sg, c.m * pow2(s2), ec + 2 * f.p - s2, c.sign, mw, ex, sign, le, 2 * p, rm);
        sum2_shift(sg, prod, ep, s1, c.sign, c.m, ec, s2);
        sum2_off(sg, prod * pow2(s1), ep - s1, c.sign, c.m * pow2(s2), ec - s2, 2 * p);
        let x = sum2(sg, prod, ep, c.sign, c.m, ec);
        let y = sum2(sg, prod * pow2(s1), ep + 2 * p - s1, c.sign, c.m * pow2(s2), ec + 2 * p - s2);
        let g = (imin(ep, ec) - imin(ep - s1, ec - s2)) as nat;
        assert(iabs(y) == iabs(x) * pow2(g));
        if x != 0 {
            rnd_shift(f, x < 0, iabs(x), 1, imin(ep, ec), rm, g, 0);
            assert(1 * pow2(0) == 1);
        } else {
            assert(y == 0);
            assert(mw == 0);
            assert(0nat / 1nat == 0);
        }
    }
    if m2 > 0 && l2 != Loss::ExactlyZero { norm_inexact(f, sign, m2, e2, l2, rm); }
    if m2 > 0 { norm_zero(f, sign, m2, e2, l2, rm); } else { reveal(norm); }
}
pub open spec fn ep_of<S: Semantics>(a: Dat, b: Dat) -> int { a.exp + b.exp - 2 * (fm::<S>().p - 1) }
@fn IeeeFloat::is_signaling
    ensures r == snan::<S>(dat(self))
@fn IeeeDefaultExceptionHandling::result_from_nan
    requires wf(r), dat(r).cat == Category::NaN
    ensures out(res) == nan_one::<S>(dat(r)), wf(res.value)
@hint start
    proof { nan_facts::<S>(dat(r)); val1(r.sig@); wfs_basic::<S>(); st_facts(); }
@fn IeeeDefaultExceptionHandling::binop_result_from_either_nan
    requires wf(a), wf(b), dat(a).cat == Category::NaN || dat(b).cat == Category::NaN
    ensures out(r) == nan_two::<S>(dat(a), dat(b)), wf(r.value)
@hint start
    proof { st_facts(); assert(Status::INVALID_OP.bits | Status::INVALID_OP.bits == Status::INVALID_OP.bits && Status::OK.bits | Status::INVALID_OP.bits == Status::INVALID_OP.bits); }
@fn IeeeFloat::mul_r
    requires wf(self), wf(rhs)
    ensures out(r) == mul_spec::<S>(dat(self), dat(rhs), round), wf(r.value)
@hint start
    let ghost f = fm::<S>();
    let ghost (a, b) = (dat(self), dat(rhs));
    proof { wfs_basic::<S>(); }
@hint before 0 letloss=sig::mul
    proof { val1(this.sig@); val1(rhs.sig@); }
@hint after 0 this.sig=[wide_sig[0]]
    proof {
        val2(wide_sig@);
        let m = a.m * b.m;
        lemma_mul_strictly_positive(a.m as int, b.m as int);
        let s = if blen(m) <= f.p { 0nat } else { (blen(m) - f.p) as nat };
        p128();
        mul_cut::<S>(a, b, round);
        assert(val(wide_sig@) == m / pow2(s));
        val2_low(wide_sig@);
        val1(this.sig@);
        assert(this.sig@[0] as nat == m / pow2(s));
        let e0 = a.exp + b.exp - 2 * (f.p - 1) + s;
        if loss != Loss::ExactlyZero { norm_inexact(f, a.sign != b.sign, m / pow2(s), e0, loss, round); }
        st_facts();
    }
@fn IeeeFloat::div_r
    requires wf(self), wf(rhs)
    ensures out(r) == div_spec::<S>(dat(self), dat(rhs), round), wf(r.value)
@hint start
    let ghost f = fm::<S>();
    let ghost (a, b) = (dat(self), dat(rhs));
    proof { wfs_basic::<S>(); }
@hint before 0 letloss=sig::div
    proof {
        val1(vx_t0@); val1(vx_t1@);
        blen_le(a.m, f.p); blen_le(b.m, f.p);
    }
@hint after 0 letloss=sig::div
    proof {
        val1(this.sig@);
        div_cut::<S>(a, b, round, this.sig@[0] as nat, loss);
        if loss != Loss::ExactlyZero { norm_inexact(f, a.sign != b.sign, this.sig@[0] as nat, this.exp - (f.p - 1), loss, round); }
        st_facts();
    }
@fn IeeeFloat::add_r
    requires wf(self), wf(rhs)
    ensures out(r) == add_spec::<S>(dat(self), dat(rhs), round), wf(r.value),
        dat(self).cat == Category::Normal && dat(rhs).cat == Category::Normal ==> plain(r.value)
@hint start
    let ghost f = fm::<S>();
    let ghost (a, b) = (dat(self), dat(rhs));
    proof { wfs_basic::<S>(); }
@hint before 0 letloss=sig::add_or_sub
    proof {
        val1(this.sig@); val1(vx_t0@);
        blen_le(a.m, f.p); blen_le(b.m, f.p);
        blen_bounds(a.m); blen_bounds(b.m);
        if a.exp > b.exp { blen_mono(pow2((f.p - 1) as nat), a.m); blen_unique(pow2((f.p - 1) as nat), f.p); }
        if b.exp > a.exp { blen_mono(pow2((f.p - 1) as nat), b.m); blen_unique(pow2((f.p - 1) as nat), f.p); }
    }
@hint after 0 letloss=sig::add_or_sub
    proof {
        val1(this.sig@);
        add_cut_rnd::<S>(a, b, round, this.sig@[0] as nat, this.exp as int, sign, loss);
    }
@fn IeeeFloat::sub_r
    requires wf(self), wf(rhs)
    ensures dat(self).cat != Category::NaN && dat(rhs).cat != Category::NaN ==> out(r) == add_spec::<S>(dat(self), signed(dat(rhs), !dat(rhs).sign), round),
        dat(self).cat == Category::NaN || dat(rhs).cat == Category::NaN ==> out(r) == nan_two::<S>(dat(self), dat(rhs)), wf(r.value),
        dat(self).cat == Category::Normal && dat(rhs).cat == Category::Normal ==> plain(r.value)
@fn IeeeFloat::mul_add_r rlimit(150)
    requires wf(self), wf(multiplicand), wf(addend)
    ensures out(r) == fma_spec::<S>(dat(self), dat(multiplicand), dat(addend), round), wf(r.value)
@hint top
    hide(blen); hide(val);
@hint start
    let ghost f = fm::<S>();
    let ghost (a, b, c) = (dat(self), dat(multiplicand), dat(addend));
    let ghost sg = a.sign != b.sign;
    let ghost ep = a.exp + b.exp - 2 * (f.p - 1);
    let ghost ec = c.exp - (f.p - 1);
    let ghost prod = a.m * b.m;
    let ghost mut s1: nat = 0;
    let ghost mut s2: nat = 0;
    let ghost mut ea: int = 0;
    let ghost mut eb: int = 0;
    proof {
        wfs_basic::<S>();
        p128();
        blen_le(a.m, f.p);
        if a.cat == Category::Normal && b.cat == Category::Normal {
            lemma_mul_strictly_positive(a.m as int, b.m as int);
            pow2_add(f.p, f.p);
            let (x, y, w) = (a.m as int, b.m as int, pow2(f.p) as int);
            assert(x * y < w * w) by (nonlinear_arith) requires 0 < x < w, 0 < y < w;
            blen_le(prod, f.p + f.p);
            blen_bounds(prod);
        }
        st_facts();
    }
@hint after 0 letmutomsb=
    proof { val1(self.sig@); val1(multiplicand.sig@); }
@hint before 0 sig::shift_left(&mutwide_sig
    proof {
        let k = (2 * f.p - blen(prod)) as nat;
        blen_mul_pow(prod, k);
        blen_bounds(prod * pow2(k));
        pow2_lt(2 * f.p, 256);
    }
@hint before 0 letmutext_addend_sig
    proof {
        s1 = (2 * f.p - blen(prod)) as nat;
        blen_mul_pow(prod, s1);
        if s1 == 0 { assert(prod * 1 == prod); }
        assert(val(wide_sig@) == prod * pow2(s1));
        assert(this.exp == ep + 2 * f.p - s1);
    }
@hint before 0 letaddend_omsb=
    proof {
        val2(ext_addend_sig@);
        assert(0 * pow2(128) == 0);
        assert(val(ext_addend_sig@) == c.m);
        blen_le(c.m, f.p);
        blen_bounds(c.m);
    }
@hint before 0 sig::shift_left(&mutext_addend_sig,&mutext_addend_exp
    proof {
        s2 = (2 * f.p - blen(c.m)) as nat;
        let k = (f.p - blen(c.m)) as nat;
        blen_mul_pow(c.m, k);
        blen_bounds(c.m * pow2(k));
        blen_mul_pow(c.m * pow2(k), f.p);
        blen_bounds((c.m * pow2(k)) * pow2(f.p));
        pow2_lt(f.p, 256);
        pow2_lt(2 * f.p, 256);
        pow2_add(k, f.p);
        lemma_mul_is_associative(c.m as int, pow2(k) as int, pow2(f.p) as int);
    }
@hint before 0 letmutsign=
    proof {
        ea = this.exp as int;
        eb = ext_addend_exp as int;
        assert(val(ext_addend_sig@) == c.m * pow2(s2));
        assert(ext_addend_exp == ec + 2 * f.p - s2);
        blen_mul_pow(c.m, s2);
    }
@hint before 0 this.exp=this.exp-(S::PRECISION
    let ghost (mw, le, ex) = (val(wide_sig@), loss, this.exp as int);
    proof {
        fma_last::<S>(a, b, c, round, s1, s2, mw, le, ex, dat(this).sign);
    }
@hint after 0 this.sig[0]=wide_sig[0]
    proof {
        let bits = cut_bits(mw, f.p);
        let m2 = mw / pow2(bits);
        assert(mw / 1 == mw && mw % 1 == 0);
        assert(val(wide_sig@) == m2);
        val2_low(wide_sig@);
        val1(this.sig@);
        assert(dat(this).m == m2);
        assert(dat(this).exp - (f.p - 1) == ex + bits - 2 * f.p);
        assert(loss == cut_loss(mw, bits, le));
        st_facts();
    }
