@module inv sig rnd flt nrm arith mag scale ops conv
@raw
/// the reciprocal of a power of two, where it is a normal number
pub open spec fn inv_spec(f: Fm, d: Dat) -> Option<Dat> {
    if d.cat == Category::Normal && d.m == pow2((f.p - 1) as nat) && f.lo <= -d.exp <= f.hi { Some(Dat { exp: -d.exp, ..d }) } else { None }
}

/// the rounding of +-2^x
pub proof fn rnd_pow2(f: Fm, s: bool, x: int, rm: Round)
    requires wff(f), f.qn < pow2(f.p), rm == Round::NearestTiesToEven
    ensures ({
        let r = rnd(f, s, 1, 1, x, rm);
        let d = Dat { cat: Category::Normal, sign: s, m: pow2((f.p - 1) as nat), exp: x };
        &&& f.lo <= x <= f.hi ==> r == (Out { st: Status::OK, v: d }) && wfd(f, d)
        &&& !(f.lo <= x <= f.hi) && r.st == Status::OK ==> r.v.cat == Category::Normal && r.v.m < pow2((f.p - 1) as nat) && r.v.exp == f.lo
    })
{
    p128();
    st_facts();
    let t = pow2((f.p - 1) as nat);
    pow2_half(f.p);
    pow2_half((f.p - 1) as nat);
    lemma_pow2_pos((f.p - 2) as nat);
    if f.lo <= x <= f.hi {
        let d = Dat { cat: Category::Normal, sign: s, m: t, exp: x };
        rnd_same(f, d, rm);
        rnd_shift(f, s, 1, 1, x, rm, (f.p - 1) as nat, 0);
        assert(1 * t == t);
        assert(1 * pow2(0) == 1);
    } else {
        assert(1nat / 1 == 1 && 1nat % 1 == 0) by (nonlinear_arith);
        norm_cut(f, s, 1, 1, x, rm);
        norm_steps(f, s, 1, x, Loss::ExactlyZero, rm);
        blen_unique(1, 1);
        blen0();
        nz_size(f, 1, x);
        let u = unit(f, x);
        let (q, l) = (nz_q(1, x, u), nz_l(1, x, u, Loss::ExactlyZero));
        finish_cases(f, s, q, u, l, rm);
        if x < qmin(f) {
            nz_gt(1, x, u, Loss::ExactlyZero);
            let k = (u - x) as nat;
            pow2_half(k);
            lemma_pow2_pos((k - 1) as nat);
            div_unique(1, pow2(k) as int, 0, 1);
            assert(0 * pow2(k) == 0);
        } else if x < f.lo {
            if u < x { nz_lt(1, x, u, Loss::ExactlyZero); } else { nz_eq(1, x, Loss::ExactlyZero); }
        }
    }
}
@fn IeeeFloat::get_exact_inverse
    requires wf(self)
    ensures r is Some == inv_spec(fm::<S>(), dat(self)) is Some, r is Some ==> wf(r->0) && dat(r->0) == inv_spec(fm::<S>(), dat(self))->0
@hint start
    let ghost f = fm::<S>();
    let ghost d = dat(self);
    proof {
        wfs_basic::<S>();
        val1(self.sig@);
        one_shl((S::PRECISION - 1) as u128);
        let rm = Round::NearestTiesToEven;
        rnd_pow2(f, false, 0, rm);
        p128();
        let t = pow2((f.p - 1) as nat);
        lemma_pow2_pos((f.p - 1) as nat);
        rnd_pow2(f, d.sign, -d.exp, rm);
        rnd_shift(f, d.sign, 1, 1, -d.exp, rm, (f.p - 1) as nat, (f.p - 1) as nat);
        assert(1 * t == t);
    }
@hint before 0 vx_assert(reciprocal.is_finite_non_zero())
    proof { val1(reciprocal.sig@); }
@module remm sig rnd flt nrm arith mag cmpm scale ops
@raw
/// x - trunc(x / y) * y
pub open spec fn fmod_spec<S: Semantics>(x: Dat, y: Dat, r: Out) -> bool {
    let f = fm::<S>();
    match (x.cat, y.cat) {
        (Category::NaN, _) | (_, Category::NaN) => r == nan_two::<S>(x, y),
        (Category::Infinity, _) | (_, Category::Zero) => r == (Out { st: Status::INVALID_OP, v: nan_d(f, false) }),
        (Category::Zero, _) | (_, Category::Infinity) => r == (Out { st: Status::OK, v: x }),
        (Category::Normal, Category::Normal) => r.st == Status::OK && fin(r.v) && r.v.sign == x.sign && mag(f, r.v) == mag(f, x) % mag(f, y),
    }
}

/// x - n * y, where n is the integer nearest to x / y, ties to even
pub open spec fn rem_spec<S: Semantics>(x: Dat, y: Dat, r: Out) -> bool {
    let f = fm::<S>();
    match (x.cat, y.cat) {
        (Category::NaN, _) | (_, Category::NaN) => r == nan_two::<S>(x, y),
        (Category::Infinity, _) | (_, Category::Zero) => r == (Out { st: Status::INVALID_OP, v: nan_d(f, false) }),
        (Category::Zero, _) | (_, Category::Infinity) => r == (Out { st: Status::OK, v: x }),
        (Category::Normal, Category::Normal) => {
            let t = (mag(f, x) % mag(f, y)) as int;
            let n = (mag(f, x) / mag(f, y)) as int;
            let y = mag(f, y) as int;
            let away = 2 * t > y || (2 * t == y && n % 2 == 1);
            &&& r.st == Status::OK
            &&& fin(r.v)
            &&& away ==> r.v.sign == !x.sign && mag(f, r.v) == y - t
            &&& !away ==> r.v.sign == x.sign && mag(f, r.v) == t
        },
    }
}

pub open spec fn fin(d: Dat) -> bool { d.cat == Category::Normal || d.cat == Category::Zero }

/// `r` is a - b, exactly
pub open spec fn exact_diff(f: Fm, a: Dat, b: Dat, r: Out) -> bool {
    &&& r.st == Status::OK
    &&& fin(r.v) && wfd(f, r.v)
    &&& r.v.cat == Category::Zero <==> mag(f, a) == mag(f, b)
    &&& r.v.cat == Category::Zero ==> !r.v.sign
    &&& mag(f, a) > mag(f, b) ==> r.v.sign == a.sign && mag(f, r.v) == mag(f, a) - mag(f, b)
    &&& mag(f, a) < mag(f, b) ==> r.v.sign == !a.sign && mag(f, r.v) == mag(f, b) - mag(f, a)
}

/// numbers within a factor of two of each other are subtracted exactly
pub proof fn sub_exact<S: Semantics>(a: Dat, b: Dat)
    requires wfs::<S>(), wfd(fm::<S>(), a), wfd(fm::<S>(), b), a.cat == Category::Normal, b.cat == Category::Normal, a.sign == b.sign,
        mag(fm::<S>(), a) <= 2 * mag(fm::<S>(), b), mag(fm::<S>(), b) <= 2 * mag(fm::<S>(), a)
    ensures exact_diff(fm::<S>(), a, b, sub_spec::<S>(a, b, Round::NearestTiesToEven))
{
    let f = fm::<S>();
    let rm = Round::NearestTiesToEven;
    wfs_basic::<S>();
    let k = imin(a.exp, b.exp);
    let (ja, jb, jk) = ((a.exp - k) as nat, (b.exp - k) as nat, (k - f.lo) as nat);
    let s = sum_of(a, signed(b, !b.sign));
    pow2_add(ja, jk);
    pow2_add(jb, jk);
    let (x, y, t) = (a.m as int * pow2(ja), b.m as int * pow2(jb), pow2(jk) as int);
    lemma_mul_is_associative(a.m as int, pow2(ja) as int, t);
    lemma_mul_is_associative(b.m as int, pow2(jb) as int, t);
    p128();
    lemma_pow2_pos(jk);
    let (ma, mb) = (mag(f, a) as int, mag(f, b) as int);
    assert(ma == x * t && mb == y * t);
    assert(s == if a.sign { y - x } else { x - y });
    mag_max(f, a);
    mag_max(f, b);
    mag_lt(f, a, b);
    mag_lt(f, b, a);
    lemma_mul_is_distributive_sub_other_way(t, x, y);
    lemma_mul_is_distributive_sub_other_way(t, y, x);
    assert(x > y <==> ma > mb) by (nonlinear_arith) requires ma == x * t, mb == y * t, t > 0;
    assert(x == y <==> ma == mb) by (nonlinear_arith) requires ma == x * t, mb == y * t, t > 0;
    let n = iabs(s);
    if s != 0 {
        // the difference is at most the smaller operand, whose exponent is k
        assert(x <= 2 * y && y <= 2 * x) by (nonlinear_arith) requires x * t <= 2 * (y * t), y * t <= 2 * (x * t), t > 0;
        assert(pow2(0) == 1);
        assert(a.m * 1 == a.m && b.m * 1 == b.m);
        assert(a.exp <= b.exp ==> ja == 0);
        assert(b.exp <= a.exp ==> jb == 0);
        assert(a.exp <= b.exp ==> x == a.m);
        assert(b.exp <= a.exp ==> y == b.m);
        assert(n < pow2(f.p)) by {
            if a.exp < b.exp { assert(ma < mb); } else if a.exp > b.exp { assert(ma > mb); }
        }
        assert(n * pow2(jk) == if ma > mb { ma - mb } else { mb - ma });
        rnd_exact(f, s < 0, n, k - (f.p - 1), rm);
        let r = rnd(f, s < 0, n, 1, k - (f.p - 1), rm);
        mag_pos(f, r.v);
    }
}

/// twice a number: exact, or past the largest number
pub proof fn add_twice<S: Semantics>(d: Dat)
    requires wfs::<S>(), wfd(fm::<S>(), d), d.cat == Category::Normal
    ensures ({
        let f = fm::<S>();
        let r = add_spec::<S>(d, d, Round::NearestTiesToEven);
        &&& r.st == Status::OK <==> 2 * mag(f, d) <= maxmag(f)
        &&& r.st == Status::OK ==> r.v.cat == Category::Normal && r.v.sign == d.sign && mag(f, r.v) == 2 * mag(f, d)
    })
{
    let f = fm::<S>();
    let rm = Round::NearestTiesToEven;
    wfs_basic::<S>();
    p128();
    st_facts();
    let (m, e) = (d.m, d.exp - (f.p - 1));
    let s = sum_of(d, d);
    assert(d.m * 1 == d.m);
    assert(iabs(s) == 2 * m && (s < 0) == d.sign);
    // 2m * 2^e == m * 2^(e + 1)
    rnd_shift(f, d.sign, m, 1, e + 1, rm, 1, 0);
    assert(m * 2 == 2 * m);
    let j = (d.exp - f.lo) as nat;
    pow2_half(j + 1);
    lemma_pow2_pos(j);
    assert(m * (2 * pow2(j)) == 2 * (m * pow2(j))) by (nonlinear_arith);
    assert(e + 1 - qmin(f) == j + 1);
    if 2 * mag(f, d) <= maxmag(f) {
        rnd_exact(f, d.sign, m, e + 1, rm);
    } else {
        twice_big::<S>(d);
    }
}

/// a number with its exponent raised by one
pub proof fn twice_ok<S: Semantics>(d: Dat)
    requires wfs::<S>(), wfd(fm::<S>(), d), d.cat == Category::Normal
    ensures ({
        let f = fm::<S>();
        let w = Dat { exp: d.exp + 1, ..d };
        let r = norm(f, d.sign, d.m, d.exp + 1 - (f.p - 1), Loss::ExactlyZero, Round::NearestTiesToEven);
        &&& mag(f, w) == 2 * mag(f, d)
        &&& d.exp + 1 >= f.hi ==> wfc(f, w)
        &&& d.exp + 1 < f.hi ==> r.st == Status::OK && r.v.cat == Category::Normal && r.v.sign == d.sign && mag(f, r.v) == 2 * mag(f, d) && wfd(f, r.v)
    })
{
    let f = fm::<S>();
    let rm = Round::NearestTiesToEven;
    wfs_basic::<S>();
    p128();
    let j = (d.exp - f.lo) as nat;
    pow2_half(j + 1);
    let (m, t) = (d.m as int, pow2(j) as int);
    assert(m * (2 * t) == 2 * (m * t)) by (nonlinear_arith);
    if d.exp + 1 < f.hi {
        let w = Dat { exp: d.exp + 1, ..d };
        mag_max(f, d);
        twice_in(f, d);
        rnd_exact(f, d.sign, d.m, d.exp + 1 - (f.p - 1), rm);
        rnd_norm(f, d.sign, d.m, d.exp + 1 - (f.p - 1), rm);
    }
}

pub proof fn twice_in(f: Fm, d: Dat)
    requires wff(f), wfd(f, d), d.cat == Category::Normal, d.exp + 1 < f.hi
    ensures 2 * mag(f, d) <= maxmag(f)
{
    p128();
    let j = (d.exp - f.lo) as nat;
    let h = (f.hi - f.lo) as nat;
    pow2_half(j + 1);
    pow2_le(j + 1, h);
    pow2_half(f.p);
    pow2_half((f.p - 1) as nat);
    lemma_pow2_pos((f.p - 2) as nat);
    pow2_half((j + 2) as nat);
    pow2_le((j + 2) as nat, h);
    lemma_pow2_pos(j);
    let (m, t, w, z, b) = (d.m as int, pow2(j) as int, pow2(h) as int, pow2((f.p - 1) as nat) as int, largest_d(f, false).m as int);
    assert(2 * (m * t) <= b * w) by (nonlinear_arith) requires 0 < m < 2 * z, b >= z, w >= 4 * t, t > 0, z > 0;
}

pub proof fn twice_big<S: Semantics>(d: Dat)
    requires wfs::<S>(), wfd(fm::<S>(), d), d.cat == Category::Normal, 2 * mag(fm::<S>(), d) > maxmag(fm::<S>())
    ensures ({
        let f = fm::<S>();
        let r = rnd(f, d.sign, d.m, 1, d.exp - (f.p - 1) + 1, Round::NearestTiesToEven);
        r == overflow(f, d.sign, Round::NearestTiesToEven) && r.st != Status::OK
    })
{
    let f = fm::<S>();
    let rm = Round::NearestTiesToEven;
    wfs_basic::<S>();
    st_facts();
    let j = (d.exp - f.lo) as nat;
    pow2_half(j + 1);
    let (m, t) = (d.m as int, pow2(j) as int);
    assert(m * (2 * t) == 2 * (m * t)) by (nonlinear_arith);
    scaled_big(f, d.sign, d.m, d.exp + 1, rm);
}

/// p significant bits above the largest number
pub proof fn scaled_big(f: Fm, s: bool, m: nat, x: int, rm: Round)
    requires wff(f), f.qn < pow2(f.p), 0 < m < pow2(f.p), x >= f.lo, m * pow2((x - f.lo) as nat) > maxmag(f)
    ensures rnd(f, s, m, 1, x - (f.p - 1), rm) == overflow(f, s, rm), m >= pow2((f.p - 1) as nat) ==> x >= f.hi
{
    p128();
    let e = x - (f.p - 1);
    let g = (x - f.lo) as nat;
    rnd_norm(f, s, m, e, rm);
    norm_steps(f, s, m, e, Loss::ExactlyZero, rm);
    blen_le(m, f.p);
    blen0();
    blen_bounds(m);
    let u = unit(f, blen(m) - 1 + e);
    assert(u <= e);
    if u < e { nz_lt(m, e, u, Loss::ExactlyZero); } else { nz_eq(m, e, Loss::ExactlyZero); }
    nz_size(f, m, e);
    let q = nz_q(m, e, u);
    let k = (e - u) as nat;
    let j = (u - qmin(f)) as nat;
    pow2_add(k, j);
    lemma_mul_is_associative(m as int, pow2(k) as int, pow2(j) as int);
    assert(m * 1 == m);
    assert(q == m * pow2(k));
    assert(q * pow2(j) == m * pow2(g));
    pow2_half(f.p);
    let big = largest_d(f, s);
    let h = (f.hi - f.lo) as nat;
    lemma_pow2_pos(j);
    lemma_pow2_pos(h);
    let y = u + f.p - 1;
    let (qi, t, w, b) = (q as int, pow2(j) as int, pow2(h) as int, big.m as int);
    if y < f.hi {
        pow2_le(j + 1, h);
        pow2_half(j + 1);
        let z = pow2((f.p - 1) as nat) as int;
        pow2_half((f.p - 1) as nat);
        lemma_pow2_pos((f.p - 2) as nat);
        assert(qi * t <= b * w) by (nonlinear_arith) requires 0 <= qi <= 2 * z, b >= z, w >= 2 * t, t > 0, z > 0;
        assert(false);
    }
    if y == f.hi && q <= big.m {
        assert(qi * t <= b * w) by (nonlinear_arith) requires qi <= b, t == w, w > 0;
        assert(false);
    }
    finish_cases(f, s, q, u, Loss::ExactlyZero, rm);
    if m >= pow2((f.p - 1) as nat) {
        if blen(m) < f.p { pow2_le(blen(m), (f.p - 1) as nat); }
    }
}

/// scaling by a non-negative power of two: exact, or past the largest number
pub proof fn scale_up<S: Semantics>(d: Dat, n: nat)
    requires wfs::<S>(), wfd(fm::<S>(), d), d.cat == Category::Normal
    ensures ({
        let f = fm::<S>();
        let r = scalb_spec::<S>(d, n as int, Round::NearestTiesToEven);
        &&& mag(f, d) * pow2(n) <= maxmag(f) ==> r.cat == Category::Normal && r.sign == d.sign && mag(f, r) == mag(f, d) * pow2(n) && wfd(f, r)
        &&& mag(f, d) * pow2(n) > maxmag(f) ==> r == inf_d(f, d.sign)
    })
{
    let f = fm::<S>();
    let rm = Round::NearestTiesToEven;
    wfs_basic::<S>();
    let j = (d.exp - f.lo) as nat;
    pow2_add(j, n);
    lemma_mul_is_associative(d.m as int, pow2(j) as int, pow2(n) as int);
    if mag(f, d) * pow2(n) <= maxmag(f) {
        rnd_exact(f, d.sign, d.m, d.exp - (f.p - 1) + n, rm);
    } else {
        scaled_big(f, d.sign, d.m, d.exp + n, rm);
    }
}

/// the largest v = y * 2^j not above x, by the exponents
pub proof fn fmod_step<S: Semantics>(x: Dat, y: Dat)
    requires wfs::<S>(), wfd(fm::<S>(), x), wfd(fm::<S>(), y), x.cat == Category::Normal, y.cat == Category::Normal,
        mag(fm::<S>(), x) >= mag(fm::<S>(), y)
    ensures ({
        let f = fm::<S>();
        let n = ilog(f, x) - ilog(f, y);
        let (a, b) = (mag(f, x), mag(f, y));
        let v = scalb_spec::<S>(y, n, Round::NearestTiesToEven);
        let w = scalb_spec::<S>(y, n - 1, Round::NearestTiesToEven);
        &&& 0 <= n <= 0x4_0000
        &&& fin(v) || v.cat == Category::NaN
        &&& v.cat != Category::NaN ==> v.cat == Category::Normal && wfd(f, v) && v.sign == y.sign && mag(f, v) == b * pow2(n as nat) && a < 2 * mag(f, v)
        &&& (v.cat == Category::NaN || a < mag(f, v)) ==> n > 0 && w.cat == Category::Normal && wfd(f, w) && w.sign == y.sign && mag(f, w) == b * pow2((n - 1) as nat)
                && mag(f, w) <= a && a < 2 * mag(f, w)
    })
{
    let f = fm::<S>();
    wfs_basic::<S>();
    p128();
    let n = ilog(f, x) - ilog(f, y);
    let (a, b) = (mag(f, x), mag(f, y));
    mag_pos(f, x);
    mag_pos(f, y);
    mag_blen(f, x);
    mag_blen(f, y);
    assert(n == blen(a) - blen(b));
    blen_mono(b, a);
    blen_bounds(a);
    blen_bounds(b);
    blen_le(x.m, f.p);
    blen_le(y.m, f.p);
    blen_bounds(x.m);
    blen_bounds(y.m);
    blen0();
    let k = n as nat;
    blen_mul_pow(b, k);
    let c = b * pow2(k);
    blen_bounds(c);
    lemma_pow2_pos(k);
    lemma_mul_strictly_positive(b as int, pow2(k) as int);
    // a and c have the same number of bits
    let la = blen(a);
    pow2_half(la);
    assert(a < 2 * c);
    scale_up::<S>(y, k);
    mag_max(f, x);
    if c > maxmag(f) {
        // only possible where the format has no infinity
        if !f.no_inf {
            let h = (f.hi - f.lo) as nat;
            mag_full(f, y, k, la);
            assert(false);
        }
    }
    if c > a {
        if n == 0 { assert(b * 1 == b); }
        let k1 = (n - 1) as nat;
        pow2_half(k);
        assert(b * pow2(k) == 2 * (b * pow2(k1))) by (nonlinear_arith) requires pow2(k) == 2 * pow2(k1);
        scale_up::<S>(y, k1);
        assert(c < 2 * pow2((la - 1) as nat) && a >= pow2((la - 1) as nat));
    }
}

/// with infinities, every magnitude of p significant bits and at most the exponent of the largest number is in the range
pub proof fn mag_full(f: Fm, y: Dat, k: nat, la: nat)
    requires wff(f), !f.no_inf, wfd(f, y), y.cat == Category::Normal, blen(mag(f, y)) + k == la, la <= f.p + f.hi - f.lo
    ensures mag(f, y) * pow2(k) <= maxmag(f)
{
    let j = (y.exp - f.lo) as nat;
    let h = (f.hi - f.lo) as nat;
    mag_blen(f, y);
    blen_bounds(y.m);
    pow2_add(j, k);
    lemma_mul_is_associative(y.m as int, pow2(j) as int, pow2(k) as int);
    let m = y.m as int;
    let g = j + k;
    let bl = blen(y.m);
    // m < 2^bl, bl + g <= p + h
    lemma_pow2_pos(g);
    lemma_pow2_pos(h);
    lemma_pow2_pos(f.p);
    if g <= h {
        pow2_le(g, h);
        let (t, w, z) = (pow2(g) as int, pow2(h) as int, pow2(f.p) as int);
        assert(m * t <= (z - 1) * w) by (nonlinear_arith) requires 0 < m <= z - 1, 0 < t <= w;
    } else {
        let s = (g - h) as nat;
        pow2_add(s, h);
        pow2_add((f.p - s) as nat, s);
        pow2_le(bl, (f.p - s) as nat);
        lemma_pow2_pos(s);
        lemma_pow2_pos((f.p - s) as nat);
        let (a, b, w, z) = (pow2(s) as int, pow2((f.p - s) as nat) as int, pow2(h) as int, pow2(f.p) as int);
        assert(z == b * a);
        assert(m * (a * w) <= (z - 1) * w) by (nonlinear_arith) requires 0 < m <= b - 1, a >= 1, z == b * a, w >= 1;
    }
}

/// taking away a multiple does not change the remainder
pub proof fn mod_less(a: int, c: int, y: int)
    requires y > 0
    ensures (a - c * y) % y == a % y
{
    lemma_mod_multiples_vanish(-c, a, y);
    assert(y * (-c) + a == a - c * y) by (nonlinear_arith);
}

/// the remainder by y, from the remainder by 2y
pub proof fn mod_twice(x: int, y: int)
    requires y > 0, x >= 0
    ensures x % (2 * y) == x % y + (if (x / y) % 2 == 1 { y } else { 0 }), 0 <= x % y < y, x / y >= 0
{
    div_mod_id(x, y);
    let (q, r) = (x / y, x % y);
    let (g, h) = (q / 2, q % 2);
    assert(x == g * (2 * y) + (h * y + r)) by (nonlinear_arith) requires x == q * y + r, q == 2 * g + h;
    assert(0 <= h * y + r < 2 * y) by (nonlinear_arith) requires 0 <= h <= 1, 0 <= r < y;
    div_unique(x, 2 * y, g, h * y + r);
    assert(h == 0 ==> h * y == 0);
    assert(h == 1 ==> h * y == y);
    assert(q >= 0) by (nonlinear_arith) requires x == q * y + r, r < y, x >= 0, y > 0;
}
@fn IeeeFloat::c_fmod
    requires wf(self), wf(rhs)
    ensures fmod_spec::<S>(dat(self), dat(rhs), out(r)), wf(r.value),
        dat(self).cat == Category::Normal && dat(rhs).cat == Category::Normal ==> plain(r.value)
@loop 0
    invariant
        wf(this), plain(this), wf(rhs), wf(orig), fin(dat(this)), dat(rhs).cat == Category::Normal, dat(orig).cat == Category::Normal,
        f == fm::<S>(), y == mag(f, dat(rhs)), y > 0,
        mag(f, dat(this)) % y == mag(f, dat(orig)) % y,
        dat(this).cat == Category::Normal ==> dat(this).sign == dat(orig).sign,
    ensures
        mag(f, dat(this)) < y,
    decreases mag(f, dat(this))
@hint start
    let ghost f = fm::<S>();
    let ghost y = mag(f, dat(rhs));
    proof {
        wfs_basic::<S>();
        if dat(rhs).cat == Category::Normal { mag_pos(f, dat(rhs)); }
    }
@hint before 0 letexp=this.ilogb()
    let ghost a = dat(this);
    proof { wfs_basic::<S>(); fmod_step::<S>(a, dat(rhs)); mag_pos(f, a); }
@hint before 0 letstatus
    proof {
        let d = dat(v);
        sub_exact::<S>(a, d);
        let n = ilog(f, a) - ilog(f, dat(rhs));
        let c = (if mag(f, d) == y * pow2(n as nat) { pow2(n as nat) } else { pow2((n - 1) as nat) }) as int;
        mod_less(mag(f, a) as int, c, y as int);
        lemma_mul_is_commutative(c, y as int);
        mag_pos(f, d);
    }
@hint before 0 ifthis.is_zero()
    proof { lemma_small_mod(mag(f, dat(this)), y); }
@fn IeeeFloat::rem
    requires wf(self), wf(rhs)
    ensures fmod_spec::<S>(dat(self), dat(rhs), out(r)), wf(r.value)
@fn IeeeFloat::rem_assign
    requires wf(*old(self)), wf(rhs)
    ensures exists|st: Status| #[trigger] fmod_spec::<S>(dat(*old(self)), dat(rhs), Out { st, v: dat(*final(self)) }), wf(*final(self))
@fn IeeeFloat::ieee_rem rlimit(150)
    requires wf(self), wf(rhs)
    ensures rem_spec::<S>(dat(self), dat(rhs), out(r)), wf(r.value)
@hint top
    hide(sub_spec); hide(add_spec); hide(nan_two); hide(maxmag);
@hint start
    let ghost f = fm::<S>();
    let ghost (a, b) = (dat(self), dat(rhs));
    let ghost (xx, y) = (mag(f, a), mag(f, b));
    proof {
        wfs_basic::<S>();
        if a.cat == Category::Normal && b.cat == Category::Normal {
            mag_pos(f, b);
            mag_pos(f, a);
            mag_max(f, a);
            mag_max(f, b);
            add_twice::<S>(b);
            mod_twice(xx as int, y as int);
            if 2 * y > maxmag(f) { lemma_small_mod(xx, 2 * y); }
        }
    }
@hint before 0 p=p.abs()
    proof {
        assert(mag(f, dat(x)) == xx % (2 * y));
    }
    proof {
        let (xa, pb) = (signed(dat(x), false), signed(b, false));
        let rm = Round::NearestTiesToEven;
        lemma_mod_bound(xx as int, 2 * y as int);
        if xa.cat == Category::Normal {
            twice_ok::<S>(xa);
            mag_pos(f, xa);
            if 2 * mag(f, xa) > y {
                sub_exact::<S>(xa, pb);
                let d1 = sub_spec::<S>(xa, pb, rm).v;
                if d1.cat == Category::Normal {
                    twice_ok::<S>(d1);
                    mag_pos(f, d1);
                    if !d1.sign && 2 * mag(f, d1) >= y {
                        sub_exact::<S>(d1, pb);
                        let d2 = sub_spec::<S>(d1, pb, rm).v;
                        if d2.cat == Category::Normal { mag_pos(f, d2); }
                    }
                }
            }
        }
    }
