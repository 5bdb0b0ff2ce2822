@module rnd sig
@raw
// ---- the arithmetic of IEEE 754 on unbounded integers ----------------------------------------------

/// a format: precision, exponent range, and whether it has infinities
pub ghost struct Fm { pub p: nat, pub lo: int, pub hi: int, pub no_inf: bool, pub qn: nat }

/// a datum: value (-1)^sign * m * 2^(exp - (p - 1)); for a NaN, m is the significand field
pub ghost struct Dat { pub cat: Category, pub sign: bool, pub m: nat, pub exp: int }

pub ghost struct Out { pub st: Status, pub v: Dat }

pub open spec fn wff(f: Fm) -> bool {
    &&& 3 <= f.p <= 113
    &&& -0x6000 <= f.lo <= -2
    &&& 2 <= f.hi <= 0x8000
    &&& f.p <= f.hi
}

pub open spec fn nan_exp(f: Fm) -> int { if f.no_inf { f.hi } else { f.hi + 1 } }

/// the canonical representation
pub open spec fn wfd(f: Fm, d: Dat) -> bool {
    match d.cat {
        Category::Normal => f.lo <= d.exp <= f.hi && 0 < d.m && d.m < pow2(f.p) && (d.m >= pow2((f.p - 1) as nat) || d.exp == f.lo)
            && !(f.no_inf && d.exp == f.hi && d.m == pow2(f.p) - 1),
        Category::Zero => d.m == 0 && d.exp == f.lo - 1,
        Category::Infinity => !f.no_inf && d.m == 0 && d.exp == f.hi + 1,
        Category::NaN => d.m < pow2(f.p) && d.exp == nan_exp(f),
    }
}

pub open spec fn zero_d(f: Fm, sign: bool) -> Dat { Dat { cat: Category::Zero, sign, m: 0, exp: f.lo - 1 } }
pub open spec fn nan_d(f: Fm, sign: bool) -> Dat { Dat { cat: Category::NaN, sign, m: f.qn, exp: nan_exp(f) } }
pub open spec fn inf_d(f: Fm, sign: bool) -> Dat {
    if f.no_inf { nan_d(f, sign) } else { Dat { cat: Category::Infinity, sign, m: 0, exp: f.hi + 1 } }
}
pub open spec fn largest_d(f: Fm, sign: bool) -> Dat {
    Dat { cat: Category::Normal, sign, m: (pow2(f.p) - if f.no_inf { 2int } else { 1 }) as nat, exp: f.hi }
}
pub open spec fn smallest_d(f: Fm, sign: bool) -> Dat { Dat { cat: Category::Normal, sign, m: 1, exp: f.lo } }

pub open spec fn st_or(a: Status, b: Status) -> Status { Status { bits: a.bits | b.bits } }
pub open spec fn st_ovf() -> Status { st_or(Status::OVERFLOW, Status::INEXACT) }
pub open spec fn st_unf() -> Status { st_or(Status::UNDERFLOW, Status::INEXACT) }

pub proof fn st_facts()
    ensures
        st_or(Status::INEXACT, Status::INEXACT) == Status::INEXACT,
        st_or(st_ovf(), Status::INEXACT) == st_ovf(),
        st_or(st_unf(), Status::INEXACT) == st_unf(),
        st_or(Status::OK, Status::INEXACT) == Status::INEXACT,
        st_or(Status::OK, Status::INVALID_OP) == Status::INVALID_OP,
        st_or(Status::INVALID_OP, Status::INVALID_OP) == Status::INVALID_OP,
        st_unf().bits & Status::UNDERFLOW.bits != 0,
        Status::OK.bits & Status::UNDERFLOW.bits == 0,
        Status::INEXACT.bits & Status::UNDERFLOW.bits == 0,
        st_ovf().bits & Status::UNDERFLOW.bits == 0,
        Status::OK != Status::INEXACT, Status::OK != st_ovf(), Status::OK != st_unf(), Status::OK != Status::INVALID_OP, Status::OK != Status::DIV_BY_ZERO
{
    assert(0x10u8 | 0x10 == 0x10 && (0x04u8 | 0x10) | 0x10 == 0x04 | 0x10 && (0x08u8 | 0x10) | 0x10 == 0x08 | 0x10 && 0u8 | 0x10 == 0x10
        && 0u8 | 1 == 1 && 1u8 | 1 == 1 && (0x08u8 | 0x10) & 8 != 0 && 0u8 & 8 == 0 && 0x10u8 & 8 == 0 && (0x04u8 | 0x10) & 8 == 0
        && (0x04u8 | 0x10) == 0x14 && (0x08u8 | 0x10) == 0x18) by (bit_vector);
}

/// does the magnitude go up by one unit, given what lies below the unit
pub open spec fn up(sign: bool, odd: bool, l: Loss, rm: Round) -> bool {
    match rm {
        Round::NearestTiesToEven => l == Loss::MoreThanHalf || (l == Loss::ExactlyHalf && odd),
        Round::NearestTiesToAway => l == Loss::MoreThanHalf || l == Loss::ExactlyHalf,
        Round::TowardZero => false,
        Round::TowardPositive => l != Loss::ExactlyZero && !sign,
        Round::TowardNegative => l != Loss::ExactlyZero && sign,
    }
}

pub open spec fn overflow(f: Fm, sign: bool, rm: Round) -> Out {
    if rm == Round::TowardZero || (rm == Round::TowardPositive && sign) || (rm == Round::TowardNegative && !sign) {
        Out { st: Status::INEXACT, v: largest_d(f, sign) }
    } else {
        Out { st: st_ovf(), v: inf_d(f, sign) }
    }
}

pub open spec fn mk(f: Fm, sign: bool, q: nat, exp: int) -> Dat {
    if q == 0 { zero_d(f, sign) } else { Dat { cat: Category::Normal, sign, m: q, exp } }
}

/// round (-1)^sign * (q + fraction l) * 2^e, where q has at most p bits
#[verifier::opaque]
pub open spec fn finish(f: Fm, sign: bool, q: nat, e: int, l: Loss, rm: Round) -> Out {
    let q1 = if up(sign, q % 2 == 1, l, rm) { q + 1 } else { q };
    let (q2, e2) = if q1 == pow2(f.p) { (pow2((f.p - 1) as nat), e + 1) } else { (q1, e) };
    let x = e2 + f.p - 1;
    if x > f.hi || (f.no_inf && x == f.hi && q2 == pow2(f.p) - 1) {
        overflow(f, sign, rm)
    } else if l == Loss::ExactlyZero {
        Out { st: Status::OK, v: mk(f, sign, q2, x) }
    } else if q2 < pow2((f.p - 1) as nat) {
        Out { st: st_unf(), v: mk(f, sign, q2, x) }
    } else {
        Out { st: Status::INEXACT, v: mk(f, sign, q2, x) }
    }
}

/// exponent of the unit in the last place of subnormal numbers
pub open spec fn qmin(f: Fm) -> int { f.lo - (f.p - 1) }

pub open spec fn posn(k: int) -> nat { if k > 0 { k as nat } else { 0 } }

/// num * 2^-k / den: quotient and class of the fraction
pub open spec fn cut_n(num: nat, k: int) -> nat { num * pow2(posn(-k)) }
pub open spec fn cut_d(den: nat, k: int) -> nat { den * pow2(posn(k)) }
pub open spec fn cut_q(num: nat, den: nat, k: int) -> nat { cut_n(num, k) / cut_d(den, k) }
pub open spec fn cut_l(num: nat, den: nat, k: int) -> Loss { loss_of(cut_n(num, k) % cut_d(den, k), cut_d(den, k)) }

/// floor(log2(num / den))
pub open spec fn flog(num: nat, den: nat) -> int {
    let k = blen(num) - blen(den);
    if cut_n(num, k) >= cut_d(den, k) { k } else { k - 1 }
}

/// exponent of the unit in which a number with floor(log2) g is rounded
pub open spec fn unit(f: Fm, g: int) -> int { imax(g - (f.p - 1), qmin(f)) }

/// the IEEE 754 rounding of (-1)^sign * num / den * 2^e
#[verifier::opaque]
pub open spec fn rnd(f: Fm, sign: bool, num: nat, den: nat, e: int, rm: Round) -> Out {
    if num == 0 {
        Out { st: Status::OK, v: zero_d(f, sign) }
    } else {
        let u = unit(f, flog(num, den) + e);
        finish(f, sign, cut_q(num, den, u - e), u, cut_l(num, den, u - e), rm)
    }
}

/// what normalize computes: (m + fraction l) * 2^e
#[verifier::opaque]
pub open spec fn norm(f: Fm, sign: bool, m: nat, e: int, l: Loss, rm: Round) -> Out {
    if m == 0 {
        if l == Loss::ExactlyZero { Out { st: Status::OK, v: zero_d(f, sign) } } else { finish(f, sign, 0, qmin(f), l, rm) }
    } else {
        let u = unit(f, blen(m) - 1 + e);
        if u < e {
            finish(f, sign, m * pow2((e - u) as nat), u, l, rm)
        } else if u == e {
            finish(f, sign, m, u, l, rm)
        } else {
            let s = (u - e) as nat;
            finish(f, sign, m / pow2(s), u, loss_comb(loss_of(m % pow2(s), pow2(s)), l), rm)
        }
    }
}

pub proof fn cut_scale(n: nat, d: nat, g: nat)
    requires d > 0, g > 0
    ensures d * g > 0, (n * g) / (d * g) == n / d, loss_of((n * g) % (d * g), d * g) == loss_of(n % d, d)
{
    scale_div(n, d, g);
    lemma_fundamental_div_mod(n as int, d as int);
    assert(n % d < d) by { lemma_mod_bound(n as int, d as int); }
    loss_scale(n % d, d, g);
}

/// cutting twice is cutting once
pub proof fn cut_twice(n: nat, d: nat, s: nat)
    requires d > 0, s > 0
    ensures ({
        let t = pow2(s);
        let q = n / d;
        &&& t > 0 && d * t > 0
        &&& q / t == n / (d * t)
        &&& loss_comb(loss_of(q % t, t), loss_of(n % d, d)) == loss_of(n % (d * t), d * t)
    })
{
    let t = pow2(s) as int;
    lemma_pow2_pos(s);
    let (ni, di) = (n as int, d as int);
    div_mod_id(ni, di);
    let (q, r) = (ni / di, ni % di);
    div_mod_id(q, t);
    let (a, b) = (q / t, q % t);
    lemma_mul_strictly_positive(di, t);
    let rr = b * di + r;
    assert(ni == a * (di * t) + rr) by (nonlinear_arith) requires ni == q * di + r, q == a * t + b, rr == b * di + r;
    assert(0 <= rr < di * t) by (nonlinear_arith) requires rr == b * di + r, 0 <= r < di, 0 <= b, b + 1 <= t;
    div_unique(ni, di * t, a, rr);
    // classes: rr / (d t) with rr == b d + r; twice
    let h = t / 2;
    {
        pow2_half(s);
        let tt = 2 * h;
        assert(t == 2 * h);
        let w = di * h;
        assert(di * t == 2 * w) by (nonlinear_arith) requires t == 2 * h, w == di * h;
        assert(b < h ==> rr < w) by (nonlinear_arith) requires rr == b * di + r, 0 <= r < di, w == di * h, 0 <= b;
        assert(b == h ==> rr == w + r) by (nonlinear_arith) requires rr == b * di + r, w == di * h;
        assert(b > h ==> rr > w) by (nonlinear_arith) requires rr == b * di + r, 0 <= r, w == di * h, di > 0;
        assert(b > 0 ==> rr > 0) by (nonlinear_arith) requires rr == b * di + r, 0 <= r, di > 0;
        assert(b == 0 ==> rr == r) by (nonlinear_arith) requires rr == b * di + r;
    }
}

/// the ratio is the same whichever side carries the powers of two
pub proof fn cut_shift(num: nat, den: nat, a: nat, b: nat, k: int)
    requires den > 0
    ensures cut_d(den, k) > 0,
        cut_q(num * pow2(a), den * pow2(b), k + a - b) == cut_q(num, den, k),
        cut_l(num * pow2(a), den * pow2(b), k + a - b) == cut_l(num, den, k),
        cut_d(den * pow2(b), k + a - b) > 0,
        (cut_n(num * pow2(a), k + a - b) >= cut_d(den * pow2(b), k + a - b)) == (cut_n(num, k) >= cut_d(den, k))
{
    let k2 = k + a - b;
    let g = (a + posn(-k2) - posn(-k)) as nat;
    assert(a + posn(-k2) == posn(-k) + g && b + posn(k2) == posn(k) + g);
    pow2_add(a, posn(-k2));
    pow2_add(b, posn(k2));
    pow2_add(posn(-k), g);
    pow2_add(posn(k), g);
    lemma_pow2_pos(g);
    lemma_pow2_pos(posn(k));
    lemma_pow2_pos(posn(k2));
    lemma_pow2_pos(b);
    let n = cut_n(num, k);
    let d = cut_d(den, k);
    lemma_mul_strictly_positive(den as int, pow2(posn(k)) as int);
    lemma_mul_is_associative(num as int, pow2(a) as int, pow2(posn(-k2)) as int);
    lemma_mul_is_associative(num as int, pow2(posn(-k)) as int, pow2(g) as int);
    lemma_mul_is_associative(den as int, pow2(b) as int, pow2(posn(k2)) as int);
    lemma_mul_is_associative(den as int, pow2(posn(k)) as int, pow2(g) as int);
    assert(cut_n(num * pow2(a), k2) == n * pow2(g));
    assert(cut_d(den * pow2(b), k2) == d * pow2(g));
    cut_scale(n, d, pow2(g));
    if n >= d { lemma_mul_inequality(d as int, n as int, pow2(g) as int); }
    if n < d { lemma_mul_strict_inequality(n as int, d as int, pow2(g) as int); }
}

pub proof fn blen_mul_pow(x: nat, k: nat)
    requires x > 0
    ensures blen(x * pow2(k)) == blen(x) + k, x * pow2(k) > 0
{
    blen_shl(x, k);
    lemma_pow2_pos(k);
    lemma_mul_strictly_positive(x as int, pow2(k) as int);
}

pub proof fn flog_shift(num: nat, den: nat, a: nat, b: nat)
    requires num > 0, den > 0
    ensures flog(num * pow2(a), den * pow2(b)) == flog(num, den) + a - b
{
    blen_mul_pow(num, a);
    blen_mul_pow(den, b);
    cut_shift(num, den, a, b, blen(num) - blen(den));
}

/// the rounding does not depend on how the number is written
pub proof fn rnd_shift(f: Fm, sign: bool, num: nat, den: nat, e: int, rm: Round, a: nat, b: nat)
    requires den > 0
    ensures rnd(f, sign, num * pow2(a), den * pow2(b), e - a + b, rm) == rnd(f, sign, num, den, e, rm)
{
    reveal(rnd);
    if num > 0 {
        blen_mul_pow(num, a);
        flog_shift(num, den, a, b);
        let u = unit(f, flog(num, den) + e);
        cut_shift(num, den, a, b, u - e);
    } else {
        assert(0 * pow2(a) == 0);
    }
}

pub proof fn flog1(num: nat)
    requires num > 0
    ensures flog(num, 1) == blen(num) - 1
{
    blen_bounds(num);
    p128();
    blen_unique(1, 1);
    let k = blen(num) - 1;
    assert(pow2(posn(-k)) == 1);
    assert(num * 1 == num && 1 * pow2(posn(k)) == pow2(posn(k)));
    lemma_pow2_pos(posn(k));
}

/// log of the quotient
pub proof fn flog_div(num: nat, den: nat)
    requires den > 0, num >= den
    ensures flog(num, den) == blen(num / den) - 1, num / den > 0
{
    let q = num / den;
    div_mod_id(num as int, den as int);
    lemma_div_non_zero(num as int, den as int);
    blen_bounds(q);
    blen_bounds(num);
    blen_bounds(den);
    let j = (blen(q) - 1) as nat;
    let (n, d, qi, lo, hi) = (num as int, den as int, q as int, pow2(j) as int, pow2(j + 1) as int);
    // d 2^j <= n < d 2^(j + 1)
    let r = n % d;
    assert(d * lo <= n) by (nonlinear_arith) requires n == qi * d + r, r >= 0, lo <= qi, d > 0;
    assert(n < d * hi) by (nonlinear_arith) requires n == qi * d + r, r < d, qi + 1 <= hi, d > 0;
    assert(pow2(0) == 1) by { p128(); }
    assert(num * 1 == num && den * 1 == den);
    flog_in(num, den, j as int);
}

pub proof fn flog_in(num: nat, den: nat, j: int)
    requires den > 0, num > 0, cut_n(num, j) >= cut_d(den, j), cut_n(num, j + 1) < cut_d(den, j + 1)
    ensures flog(num, den) == j
{
    blen_bounds(num);
    blen_bounds(den);
    let k = blen(num) - blen(den);
    // blen(cut_n(j)) == blen(num) + pos(-j) >= blen(den) + pos(j)
    blen_mul_pow(num, posn(-j));
    blen_mul_pow(den, posn(j));
    blen_mul_pow(num, posn(-(j + 1)));
    blen_mul_pow(den, posn(j + 1));
    blen_mono(cut_d(den, j), cut_n(num, j));
    blen_mono(cut_n(num, j + 1), cut_d(den, j + 1));
    assert(k >= j && k <= j + 1);
}

/// normalize applied to a truncated quotient rounds the quotient
pub proof fn norm_cut(f: Fm, sign: bool, num: nat, den: nat, e: int, rm: Round)
    requires wff(f), den > 0, num > 0,
        num % den != 0 ==> blen(num / den) >= f.p || e <= qmin(f),
        num < den ==> e == qmin(f),
    ensures norm(f, sign, num / den, e, loss_of(num % den, den), rm) == rnd(f, sign, num, den, e, rm)
{
    reveal(rnd);
    reveal(norm);
    let q = num / den;
    let l = loss_of(num % den, den);
    div_mod_id(num as int, den as int);
    p128();
    if num >= den {
        flog_div(num, den);
        let u = unit(f, flog(num, den) + e);
        if u < e {
            let s = (e - u) as nat;
            assert(num % den == 0);
            assert(posn(u - e) == 0 && posn(-(u - e)) == s);
            assert(den * 1 == den);
            lemma_pow2_pos(s);
            let (n, d, qi, t) = (num as int, den as int, q as int, pow2(s) as int);
            assert(n * t == (qi * t) * d + 0) by (nonlinear_arith) requires n == qi * d;
            div_unique(n * t, d, qi * t, 0);
        } else {
            let s = (u - e) as nat;
            if s > 0 { cut_twice(num, den, s); }
            assert(den * 1 == den);
            assert(posn(u - e) == s && posn(-(u - e)) == 0);
            assert(num * 1 == num);
        }
    } else {
        div_unique(num as int, den as int, 0, num as int);
        // flog < 0
        let k = blen(num) - blen(den);
        blen_mono(num, den);
        if k >= 0 {
            assert(k == 0);
            assert(num * 1 == num && den * 1 == den);
        }
        let u = unit(f, flog(num, den) + e);
        assert(u == qmin(f));
        assert(num * 1 == num && den * 1 == den);
    }
}

/// rounding results are canonical
pub proof fn finish_wf(f: Fm, sign: bool, q: nat, e: int, l: Loss, rm: Round)
    requires wff(f), f.qn < pow2(f.p), q < pow2(f.p), e >= qmin(f), q >= pow2((f.p - 1) as nat) || e == qmin(f)
    ensures wfd(f, finish(f, sign, q, e, l, rm).v)
{
    reveal(finish);
    pow2_half(f.p);
    p128();
    pow2_le(2, (f.p - 1) as nat);
    assert(pow2(2) == 4) by { pow2_half(2); pow2_half(1); }
}

/// the quotient that `rnd` rounds has p bits, or the unit is the least one
pub proof fn cut_size(f: Fm, num: nat, den: nat, e: int)
    requires wff(f), num > 0, den > 0
    ensures ({
        let u = unit(f, flog(num, den) + e);
        let q = cut_q(num, den, u - e);
        &&& u >= qmin(f)
        &&& q < pow2(f.p)
        &&& q >= pow2((f.p - 1) as nat) || u == qmin(f)
    })
{
    let g = flog(num, den);
    flog_bounds(num, den);
    let u = unit(f, g + e);
    let k = u - e;
    // q == floor(x / 2^k), 2^g <= x < 2^(g + 1), k >= g - (p - 1)
    let n = cut_n(num, k);
    let d = cut_d(den, k);
    lemma_pow2_pos(posn(k));
    lemma_mul_strictly_positive(den as int, pow2(posn(k)) as int);
    assert(n < d * pow2(f.p)) by {
        // from n(g+1) < d(g+1) scaled
        ratio_lt(num, den, g + 1, k, f.p);
    }
    lemma_mul_is_commutative(d as int, pow2(f.p) as int);
    lemma_mul_is_commutative(d as int, pow2((f.p - 1) as nat) as int);
    div_lt(n as int, d as int, pow2(f.p) as int);
    if k == g - (f.p - 1) {
        ratio_ge(num, den, g, k, (f.p - 1) as nat);
        div_ge(n as int, d as int, pow2((f.p - 1) as nat) as int);
    }
}

pub proof fn ratio_lt(num: nat, den: nat, g: int, k: int, p: nat)
    requires den > 0, cut_n(num, g) < cut_d(den, g), k >= g - p
    ensures cut_n(num, k) < cut_d(den, k) * pow2(p)
{
    // num 2^pos(-g) < den 2^pos(g)
    let c = posn(-k);
    let a = (posn(k) + p) as nat;
    // want num 2^c < den 2^a, where a - c == k + p >= g == pos(g) - pos(-g)
    lemma_pow2_pos(posn(-g));
    lemma_pow2_pos(c);
    pow2_add(posn(k), p);
    lemma_mul_is_associative(den as int, pow2(posn(k)) as int, pow2(p) as int);
    let (n, d) = (num as int, den as int);
    let (x, y) = (pow2(posn(-g)) as int, pow2(posn(g)) as int);
    let (z, w) = (pow2(c) as int, pow2(a) as int);
    pow2_add(posn(g), c);
    pow2_add(a, posn(-g));
    pow2_le(posn(g) + c, a + posn(-g));
    // n x < d y ; y z <= w x  =>  n z < d w
    assert(n * z < d * w) by (nonlinear_arith) requires n * x < d * y, y * z <= w * x, x > 0, z > 0, d > 0, n >= 0;
}

pub proof fn ratio_ge(num: nat, den: nat, g: int, k: int, p: nat)
    requires den > 0, cut_n(num, g) >= cut_d(den, g), k <= g - p
    ensures cut_n(num, k) >= cut_d(den, k) * pow2(p)
{
    let c = posn(-k);
    let a = (posn(k) + p) as nat;
    lemma_pow2_pos(posn(-g));
    lemma_pow2_pos(c);
    pow2_add(posn(k), p);
    lemma_mul_is_associative(den as int, pow2(posn(k)) as int, pow2(p) as int);
    let (n, d) = (num as int, den as int);
    let (x, y) = (pow2(posn(-g)) as int, pow2(posn(g)) as int);
    let (z, w) = (pow2(c) as int, pow2(a) as int);
    pow2_add(posn(g), c);
    pow2_add(a, posn(-g));
    pow2_le(a + posn(-g), posn(g) + c);
    assert(n * z >= d * w) by (nonlinear_arith) requires n * x >= d * y, y * z >= w * x, x > 0, z > 0, d > 0, n >= 0;
}

pub proof fn flog_bounds(num: nat, den: nat)
    requires num > 0, den > 0
    ensures cut_n(num, flog(num, den)) >= cut_d(den, flog(num, den)), cut_n(num, flog(num, den) + 1) < cut_d(den, flog(num, den) + 1)
{
    blen_bounds(num);
    blen_bounds(den);
    let k = blen(num) - blen(den);
    let g = flog(num, den);
    // upper: num 2^pos(-(k+1)) < den 2^pos(k+1) always
    blen_mul_pow(num, posn(-(k + 1)));
    blen_mul_pow(den, posn(k + 1));
    if cut_n(num, k + 1) >= cut_d(den, k + 1) { blen_mono(cut_d(den, k + 1), cut_n(num, k + 1)); }
    blen_mul_pow(num, posn(-(k - 1)));
    blen_mul_pow(den, posn(k - 1));
    if cut_n(num, k - 1) < cut_d(den, k - 1) { blen_mono(cut_n(num, k - 1), cut_d(den, k - 1)); }
}

pub proof fn rnd_wf(f: Fm, sign: bool, num: nat, den: nat, e: int, rm: Round)
    requires wff(f), f.qn < pow2(f.p), den > 0
    ensures wfd(f, rnd(f, sign, num, den, e, rm).v)
{
    reveal(rnd);
    if num > 0 {
        cut_size(f, num, den, e);
        let u = unit(f, flog(num, den) + e);
        finish_wf(f, sign, cut_q(num, den, u - e), u, cut_l(num, den, u - e), rm);
    }
}

pub proof fn bit_top(m: nat, p: nat)
    requires p > 0, m < pow2(p)
    ensures nbit(m, (p - 1) as nat) == (m >= pow2((p - 1) as nat))
{
    let t = pow2((p - 1) as nat) as int;
    pow2_half(p);
    lemma_pow2_pos((p - 1) as nat);
    if m as int >= t { div_unique(m as int, t, 1, m as int - t); assert(1 * t == t); } else { div_unique(m as int, t, 0, m as int); assert(0 * t == 0); }
}

/// the significand after the shift of `normalize`
pub open spec fn nz_q(m: nat, e: int, u: int) -> nat { if u < e { m * pow2((e - u) as nat) } else if u == e { m } else { m / pow2((u - e) as nat) } }

pub proof fn nz_size(f: Fm, m: nat, e: int)
    requires wff(f), m > 0
    ensures ({
        let u = unit(f, blen(m) - 1 + e);
        let q = nz_q(m, e, u);
        &&& q < pow2(f.p)
        &&& blen(m) > 0
        &&& blen(q) == if blen(m) + e > u { blen(m) + e - u } else { 0 }
        &&& blen(q) <= f.p
        &&& u == qmin(f) || blen(q) == f.p
        &&& blen(q) == f.p <==> q >= pow2((f.p - 1) as nat)
        &&& q == 0 <==> blen(q) == 0
    })
{
    let u = unit(f, blen(m) - 1 + e);
    let q = nz_q(m, e, u);
    if u < e { blen_mul_pow(m, (e - u) as nat); }
    if u > e { blen_shr(m, (u - e) as nat); }
    blen_bounds(q);
    blen_bounds(m);
    pow2_half(f.p);
    p128();
    if blen(q) < f.p { pow2_le(blen(q), (f.p - 1) as nat); }
}

pub proof fn norm_wf(f: Fm, sign: bool, m: nat, e: int, l: Loss, rm: Round)
    requires wff(f), f.qn < pow2(f.p)
    ensures wfd(f, norm(f, sign, m, e, l, rm).v)
{
    reveal(norm);
    p128();
    lemma_pow2_pos(f.p);
    if m > 0 {
        nz_size(f, m, e);
        let u = unit(f, blen(m) - 1 + e);
        let l2 = if u <= e { l } else { loss_comb(loss_of(m % pow2((u - e) as nat), pow2((u - e) as nat)), l) };
        finish_wf(f, sign, nz_q(m, e, u), u, l2, rm);
    } else if l != Loss::ExactlyZero {
        finish_wf(f, sign, 0, qmin(f), l, rm);
    }
}

pub proof fn inc_size(q: nat, p: nat)
    requires q < pow2(p), p > 0
    ensures blen(q + 1) <= p + 1, blen(q + 1) > 0, blen(q + 1) == p + 1 <==> q + 1 == pow2(p), blen(q + 1) >= p <==> q + 1 >= pow2((p - 1) as nat),
        (pow2(p) / pow2(1) == pow2((p - 1) as nat)), pow2(p) == 2 * pow2((p - 1) as nat)
{
    blen_bounds(q + 1);
    blen_le(q + 1, p + 1);
    pow2_half(p + 1);
    pow2_half(p);
    p128();
    pow2_half(1);
    if q + 1 == pow2(p) { blen_unique(q + 1, p + 1); } else { blen_le(q + 1, p); }
    if q + 1 >= pow2((p - 1) as nat) { blen_mono(pow2((p - 1) as nat), q + 1); blen_unique(pow2((p - 1) as nat), p); } else { blen_le(q + 1, (p - 1) as nat); }
}

pub open spec fn nz_l(m: nat, e: int, u: int, l: Loss) -> Loss {
    if u <= e { l } else { loss_comb(loss_of(m % pow2((u - e) as nat), pow2((u - e) as nat)), l) }
}

pub proof fn norm_steps(f: Fm, sign: bool, m: nat, e: int, l: Loss, rm: Round)
    requires wff(f), f.qn < pow2(f.p)
    ensures ({
        let u = unit(f, blen(m) - 1 + e);
        &&& m == 0 && l == Loss::ExactlyZero ==> norm(f, sign, m, e, l, rm) == (Out { st: Status::OK, v: zero_d(f, sign) })
        &&& m == 0 && l != Loss::ExactlyZero ==> norm(f, sign, m, e, l, rm) == finish(f, sign, 0, qmin(f), l, rm)
        &&& m > 0 ==> norm(f, sign, m, e, l, rm) == finish(f, sign, nz_q(m, e, u), u, nz_l(m, e, u, l), rm)
        &&& wfd(f, norm(f, sign, m, e, l, rm).v)
    })
{
    reveal(norm);
    norm_wf(f, sign, m, e, l, rm);
}

/// the cases of `finish`, as `normalize` distinguishes them
pub proof fn finish_cases(f: Fm, sign: bool, q: nat, e: int, l: Loss, rm: Round)
    requires wff(f), q < pow2(f.p), e >= qmin(f), q >= pow2((f.p - 1) as nat) || e == qmin(f)
    ensures ({
        let x = e + f.p - 1;
        let r = finish(f, sign, q, e, l, rm);
        let special = f.no_inf && x == f.hi && q == pow2(f.p) - 1;
        let special1 = f.no_inf && x == f.hi && q + 1 == pow2(f.p) - 1;
        let w = up(sign, q % 2 == 1, l, rm);
        &&& x > f.hi || special ==> r == overflow(f, sign, rm)
        &&& x <= f.hi && !special && l == Loss::ExactlyZero ==> r == (Out { st: Status::OK, v: mk(f, sign, q, x) })
        &&& x <= f.hi && !special && l != Loss::ExactlyZero && !w ==>
            r == (Out { st: if q < pow2((f.p - 1) as nat) { st_unf() } else { Status::INEXACT }, v: mk(f, sign, q, x) })
        &&& x == f.hi && !special && l != Loss::ExactlyZero && w && q + 1 == pow2(f.p) ==> r == (Out { st: st_ovf(), v: inf_d(f, sign) })
        &&& x < f.hi && l != Loss::ExactlyZero && w && q + 1 == pow2(f.p) ==> r == (Out { st: Status::INEXACT, v: mk(f, sign, pow2((f.p - 1) as nat), x + 1) })
        &&& x <= f.hi && special1 && l != Loss::ExactlyZero && w ==> r == overflow(f, sign, rm)
        &&& x <= f.hi && !special && !special1 && l != Loss::ExactlyZero && w && q + 1 < pow2(f.p) ==>
            r == (Out { st: if q + 1 < pow2((f.p - 1) as nat) { st_unf() } else { Status::INEXACT }, v: mk(f, sign, q + 1, x) })
    })
{
    reveal(finish);
    p128();
    pow2_half(f.p);
    pow2_half((f.p - 1) as nat);
    lemma_pow2_pos((f.p - 2) as nat);
    assert(q % 2 == 1 || q % 2 == 0);
}

pub proof fn nz_lt(m: nat, e: int, u: int, l: Loss)
    requires u < e
    ensures nz_q(m, e, u) == m * pow2((e - u) as nat), nz_l(m, e, u, l) == l
{
}

pub proof fn nz_eq(m: nat, e: int, l: Loss)
    ensures nz_q(m, e, e) == m, nz_l(m, e, e, l) == l
{
}

pub proof fn nz_gt(m: nat, e: int, u: int, l: Loss)
    requires u > e
    ensures nz_q(m, e, u) == m / pow2((u - e) as nat), nz_l(m, e, u, l) == loss_comb(loss_of(m % pow2((u - e) as nat), pow2((u - e) as nat)), l)
{
}

pub proof fn blen0()
    ensures blen(0) == 0
{
}

pub proof fn nbit0(m: nat)
    ensures nbit(m, 0) == (m % 2 == 1)
{
    p128();
    assert(m as int / 1 == m);
}
