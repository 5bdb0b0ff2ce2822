@module dmath sig rnd flt nrm scale
@raw
// ---- errors of approximate products and quotients ----------------------------------------------------

pub open spec fn mabs(x: int) -> int { if x < 0 { -x } else { x } }

/// n * b is c * a up to i halves of a, and c has full length
#[verifier::opaque]
pub open spec fn apx(n: nat, a: nat, b: nat, h: nat, c: nat, i: nat) -> bool {
    &&& h <= c < 2 * h
    &&& 0 < a && 0 < b && 0 < n && i <= 1
    &&& 2 * mabs(c * a - n * b) <= i * a
}

pub proof fn abs_mul(x: int, y: int, u: int, v: int)
    requires mabs(x) <= u, mabs(y) <= v
    ensures mabs(x * y) <= u * v
{
    let (p, q) = (mabs(x), mabs(y));
    assert(p * q <= u * v) by (nonlinear_arith) requires 0 <= p <= u, 0 <= q <= v;
    assert(mabs(x * y) == p * q) by (nonlinear_arith) requires p == mabs(x), q == mabs(y);
}

/// the error of a product, in halves
pub open spec fn k_mul(i1: nat, i2: nat, z: bool) -> nat { i1 + i2 + if z { 1nat } else { 0 } }
/// the error of a quotient
pub open spec fn k_div(i1: nat, i2: nat, z: bool) -> nat { i1 + (if i2 > 0 || z { 2nat } else { 0 }) + if z { 1nat } else { 0 } }

/// n / d is c up to less than k
#[verifier::opaque]
pub open spec fn near(n: nat, d: nat, c: nat, k: nat) -> bool {
    &&& 0 < d && 0 < n
    &&& k == 0 ==> n == c * d
    &&& k > 0 ==> mabs(n - c * d) < k * d
}

pub proof fn mul_err(n1: nat, a1: nat, b1: nat, c1: nat, i1: nat, n2: nat, a2: nat, b2: nat, c2: nat, i2: nat, h: nat, w: nat, c: nat, rho: nat)
    requires apx(n1, a1, b1, h, c1, i1), apx(n2, a2, b2, h, c2, i2), c1 * c2 == c * w + rho, rho < w, h <= w
    ensures near((n1 * n2) * (b1 * b2), w * (a1 * a2), c, k_mul(i1, i2, rho > 0))
{
    reveal(apx);
    reveal(near);
    let (x, y) = ((n1 * b1) as int, (n2 * b2) as int);
    let (e1, e2) = (c1 * a1 - x, c2 * a2 - y);
    let a = (a1 * a2) as int;
    let (f1, f2, j1, j2, m1, m2) = (a1 as int, a2 as int, i1 as int, i2 as int, c1 as int, c2 as int);
    let (n, d, k) = (((n1 * n2) * (b1 * b2)) as int, (w * (a1 * a2)) as int, k_mul(i1, i2, rho > 0) as int);
    assert(n == x * y) by (nonlinear_arith) requires n == (n1 * n2) * (b1 * b2), x == n1 * b1, y == n2 * b2;
    assert(x > 0 && y > 0 && a > 0) by (nonlinear_arith) requires x == n1 * b1, y == n2 * b2, n1 > 0, b1 > 0, n2 > 0, b2 > 0, a == a1 * a2, a1 > 0, a2 > 0;
    assert(n > 0) by (nonlinear_arith) requires n == x * y, x > 0, y > 0;
    assert(d > 0) by (nonlinear_arith) requires d == w * a, w > 0, a > 0;
    let (p, q) = ((c1 * a1) as int, (c2 * a2) as int);
    assert(x * y == p * q - p * e2 - q * e1 + e1 * e2) by (nonlinear_arith) requires e1 == p - x, e2 == q - y;
    assert(p * q == (c1 * c2) * a) by (nonlinear_arith) requires p == c1 * a1, q == c2 * a2, a == a1 * a2;
    let (ci, wi, ri) = (c as int, w as int, rho as int);
    assert((c1 * c2) * a == ci * d + ri * a) by (nonlinear_arith) requires (c1 * c2) as int == ci * wi + ri, d == wi * a;
    abs_mul(p, 2 * e2, p, j2 * f2);
    abs_mul(q, 2 * e1, q, j1 * f1);
    abs_mul(2 * e1, 2 * e2, j1 * f1, j2 * f2);
    let (t1, t2, t3) = (p * (j2 * f2), q * (j1 * f1), (j1 * f1) * (j2 * f2));
    assert(p * (2 * e2) == 2 * (p * e2) && q * (2 * e1) == 2 * (q * e1) && (2 * e1) * (2 * e2) == 4 * (e1 * e2)) by (nonlinear_arith);
    assert(t1 == (m1 * j2) * a && t2 == (m2 * j1) * a && t3 == (j1 * j2) * a) by (nonlinear_arith)
        requires t1 == p * (j2 * f2), t2 == q * (j1 * f1), t3 == (j1 * f1) * (j2 * f2), p == m1 * f1, q == m2 * f2, a == f1 * f2;
    let dd = n - ci * d;
    let g = 4 * ri + 2 * (m1 * j2) + 2 * (m2 * j1) + j1 * j2;
    assert(4 * mabs(dd) <= 4 * (ri * a) + 2 * t1 + 2 * t2 + t3);
    assert(4 * (ri * a) + 2 * t1 + 2 * t2 + t3 == g * a) by (nonlinear_arith)
        requires g == 4 * ri + 2 * (m1 * j2) + 2 * (m2 * j1) + j1 * j2, t1 == (m1 * j2) * a, t2 == (m2 * j1) * a, t3 == (j1 * j2) * a;
    assert(ri * a >= 0) by (nonlinear_arith) requires ri >= 0, a > 0;
    small_k(m1, m2, j1, j2, ri, wi, h as int, g, k);
    if k == 0 {
        assert(g * a == 0) by (nonlinear_arith) requires g == 0;
    } else {
        assert(g * a < (4 * (k * wi)) * a) by (nonlinear_arith) requires g < 4 * (k * wi), a > 0;
        assert((4 * (k * wi)) * a == 4 * (k * d)) by (nonlinear_arith) requires d == wi * a;
    }
}

pub proof fn small_k(c1: int, c2: int, i1: int, i2: int, r: int, w: int, h: int, g: int, k: int)
    requires 0 <= i1 <= 1, 0 <= i2 <= 1, 0 <= r < w, 0 < h <= c1 < 2 * h, h <= c2 < 2 * h, h <= w, g == 4 * r + 2 * (c1 * i2) + 2 * (c2 * i1) + i1 * i2,
        k == i1 + i2 + if r > 0 { 1int } else { 0 }
    ensures k == 0 ==> g == 0, k > 0 ==> g < 4 * (k * w)
{
    if i1 == 0 { assert(c2 * i1 == 0 && i1 * i2 == 0) by (nonlinear_arith) requires i1 == 0; } else { assert(c2 * i1 == c2 && i1 * i2 == i2) by (nonlinear_arith) requires i1 == 1; }
    if i2 == 0 { assert(c1 * i2 == 0 && i1 * i2 == 0) by (nonlinear_arith) requires i2 == 0; } else { assert(c1 * i2 == c1 && i1 * i2 == i1) by (nonlinear_arith) requires i2 == 1; }
    if k == 1 { assert(k * w == w) by (nonlinear_arith) requires k == 1; }
    if k == 2 { assert(k * w == w + w) by (nonlinear_arith) requires k == 2; }
    if k == 3 { assert(k * w == w + w + w) by (nonlinear_arith) requires k == 3; }
}

pub proof fn div_err(n1: nat, a1: nat, b1: nat, c1: nat, i1: nat, n2: nat, a2: nat, b2: nat, c2: nat, i2: nat, h: nat, w: nat, c: nat, rho: nat)
    requires apx(n1, a1, b1, h, c1, i1), apx(n2, a2, b2, h, c2, i2), c1 * w == c * c2 + rho, rho < c2, w == (if c1 < c2 { 2 * h } else { h }), c < 2 * h, h >= 2
    ensures near(n1 * (b1 * a2 * w), n2 * (b2 * a1), c, k_div(i1, i2, rho > 0))
{
    reveal(apx);
    reveal(near);
    let (x, y) = ((n1 * b1) as int, (n2 * b2) as int);
    let (e1, e2) = (c1 * a1 - x, c2 * a2 - y);
    let a = (a1 * a2) as int;
    let (ci, wi, ri, hi) = (c as int, w as int, rho as int, h as int);
    let (f1, f2) = (a1 as int, a2 as int);
    let (j1, j2) = (i1 as int, i2 as int);
    let (m1, m2) = (c1 as int, c2 as int);
    let (n, d, k) = ((n1 * (b1 * a2 * w)) as int, (n2 * (b2 * a1)) as int, k_div(i1, i2, rho > 0) as int);
    assert(n == x * f2 * wi) by (nonlinear_arith) requires n == n1 * (b1 * a2 * w), x == n1 * b1, f2 == a2, wi == w;
    assert(d == y * f1) by (nonlinear_arith) requires d == n2 * (b2 * a1), y == n2 * b2, f1 == a1;
    assert(x > 0 && y > 0 && a > 0) by (nonlinear_arith) requires x == n1 * b1, y == n2 * b2, n1 > 0, b1 > 0, n2 > 0, b2 > 0, a == a1 * a2, a1 > 0, a2 > 0;
    assert(n > 0) by (nonlinear_arith) requires n == x * f2 * wi, x > 0, f2 > 0, wi > 0;
    assert(d > 0) by (nonlinear_arith) requires d == y * f1, y > 0, f1 > 0;
    // n - c d == rho a - e1 f2 w + c e2 f1
    let (t1, t2, t3) = (ri * a, e1 * f2 * wi, ci * e2 * f1);
    assert(x * f2 * wi == (m1 * wi) * a - t2) by (nonlinear_arith) requires x == m1 * f1 - e1, t2 == e1 * f2 * wi, a == f1 * f2;
    assert((m1 * wi) * a == (ci * m2) * a + t1) by (nonlinear_arith) requires m1 * wi == ci * m2 + ri, t1 == ri * a;
    assert(ci * d == (ci * m2) * a - t3) by (nonlinear_arith) requires d == y * f1, y == m2 * f2 - e2, t3 == ci * e2 * f1, a == f1 * f2;
    let dd = n - ci * d;
    assert(dd == t1 - t2 + t3);
    // y against f2
    assert(2 * y >= (2 * m2 - 1) * f2) by (nonlinear_arith) requires y == m2 * f2 - e2, 2 * e2 <= j2 * f2, j2 <= 1, f2 > 0;
    assert(2 * d >= (2 * m2 - 1) * a) by (nonlinear_arith) requires d == y * f1, 2 * y >= (2 * m2 - 1) * f2, f1 > 0, a == f1 * f2;
    // rho
    assert(0 <= t1) by (nonlinear_arith) requires t1 == ri * a, ri >= 0, a > 0;
    assert(t1 < d) by (nonlinear_arith) requires t1 == ri * a, ri <= m2 - 1, 2 * d >= (2 * m2 - 1) * a, a > 0;
    if ri == 0 { assert(t1 == 0) by (nonlinear_arith) requires t1 == ri * a, ri == 0; }
    // e1
    let fw = f2 * wi;
    assert(fw > 0) by (nonlinear_arith) requires fw == f2 * wi, f2 > 0, wi > 0;
    assert(t2 == e1 * fw) by (nonlinear_arith) requires t2 == e1 * f2 * wi, fw == f2 * wi;
    abs_mul(2 * e1, fw, j1 * f1, fw);
    assert((2 * e1) * fw == 2 * t2) by (nonlinear_arith) requires t2 == e1 * fw;
    if j1 == 0 {
        assert((j1 * f1) * fw == 0) by (nonlinear_arith) requires j1 == 0;
        assert(t2 == 0);
    } else {
        assert((j1 * f1) * fw == wi * a) by (nonlinear_arith) requires j1 == 1, fw == f2 * wi, a == f1 * f2;
        assert(2 * mabs(t2) <= wi * a);
        assert(wi * a < (2 * m2 - 1) * a) by (nonlinear_arith) requires wi < 2 * m2 - 1, a > 0;
        assert(mabs(t2) < d);
    }
    // e2
    let cf = ci * f1;
    assert(cf >= 0) by (nonlinear_arith) requires cf == ci * f1, ci >= 0, f1 > 0;
    assert(t3 == cf * e2) by (nonlinear_arith) requires t3 == ci * e2 * f1, cf == ci * f1;
    abs_mul(cf, 2 * e2, cf, j2 * f2);
    assert(cf * (2 * e2) == 2 * t3) by (nonlinear_arith) requires t3 == cf * e2;
    if j2 == 0 {
        assert(cf * (j2 * f2) == 0) by (nonlinear_arith) requires j2 == 0;
        assert(t3 == 0);
    } else {
        assert(cf * (j2 * f2) == ci * a) by (nonlinear_arith) requires j2 == 1, cf == ci * f1, a == f1 * f2;
        assert(ci * a <= (2 * m2 - 1) * a) by (nonlinear_arith) requires ci <= 2 * m2 - 1, a > 0;
        assert(mabs(t3) <= d);
    }
    if k == 0 { assert(dd == 0); }
    if k == 1 { assert(k * d == d) by (nonlinear_arith) requires k == 1; }
    if k == 2 { assert(k * d == d + d) by (nonlinear_arith) requires k == 2; }
    if k == 3 { assert(k * d == d + d + d) by (nonlinear_arith) requires k == 3; }
    if k == 4 { assert(k * d == d + d + d + d) by (nonlinear_arith) requires k == 4; }
}

/// bits above b and the class of the rest do not change within k of c
pub proof fn certify(n: nat, d: nat, c: nat, k: nat, b: nat, t: nat)
    requires near(n, d, c, k), k <= c % pow2(b), k <= pow2(b) - c % pow2(b), t > b
    ensures d * pow2(t) > 0, n / (d * pow2(t)) == c / pow2(t), loss_of(n % (d * pow2(t)), d * pow2(t)) == loss_of(c % pow2(t), pow2(t))
{
    reveal(near);
    lemma_pow2_pos(b);
    lemma_pow2_pos(t);
    if k == 0 {
        lemma_mul_is_commutative(d as int, pow2(t) as int);
        cut_scale(c, pow2(t), d);
    } else {
        let (w, ni, di, ci, ki) = (pow2(b) as int, n as int, d as int, c as int, k as int);
        div_mod_id(ci, w);
        let (g, r) = (ci / w, ci % w);
        let x = di * w;
        assert(x > 0) by (nonlinear_arith) requires x == di * w, di > 0, w > 0;
        let rr = ni - g * x;
        assert(ci * di == g * x + r * di) by (nonlinear_arith) requires ci == g * w + r, x == di * w;
        assert((r - ki) * di >= 0) by (nonlinear_arith) requires r >= ki, di > 0;
        assert((w - r - ki) * di >= 0) by (nonlinear_arith) requires w - r >= ki, di > 0;
        assert((r - ki) * di == r * di - ki * di && (w - r - ki) * di == x - r * di - ki * di) by (nonlinear_arith) requires x == di * w;
        assert(0 < rr < x);
        div_unique(ni, x, g, rr);
        cut_twice(n, (d * pow2(b)) as nat, (t - b) as nat);
        cut_twice(c, pow2(b), (t - b) as nat);
        pow2_add(b, (t - b) as nat);
        lemma_mul_is_associative(d as int, pow2(b) as int, pow2((t - b) as nat) as int);
        assert(rr > 0 && r > 0);
    }
}

/// the rounding of the approximation is the rounding of the number
pub proof fn certified(f: Fm, num: nat, den: nat, e: int, a: nat, b: nat, c: nat, k: nat, bb: nat, t: nat, x: int, rm: Round)
    requires wff(f), num > 0, den > 0, near(num * pow2(a), den * pow2(b), c, k), k <= c % pow2(bb), k <= pow2(bb) - c % pow2(bb), t > bb,
        c > 0, x == e - a + b + t,
        x == qmin(f) || blen(c) == t + f.p
    ensures rnd(f, false, num, den, e, rm) == norm(f, false, c / pow2(t), x, loss_of(c % pow2(t), pow2(t)), rm)
{
    let (n, d) = (num * pow2(a), den * pow2(b));
    certify(n, d, c, k, bb, t);
    reveal(near);
    lemma_pow2_pos(t);
    pow2_add(b, t);
    lemma_mul_is_associative(den as int, pow2(b) as int, pow2(t) as int);
    assert(d * pow2(t) == den * pow2(b + t));
    blen_shr(c, t);
    if n < d * pow2(t) {
        lemma_basic_div(n as int, (d * pow2(t)) as int);
        blen0();
    }
    norm_cut(f, false, n, d * pow2(t), x, rm);
    rnd_shift(f, false, num, den, e, rm, a, b + t);
}

pub proof fn q_range(q: int, f: int, p: int)
    requires 0 < q * p < f * p, p > 0
    ensures 0 < q < f
{
    if q <= 0 { assert(q * p <= 0) by (nonlinear_arith) requires q <= 0, p > 0; }
    if q >= f { assert(q * p >= f * p) by (nonlinear_arith) requires q >= f, p > 0; }
}

pub proof fn mult_w(z: int, q: int, dl: int, f: int, gu: int, w: int, c: int, dv: int, y: int)
    requires q == dv * w - c * f, dl == gu * w - c, z == q - dl * f, y == dv - gu * f
    ensures z == y * w
{
    lemma_mul_is_distributive_sub_other_way(f, gu * w, c);
    lemma_mul_is_distributive_sub_other_way(w, dv, gu * f);
    assert((gu * w) * f == (gu * f) * w) by { lemma_mul_is_associative(gu, w, f); lemma_mul_is_associative(gu, f, w); lemma_mul_is_commutative(w, f); }
}

pub proof fn small_mult(z: int, y: int, w: int)
    requires z == y * w, mabs(z) < w
    ensures z == 0
{
    if y >= 1 { assert(y * w >= w) by (nonlinear_arith) requires y >= 1, w > 0; }
    if y <= -1 { assert(y * w <= -w) by (nonlinear_arith) requires y <= -1, w > 0; }
    if y == 0 { assert(0 * w == 0); }
}

pub proof fn not_mult(q: int, x: int, f: int)
    requires q == x * f, 0 < q < f
    ensures false
{ small_mult(q, x, f); }

/// a remainder so small that the quotient would be in doubt means that there is none
pub proof fn div_far(dg: nat, fv: nat, x1: nat, x2: nat, j: nat, b: nat, bf: nat, m: nat, c: nat, rho: nat, g: nat)
    requires (dg * pow2(x1)) * pow2(j) == c * (fv * pow2(x2)) + rho, rho < fv * pow2(x2), rho > 0, m <= b, m + x2 <= x1 + j, fv < pow2(bf), m >= bf + 129
    ensures mabs(c - g * pow2(b)) > pow2(128)
{
    if mabs(c - g * pow2(b)) <= pow2(128) {
        let (dl, w, p2, fi, gi, ci, ri) = (g * pow2(b) - c, pow2(m) as int, pow2(x2) as int, fv as int, g as int, c as int, rho as int);
        lemma_pow2_pos(m);
        lemma_pow2_pos(x2);
        lemma_pow2_pos(bf);
        let (u, v) = (pow2((b - m) as nat) as int, pow2((x1 + j - m - x2) as nat) as int);
        pow2_add((b - m) as nat, m);
        pow2_add(x1, j);
        pow2_add((x1 + j - m - x2) as nat, m);
        pow2_add((x1 + j - x2) as nat, x2);
        let di = dg as int;
        let dv = di * v;
        let (aa, bbq) = (dv * w, ci * fi);
        let q = aa - bbq;
        assert((dg * pow2(x1)) * pow2(j) == di * (pow2(x1) * pow2(j))) by { lemma_mul_is_associative(di, pow2(x1) as int, pow2(j) as int); }
        assert(pow2(x1 + j) == (v * w) * p2);
        assert(pow2(b) == u * w);
        assert(di * ((v * w) * p2) == aa * p2) by {
            lemma_mul_is_associative(di, v * w, p2);
            lemma_mul_is_associative(di, v, w);
        }
        assert(ci * (fi * p2) == bbq * p2) by { lemma_mul_is_associative(ci, fi, p2); }
        assert(ri == q * p2) by { lemma_mul_is_distributive_sub_other_way(p2, aa, bbq); }
        q_range(q, fi, p2);
        // q - dl f is a multiple of w ... and small
        let gu = gi * u;
        let y = dv - gu * fi;
        let z = q - dl * fi;
        assert(dl == gu * w - ci) by { lemma_mul_is_associative(gi, u, w); }
        mult_w(z, q, dl, fi, gu, w, ci, dv, y);
        abs_mul(dl, fi, pow2(128) as int, fi);
        p128();
        assert(mabs(z) < (pow2(128) + 1) * fi) by (nonlinear_arith) requires 0 < q < fi, mabs(dl * fi) <= pow2(128) * fi, z == q - dl * fi;
        pow2_add(129, bf);
        pow2_le(129 + bf, m);
        pow2_half(129);
        assert((pow2(128) + 1) * fi <= pow2(129) * pow2(bf)) by (nonlinear_arith) requires pow2(128) + 1 <= pow2(129), 0 <= fi <= pow2(bf), pow2(128) > 0;
        assert(mabs(z) < w);
        small_mult(z, y, w);
        not_mult(q, dl, fi);
    }
}

// ---- the same number written in another way ---------------------------------------------------------

/// a number and its approximation with top exponent e and precision pr
pub open spec fn apxe(n: nat, pr: nat, c: nat, e: int, i: nat) -> bool {
    apx(n, pow2(posn(e - (pr - 1))), pow2(posn(-(e - (pr - 1)))), pow2((pr - 1) as nat), c, i)
}

/// num / den * 2^e is c * 2^(x - (pr - 1)), up to less than k units
#[verifier::opaque]
pub open spec fn approx(num: nat, den: nat, e: int, pr: nat, c: nat, x: int, k: nat) -> bool {
    exists|a: nat, b: nat| #[trigger] near(num * pow2(a), den * pow2(b), c, k) && x - (pr - 1) == e - a + b
}

/// a product
pub proof fn dec_mul(n1: nat, c1: nat, e1: int, i1: nat, n2: nat, c2: nat, e2: int, i2: nat, pr: nat, c: nat, rho: nat, s: nat, de: int)
    requires pr > 1, apxe(n1, pr, c1, e1, i1), apxe(n2, pr, c2, e2, i2), c1 * c2 == c * pow2(s) + rho, rho < pow2(s), s + 1 >= pr
    ensures n1 * n2 > 0, approx(n1 * n2, 1, de, pr, c, e1 + e2 + de + 1 - pr + s, k_mul(i1, i2, rho > 0))
{
    reveal(approx);
    let (s1, s2) = (e1 - (pr - 1), e2 - (pr - 1));
    let (a1, b1, a2, b2) = (posn(s1), posn(-s1), posn(s2), posn(-s2));
    let h = pow2((pr - 1) as nat);
    lemma_pow2_pos((pr - 1) as nat);
    pow2_le((pr - 1) as nat, s);
    mul_err(n1, pow2(a1), pow2(b1), c1, i1, n2, pow2(a2), pow2(b2), c2, i2, h, pow2(s), c, rho);
    pow2_add(b1, b2);
    pow2_add(a1, a2);
    pow2_add(s, a1 + a2);
    reveal(apx);
    lemma_mul_strictly_positive(n1 as int, n2 as int);
    assert(1 * pow2(s + (a1 + a2)) == pow2(s + (a1 + a2)));
    assert(near((n1 * n2) * pow2(b1 + b2), 1 * pow2(s + (a1 + a2)), c, k_mul(i1, i2, rho > 0)));
}

/// a quotient
pub proof fn dec_div(n1: nat, c1: nat, e1: int, i1: nat, n2: nat, c2: nat, e2: int, i2: nat, pr: nat, c: nat, rho: nat, de: int)
    requires pr > 2, apxe(n1, pr, c1, e1, i1), apxe(n2, pr, c2, e2, i2), c < pow2(pr), rho < c2,
        c1 * pow2(if c1 < c2 { pr } else { (pr - 1) as nat }) == c * c2 + rho,
    ensures n1 > 0, n2 > 0, approx(n1, n2, de, pr, c, e1 + de - e2 - (if c1 < c2 { 1int } else { 0 }), k_div(i1, i2, rho > 0))
{
    reveal(approx);
    let (s1, s2) = (e1 - (pr - 1), e2 - (pr - 1));
    let (a1, b1, a2, b2) = (posn(s1), posn(-s1), posn(s2), posn(-s2));
    let j = if c1 < c2 { pr } else { (pr - 1) as nat };
    let h = pow2((pr - 1) as nat);
    pow2_half(pr);
    p128();
    pow2_le(1, (pr - 1) as nat);
    div_err(n1, pow2(a1), pow2(b1), c1, i1, n2, pow2(a2), pow2(b2), c2, i2, h, pow2(j), c, rho);
    pow2_add(b1, a2);
    pow2_add(b1 + a2, j);
    pow2_add(b2, a1);
    reveal(apx);
    assert(near(n1 * pow2(b1 + a2 + j), n2 * pow2(b2 + a1), c, k_div(i1, i2, rho > 0)));
}

/// the rounding of the approximation is the rounding of the number
pub proof fn accept(f: Fm, num: nat, den: nat, e: int, pr: nat, c: nat, x: int, k: nat, bb: nat, t: nat, y: int, rm: Round)
    requires wff(f), num > 0, den > 0, c > 0, approx(num, den, e, pr, c, x, k), k <= c % pow2(bb), k <= pow2(bb) - c % pow2(bb), t > bb,
        y == x - (pr - 1) + t, y == qmin(f) || blen(c) == t + f.p
    ensures rnd(f, false, num, den, e, rm) == norm(f, false, c / pow2(t), y, loss_of(c % pow2(t), pow2(t)), rm)
{
    reveal(approx);
    let (a, b) = choose|a: nat, b: nat| #[trigger] near(num * pow2(a), den * pow2(b), c, k) && x - (pr - 1) == e - a + b;
    certified(f, num, den, e, a, b, c, k, bb, t, y, rm);
}

pub proof fn rnd_scale(f: Fm, sign: bool, num: nat, den: nat, e: int, g: nat, rm: Round)
    requires den > 0, g > 0
    ensures den * g > 0, rnd(f, sign, num * g, den * g, e, rm) == rnd(f, sign, num, den, e, rm)
{
    reveal(rnd);
    lemma_mul_strictly_positive(den as int, g as int);
    if num > 0 {
        lemma_mul_strictly_positive(num as int, g as int);
        let j = flog(num, den);
        flog_bounds(num, den);
        scale_cut(num, den, g, j);
        scale_cut(num, den, g, j + 1);
        flog_in(num * g, den * g, j);
        let u = unit(f, j + e);
        scale_cut(num, den, g, u - e);
    }
}

pub proof fn scale_cut(num: nat, den: nat, g: nat, k: int)
    requires den > 0, g > 0
    ensures cut_n(num * g, k) == cut_n(num, k) * g, cut_d(den * g, k) == cut_d(den, k) * g, cut_d(den, k) > 0,
        cut_q(num * g, den * g, k) == cut_q(num, den, k), cut_l(num * g, den * g, k) == cut_l(num, den, k),
        (cut_n(num * g, k) >= cut_d(den * g, k)) == (cut_n(num, k) >= cut_d(den, k))
{
    let (a, b) = (pow2(posn(-k)) as int, pow2(posn(k)) as int);
    lemma_pow2_pos(posn(k));
    lemma_mul_strictly_positive(den as int, b);
    assert((num * g) * a == (num * a) * g) by (nonlinear_arith);
    assert((den * g) * b == (den * b) * g) by (nonlinear_arith);
    let (n, d) = (cut_n(num, k), cut_d(den, k));
    cut_scale(n, d, g);
    if n >= d { mul_le(d as int, n as int, g as int); } else { mul_lt(n as int, d as int, g as int); }
}

// ---- powers of five and ten -------------------------------------------------------------------------

pub open spec fn five(n: nat) -> nat { pow(5, n) as nat }
pub open spec fn ten(n: nat) -> nat { pow(10, n) as nat }

pub proof fn p10_pos(n: nat)
    ensures ten(n) > 0, ten(n) == pow(10, n), five(n) > 0, five(n) == pow(5, n)
{ lemma_pow_positive(10, n); lemma_pow_positive(5, n); }

pub proof fn p10_add(a: nat, b: nat)
    ensures ten(a + b) == ten(a) * ten(b)
{ lemma_pow_adds(10, a, b); p10_pos(a); p10_pos(b); p10_pos(a + b); }

pub proof fn p5_add(a: nat, b: nat)
    ensures five(a + b) == five(a) * five(b)
{ lemma_pow_adds(5, a, b); p10_pos(a); p10_pos(b); p10_pos(a + b); }

pub proof fn p10_split(n: nat)
    ensures ten(n) == five(n) * pow2(n)
{
    p10_pos(n);
    lemma_pow_distributes(5, 2, n);
    lemma_pow2(n);
}

pub proof fn p10_small()
    ensures ten(0) == 1, ten(1) == 10, five(0) == 1, five(1) == 5
{ lemma_pow0(10); lemma_pow1(10); lemma_pow0(5); lemma_pow1(5); }

/// 5^n < 2^(3 n), 10^n <= 2^(4 n)
pub proof fn p5_size(n: nat)
    ensures five(n) <= pow2(3 * n), ten(n) <= pow2(4 * n)
    decreases n
{
    p10_small();
    p128();
    if n > 0 {
        p5_size((n - 1) as nat);
        p5_add((n - 1) as nat, 1);
        p10_add((n - 1) as nat, 1);
        pow2_add((3 * (n - 1)) as nat, 3);
        pow2_add((4 * (n - 1)) as nat, 4);
        lemma2_to64();
        assert((3 * (n - 1)) as nat + 3 == 3 * n && (4 * (n - 1)) as nat + 4 == 4 * n);
        mul_le(five((n - 1) as nat) as int, pow2((3 * (n - 1)) as nat) as int, 8);
        mul_le(ten((n - 1) as nat) as int, pow2((4 * (n - 1)) as nat) as int, 16);
    }
}

/// m * 10^e, rounded once
pub open spec fn dec_rnd(f: Fm, neg: bool, m: nat, e: int, rm: Round) -> Out {
    if e >= 0 { rnd(f, neg, m * ten(e as nat), 1, 0, rm) } else { rnd(f, neg, m, ten((-e) as nat), 0, rm) }
}

/// with the powers of two apart
pub proof fn dec_rnd5(f: Fm, neg: bool, m: nat, e: int, rm: Round)
    ensures e >= 0 ==> dec_rnd(f, neg, m, e, rm) == rnd(f, neg, m * five(e as nat), 1, e, rm),
        e < 0 ==> dec_rnd(f, neg, m, e, rm) == rnd(f, neg, m, five((-e) as nat), e, rm)
{
    p128();
    if e >= 0 {
        let n = e as nat;
        p10_split(n);
        lemma_mul_is_associative(m as int, five(n) as int, pow2(n) as int);
        rnd_shift(f, neg, m * five(n), 1, e, rm, n, 0);
        assert(1 * pow2(0) == 1);
    } else {
        let n = (-e) as nat;
        p10_split(n);
        p10_pos(n);
        rnd_shift(f, neg, m, five(n), e, rm, 0, n);
        assert(m * pow2(0) == m) by (nonlinear_arith) requires pow2(0) == 1;
    }
}

/// trailing zeros
pub proof fn dec_zeros(f: Fm, neg: bool, m: nat, z: nat, e: int, rm: Round)
    ensures dec_rnd(f, neg, m * ten(z), e, rm) == dec_rnd(f, neg, m, e + z, rm)
{
    p10_pos(z);
    if e >= 0 {
        p10_add(z, e as nat);
        lemma_mul_is_associative(m as int, ten(z) as int, ten(e as nat) as int);
    } else if e + z < 0 {
        p10_add((-e - z) as nat, z);
        p10_pos((-e - z) as nat);
        rnd_scale(f, neg, m, ten((-e - z) as nat), 0, ten(z), rm);
    } else {
        let g = (-e) as nat;
        p10_add((e + z) as nat, g);
        p10_pos(g);
        lemma_mul_is_associative(m as int, ten((e + z) as nat) as int, ten(g) as int);
        rnd_scale(f, neg, m * ten((e + z) as nat), 1, 0, ten(g), rm);
        assert(1 * ten(g) == ten(g));
    }
}

// ---- 10^4004 and 2^13301 ----------------------------------------------------------------------------

pub proof fn ten_step(j: nat, m: nat, k: nat, odd: nat, nm: nat, dk: nat, w: nat)
    requires ten(j) >= m * pow2(k), odd <= 1, (if odd == 1 { 10nat } else { 1 }) * (m * m) >= nm * w, pow2(dk) == w
    ensures ten(2 * j + odd) >= nm * pow2(2 * k + dk)
{
    p10_add(j, j);
    p10_add(2 * j, odd);
    p10_small();
    pow2_add(k, k);
    pow2_add(2 * k, dk);
    let (x, y, q, mi) = (ten(j) as int, pow2(k) as int, (if odd == 1 { 10int } else { 1 }), m as int);
    p10_pos(j);
    lemma_pow2_pos(k);
    assert(x * x >= (mi * y) * (mi * y)) by (nonlinear_arith) requires x >= mi * y, mi * y >= 0;
    assert((mi * y) * (mi * y) == (mi * mi) * (y * y)) by (nonlinear_arith);
    assert(ten(2 * j + odd) == (x * x) * q) by { assert(ten(odd) == q); }
    let yy = y * y;
    assert(yy > 0) by (nonlinear_arith) requires yy == y * y, y > 0;
    assert((x * x) * q >= ((mi * mi) * yy) * q) by (nonlinear_arith) requires x * x >= (mi * mi) * yy, q > 0;
    assert(((mi * mi) * yy) * q == (q * (mi * mi)) * yy) by (nonlinear_arith);
    let (nmi, wi) = (nm as int, w as int);
    assert((q * (mi * mi)) * yy >= (nmi * wi) * yy) by (nonlinear_arith) requires q * (mi * mi) >= nmi * wi, yy > 0;
    assert((nmi * wi) * yy == nmi * (yy * wi)) by (nonlinear_arith);
}

pub proof fn two_pow()
    ensures pow2(0) == 1, pow2(3) == 8, pow2(99) == 633825300114114700748351602688, pow2(100) == 1267650600228229401496703205376, pow2(104) == 20282409603651670423947251286016
{
    lemma2_to64();
    pow2_add(64, 32);
    pow2_add(96, 3);
    pow2_add(96, 4);
    pow2_add(96, 8);
}

pub proof fn ten_4004()
    ensures ten(4004) >= pow2(13301)
{
    two_pow();
    p10_small();
    assert(10 * pow2(0) == 10);
    ten_step(1, 10, 0, 1, 1000, 0, 1);
    ten_step(3, 1000, 0, 1, 10000000, 0, 1);
    ten_step(7, 10000000, 0, 1, 1000000000000000, 0, 1);
    ten_step(15, 1000000000000000, 0, 1, 1250000000000000000000000000000, 3, 8);
    ten_step(31, 1250000000000000000000000000000, 3, 0, 1232595164407830945955825883254, 100, 1267650600228229401496703205376);
    ten_step(62, 1232595164407830945955825883254, 106, 1, 749068216750751732344935906216, 104, 20282409603651670423947251286016);
    ten_step(125, 749068216750751732344935906216, 316, 0, 885264746050890452933997104795, 99, 633825300114114700748351602688);
    ten_step(250, 885264746050890452933997104795, 731, 0, 1236450596811850795381889214509, 99, 633825300114114700748351602688);
    ten_step(500, 1236450596811850795381889214509, 1561, 1, 753761563952013440900998488517, 104, 20282409603651670423947251286016);
    ten_step(1001, 753761563952013440900998488517, 3226, 0, 896392894365519396959933745342, 99, 633825300114114700748351602688);
    ten_step(2002, 896392894365519396959933745342, 6551, 0, 633865688955873510746580806535, 100, 1267650600228229401496703205376);
    pow2_add(13202, 99);
    assert(pow2(99) <= 633865688955873510746580806535);
    mul_le(pow2(99) as int, 633865688955873510746580806535, pow2(13202) as int);
    lemma_mul_is_commutative(pow2(13202) as int, pow2(99) as int);
}

pub proof fn pow_base(a: nat, b: nat, n: nat)
    requires a < b, n > 0
    ensures pow(a as int, n) < pow(b as int, n)
    decreases n
{
    lemma_pow1(a as int);
    lemma_pow1(b as int);
    if n > 1 {
        let m = (n - 1) as nat;
        pow_base(a, b, m);
        lemma_pow_adds(a as int, m, 1);
        lemma_pow_adds(b as int, m, 1);
        lemma_pow_positive(b as int, m);
        let (x, y) = (pow(a as int, m), pow(b as int, m));
        assert(x >= 0) by { if a == 0 { lemma0_pow(m); } else { lemma_pow_positive(a as int, m); } }
        assert(x * a < y * b) by (nonlinear_arith) requires 0 <= x < y, 0 <= a < b;
    }
}

pub proof fn pow_base_le(a: nat, b: nat, n: nat)
    requires a <= b
    ensures pow(a as int, n) <= pow(b as int, n)
{
    if n == 0 { lemma_pow0(a as int); lemma_pow0(b as int); } else if a < b { pow_base(a, b, n); }
}

/// 2^m <= 10^k
pub proof fn ten_two(k: nat, m: nat)
    requires 4004 * m <= 13301 * k
    ensures pow2(m) <= ten(k)
{
    ten_4004();
    p10_pos(k);
    p10_pos(4004);
    if pow2(m) > ten(k) {
        pow_base(ten(k), pow2(m), 4004);
        lemma_pow_multiplies(10, k, 4004);
        lemma_pow_multiplies(10, 4004, k);
        lemma_pow_multiplies(2, m, 4004);
        lemma_pow_multiplies(2, 13301, k);
        lemma_pow2(m);
        lemma_pow2(13301);
        lemma_pow2(13301 * k);
        lemma_pow2(m * 4004);
        pow2_le(m * 4004, 13301 * k);
        pow_base_le(pow2(13301), ten(4004), k);
        assert(k * 4004 == 4004 * k);
    }
}

// ---- out of reach of the format ---------------------------------------------------------------------

pub proof fn rnd_over(f: Fm, s: bool, num: nat, den: nat, rm: Round)
    requires wff(f), f.qn < pow2(f.p), den > 0, num >= den * pow2((f.hi + 1) as nat)
    ensures rnd(f, s, num, den, 0, rm) == overflow(f, s, rm)
{
    let w = pow2((f.hi + 1) as nat);
    lemma_pow2_pos((f.hi + 1) as nat);
    lemma_mul_strictly_positive(den as int, w as int);
    lemma_mul_is_commutative(den as int, w as int);
    let m = num / den;
    div_ge(num as int, den as int, w as int);
    blen_mono(w, m);
    pow2_lt((f.hi + 1) as nat, (f.hi + 2) as nat);
    blen_unique(w, (f.hi + 2) as nat);
    blen0();
    assert(num >= den) by { lemma_mul_increases(w as int, den as int); }
    norm_cut(f, s, num, den, 0, rm);
    let l = loss_of(num % den, den);
    norm_steps(f, s, m, 0, l, rm);
    nz_size(f, m, 0);
    let u = unit(f, blen(m) - 1);
    finish_cases(f, s, nz_q(m, 0, u), u, nz_l(m, 0, u, l), rm);
}

pub proof fn rnd_under(f: Fm, num: nat, den: nat, rm: Round)
    requires wff(f), f.qn < pow2(f.p), den > 0, num > 0, num * pow2((f.p - f.lo) as nat) < den
    ensures rnd(f, false, num, den, 0, rm) == (Out { st: st_unf(), v: if rm == Round::TowardPositive { smallest_d(f, false) } else { zero_d(f, false) } })
{
    let a = (f.p - f.lo - 1) as nat;
    p128();
    rnd_shift(f, false, num, den, 0, rm, a, 0);
    assert(den * pow2(0) == den) by (nonlinear_arith) requires pow2(0) == 1;
    let n = num * pow2(a);
    pow2_add(a, 1);
    lemma_mul_is_associative(num as int, pow2(a) as int, 2);
    assert(2 * n < den);
    lemma_pow2_pos(a);
    lemma_mul_strictly_positive(num as int, pow2(a) as int);
    lemma_basic_div(n as int, den as int);
    lemma_small_mod(n, den);
    norm_cut(f, false, n, den, qmin(f), rm);
    reveal(norm);
    reveal(finish);
    assert(loss_of(n % den, den) == Loss::LessThanHalf);
    pow2_lt(1, (f.p - 1) as nat);
    pow2_lt(0, f.p);
    pow2_lt((f.p - 1) as nat, f.p);
}

/// the first test of the code: d has nd digits
pub proof fn dec_over(f: Fm, d: nat, nd: nat, e: int, rm: Round)
    requires wff(f), f.qn < pow2(f.p), nd > 0, ten((nd - 1) as nat) <= d, (e + nd - 2) * 42039 >= 12655 * f.hi
    ensures dec_rnd(f, false, d, e, rm) == overflow(f, false, rm)
{
    let x = e + nd - 1;
    let (h, xi) = (f.hi, x);
    assert(13301 * (42039 * (x - 1)) == 42039 * (13301 * (x - 1)));
    assert(13301 * 12655 == 4004 * 42039 - 1);
    assert(42039 * (13301 * (x - 1)) >= 42039 * (4004 * h) - h);
    assert(13301 * (x - 1) >= 4004 * h);
    ten_two(x as nat, (h + 1) as nat);
    let w = pow2((h + 1) as nat);
    let (di, wi) = (d as int, w as int);
    if e >= 0 {
        let g = ten(e as nat) as int;
        p10_pos(e as nat);
        p10_add((nd - 1) as nat, e as nat);
        assert(di * g >= ten((nd - 1) as nat) * g) by (nonlinear_arith) requires di >= ten((nd - 1) as nat), g > 0;
        assert(1 * wi == wi);
        rnd_over(f, false, d * ten(e as nat), 1, rm);
    } else {
        let g = ten((-e) as nat) as int;
        p10_pos((-e) as nat);
        p10_add(x as nat, (-e) as nat);
        assert((x as nat + (-e) as nat) as nat == (nd - 1) as nat);
        assert(g * wi <= ten(x as nat) * g) by (nonlinear_arith) requires wi <= ten(x as nat), g > 0;
        rnd_over(f, false, d, ten((-e) as nat), rm);
    }
}

/// the second
pub proof fn dec_under(f: Fm, d: nat, nd: nat, e: int, rm: Round)
    requires wff(f), f.qn < pow2(f.p), nd > 0, 0 < d < ten(nd), (e + nd) * 28738 <= 8651 * (f.lo - f.p)
    ensures dec_rnd(f, false, d, e, rm) == (Out { st: st_unf(), v: if rm == Round::TowardPositive { smallest_d(f, false) } else { zero_d(f, false) } })
{
    let k = -(e + nd);
    let m = f.p - f.lo;
    assert(13301 * 8651 == 4004 * 28738 - 1);
    assert(13301 * (28738 * k) == 28738 * (13301 * k));
    assert(28738 * (13301 * k) >= 28738 * (4004 * m) - m);
    assert(13301 * k >= 4004 * m);
    ten_two(k as nat, m as nat);
    p10_pos(k as nat);
    p10_add(nd, k as nat);
    assert(nd + k as nat == (-e) as nat);
    let (di, w, t, u) = (d as int, pow2(m as nat) as int, ten(k as nat) as int, ten(nd) as int);
    assert(di * w <= di * t) by (nonlinear_arith) requires w <= t, di > 0;
    assert(di * t < u * t) by (nonlinear_arith) requires di < u, t > 0;
    p10_pos((-e) as nat);
    rnd_under(f, d, ten((-e) as nat), rm);
}
