@module ddx sig rnd flt nrm arith mag cmpm scale ops sem
@raw
// ---- doubles as integers, in units of the least subnormal ------------------------------------------

pub type SD = FmtDoubleS;
pub type DD = DoubleFloat<IeeeFloat<FmtDoubleS>>;
pub open spec fn fd() -> Fm { fm::<SD>() }
pub open spec fn finite(d: Dat) -> bool { d.cat == Category::Normal || d.cat == Category::Zero }
/// a finite double in units of the least subnormal
pub open spec fn dv(d: Dat) -> int { sg(d.sign, mag(fd(), d)) }

pub proof fn facts()
    ensures wfs::<SD>(), wff(fd()), fd().p == 53, fd().lo == -1022, fd().hi == 1023, !fd().no_inf, pow2(52) == 0x10_0000_0000_0000, pow2(53) == 0x20_0000_0000_0000,
        SD::BITS == 64, SD::PRECISION == 53, fd().qn < pow2(fd().p), pow2(0) == 1, pow2(1) == 2
{
    wfs_DoubleS();
    consts_DoubleS();
    wfs_basic::<SD>();
    reveal(wfs);
    lemma2_to64();
    one_shl(52); one_shl(53);
    assert(1u128 << 52u128 == 0x10_0000_0000_0000 && 1u128 << 53u128 == 0x20_0000_0000_0000) by (bit_vector);
}

pub open spec fn ab(x: int) -> int { if x < 0 { -x } else { x } }
pub spec const P53: int = 0x20_0000_0000_0000;
/// y is m * 2^j
pub open spec fn is_at(y: int, m: int, j: nat) -> bool { y == m * pow2(j) }
pub open spec fn mult(y: int, j: nat) -> bool { exists|m: int| is_at(y, m, j) }
/// y has at most 53 significant bits
pub open spec fn rep(y: int) -> bool { exists|m: int, j: nat| #[trigger] is_at(y, m, j) && ab(m) < P53 }
/// r is x rounded to a nearest number of 53 bits; 2^k is the unit of x
pub open spec fn rn_at(x: int, r: int, k: nat) -> bool {
    &&& mult(r, k)
    &&& 2 * ab(r - x) <= pow2(k)
    &&& ab(x) < P53 * pow2(k)
    &&& k == 0 || 2 * ab(x) >= P53 * pow2(k)
}
pub open spec fn rn(x: int, r: int) -> bool { exists|k: nat| rn_at(x, r, k) }

pub proof fn mult_low(y: int, k: nat, j: nat)
    requires mult(y, k), j <= k
    ensures mult(y, j)
{
    let m = choose|m: int| is_at(y, m, k);
    let g = (k - j) as nat;
    pow2_add(g, j);
    lemma_mul_is_associative(m, pow2(g) as int, pow2(j) as int);
    assert(is_at(y, m * pow2(g), j));
}
pub proof fn mult_sum(x: int, y: int, j: nat)
    requires mult(x, j), mult(y, j)
    ensures mult(x + y, j), mult(x - y, j), mult(-x, j)
{
    let (a, b, t) = (choose|m: int| is_at(x, m, j), choose|m: int| is_at(y, m, j), pow2(j) as int);
    assert(a * t + b * t == (a + b) * t && a * t - b * t == (a - b) * t && -(a * t) == (-a) * t) by (nonlinear_arith);
    assert(is_at(x + y, a + b, j) && is_at(x - y, a - b, j) && is_at(-x, -a, j));
}
pub proof fn rep_of(y: int, j: nat)
    requires mult(y, j), ab(y) < P53 * pow2(j)
    ensures rep(y)
{
    let (m, t) = (choose|m: int| is_at(y, m, j), pow2(j) as int);
    lemma_pow2_pos(j);
    assert(ab(m) < P53) by (nonlinear_arith) requires y == m * t, ab(y) < P53 * t, t > 0;
    assert(is_at(y, m, j));
}
/// the exponent of a number of 53 bits
pub proof fn rep_exp(y: int) -> (j: nat)
    requires rep(y)
    ensures mult(y, j), ab(y) < P53 * pow2(j)
{
    let (m, j) = choose|m: int, j: nat| #[trigger] is_at(y, m, j) && ab(m) < P53;
    let t = pow2(j) as int;
    lemma_pow2_pos(j);
    assert(ab(y) < P53 * t) by (nonlinear_arith) requires y == m * t, ab(m) < P53, t > 0;
    j
}
pub proof fn rep_neg(y: int)
    requires rep(y)
    ensures rep(-y)
{
    let j = rep_exp(y);
    mult_sum(y, y, j);
    rep_of(-y, j);
}
pub proof fn rn_neg(x: int, r: int)
    requires rn(x, r)
    ensures rn(-x, -r)
{
    let k = choose|k: nat| rn_at(x, r, k);
    mult_sum(r, r, k);
    assert(rn_at(-x, -r, k));
}
/// different multiples of a unit are at least the unit apart
pub proof fn apart(x: int, y: int, k: nat)
    requires mult(x, k), mult(y, k), x != y
    ensures ab(x - y) >= pow2(k)
{
    let (a, b, t) = (choose|m: int| is_at(x, m, k), choose|m: int| is_at(y, m, k), pow2(k) as int);
    lemma_pow2_pos(k);
    let d = a - b;
    assert(x - y == d * t) by (nonlinear_arith) requires x == a * t, y == b * t, d == a - b;
    assert(d != 0) by { assert(0 * t == 0); }
    if d > 0 { assert(d * t >= t) by (nonlinear_arith) requires d >= 1, t > 0; }
    else { assert(d * t <= -t) by (nonlinear_arith) requires d <= -1, t > 0; }
}
/// no number of 53 bits is nearer
pub proof fn rn_near(x: int, r: int, y: int)
    requires rn(x, r), rep(y)
    ensures ab(r - x) <= ab(y - x)
{
    let k = choose|k: nat| rn_at(x, r, k);
    let j = rep_exp(y);
    let w = pow2(k) as int;
    if mult(y, k) {
        if y != r { apart(y, r, k); }
    } else if k == 0 {
        p128();
    } else {
        // the power of two below x is between them
        if j >= k { mult_low(y, j, k); }
        pow2_half(k);
        pow2_le(j, (k - 1) as nat);
        let h = P53 / 2;
        let b = h * w;
        assert(P53 * pow2(j) <= P53 * (w / 2)) by (nonlinear_arith) requires pow2(j) <= w / 2, P53 == 0x20_0000_0000_0000int;
        assert(b == P53 * (w / 2)) by (nonlinear_arith) requires b == h * w, w == 2 * (w / 2), P53 == 2 * h;
        assert(is_at(b, h, k));
        assert(is_at(-b, -h, k)) by { assert(-(h * w) == (-h) * w) by (nonlinear_arith); }
        let c = if x < 0 { -b } else { b };
        assert(P53 * w == 2 * b) by (nonlinear_arith) requires b == h * w, P53 == 2 * h;
        if c != r { apart(c, r, k); }
    }
}
pub proof fn rn_exact(x: int, r: int)
    requires rn(x, r), rep(x)
    ensures r == x
{
    rn_near(x, r, x);
}
pub proof fn rn_rep(x: int, r: int)
    requires rn(x, r)
    ensures rep(r)
{
    let k = choose|k: nat| rn_at(x, r, k);
    let w = pow2(k) as int;
    lemma_pow2_pos(k);
    assert(is_at(P53 * w, P53, k));
    assert(is_at(-(P53 * w), -P53, k)) by { assert(-(P53 * w) == (-P53) * w) by (nonlinear_arith); }
    if ab(r) < P53 * w {
        rep_of(r, k);
    } else {
        if r > 0 && r != P53 * w { apart(r, P53 * w, k); }
        if r < 0 && r != -(P53 * w) { apart(r, -(P53 * w), k); }
        pow2_half(k + 1);
        let h = P53 / 2;
        assert(P53 * w == h * (2 * w) && -(P53 * w) == (-h) * (2 * w)) by (nonlinear_arith) requires P53 == 2 * h;
        assert(is_at(P53 * w, h, k + 1) && is_at(-(P53 * w), -h, k + 1));
    }
}
pub proof fn rn_self(x: int)
    requires rep(x)
    ensures rn(x, x)
{
    // take the unit of x: the largest k with 2|x| >= 2^53 2^k, or 0
    let j = rep_exp(x);
    rn_self_at(x, j);
}
pub proof fn rn_self_at(x: int, j: nat)
    requires mult(x, j), ab(x) < P53 * pow2(j)
    ensures rn(x, x)
    decreases j
{
    lemma_pow2_pos(j);
    if j == 0 || 2 * ab(x) >= P53 * pow2(j) {
        assert(rn_at(x, x, j));
    } else {
        pow2_half(j);
        let (w, v) = (pow2(j) as int, pow2((j - 1) as nat) as int);
        assert(P53 * w == 2 * (P53 * v)) by (nonlinear_arith) requires w == 2 * v;
        mult_low(x, j, (j - 1) as nat);
        rn_self_at(x, (j - 1) as nat);
    }
}
/// rounding does not cross a number of 53 bits
pub proof fn rn_mono(x: int, r: int, y: int)
    requires rn(x, r), rep(y)
    ensures y <= x ==> y <= r, y >= x ==> y >= r
{
    rn_near(x, r, y);
}
/// the error of a sum has at most 53 bits, and is no larger than either operand
pub proof fn err(a: int, b: int, s: int)
    requires rep(a), rep(b), rn(a + b, s)
    ensures rep(a + b - s), ab(a + b - s) <= ab(a), ab(a + b - s) <= ab(b)
{
    let x = a + b;
    rn_near(x, s, a);
    rn_near(x, s, b);
    let k = choose|k: nat| rn_at(x, s, k);
    let (i, j) = (rep_exp(a), rep_exp(b));
    let l = if i < j { i } else { j };
    mult_low(a, i, l); mult_low(b, j, l);
    mult_sum(a, b, l);
    if l <= k {
        mult_low(s, k, l);
        mult_sum(x, s, l);
        rep_of(x - s, l);
    } else {
        pow2_le(k, l);
        assert(P53 * pow2(k) <= P53 * pow2(l)) by (nonlinear_arith) requires pow2(k) <= pow2(l), P53 == 0x20_0000_0000_0000int;
        rep_of(x, l);
        rn_exact(x, s);
        assert(x - s == 0);
        p128();
        assert(is_at(0, 0, 0));
        rep_of(0, 0);
    }
}
/// numbers within a factor of two of each other have a difference of 53 bits
pub proof fn sterbenz(x: int, y: int)
    requires rep(x), rep(y), 0 <= x <= 2 * y, y <= 2 * x
    ensures rep(x - y)
{
    let (i, j) = (rep_exp(x), rep_exp(y));
    let l = if i < j { i } else { j };
    mult_low(x, i, l); mult_low(y, j, l);
    mult_sum(x, y, l);
    rep_of(x - y, l);
}
pub proof fn fast_pos(a: int, b: int, s: int)
    requires rep(a), rep(b), rn(a + b, s), a >= 0, ab(b) <= a
    ensures rep(s - a)
{
    let x = a + b;
    rn_rep(x, s);
    let i = rep_exp(a);
    if b >= 0 {
        // a <= s <= 2 a
        rn_mono(x, s, a);
        pow2_half(i + 1);
        let m = choose|m: int| is_at(a, m, i);
        let (t, t2) = (pow2(i) as int, pow2(i + 1) as int);
        lemma_pow2_pos(i);
        assert(2 * a == m * t2) by (nonlinear_arith) requires a == m * t, t2 == 2 * t;
        assert(is_at(2 * a, m, i + 1));
        assert(2 * a < P53 * t2) by (nonlinear_arith) requires a < P53 * t, t2 == 2 * t;
        rep_of(2 * a, i + 1);
        rn_mono(x, s, 2 * a);
        sterbenz(s, a);
    } else if 2 * -b >= a {
        rep_neg(b);
        sterbenz(a, -b);
        rn_exact(x, s);
    } else if i == 0 {
        p128();
        assert(is_at(x, x, 0));
        rep_of(x, 0);
        rn_exact(x, s);
    } else {
        let m = choose|m: int| is_at(a, m, i);
        pow2_half(i);
        let (t, h) = (pow2(i) as int, pow2((i - 1) as nat) as int);
        let y = m * h;
        assert(a == 2 * y) by (nonlinear_arith) requires a == m * t, t == 2 * h, y == m * h;
        assert(is_at(y, m, (i - 1) as nat));
        assert(y < P53 * h) by (nonlinear_arith) requires 2 * y < P53 * t, t == 2 * h;
        rep_of(y, (i - 1) as nat);
        rn_mono(x, s, y);
        rn_mono(x, s, a);
        sterbenz(a, s);
        rep_neg(a - s);
        assert(s - a == -(a - s));
    }
}
/// with the larger operand first, the rounded sum less that operand is exact
pub proof fn fast(a: int, b: int, s: int)
    requires rep(a), rep(b), rn(a + b, s), ab(b) <= ab(a)
    ensures rep(s - a)
{
    if a >= 0 { fast_pos(a, b, s); } else {
        rep_neg(a); rep_neg(b); rn_neg(a + b, s);
        assert(-(a + b) == (-a) + (-b));
        fast_pos(-a, -b, -s);
        rep_neg(-s - -a);
        assert(-(-s - -a) == s - a);
    }
}
/// Knuth's error of a sum, computed the way add_r does
pub proof fn two_sum(a: int, c: int, z: int, q: int, z1: int, q2: int, q3: int, zz: int)
    requires rep(a), rep(c), rn(a + c, z), rn(a - z, q), rn(q + c, z1), rn(q + z, q2), rn(q2 - a, q3), rn(z1 - q3, zz)
    ensures zz == a + c - z
{
    let d = a + c - z;
    err(a, c, z);
    rn_rep(a + c, z);
    rep_neg(a); rep_neg(c); rep_neg(d); rep_neg(z);
    let zero = 0int;
    p128();
    assert(is_at(0, 0, 0));
    assert(rep(0)) by { rep_of(0, 0); }
    if ab(c) <= ab(a) {
        fast(a, c, z);
        rep_neg(z - a);
        assert(-(z - a) == a - z);
        rn_exact(a - z, q);
        assert(q + c == d);
        rn_exact(q + c, z1);
        assert(q + z == a);
        rn_exact(q + z, q2);
        rn_exact(q2 - a, q3);
        rn_exact(z1 - q3, zz);
    } else {
        // -q is c - d, rounded
        rn_neg(a - z, q);
        let e = -q;
        assert(-(a - z) == c + -d);
        rn_rep(c + -d, e);
        err(c, -d, e);
        let ep = c - d - e;
        // z1: d + ep
        fast(c, -d, e);
        rep_neg(e - c);
        assert(q + c == -(e - c));
        rn_exact(q + c, z1);
        assert(z1 == d + ep);
        // q2: a + ep
        assert(q + z == a + ep);
        assert(rep(a + ep)) by {
            if ab(a) <= ab(z) {
                assert(-(a - z) == z + -a);
                fast(z, -a, e);
                rep_neg(e - z);
                assert(-(e - z) == a + ep);
            } else {
                // a + c is exact
                let x = a + c;
                rn_mono(x, z, a);
                rn_mono(x, z, -a);
                assert(ab(x) < ab(a));
                if a >= 0 { sterbenz(a, -c); assert(a - -c == x); } else { sterbenz(c, -a); assert(c - -a == x); }
                rn_exact(x, z);
                assert(c + -d == c);
                rn_exact(c + -d, e);
            }
        }
        rn_exact(q + z, q2);
        assert(q2 - a == ep);
        rn_exact(q2 - a, q3);
        assert(z1 - q3 == d);
        rn_exact(z1 - q3, zz);
    }
}

// ---- the operations of doubles as operations on integers ------------------------------------------------

pub open spec fn nearest(rm: Round) -> bool { rm == Round::NearestTiesToEven || rm == Round::NearestTiesToAway }
/// the rounding of an integer (in units of the least subnormal)
pub open spec fn rint_of(x: int, rm: Round) -> Dat { rnd(fd(), x < 0, iabs(x), 1, -1074, rm).v }
pub spec const TOP: nat = 2097;

pub proof fn dat_rep(d: Dat)
    requires finite(d), wfd(fd(), d)
    ensures rep(dv(d)), d.cat == Category::Zero <==> dv(d) == 0, dv(d) != 0 ==> d.sign == (dv(d) < 0)
{
    facts();
    p128();
    assert(is_at(0, 0, 0));
    if d.cat == Category::Zero { rep_of(0, 0); } else {
        mag_pos(fd(), d);
        let j = (d.exp - fd().lo) as nat;
        lemma_pow2_pos(j);
        let (m, t) = (d.m as int, pow2(j) as int);
        assert(m * t < P53 * t) by (nonlinear_arith) requires m < P53, t > 0;
        assert(is_at(m * t, m, j));
        rep_of(m * t, j);
        rep_neg(m * t);
    }
}

/// rounding to nearest in the format is rounding to 53 bits, or overflows
pub open spec fn rounded(n: nat, s: bool, o: Out) -> bool {
    &&& o.v.cat == Category::Normal && o.v.sign == s && wfd(fd(), o.v) && rn(n as int, mag(fd(), o.v) as int)
    &&& o.st == if mag(fd(), o.v) == n { Status::OK } else { Status::INEXACT }
}
pub proof fn rnd_any(s: bool, n: nat, rm: Round)
    requires nearest(rm), 0 < n < pow2((TOP + 1) as nat)
    ensures ({
        let o = rnd(fd(), s, n, 1, -1074, rm);
        rounded(n, s, o) || (n >= pow2(TOP) && o == (Out { st: st_ovf(), v: inf_d(fd(), s) }))
    })
{
    facts();
    let f = fd();
    p128();
    assert(qmin(f) == -1074);
    flog1(n);
    blen_bounds(n);
    blen_le(n, TOP);
    blen_le(n, (TOP + 1) as nat);
    pow2_le(53, TOP);
    let b = blen(n);
    if b <= 53 {
        blen_le(n, 53);
        lemma_pow2_pos((f.hi - f.lo) as nat);
        let (m, t) = (largest_d(f, false).m as int, pow2((f.hi - f.lo) as nat) as int);
        pow2_half((f.hi - f.lo) as nat);
        assert(m * t >= P53) by (nonlinear_arith) requires m == P53 - 1, t >= 2;
        assert(n * 1 == n);
        rnd_exact(f, s, n, -1074, rm);
        assert(is_at(n as int, n as int, 0));
        rep_of(n as int, 0);
        rn_self(n as int);
    } else {
        let k = (b - 53) as nat;
        let u = k - 1074;
        let w = pow2(k);
        lemma_pow2_pos(k);
        cut_size(f, n, 1, -1074);
        assert(unit(f, flog(n, 1) - 1074) == u);
        assert(cut_n(n, k as int) == n && cut_d(1, k as int) == w) by { assert(n * 1 == n && 1 * w == w); }
        let q = n / w;
        let l = loss_of(n % w, w);
        reveal(rnd);
        assert(rnd(f, s, n, 1, -1074, rm) == finish(f, s, q, u, l, rm));
        finish_cases(f, s, q, u, l, rm);
        lemma_fundamental_div_mod(n as int, w as int);
        lemma_mod_bound(n as int, w as int);
        assert(w * q == q * w) by (nonlinear_arith);
        pow2_add(52, k);
        pow2_add(53, k);
        let x = n as int;
        let (qi, wi) = (q as int, w as int);
        assert(P53 * w == 2 * pow2((b - 1) as nat)) by (nonlinear_arith) requires P53 == 2 * pow2(52), pow2((b - 1) as nat) == pow2(52) * w;
        assert(x < P53 * w && 2 * x >= P53 * w);
        let o = finish(f, s, q, u, l, rm);
        let r = o.v;
        if r.cat != Category::Normal { return; }
        assert((r.exp - f.lo) == k || (r.exp - f.lo) == k + 1);
        let m = if up(s, q % 2 == 1, l, rm) { q + 1 } else { q };
        assert((qi + 1) * wi == qi * wi + wi) by (nonlinear_arith);
        assert(m * wi == if m == q { qi * wi } else { qi * wi + wi });
        assert(mag(f, r) == m * w) by {
            if m == pow2(53) {
                pow2_half(k + 1);
                pow2_half(53);
                let (a, c) = (pow2(52) as int, pow2(k + 1) as int);
                assert(a * c == (2 * a) * wi) by (nonlinear_arith) requires c == 2 * wi;
            }
        }
        assert(is_at(m * wi, m as int, k));
        let rest = (n % w) as int;
        assert(x == qi * wi + rest);
        assert(m == q + 1 ==> 2 * rest >= w);
        assert(m == q ==> 2 * rest <= w);
        assert(mult(m * wi, k));
        assert(2 * ab(m * wi - x) <= wi);
        assert(rn_at(x, m * wi, k));
        st_facts();
        assert(l == Loss::ExactlyZero <==> rest == 0);
        assert((o.st == Status::OK) == (l == Loss::ExactlyZero));
    }
}

pub proof fn rnd_rn(s: bool, n: nat, rm: Round)
    requires nearest(rm), 0 < n < pow2(TOP)
    ensures rounded(n, s, rnd(fd(), s, n, 1, -1074, rm))
{
    pow2_lt(TOP, (TOP + 1) as nat);
    rnd_any(s, n, rm);
}

/// the least unit does not depend on how the number is written
pub proof fn int_of(x: int, y: int, g: nat, rm: Round)
    requires y != 0, x == y * pow2(g)
    ensures rnd(fd(), y < 0, iabs(y), 1, g - 1074, rm).v == rint_of(x, rm)
{
    let w = pow2(g) as int;
    lemma_pow2_pos(g);
    p128();
    assert((x < 0) == (y < 0) && iabs(x) == iabs(y) * pow2(g)) by {
        if y < 0 {
            assert(y * w < 0 && -(y * w) == (-y) * w) by (nonlinear_arith) requires y < 0, w > 0;
        } else {
            assert(y * w > 0) by (nonlinear_arith) requires y > 0, w > 0;
        }
    }
    rnd_shift(fd(), y < 0, iabs(y), 1, g - 1074, rm, g, 0);
}

pub proof fn dat_int(d: Dat, rm: Round)
    requires wfd(fd(), d), d.cat == Category::Normal
    ensures rint_of(dv(d), rm) == d
{
    facts();
    p128();
    let g = (d.exp - fd().lo) as nat;
    rnd_same(fd(), d, rm);
    let y = sg(d.sign, d.m);
    let (m, w) = (d.m as int, pow2(g) as int);
    assert(-(m * w) == (-m) * w) by (nonlinear_arith);
    int_of(dv(d), y, g, rm);
}

/// the sum of doubles is the rounding of the sum of the integers
pub proof fn add_rn(a: Dat, b: Dat, rm: Round)
    requires nearest(rm), wfd(fd(), a), wfd(fd(), b), finite(a), finite(b), ab(dv(a)) + ab(dv(b)) < pow2(TOP)
    ensures ({
        let r = add_spec::<SD>(a, b, rm).v;
        let x = dv(a) + dv(b);
        &&& wfd(fd(), r) && finite(r) && rn(x, dv(r))
        &&& x != 0 ==> r == rint_of(x, rm)
        &&& x == 0 ==> r.cat == Category::Zero
    })
{
    facts();
    p128();
    let f = fd();
    let x = dv(a) + dv(b);
    let r = add_spec::<SD>(a, b, rm).v;
    dat_rep(a); dat_rep(b);
    assert(is_at(0, 0, 0));
    rep_of(0, 0);
    rn_self(0);
    if a.cat == Category::Normal { dat_int(a, rm); rn_self(dv(a)); }
    if b.cat == Category::Normal { dat_int(b, rm); rn_self(dv(b)); }
    if a.cat == Category::Normal && b.cat == Category::Normal {
        let k = imin(a.exp, b.exp);
        let g = (k - f.lo) as nat;
        let (i, j) = ((a.exp - k) as nat, (b.exp - k) as nat);
        pow2_add(i, g); pow2_add(j, g);
        let (ma, mb, pi, pj, w) = (a.m as int, b.m as int, pow2(i) as int, pow2(j) as int, pow2(g) as int);
        let s = sum_of(a, b);
        assert(ma * (pi * w) == (ma * pi) * w && mb * (pj * w) == (mb * pj) * w) by (nonlinear_arith);
        let (p, q) = (ma * pi, mb * pj);
        assert((p + q) * w == p * w + q * w && (p - q) * w == p * w - q * w && (-p) * w == -(p * w) && (-p - q) * w == -(p * w) - q * w && (q - p) * w == q * w - p * w) by (nonlinear_arith);
        assert(x == s * w);
        lemma_pow2_pos(g);
        if s == 0 { assert(0 * w == 0); } else {
            assert(x != 0) by (nonlinear_arith) requires x == s * w, s != 0, w > 0;
            int_of(x, s, g, rm);
            rnd_rn(x < 0, iabs(x), rm);
            if x < 0 { rn_neg(iabs(x) as int, mag(f, r) as int); }
        }
    }
}

pub open spec fn neg_d(d: Dat) -> Dat { signed(d, !d.sign) }
pub open spec fn within(d: Dat, n: nat) -> bool { wfd(fd(), d) && finite(d) && ab(dv(d)) <= pow2(n) }
pub open spec fn dplus(a: Dat, b: Dat, rm: Round) -> Dat { add_spec::<SD>(a, b, rm).v }
pub open spec fn dminus(a: Dat, b: Dat, rm: Round) -> Dat { add_spec::<SD>(a, neg_d(b), rm).v }

pub proof fn neg_dat(d: Dat, n: nat)
    requires within(d, n)
    ensures within(neg_d(d), n), dv(neg_d(d)) == -dv(d)
{}

pub proof fn add_in(a: Dat, b: Dat, rm: Round, n: nat)
    requires nearest(rm), within(a, n), within(b, n), n + 1 < TOP
    ensures ({
        let r = dplus(a, b, rm);
        let x = dv(a) + dv(b);
        &&& within(r, n + 1) && rn(x, dv(r)) && rep(dv(r))
        &&& x != 0 ==> r == rint_of(x, rm)
        &&& x == 0 ==> r.cat == Category::Zero && dv(r) == 0
    })
{
    pow2_half(n + 1);
    pow2_lt(n + 1, TOP);
    add_rn(a, b, rm);
    let r = dplus(a, b, rm);
    let w = pow2(n + 1) as int;
    assert(is_at(w, 1, n + 1)) by { assert(1 * w == w); }
    lemma_pow2_pos(n + 1);
    assert(w < P53 * w) by (nonlinear_arith) requires w > 0;
    rep_of(w, n + 1);
    rep_neg(w);
    let x = dv(a) + dv(b);
    rn_mono(x, dv(r), w);
    rn_mono(x, dv(r), -w);
    dat_rep(r);
}
pub proof fn within_more(d: Dat, n: nat, m: nat)
    requires within(d, n), n <= m
    ensures within(d, m)
{ pow2_le(n, m); }

pub proof fn sub_in(a: Dat, b: Dat, rm: Round, n: nat)
    requires nearest(rm), within(a, n), within(b, n), n + 1 < TOP
    ensures ({
        let r = dminus(a, b, rm);
        let x = dv(a) - dv(b);
        &&& within(r, n + 1) && rn(x, dv(r)) && rep(dv(r))
        &&& x != 0 ==> r == rint_of(x, rm)
        &&& x == 0 ==> r.cat == Category::Zero && dv(r) == 0
    })
{
    neg_dat(b, n);
    add_in(a, neg_d(b), rm, n);
}

/// the second rounding of a sum whose parts do not overlap: s + r == z + d
pub proof fn renorm(z: Dat, d: Dat, rm: Round, n: nat)
    requires nearest(rm), within(z, n), within(d, n), ab(dv(d)) <= ab(dv(z)), n + 3 < TOP
    ensures ({
        let s = dplus(z, d, rm);
        let t = dminus(z, s, rm);
        let r = dplus(t, d, rm);
        let x = dv(z) + dv(d);
        &&& within(s, n + 1) && within(t, n + 2) && within(r, n + 3)
        &&& dv(s) + dv(r) == x
        &&& if x == 0 { s.cat == Category::Zero } else { s == rint_of(x, rm) }
    })
{
    let s = dplus(z, d, rm);
    let t = dminus(z, s, rm);
    let r = dplus(t, d, rm);
    dat_rep(z); dat_rep(d);
    add_in(z, d, rm, n);
    within_more(z, n, n + 1);
    within_more(d, n, n + 2);
    sub_in(z, s, rm, n + 1);
    add_in(t, d, rm, n + 2);
    fast(dv(z), dv(d), dv(s));
    rep_neg(dv(s) - dv(z));
    assert(-(dv(s) - dv(z)) == dv(z) - dv(s));
    rn_exact(dv(z) - dv(s), dv(t));
    err(dv(z), dv(d), dv(s));
    assert(dv(t) + dv(d) == dv(z) + dv(d) - dv(s));
    rn_exact(dv(t) + dv(d), dv(r));
}

/// a rounding error is no larger than what was rounded to, and that is never zero
pub proof fn err_small(x: int, z: int)
    requires rn(x, z)
    ensures ab(x - z) <= ab(z), 2 * ab(x - z) <= ab(x), z == 0 ==> x == 0
{
    let k = choose|k: nat| rn_at(x, z, k);
    let w = pow2(k) as int;
    p128();
    lemma_pow2_pos(k);
    if k > 0 {
        assert(P53 * w >= 4 * w) by (nonlinear_arith) requires w > 0;
    }
}

pub open spec fn zero2(aa: Dat) -> bool { aa.cat == Category::Zero && wfd(fd(), aa) }

/// what add_r computes for two numbers without second parts
pub proof fn dd_add(a: Dat, c: Dat, aa: Dat, cc: Dat, rm: Round)
    requires nearest(rm), within(a, 2090), within(c, 2090), a.cat == Category::Normal, c.cat == Category::Normal, zero2(aa), zero2(cc)
    ensures ({
        let z = dplus(a, c, rm);
        let q = dminus(a, z, rm);
        let z1 = dplus(q, c, rm);
        let q2 = dplus(q, z, rm);
        let q3 = dminus(q2, a, rm);
        let q4 = neg_d(q3);
        let z2 = dplus(z1, q4, rm);
        let z3 = dplus(z2, aa, rm);
        let zz = dplus(z3, cc, rm);
        let s = dplus(z, zz, rm);
        let t = dminus(z, s, rm);
        let r = dplus(t, zz, rm);
        let x = dv(a) + dv(c);
        &&& finite(z) && finite(q) && finite(z1) && finite(q2) && finite(q3) && finite(q4) && finite(z2) && finite(z3) && finite(zz) && finite(s) && finite(t) && finite(r)
        &&& dv(z) + dv(zz) == x && dv(s) + dv(r) == x
        &&& if x == 0 { s.cat == Category::Zero && z.cat == Category::Zero } else { s == rint_of(x, rm) && z == rint_of(x, rm) }
    })
{
    let z = dplus(a, c, rm);
    let q = dminus(a, z, rm);
    let z1 = dplus(q, c, rm);
    let q2 = dplus(q, z, rm);
    let q3 = dminus(q2, a, rm);
    let q4 = neg_d(q3);
    let z2 = dplus(z1, q4, rm);
    let z3 = dplus(z2, aa, rm);
    let zz = dplus(z3, cc, rm);
    facts();
    dat_rep(a); dat_rep(c);
    add_in(a, c, rm, 2090);
    within_more(a, 2090, 2091);
    sub_in(a, z, rm, 2091);
    within_more(c, 2090, 2092);
    within_more(z, 2091, 2092);
    add_in(q, c, rm, 2092);
    add_in(q, z, rm, 2092);
    within_more(a, 2090, 2093);
    sub_in(q2, a, rm, 2093);
    neg_dat(q3, 2094);
    within_more(z1, 2093, 2094);
    add_in(z1, q4, rm, 2094);
    assert(dv(z1) + dv(q4) == dv(z1) - dv(q3));
    two_sum(dv(a), dv(c), dv(z), dv(q), dv(z1), dv(q2), dv(q3), dv(z2));
    err(dv(a), dv(c), dv(z));
    err_small(dv(a) + dv(c), dv(z));
    dat_rep(z2);
    assert(dv(zz) == dv(z2) && finite(z3) && finite(zz) && wfd(fd(), zz));
    assert(ab(dv(zz)) <= ab(dv(a)));
    assert(within(zz, 2091)) by { pow2_le(2090, 2091); }
    renorm(z, zz, rm, 2091);
}

/// a sum of two numbers in units of powers of two, in a common unit
pub proof fn sum_base(sa: bool, ma: nat, ea: int, sb: bool, mb: nat, eb: int, base: int)
    requires ea >= base, eb >= base
    ensures ({
        let s = sum2(sa, ma, ea, sb, mb, eb);
        let x = sg(sa, ma * pow2((ea - base) as nat)) + sg(sb, mb * pow2((eb - base) as nat));
        let g = (imin(ea, eb) - base) as nat;
        x == s * pow2(g) && (s == 0 <==> x == 0)
    })
{
    let k = imin(ea, eb);
    let g = (k - base) as nat;
    let (i, j) = ((ea - k) as nat, (eb - k) as nat);
    pow2_add(i, g); pow2_add(j, g);
    let (a, b, pi, pj, w) = (ma as int, mb as int, pow2(i) as int, pow2(j) as int, pow2(g) as int);
    let s = sum2(sa, ma, ea, sb, mb, eb);
    assert(a * (pi * w) == (a * pi) * w && b * (pj * w) == (b * pj) * w) by (nonlinear_arith);
    let (p, q) = (a * pi, b * pj);
    assert((p + q) * w == p * w + q * w && (p - q) * w == p * w - q * w && (-p) * w == -(p * w) && (-p - q) * w == -(p * w) - q * w && (q - p) * w == q * w - p * w) by (nonlinear_arith);
    let x = sg(sa, ma * pow2((ea - base) as nat)) + sg(sb, mb * pow2((eb - base) as nat));
    assert(x == s * w);
    lemma_pow2_pos(g);
    if s == 0 { assert(0 * w == 0); } else {
        assert(x != 0) by (nonlinear_arith) requires x == s * w, s != 0, w > 0;
    }
}

pub proof fn sum_units(sa: bool, ma: nat, ea: int, sb: bool, mb: nat, eb: int)
    requires ea >= -1074, eb >= -1074
    ensures ({
        let s = sum2(sa, ma, ea, sb, mb, eb);
        let x = sg(sa, ma * pow2((ea + 1074) as nat)) + sg(sb, mb * pow2((eb + 1074) as nat));
        let g = (imin(ea, eb) + 1074) as nat;
        x == s * pow2(g) && (s == 0 <==> x == 0)
    })
{ sum_base(sa, ma, ea, sb, mb, eb, -1074); }

/// the exact product, when it is an integer
pub open spec fn prod_exp(a: Dat, c: Dat) -> int { a.exp + c.exp + 970 }
pub open spec fn prod(a: Dat, c: Dat) -> int { sg(a.sign != c.sign, (a.m * c.m) * pow2(prod_exp(a, c) as nat)) }

/// the error of rounding a number of 106 bits has at most 53 bits
pub proof fn err106(x: int, e: nat, t: int)
    requires mult(x, e), ab(x) < P53 * P53 * pow2(e), rn(x, t)
    ensures rep(x - t)
{
    p128();
    let g = pow2(e) as int;
    lemma_pow2_pos(e);
    let k = choose|k: nat| rn_at(x, t, k);
    let w = pow2(k) as int;
    lemma_pow2_pos(k);
    if k <= e {
        mult_low(x, e, k);
        if x != t { apart(x, t, k); }
        assert(is_at(0, 0, 0));
        rep_of(0, 0);
    } else {
        mult_low(t, k, e);
        mult_sum(x, t, e);
        let y = P53 * g;
        assert((P53 * P53) * g == P53 * y) by (nonlinear_arith) requires y == P53 * g;
        assert(P53 * w < 2 * (P53 * y) ==> w < 2 * y) by (nonlinear_arith) requires P53 == 0x20_0000_0000_0000int;
        rep_of(x - t, e);
    }
}

/// the error of a product has at most 53 bits
pub proof fn prod_err(a: Dat, c: Dat, t: int)
    requires wfd(fd(), a), wfd(fd(), c), a.cat == Category::Normal, c.cat == Category::Normal, prod_exp(a, c) >= 0, rn(prod(a, c), t)
    ensures rep(prod(a, c) - t), prod(a, c) != 0, t != 0
{
    facts();
    p128();
    let x = prod(a, c);
    let e = prod_exp(a, c) as nat;
    let g = pow2(e) as int;
    lemma_pow2_pos(e);
    let (m, n) = (a.m as int, c.m as int);
    let p = m * n;
    assert(0 < p < P53 * P53) by (nonlinear_arith) requires 0 < m < P53, 0 < n < P53, p == m * n;
    assert(0 < p * g) by (nonlinear_arith) requires 0 < p, 0 < g;
    assert(p * g < (P53 * P53) * g) by (nonlinear_arith) requires p < P53 * P53, 0 < g;
    assert(-(p * g) == (-p) * g) by (nonlinear_arith);
    assert(is_at(p * g, p, e) && is_at(-(p * g), -p, e));
    assert(mult(x, e));
    err_small(x, t);
    err106(x, e, t);
}

/// what mul_r computes for two numbers without second parts
pub proof fn dd_mul(a: Dat, c: Dat, b: Dat, d: Dat, rm: Round)
    requires nearest(rm), wfd(fd(), a), wfd(fd(), c), a.cat == Category::Normal, c.cat == Category::Normal, zero2(b), zero2(d),
        prod_exp(a, c) >= 0, ab(prod(a, c)) < pow2(2090)
    ensures ({
        let t = mul_spec::<SD>(a, c, rm).v;
        let tau = fma_spec::<SD>(a, c, neg_d(t), rm).v;
        let v = mul_spec::<SD>(a, d, rm).v;
        let w = mul_spec::<SD>(b, c, rm).v;
        let v2 = dplus(v, w, rm);
        let tau2 = dplus(tau, v2, rm);
        let u = dplus(t, tau2, rm);
        let t2 = dminus(t, u, rm);
        let t3 = dplus(t2, tau2, rm);
        let x = prod(a, c);
        &&& t.cat == Category::Normal && finite(tau) && finite(v) && finite(w) && finite(v2) && finite(tau2) && finite(u) && finite(t2) && finite(t3)
        &&& dv(u) + dv(t3) == x && x != 0 && u == rint_of(x, rm)
    })
{
    facts();
    p128();
    let t = mul_spec::<SD>(a, c, rm).v;
    let tau = fma_spec::<SD>(a, c, neg_d(t), rm).v;
    let x = prod(a, c);
    let e = prod_exp(a, c) as nat;
    let s = a.sign != c.sign;
    lemma_pow2_pos(e);
    let n = a.m * c.m;
    let (ma, mc) = (a.m as int, c.m as int);
    assert(ma * mc > 0) by (nonlinear_arith) requires ma > 0, mc > 0;
    let y = sg(s, n);
    let (p, g) = (n as int, pow2(e) as int);
    assert(-(p * g) == (-p) * g) by (nonlinear_arith);
    assert(p * g > 0) by (nonlinear_arith) requires p > 0, g > 0;
    int_of(x, y, e, rm);
    assert(t == rint_of(x, rm));
    pow2_lt(2090, TOP);
    pow2_lt(2090, 2091);
    pow2_lt(2091, TOP);
    rnd_rn(x < 0, iabs(x), rm);
    if x < 0 { rn_neg(iabs(x) as int, mag(fd(), t) as int); }
    assert(rn(x, dv(t)));
    prod_err(a, c, dv(t));
    err_small(x, dv(t));
    let w = pow2(2090) as int;
    assert(is_at(w, 1, 2090)) by { assert(1 * w == w); }
    lemma_pow2_pos(2090);
    assert(w < P53 * w) by (nonlinear_arith) requires w > 0;
    rep_of(w, 2090);
    rep_neg(w);
    rn_mono(x, dv(t), w);
    rn_mono(x, dv(t), -w);
    assert(within(t, 2090));
    let z = x - dv(t);
    let nt = neg_d(t);
    sum_units(s, n, e - 1074, nt.sign, nt.m, nt.exp - 52);
    let s2 = sum2(s, n, e - 1074, nt.sign, nt.m, nt.exp - 52);
    assert(sg(nt.sign, nt.m * pow2((nt.exp + 1022) as nat)) == -dv(t));
    let k = imin(e - 1074, nt.exp - 52);
    if z != 0 {
        int_of(z, s2, (k + 1074) as nat, rm);
        assert(tau == rint_of(z, rm));
        rnd_rn(z < 0, iabs(z), rm);
        if z < 0 { rn_neg(iabs(z) as int, mag(fd(), tau) as int); }
        rn_exact(z, dv(tau));
    } else {
        assert(tau.cat == Category::Zero);
    }
    assert(dv(tau) == z && finite(tau) && wfd(fd(), tau));
    renorm(t, tau, rm, 2090);
}
