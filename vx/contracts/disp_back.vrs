@module back disp strs
@raw
// ---- a number near a datum is rounded to it ----------------------------------------------------------------

/// num / den is nearer to the datum than half the way to its neighbours
pub proof fn near_back(f: Fm, d: Dat, num: nat, den: nat)
    requires wff(f), wfd(f, d), d.cat == Category::Normal, den > 0,
        mabs(cut_n(num, d.exp - (f.p - 1)) - d.m * cut_d(den, d.exp - (f.p - 1))) * pow2(f.p + 1) < d.m * cut_d(den, d.exp - (f.p - 1)),
    ensures rnd(f, d.sign, num, den, 0, Round::NearestTiesToEven).v == d
{
    let rm = Round::NearestTiesToEven;
    let e0 = d.exp - (f.p - 1);
    let (n, dd, m) = (cut_n(num, e0) as int, cut_d(den, e0) as int, d.m as int);
    let err = mabs(n - m * dd);
    lemma_pow2_pos(posn(e0));
    lemma_pow2_pos(posn(-e0));
    lemma_mul_strictly_positive(den as int, pow2(posn(e0)) as int);
    lemma_mul_strictly_positive(m, dd);
    pow2_half(f.p + 1);
    pow2_half(f.p);
    lemma_pow2_pos((f.p - 1) as nat);
    p128();
    let (h, w) = (pow2((f.p - 1) as nat) as int, pow2(f.p + 1) as int);
    assert(w == 4 * h);
    assert(2 * err < dd) by (nonlinear_arith) requires err * w < m * dd, m < 2 * h, w == 4 * h, h > 0, dd > 0, err >= 0;
    rnd_shift(f, d.sign, num, den, 0, rm, posn(-e0), posn(e0));
    assert(0 - posn(-e0) + posn(e0) == e0);
    let low = d.m == pow2((f.p - 1) as nat) && d.exp > f.lo;
    if m * dd <= n {
        let r = n - m * dd;
        div_unique(n, dd, m, r);
        if d.exp > f.lo { blen_unique(d.m, f.p); } else { blen_le(d.m, f.p); }
        assert(n >= dd) by (nonlinear_arith) requires n >= m * dd, m >= 1, dd > 0;
        norm_cut(f, d.sign, n as nat, dd as nat, e0, rm);
        reveal(norm);
        reveal(finish);
        assert(unit(f, blen(d.m) - 1 + e0) == e0);
    } else if low {
        assert(4 * err < dd) by (nonlinear_arith) requires err * w < m * dd, m == h, w == 4 * h, h > 0, dd > 0, err >= 0;
        let n2 = n * 2;
        assert(pow2(1) == 2) by { lemma2_to64(); }
        rnd_shift(f, d.sign, n as nat, dd as nat, e0, rm, 1, 0);
        assert(dd * 1 == dd);
        let q = 2 * m - 1;
        let r = n2 - q * dd;
        assert(q * dd == 2 * (m * dd) - dd) by (nonlinear_arith) requires q == 2 * m - 1;
        div_unique(n2, dd, q, r);
        blen_unique(q as nat, f.p);
        assert(n2 >= dd) by (nonlinear_arith) requires n2 == q * dd + r, q >= 1, r >= 0, dd > 0;
        norm_cut(f, d.sign, n2 as nat, dd as nat, e0 - 1, rm);
        reveal(norm);
        reveal(finish);
        assert(unit(f, blen(q as nat) - 1 + (e0 - 1)) == e0 - 1);
        assert(q % 2 == 1);
    } else {
        let q = m - 1;
        let r = n - q * dd;
        assert(q * dd == m * dd - dd) by (nonlinear_arith) requires q == m - 1;
        div_unique(n, dd, q, r);
        if d.exp > f.lo {
            blen_unique(q as nat, f.p);
            assert(n >= dd) by (nonlinear_arith) requires n == q * dd + r, q >= 1, r >= 0, dd > 0;
        } else { blen_le(q as nat, f.p); }
        norm_cut(f, d.sign, n as nat, dd as nat, e0, rm);
        reveal(norm);
        reveal(finish);
        if q > 0 { assert(unit(f, blen(q as nat) - 1 + e0) == e0); }
    }
}

// ---- the default precision is enough ------------------------------------------------------------------------

pub open spec fn pw(b: nat, n: nat) -> nat decreases n { if n == 0 { 1 } else { b * pw(b, (n - 1) as nat) } }
pub open spec fn enough(p: nat) -> bool decreases p { p < 3 || pw(10, 1 + p * 59 / 196) > pw(2, p) && enough((p - 1) as nat) }
pub proof fn pw_is(b: nat, n: nat)
    ensures pw(b, n) == pow(b as int, n)
    decreases n
{ if n == 0 { lemma_pow0(b as int); } else { pw_is(b, (n - 1) as nat); reveal(pow); } }
pub proof fn enough_at(p: nat, q: nat)
    requires enough(q), 3 <= p <= q
    ensures pw(10, 1 + p * 59 / 196) > pw(2, p)
    decreases q
{ if p < q { enough_at(p, (q - 1) as nat); } }
pub proof fn ten_over(p: nat, prec: nat)
    requires 3 <= p <= 113, prec >= 2 + p * 59 / 196
    ensures ten((prec - 1) as nat) > pow2(p), bits_for(prec) >= p + 2
{
    assert(enough(113)) by (compute);
    enough_at(p, 113);
    pw_is(10, 1 + p * 59 / 196);
    pw_is(2, p);
    lemma_pow2(p);
    ten_le(1 + p * 59 / 196, (prec - 1) as nat);
}

/// what is printed differs from the number by less than its neighbours do
pub proof fn print_err(n: nat, d: nat, t: nat, prec: nat, p: nat)
    requires near_dec(n, d, t, prec), n > 0, 3 <= p <= 113, prec >= 2 + p * 59 / 196
    ensures mabs(d * ten(t) - n) * pow2(p + 1) < n
{
    reveal(near_dec);
    ten_over(p, prec);
    pow2_half(p + 1);
    lemma_pow2_pos(p);
    let err = mabs(d * ten(t) - n);
    let (w, ni) = (pow2(p) as int, n as int);
    if d * ten(t) == n {
        assert(err * pow2(p + 1) == 0) by (nonlinear_arith) requires err == 0;
    } else {
        let u = choose|u: nat| u <= t && n >= #[trigger] ten((prec - 1 + u) as nat)
            && (2 * mabs(d * ten(t) - n) <= ten(u) || mabs(d * ten(t) - n) < ten(u) && n >= pow2((bits_for(prec) - 1) as nat) * ten(u));
        p10_add((prec - 1) as nat, u);
        assert((prec - 1) as nat + u == (prec - 1 + u) as nat);
        p10_pos(u);
        let (x, y) = (ten(u) as int, ten((prec - 1) as nat) as int);
        if 2 * err <= x {
            assert(err * (2 * w) < ni) by (nonlinear_arith) requires 2 * err <= x, w < y, y * x <= ni, x > 0, w > 0;
        } else {
            pow2_le(p + 1, (bits_for(prec) - 1) as nat);
            let z = pow2((bits_for(prec) - 1) as nat) as int;
            assert(err * (2 * w) < ni) by (nonlinear_arith) requires err < x, err >= 0, 2 * w <= z, z * x <= ni, x > 0, w > 0;
        }
    }
}

/// the digits and exponent printed, rounded, are the datum
pub proof fn shown_back(f: Fm, d: Dat, b: Seq<u8>, e: int, prec: nat)
    requires wff(f), wfd(f, d), d.cat == Category::Normal, shown(d.m, d.exp - (f.p - 1), b, e, prec), prec >= 2 + f.p * 59 / 196
    ensures dec_rnd(f, d.sign, dnum(b), e, Round::NearestTiesToEven).v == d
{
    reveal(shown);
    reveal(decimal_of);
    let rm = Round::NearestTiesToEven;
    let e0 = d.exp - (f.p - 1);
    let (n, k) = choose|n: nat, k: nat| #[trigger] decimal_of(d.m, e0, n, k) && e + k >= 0 && near_dec(n, dnum(b), (e + k) as nat, prec);
    let t = (e + k) as nat;
    let w = dnum(b);
    let v = w * ten(t);
    p10_pos(k);
    p10_pos(t);
    let (a, c, s, g) = (pow2(posn(-e0)) as int, pow2(posn(e0)) as int, ten(k) as int, d.m as int);
    lemma_pow2_pos(posn(-e0));
    lemma_pow2_pos(posn(e0));
    let ni = n as int;
    assert(ni * a == (g * c) * s);
    assert((g * c) * s == g * (s * c)) by (nonlinear_arith);
    lemma_mul_strictly_positive(s, c);
    lemma_mul_strictly_positive(g, s * c);
    if n == 0 { assert(ni * a == 0) by (nonlinear_arith) requires ni == 0; }
    print_err(n, w, t, prec, f.p);
    let er = mabs(v - n);
    let pw1 = pow2(f.p + 1) as int;
    let vi = v as int;
    assert(mabs(vi * a - ni * a) == er * a) by (nonlinear_arith) requires er == (if vi - ni < 0 { ni - vi } else { vi - ni }), a > 0;
    assert((er * a) * pw1 < ni * a) by (nonlinear_arith) requires er * pw1 < ni, a > 0;
    near_back(f, d, v, ten(k));
    // w * 10^e is v / 10^k
    if e >= 0 {
        p10_add(e as nat, k);
        assert(t == e as nat + k);
        lemma_mul_is_associative(w as int, ten(e as nat) as int, s);
        rnd_scale(f, d.sign, w * ten(e as nat), 1, 0, ten(k), rm);
        assert(1 * ten(k) == ten(k));
    } else {
        p10_add((-e) as nat, t);
        p10_pos((-e) as nat);
        assert((-e) as nat + t == k);
        rnd_scale(f, d.sign, w, ten((-e) as nat), 0, ten(t), rm);
    }
}

// ---- the text that is printed, as the parser reads it ----------------------------------------------------------

pub open spec fn numeric(s: Seq<char>, i: int, j: int) -> bool { forall|x: int| i <= x < j ==> dval(#[trigger] s[x], 10) is Some || s[x] == '.' }

pub proof fn ends_at(s: Seq<char>, i: int, k: int)
    requires 0 <= i <= k <= s.len(), numeric(s, i, k), k == s.len() || (s[k] != '.' && dval(s[k], 10) is None)
    ensures sig_end(s, 10, i) == k
    decreases k - i
{ if i < k { ends_at(s, i + 1, k); } }

/// digits hi-1 .. lo of b stand at i
pub open spec fn stands(s: Seq<char>, i: int, b: Seq<u8>, hi: int, lo: int) -> bool { 0 <= i && i + (hi - lo) <= s.len() && forall|x: int| i <= x < i + (hi - lo) ==> #[trigger] s[x] == b[hi - 1 - (x - i)] as char }

pub proof fn digit_char(c: u8)
    requires 48 <= c <= 57
    ensures dval(c as char, 10) == Some((c - 48) as u32), (c as char) != '.', crate::hex::dig(c as char, 10) == c - 48, is_dec(c as char)
{ }

pub proof fn run_digits(s: Seq<char>, i: int, b: Seq<u8>, hi: int, lo: int)
    requires isd(b), 0 <= lo <= hi <= b.len(), stands(s, i, b, hi, lo), digits(s, 10, i) == dnum(b.skip(hi))
    ensures digits(s, 10, i + (hi - lo)) == dnum(b.skip(lo)), ndot(s, i + (hi - lo)) == ndot(s, i), numeric(s, i, i + (hi - lo)),
        ndot(s, i) > 0 ==> nfrac(s, i + (hi - lo)) == nfrac(s, i) + (hi - lo), ndot(s, i) == 0 && nfrac(s, i) == 0 ==> nfrac(s, i + (hi - lo)) == 0
    decreases hi - lo
{
    if lo < hi {
        let j = i + (hi - lo);
        assert forall|x: int| i <= x < i + (hi - (lo + 1)) implies #[trigger] s[x] == b[hi - 1 - (x - i)] as char by { }
        run_digits(s, i, b, hi, lo + 1);
        isd_at(b, lo);
        assert(s[j - 1] == b[lo] as char);
        digit_char(b[lo]);
        assert(b.skip(lo).skip(1) =~= b.skip(lo + 1));
        assert(b.skip(lo)[0] == b[lo]);
        assert forall|x: int| i <= x < j implies dval(#[trigger] s[x], 10) is Some || s[x] == '.' by { if x < j - 1 { } }
    }
}
pub proof fn run_zeros(s: Seq<char>, i: int, n: int)
    requires 0 <= n, 0 <= i, i + n <= s.len(), forall|x: int| i <= x < i + n ==> #[trigger] s[x] == '0'
    ensures digits(s, 10, i + n) == digits(s, 10, i) * ten(n as nat), ndot(s, i + n) == ndot(s, i), numeric(s, i, i + n),
        ndot(s, i) > 0 ==> nfrac(s, i + n) == nfrac(s, i) + n, ndot(s, i) == 0 && nfrac(s, i) == 0 ==> nfrac(s, i + n) == 0
    decreases n
{
    p10_small();
    let v = digits(s, 10, i) as int;
    if n > 0 {
        run_zeros(s, i, n - 1);
        p10_add((n - 1) as nat, 1);
        assert(dval('0', 10) == Some(0u32));
        let p = ten((n - 1) as nat) as int;
        assert((v * p) * 10 == v * (p * 10)) by (nonlinear_arith);
        assert(s[i + n - 1] == '0');
    } else { assert(v * 1 == v); }
}
pub proof fn run_dot(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), s[i] == '.', ndot(s, i) == 0
    ensures digits(s, 10, i + 1) == digits(s, 10, i), ndot(s, i + 1) == 1, nfrac(s, i + 1) == 0, numeric(s, i, i + 1)
{ }

/// the decimal text of an integer, read back
pub proof fn nat_str_digits(n: nat)
    ensures nat_str(n).len() > 0, forall|x: int| 0 <= x < nat_str(n).len() ==> is_dec(#[trigger] nat_str(n)[x]), n < 0x10_0000 ==> nat_str(n).len() <= n + 1
    decreases n
{
    let c = (48 + n % 10) as u8;
    digit_char(c);
    if n >= 10 { nat_str_digits(n / 10); }
}
pub proof fn nat_str_back(t: Seq<char>, i: int, n: nat)
    requires exp_at(t) <= i, i + nat_str(n).len() <= t.len(), exp_abs(t, i) == 0, t.subrange(i, i + nat_str(n).len()) == nat_str(n)
    ensures exp_abs(t, i + nat_str(n).len()) == n
    decreases n
{
    let d = nat_str(n);
    nat_str_digits(n);
    let l = d.len() as int;
    let c = (48 + n % 10) as u8;
    digit_char(c);
    assert(d[l - 1] == c as char);
    assert(t[i + l - 1] == t.subrange(i, i + l)[l - 1]);
    if n >= 10 {
        nat_str_digits(n / 10);
        assert(nat_str(n / 10).len() == l - 1);
        assert(t.subrange(i, i + l - 1) =~= nat_str(n / 10)) by { assert(t.subrange(i, i + l - 1) =~= t.subrange(i, i + l).take(l - 1)); }
        nat_str_back(t, i, n / 10);
    }
}
pub proof fn zeros_abs(t: Seq<char>, i: int, j: int)
    requires exp_at(t) <= i <= j <= t.len(), exp_abs(t, i) == 0, forall|x: int| i <= x < j ==> #[trigger] t[x] == '0'
    ensures exp_abs(t, j) == 0
    decreases j - i
{ if i < j { zeros_abs(t, i, j - 1); assert(t[j - 1] == '0'); assert(dval('0', 10) == Some(0u32)); } }

/// the exponent as it is printed, read back
pub proof fn exp_back(x: int, w: int)
    ensures exp_val(signed_str(x, w)) == x, exp_digits(signed_str(x, w), signed_str(x, w).len() as int)
{
    let t = signed_str(x, w);
    let n = if x < 0 { (-x) as nat } else { x as nat };
    let d = nat_str(n);
    let z: int = if w - 1 - d.len() > 0 { w - 1 - d.len() } else { 0 };
    nat_str_digits(n);
    assert(t[0] == if x < 0 { '-' } else { '+' });
    assert(exp_at(t) == 1);
    assert(exp_abs(t, 1) == 0);
    zeros_abs(t, 1, 1 + z);
    assert(t.subrange(1 + z, 1 + z + d.len() as int) =~= d);
    nat_str_back(t, 1 + z, n);
    assert(t.len() == 1 + z + d.len());
    assert forall|j: int| exp_at(t) <= j < t.len() implies is_dec(#[trigger] t[j]) by {
        if j < 1 + z { assert(t[j] == '0'); } else { assert(t[j] == d[j - 1 - z]); }
    }
}

/// a literal the parser reads as v * 10^e
#[verifier::opaque]
pub open spec fn reads(s: Seq<char>, m: nat, e: int) -> bool {
    &&& dec_ok(s) && exists|z: nat| #[trigger] ten(z) * m == digits(s, 10, sig_end(s, 10, 0)) && dec_exp(s) == e - z
}
pub proof fn reads_rnd(f: Fm, neg: bool, s: Seq<char>, m: nat, e: int, rm: Round)
    requires reads(s, m, e)
    ensures dec_out(f, neg, s, rm) == dec_rnd(f, neg, m, e, rm), dec_ok(s)
{
    reveal(reads);
    let z = choose|z: nat| #[trigger] ten(z) * m == digits(s, 10, sig_end(s, 10, 0)) && dec_exp(s) == e - z;
    lemma_mul_is_commutative(ten(z) as int, m as int);
    dec_zeros(f, neg, m, z, e - z, rm);
}
pub proof fn reads_is(s: Seq<char>, m: nat, e: int, z: nat)
    requires dec_ok(s), digits(s, 10, sig_end(s, 10, 0)) == m * ten(z), dec_exp(s) == e - z
    ensures reads(s, m, e)
{ reveal(reads); lemma_mul_is_commutative(ten(z) as int, m as int); }

pub proof fn top_digit(b: Seq<u8>)
    requires isd(b), b.len() > 0, b.last() != 48
    ensures dnum(b.skip(b.len() as int)) == 0, b.skip(0) == b, dval(b.last() as char, 10) is Some, b.last() as char != '0', b.last() as char != '.'
{
    isd_at(b, b.len() - 1);
    digit_char(b.last());
    assert(b.skip(b.len() as int).len() == 0);
    assert(b.skip(0) =~= b);
}
/// d.ddd000e+xx
pub proof fn sci_reads(s: Seq<char>, b: Seq<u8>, e: int, z: int, t: Seq<char>, w: int)
    requires isd(b), 0 < b.len(), b.last() != 48, z >= 0, t == signed_str(e + b.len() - 1, w), ({
        let n = b.len() as int;
        stands(s, 0, b, n, n - 1) && s[1] == '.' && stands(s, 2, b, n - 1, 0) && n + 1 + z < s.len() && (s[n + 1 + z] == 'e' || s[n + 1 + z] == 'E')
            && (forall|x: int| n + 1 <= x < n + 1 + z ==> #[trigger] s[x] == '0') && after(s, n + 1 + z) == t })
    ensures reads(s, dnum(b), e)
{
    hide(signed_str); hide(dnum); hide(exp_val);
    let n = b.len() as int;
    let k = n + 1 + z;
    top_digit(b);
    run_digits(s, 0, b, n, n - 1);
    run_dot(s, 1);
    run_digits(s, 2, b, n - 1, 0);
    run_zeros(s, n + 1, z);
    assert(numeric(s, 0, k));
    ends_at(s, 0, k);
    exp_back(e + n - 1, w);
    reads_is(s, dnum(b), e, z as nat);
}
/// ddd000
pub proof fn int_reads(s: Seq<char>, b: Seq<u8>, e: int)
    requires isd(b), 0 < b.len(), b.last() != 48, e >= 0, s.len() == b.len() + e, stands(s, 0, b, b.len() as int, 0), forall|x: int| b.len() <= x < b.len() + e ==> #[trigger] s[x] == '0'
    ensures reads(s, dnum(b), e)
{
    hide(dnum);
    let n = b.len() as int;
    top_digit(b);
    run_digits(s, 0, b, n, 0);
    run_zeros(s, n, e);
    assert(numeric(s, 0, n + e));
    ends_at(s, 0, n + e);
    reads_is(s, dnum(b), e, e as nat);
}
/// dd.dd
pub proof fn mix_reads(s: Seq<char>, b: Seq<u8>, e: int)
    requires isd(b), 0 < b.len(), b.last() != 48, 0 < -e < b.len(), s.len() == b.len() + 1, stands(s, 0, b, b.len() as int, -e), s[b.len() + e] == '.', stands(s, b.len() + e + 1, b, -e, 0)
    ensures reads(s, dnum(b), e)
{
    hide(dnum);
    let n = b.len() as int;
    top_digit(b);
    p10_small();
    lemma_mul_basics(dnum(b) as int);
    run_digits(s, 0, b, n, -e);
    run_dot(s, n + e);
    run_digits(s, n + e + 1, b, -e, 0);
    assert(numeric(s, 0, n + 1));
    ends_at(s, 0, n + 1);
    reads_is(s, dnum(b), e, 0);
}
/// 0.000ddd
pub proof fn frac_reads(s: Seq<char>, b: Seq<u8>, e: int)
    requires isd(b), 0 < b.len(), b.last() != 48, -e >= b.len(), s.len() == 2 - e, s[0] == '0', s[1] == '.', forall|x: int| 2 <= x < 2 + (-e - b.len()) ==> #[trigger] s[x] == '0',
        stands(s, 2 - e - b.len(), b, b.len() as int, 0)
    ensures reads(s, dnum(b), e)
{
    hide(dnum);
    let n = b.len() as int;
    top_digit(b);
    p10_small();
    lemma_mul_basics(dnum(b) as int);
    assert forall|x: int| 0 <= x < 1 implies #[trigger] s[x] == '0' by { }
    run_zeros(s, 0, 1);
    assert(digits(s, 10, 0) == 0);
    assert(digits(s, 10, 1) == 0) by { assert(0 * ten(1) == 0); }
    run_dot(s, 1);
    run_zeros(s, 2, -e - n);
    let y = ten((-e - n) as nat);
    assert(0 * y == 0);
    run_digits(s, 2 - e - n, b, n, 0);
    assert(numeric(s, 0, 2 - e));
    ends_at(s, 0, 2 - e);
    reads_is(s, dnum(b), e, 0);
}

/// every form of the layout
pub proof fn layout_reads(b: Seq<u8>, e: int, o: Opt, prec: nat)
    requires isd(b), 0 < b.len() <= prec, b.last() != 48
    ensures reads(layout(b, e, o, prec), dnum(b), e), layout(b, e, o, prec).len() > 0, dval(layout(b, e, o, prec)[0], 10) is Some,
        layout(b, e, o, prec)[0] != '0' || layout(b, e, o, prec).len() > 1 && layout(b, e, o, prec)[1] == '.'
{
    hide(signed_str); hide(dnum);
    let s = layout(b, e, o, prec);
    let n = b.len() as int;
    top_digit(b);
    reveal(layout);
    reveal(chars_of);
    reveal(zeros);
    if scientific(b.len(), e, o, prec) {
        let z: int = if n == 1 && !o.alt { 1 } else if o.alt { prec - n + 1 } else { 0 };
        let t = signed_str(e + n - 1, if o.alt { 3 } else { 0 });
        assert(s[0] == b[n - 1] as char);
        assert(after(s, n + 1 + z) =~= t);
        sci_reads(s, b, e, z, t, if o.alt { 3 } else { 0 });
    } else if e >= 0 {
        assert(s[0] == b[n - 1] as char);
        int_reads(s, b, e);
    } else if -e < n {
        assert(s[0] == b[n - 1] as char);
        mix_reads(s, b, e);
    } else {
        reveal_strlit("0.");
        assert(s[0] == '0' && s[1] == '.');
        frac_reads(s, b, e);
    }
}

/// a sign in front of a digit is a number with that sign, in decimal
pub proof fn signed_number(neg: bool, t: Seq<char>)
    requires t.len() > 0, dval(t[0], 10) is Some, t[0] != '0' || t.len() == 1 || (t[1] != 'x' && t[1] != 'X')
    ensures ({ let s = sign_txt(neg) + t; minus(s) == neg && unsigned(s) == t && special(s) is Number && hex_text(t) is None })
{
    reveal(sign_txt);
    reveal_strlit("-"); reveal_strlit("+"); reveal_strlit("Inf"); reveal_strlit("inf"); reveal_strlit("INFINITY"); reveal_strlit("nan"); reveal_strlit("NaN"); reveal_strlit("0");
    let s = sign_txt(neg) + t;
    assert("-"@ =~= seq!['-'] && "+"@ =~= seq!['+']);
    assert(s.len() >= 1);
    assert(s.subrange(0, 1)[0] == s[0]);
    assert(seq!['-'][0] == '-' && seq!['+'][0] == '+');
    if neg {
        assert(s.subrange(0, 1) =~= seq!['-']);
        assert(s.subrange(1, s.len() as int) =~= t);
    } else {
        assert(s =~= t);
        assert(s[0] != '-' && s[0] != '+');
    }
    assert("Inf"@[0] == 'I' && "inf"@[0] == 'i' && "INFINITY"@[0] == 'I' && "nan"@[0] == 'n' && "NaN"@[0] == 'N');
    if t.len() >= 3 { assert(t.subrange(0, 3)[0] == t[0]); }
    assert("0"@.len() == 1 && "0"@[0] == '0');
    assert(t.subrange(0, 1)[0] == t[0]);
}

pub proof fn zero_rnd(f: Fm, neg: bool, rm: Round)
    ensures dec_rnd(f, neg, 0, 0, rm).v == zero_d(f, neg)
{ reveal(rnd); p10_small(); assert(0 * ten(0) == 0); }
pub proof fn inf_special(neg: bool)
    ensures ({ let s = if neg { "-Inf"@ } else { "+Inf"@ }; s.len() > 0 && minus(s) == neg && special(s) is Inf })
{
    let s = if neg { "-Inf"@ } else { "+Inf"@ };
    reveal_strlit("-"); reveal_strlit("+"); reveal_strlit("Inf"); reveal_strlit("-Inf"); reveal_strlit("+Inf");
    assert(s.subrange(0, 1)[0] == s[0]);
    if neg { assert(s.subrange(0, 1) =~= "-"@); } else { assert(s.subrange(0, 1) =~= "+"@); assert("-"@[0] == '-'); }
    assert(s.subrange(1, 4) =~= "Inf"@);
}

/// the parser's contract covers texts of this length
pub proof fn layout_len(b: Seq<u8>, e: int, o: Opt, prec: nat)
    requires 0 < b.len() <= prec, prec <= 0x8_0000, -0x7000 <= e <= 0x2_0000
    ensures layout(b, e, o, prec).len() < 0x80_0000
{
    reveal(layout);
    reveal(chars_of);
    reveal(zeros);
    reveal_strlit("0.");
    let x = e + b.len() - 1;
    nat_str_digits(if x < 0 { (-x) as nat } else { x as nat });
}
pub proof fn zero_len(o: Opt)
    requires o.prec is Some ==> o.prec->0 <= 0x8_0000
    ensures zero_text(o).len() < 0x80_0000
{
    reveal(zero_text);
    reveal(zeros);
    reveal_strlit("0.0"); reveal_strlit("e+00"); reveal_strlit("0.0E+0");
}

/// what fmt writes with at least the default precision, parsed to the nearest: the same datum
pub proof fn reads_back<S: Semantics>(d: Dat, o: Opt, s: Seq<char>, r: Out)
    requires wfs::<S>(), wfd(fm::<S>(), d), d.cat != Category::NaN, displayed(fm::<S>(), d, o, s), digits_for(fm::<S>(), o) >= 2 + fm::<S>().p * 59 / 196,
        o.prec is Some ==> o.prec->0 <= 0x8_0000
    ensures s.len() <= 0x80_0000, str_ok(s), str_out::<S>(s, Round::NearestTiesToEven, r) ==> r.v == d
{
    hide(special); hide(unsigned); hide(minus); hide(hex_text); hide(dec_out); hide(dec_ok); hide(dec_rnd); hide(hex_out); hide(dnum);
    wfs_basic::<S>();
    let f = fm::<S>();
    let rm = Round::NearestTiesToEven;
    reveal(displayed);
    match d.cat {
        Category::Infinity => {
            inf_special(d.sign);
            reveal_strlit("-Inf"); reveal_strlit("+Inf");
        }
        Category::NaN => { }
        Category::Zero => {
            let t = zero_text(o);
            zero_reads(o);
            zero_len(o);
            signed_number(d.sign, t);
            assert(0 < s.len() <= t.len() + 1) by { reveal(sign_txt); }
            reads_rnd(f, d.sign, t, 0, 0, rm);
            zero_rnd(f, d.sign, rm);
        }
        Category::Normal => {
            let prec = digits_for(f, o);
            let (b, e) = choose|b: Seq<u8>, e: int| #[trigger] shown(d.m, d.exp - (f.p - 1), b, e, prec) && s == sign_txt(d.sign) + layout(b, e, o, prec);
            assert(isd(b) && 0 < b.len() <= prec && b.last() != 48) by { reveal(shown); }
            let t = layout(b, e, o, prec);
            layout_reads(b, e, o, prec);
            assert(-0x7000 <= e <= 0x2_0000) by { reveal(shown); }
            layout_len(b, e, o, prec);
            signed_number(d.sign, t);
            assert(0 < s.len() <= t.len() + 1) by { reveal(sign_txt); }
            reads_rnd(f, d.sign, t, dnum(b), e, rm);
            shown_back(f, d, b, e, prec);
        }
    }
}
pub proof fn zero_reads(o: Opt)
    ensures ({ let t = zero_text(o); reads(t, 0, 0) && t.len() > 0 && t[0] == '0' && (t.len() == 1 || t[1] == '.') })
{
    reveal(zero_text);
    reveal(zeros);
    reveal_strlit("0.0"); reveal_strlit("e+00"); reveal_strlit("0.0E+0");
    let t = zero_text(o);
    p10_small();
    if o.width == 0 {
        let z: int = if o.alt && o.prec is Some && o.prec->0 > 1 { o.prec->0 - 1 } else { 0 };
        let k = 3 + z;
        assert(t[0] == '0' && t[1] == '.' && t[2] == '0');
        assert forall|x: int| 2 <= x < 3 + z implies #[trigger] t[x] == '0' by { }
        assert(t[k] == if o.alt { 'e' } else { 'E' });
        run_zeros(t, 0, 1);
        run_dot(t, 1);
        run_zeros(t, 2, 1 + z);
        ends_at(t, 0, k);
        let x = after(t, k);
        assert(x[0] == '+' && x[1] == '0' && x.len() == if o.alt { 3int } else { 2 });
        assert(exp_at(x) == 1 && exp_abs(x, 1) == 0);
        if o.alt { assert(x[2] == '0'); }
        zeros_abs(x, 1, x.len() as int);
        assert(exp_digits(x, x.len() as int)) by { assert forall|j: int| exp_at(x) <= j < x.len() implies is_dec(#[trigger] x[j]) by { assert(x[j] == '0'); } }
        assert(0 * ten(1) == 0 && 0 * ten((1 + z) as nat) == 0);
        // the value is zero whatever the exponent
        let zz = (1 + z) as nat;
        assert(dec_exp(t) == 0 - zz);
        reads_is(t, 0, 0, zz);
    } else {
        assert(t[0] == '0');
        run_zeros(t, 0, 1);
        ends_at(t, 0, 1);
        assert(0 * ten(1) == 0 && 0 * ten(0) == 0);
        reads_is(t, 0, 0, 0);
    }
}
