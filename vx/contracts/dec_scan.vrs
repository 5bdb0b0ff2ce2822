@module dscan hex dnorm
@raw
// ---- what a decimal literal (without sign) means -----------------------------------------------------

pub open spec fn dec_ok(s: Seq<char>) -> bool {
    let k = sig_end(s, 10, 0);
    let t = after(s, k);
    &&& ndot(s, k) <= 1 && k > ndot(s, k)
    &&& k >= s.len() || ((s[k] == 'e' || s[k] == 'E') && exp_digits(t, t.len() as int))
}

/// digits * 10^e
pub open spec fn dec_exp(s: Seq<char>) -> int {
    let k = sig_end(s, 10, 0);
    (if k >= s.len() { 0 } else { exp_val(after(s, k)) }) - nfrac(s, k)
}

/// the literal's value, rounded once
pub open spec fn dec_out(f: Fm, neg: bool, s: Seq<char>, rm: Round) -> Out {
    let k = sig_end(s, 10, 0);
    dec_rnd(f, neg, digits(s, 10, k), dec_exp(s), rm)
}

// ---- the scan ----------------------------------------------------------------------------------------

pub struct Ds { pub any: bool, pub dot: int, pub first: Option<usize>, pub last: int }

pub open spec fn between(h: Ds, s: Seq<char>, i: int, a: int, b: int) -> int { if ndot(s, i) == 1 && a < h.dot && h.dot < b { 1 } else { 0 } }

/// digits from the first that is not zero up to i
pub open spec fn dcount(s: Seq<char>, h: Ds, i: int) -> int { i - h.first->0 - between(h, s, i, h.first->0 as int, i) }
/// of these, up to the last that is not zero
pub open spec fn dsig(s: Seq<char>, h: Ds, i: int) -> int { h.last + 1 - h.first->0 - between(h, s, i, h.first->0 as int, h.last) }
/// and after it
pub open spec fn dzero(s: Seq<char>, h: Ds, i: int) -> int { i - h.last - 1 - between(h, s, i, h.last, i) }

#[verifier::opaque]
pub open spec fn dstate(s: Seq<char>, i: int, h: Ds) -> bool {
    let v = digits(s, 10, i);
    &&& 0 <= i <= s.len() && sig_end(s, 10, 0) == sig_end(s, 10, i) && ndot(s, i) <= 1 && off(s, i) == i
    &&& h.any == (i > ndot(s, i))
    &&& ndot(s, i) == 0 ==> h.dot == off(s, s.len() as int) && nfrac(s, i) == 0
    &&& ndot(s, i) == 1 ==> 0 <= h.dot < i && s[h.dot] == '.' && nfrac(s, i) == i - h.dot - 1
    &&& match h.first {
        None => v == 0,
        Some(p) => {
            &&& p <= h.last && h.last < i && is_dec(s[p as int]) && is_dec(s[h.last])
            &&& digits(s, 10, p as int) == 0 && off(s, p as int) == p && off(s, h.last + 1) == h.last + 1
            &&& dcount(s, h, i) > 0 && dsig(s, h, i) > 0 && dzero(s, h, i) >= 0
            &&& ten((dcount(s, h, i) - 1) as nat) <= v && v < ten(dcount(s, h, i) as nat)
            &&& v == digits(s, 10, h.last + 1) * ten(dzero(s, h, i) as nat)
            &&& ten((dsig(s, h, i) - 1) as nat) <= digits(s, 10, h.last + 1) && digits(s, 10, h.last + 1) < ten(dsig(s, h, i) as nat)
        }
    }
}

pub open spec fn ddot(h: Ds, dot: int) -> Ds { Ds { any: h.any, dot, first: h.first, last: h.last } }

pub proof fn ds_start(s: Seq<char>)
    ensures dstate(s, 0, Ds { any: false, dot: off(s, s.len() as int) as int, first: None, last: 0 })
{ reveal(dstate); }

pub proof fn ds_dot(s: Seq<char>, i: int, h: Ds)
    requires dstate(s, i, h), i < s.len(), s[i] == '.'
    ensures h.dot == off(s, s.len() as int) ==> dstate(s, i + 1, ddot(h, i)), h.dot != off(s, s.len() as int) ==> !dec_ok(s)
{
    reveal(dstate);
    off_mono(s, i, s.len() as int);
    if ndot(s, i) == 1 {
        end_ge(s, 10, i + 1);
        ndot_mono(s, i + 1, sig_end(s, 10, 0));
    } else {
        let h1 = ddot(h, i);
        assert(ndot(s, i + 1) == 1);
        assert(digits(s, 10, i + 1) == digits(s, 10, i));
        if h.first is Some {
            assert(dcount(s, h1, i + 1) == dcount(s, h, i));
            assert(dsig(s, h1, i + 1) == dsig(s, h, i));
            assert(dzero(s, h1, i + 1) == dzero(s, h, i));
        }
    }
}

pub proof fn ds_digit(s: Seq<char>, i: int, h: Ds, d: u32, first1: Option<usize>, last1: int)
    requires dstate(s, i, h), i < s.len(), dval(s[i], 10) == Some(d), i <= usize::MAX,
        first1 == if d != 0 && h.first is None { Some(i as usize) } else { h.first },
        last1 == if d != 0 { i } else { h.last },
    ensures dstate(s, i + 1, Ds { any: true, dot: h.dot, first: first1, last: last1 })
{
    reveal(dstate);
    off_mono(s, i, s.len() as int);
    let v = digits(s, 10, i);
    let h1 = Ds { any: true, dot: h.dot, first: first1, last: last1 };
    assert(digits(s, 10, i + 1) == v * 10 + d as nat);
    assert(ndot(s, i + 1) == ndot(s, i));
    p10_small();
    if h.first is Some {
        let n = dcount(s, h, i);
        let z = dzero(s, h, i);
        let w = digits(s, 10, h.last + 1);
        p10_add((n - 1) as nat, 1);
        p10_add(n as nat, 1);
        p10_add(z as nat, 1);
        assert(dcount(s, h1, i + 1) == n + 1);
        assert(((n - 1) as nat + 1) as nat == n);
        lemma_mul_is_associative(w as int, ten(z as nat) as int, 10);
        if d == 0 {
            assert(dzero(s, h1, i + 1) == z + 1);
            assert(dsig(s, h1, i + 1) == dsig(s, h, i));
        } else {
            assert(dzero(s, h1, i + 1) == 0);
            assert(dsig(s, h1, i + 1) == n + 1);
            let x = digits(s, 10, i + 1);
            assert(x * 1 == x);
        }
    } else if d != 0 {
        assert(dcount(s, h1, i + 1) == 1);
        assert(dzero(s, h1, i + 1) == 0);
        assert(dsig(s, h1, i + 1) == 1);
        assert(off(s, i + 1) == i + 1);
    }
}

pub proof fn ds_other(s: Seq<char>, i: int, h: Ds)
    requires dstate(s, i, h), i >= s.len() || (!is_dec(s[i]) && s[i] != '.')
    ensures sig_end(s, 10, 0) == i, off(s, i) == i, i < s.len() && clen(s[i]) == 1 ==> off(s, i + 1) == i + 1,
        h.any == (i > ndot(s, i)), ndot(s, i) <= 1, h.dot == off(s, s.len() as int) <==> ndot(s, i) == 0,
        !h.any ==> !dec_ok(s),
        i < s.len() && s[i] != 'e' && s[i] != 'E' ==> !dec_ok(s),
        i < s.len() ==> i < off(s, s.len() as int),
{
    reveal(dstate);
    off_mono(s, i, s.len() as int);
}

pub proof fn ds_bounds(s: Seq<char>, i: int, h: Ds)
    requires dstate(s, i, h)
    ensures h.any == (i > ndot(s, i)), h.first is None ==> digits(s, 10, i) == 0, off(s, i) == i, sig_end(s, 10, 0) == sig_end(s, 10, i)
{ reveal(dstate); }

/// after the exponent: dot is the end of the significand if the text has none
#[verifier::opaque]
pub open spec fn ddone(s: Seq<char>, h: Ds, e: int) -> bool {
    let k = sig_end(s, 10, 0);
    &&& dec_ok(s)
    &&& h.any
    &&& e == clamp_exp(if k >= s.len() { 0 } else { exp_val(after(s, k)) })
    &&& dstate(s, k, if ndot(s, k) == 0 { ddot(h, off(s, s.len() as int) as int) } else { h })
    &&& ndot(s, k) == 0 ==> h.dot == k
}

pub proof fn ds_end(s: Seq<char>, h: Ds)
    requires dstate(s, s.len() as int, h)
    ensures !h.any ==> !dec_ok(s), h.any ==> ddone(s, h, 0)
{
    reveal(ddone);
    ds_other(s, s.len() as int, h);
}

pub proof fn ds_zero_value(f: Fm, s: Seq<char>, h: Ds, e: int, rm: Round)
    requires ddone(s, h, e), h.first is None
    ensures dec_out(f, false, s, rm) == (Out { st: Status::OK, v: zero_d(f, false) })
{
    reveal(ddone);
    reveal(dstate);
    reveal(rnd);
    let d = dec_exp(s);
    if d >= 0 { assert(0 * ten(d as nat) == 0); }
}

pub proof fn ds_ok(s: Seq<char>, h: Ds, e: int)
    requires ddone(s, h, e)
    ensures dec_ok(s), h.any, -i32::MAX <= e <= i32::MAX
{ reveal(ddone); }

pub proof fn sig_chars(s: Seq<char>, radix: u32, i: int, j: int)
    requires 0 <= i <= j < sig_end(s, radix, i), i <= s.len()
    ensures dval(s[j], radix) is Some || s[j] == '.'
    decreases j - i
{
    if i < j { sig_chars(s, radix, i + 1, j); }
}

/// the digits of a part, when those before are zeros
pub proof fn digits_part(s: Seq<char>, p: int, q: int, j: int)
    requires 0 <= p <= q <= s.len(), digits(s, 10, p) == 0, 0 <= j <= q - p
    ensures digits(s.subrange(p, q), 10, j) == digits(s, 10, p + j)
    decreases j
{
    if j > 0 { digits_part(s, p, q, j - 1); assert(s.subrange(p, q)[j - 1] == s[p + j - 1]); }
}

pub open spec fn sgn_adj(h: Ds, p: int) -> int { if h.dot > h.last { h.dot - h.last - 1 } else { -(h.last - h.dot) } }

/// what the scan has found: d is the number of nd digits without zeros at its ends, e its exponent, clamped
pub open spec fn dfound(f: Fm, s: Seq<char>, p: int, last: int, dot: int, d: nat, nd: int, de: int, rm: Round) -> bool {
    &&& 0 <= p <= last < s.len() && off(s, p) == p && off(s, last + 1) == last + 1
    &&& nd == last + 1 - p - (if dot > p && dot < last { 1int } else { 0 }) && nd > 0
    &&& d == digits(s.subrange(p, last + 1), 10, last + 1 - p) && ten((nd - 1) as nat) <= d && d < ten(nd as nat) && d > 0
    &&& forall|j: int| 0 <= j < last + 1 - p ==> is_dec(#[trigger] s.subrange(p, last + 1)[j]) || s.subrange(p, last + 1)[j] == '.'
    &&& is_dec(s[p]) && is_dec(s[last])
}

pub proof fn ds_found(f: Fm, s: Seq<char>, h: Ds, e: int, p: int, de: int, rm: Round) -> (r: (nat, int))
    requires ddone(s, h, e), h.first == Some(p as usize), 0 <= p <= usize::MAX, s.len() <= 0x80_0000, de == clamp32(e + sgn_adj(h, p))
    ensures dfound(f, s, p, h.last, h.dot, r.0, r.1, de, rm), 0 <= h.dot <= s.len(), h.dot != h.last, h.dot != p,
        -0x80_0000 <= sgn_adj(h, p) <= 0x80_0000,
        // r.0 * 10^x is the value
        exists|x: int| dec_out(f, false, s, rm) == dec_rnd(f, false, r.0, x, rm) && (de == x || (de > 0x4000_0000 && x > 0x4000_0000) || (de < -0x4000_0000 && x < -0x4000_0000))
{
    reveal(ddone);
    reveal(dstate);
    let k = sig_end(s, 10, 0);
    let h0 = if ndot(s, k) == 0 { ddot(h, off(s, s.len() as int) as int) } else { h };
    let d = digits(s, 10, h.last + 1);
    let nd = dsig(s, h0, k);
    let z = dzero(s, h0, k);
    off_mono(s, k, s.len() as int);
    digits_part(s, p, h.last + 1, h.last + 1 - p);
    assert forall|j: int| 0 <= j < h.last + 1 - p implies is_dec(#[trigger] s.subrange(p, h.last + 1)[j]) || s.subrange(p, h.last + 1)[j] == '.' by {
        sig_chars(s, 10, 0, p + j);
    }
    dec_zeros(f, false, d, z as nat, dec_exp(s), rm);
    let x = dec_exp(s) + z;
    p10_pos((nd - 1) as nat);
    assert(dec_out(f, false, s, rm) == dec_rnd(f, false, d, x, rm));
    assert(x == (if k >= s.len() { 0 } else { exp_val(after(s, k)) }) + sgn_adj(h, p));
    (d, nd)
}

/// exponents beyond the tests of the code
pub proof fn ds_over(f: Fm, s: Seq<char>, d: nat, nd: int, de: int, n: int, rm: Round)
    requires wff(f), f.qn < pow2(f.p), 0 < nd <= 0x80_0000, ten((nd - 1) as nat) <= d, n == clamp32(de + nd - 1), clamp32(clamp32(n - 1) * 42039) >= 12655 * f.hi,
        exists|x: int| dec_out(f, false, s, rm) == dec_rnd(f, false, d, x, rm) && (de == x || (de > 0x4000_0000 && x > 0x4000_0000) || (de < -0x4000_0000 && x < -0x4000_0000))
    ensures dec_out(f, false, s, rm) == overflow(f, false, rm)
{
    let x = choose|x: int| dec_out(f, false, s, rm) == dec_rnd(f, false, d, x, rm) && (de == x || (de > 0x4000_0000 && x > 0x4000_0000) || (de < -0x4000_0000 && x < -0x4000_0000));
    dec_over(f, d, nd as nat, x, rm);
}

pub proof fn ds_under(f: Fm, s: Seq<char>, d: nat, nd: int, de: int, n: int, rm: Round)
    requires wff(f), f.qn < pow2(f.p), 0 < nd <= 0x80_0000, 0 < d < ten(nd as nat), n == clamp32(de + nd - 1), clamp32(clamp32(n + 1) * 28738) <= 8651 * (f.lo - f.p),
        exists|x: int| dec_out(f, false, s, rm) == dec_rnd(f, false, d, x, rm) && (de == x || (de > 0x4000_0000 && x > 0x4000_0000) || (de < -0x4000_0000 && x < -0x4000_0000))
    ensures dec_out(f, false, s, rm) == (Out { st: st_unf(), v: if rm == Round::TowardPositive { smallest_d(f, false) } else { zero_d(f, false) } })
{
    let x = choose|x: int| dec_out(f, false, s, rm) == dec_rnd(f, false, d, x, rm) && (de == x || (de > 0x4000_0000 && x > 0x4000_0000) || (de < -0x4000_0000 && x < -0x4000_0000));
    dec_under(f, d, nd as nat, x, rm);
}

/// and those within
pub proof fn ds_in(f: Fm, s: Seq<char>, d: nat, nd: int, de: int, n: int, rm: Round)
    requires wff(f), f.qn < pow2(f.p), 0 < nd <= 0x80_0000, n == clamp32(de + nd - 1), clamp32(clamp32(n - 1) * 42039) < 12655 * f.hi, clamp32(clamp32(n + 1) * 28738) > 8651 * (f.lo - f.p),
        exists|x: int| dec_out(f, false, s, rm) == dec_rnd(f, false, d, x, rm) && (de == x || (de > 0x4000_0000 && x > 0x4000_0000) || (de < -0x4000_0000 && x < -0x4000_0000))
    ensures dec_out(f, false, s, rm) == dec_rnd(f, false, d, de, rm), -0x4000 - nd <= de <= 0x4000
{
    assert(n - 1 < 0x2801);
    assert(n + 1 > -0x2801);
}
