@module hex sig rnd flt nrm scale
@raw
// ---- what a hexadecimal literal (without sign and 0x) means ----------------------------------------

pub open spec fn is_hex(c: char) -> bool { dval(c, 16) is Some }
pub open spec fn is_dec(c: char) -> bool { dval(c, 10) is Some }
pub open spec fn dig(c: char, radix: u32) -> nat { match dval(c, radix) { Some(x) => x as nat, None => 0 } }

/// index of the first character from i on that is neither a digit nor a dot
pub open spec fn sig_end(s: Seq<char>, radix: u32, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { i } else if dval(s[i], radix) is Some || s[i] == '.' { sig_end(s, radix, i + 1) } else { i }
}

/// dots before i
pub open spec fn ndot(s: Seq<char>, i: int) -> nat
    decreases i
{ if i <= 0 { 0 } else if s[i - 1] == '.' { ndot(s, i - 1) + 1 } else { ndot(s, i - 1) } }

/// digits before i, read as an integer
pub open spec fn digits(s: Seq<char>, radix: u32, i: int) -> nat
    decreases i
{ if i <= 0 { 0 } else if s[i - 1] == '.' { digits(s, radix, i - 1) } else { digits(s, radix, i - 1) * radix as nat + dig(s[i - 1], radix) } }

/// how many of them stand after the dot
pub open spec fn nfrac(s: Seq<char>, i: int) -> nat
    decreases i
{ if i <= 0 || s[i - 1] == '.' { 0 } else if ndot(s, i - 1) > 0 { nfrac(s, i - 1) + 1 } else { 0 } }

pub open spec fn exp_neg(t: Seq<char>) -> bool { t.len() > 0 && t[0] == '-' }
/// where the digits of an exponent start
pub open spec fn exp_at(t: Seq<char>) -> int { if t.len() > 0 && (t[0] == '-' || t[0] == '+') { 1 } else { 0 } }
/// only digits from there to i
pub open spec fn exp_digits(t: Seq<char>, i: int) -> bool { forall|j: int| exp_at(t) <= j < i ==> is_dec(#[trigger] t[j]) }
pub open spec fn exp_abs(t: Seq<char>, i: int) -> nat
    decreases i
{ if i <= exp_at(t) { 0 } else { exp_abs(t, i - 1) * 10 + dig(t[i - 1], 10) } }
pub open spec fn exp_val(t: Seq<char>) -> int { if exp_neg(t) { -(exp_abs(t, t.len() as int) as int) } else { exp_abs(t, t.len() as int) as int } }

pub open spec fn after(s: Seq<char>, k: int) -> Seq<char> { s.subrange(k + 1, s.len() as int) }

pub open spec fn hex_ok(s: Seq<char>) -> bool {
    let k = sig_end(s, 16, 0);
    let t = after(s, k);
    &&& k < s.len() && (s[k] == 'p' || s[k] == 'P')
    &&& ndot(s, k) <= 1 && k > ndot(s, k)
    &&& exp_digits(t, t.len() as int) && t.len() > exp_at(t)
}

/// the literal's value, rounded once
pub open spec fn hex_out(f: Fm, neg: bool, s: Seq<char>, rm: Round) -> Out {
    let k = sig_end(s, 16, 0);
    rnd(f, neg, digits(s, 16, k), 1, exp_val(after(s, k)) - 4 * nfrac(s, k), rm)
}

// ---- the loop over the significand -----------------------------------------------------------------

/// the state after i characters
pub struct Hs { pub any: bool, pub dot: int, pub first: Option<usize>, pub pos: int, pub sig: nat, pub loss: Option<Loss> }

/// digits from the first that is not zero
pub open spec fn hlen(s: Seq<char>, i: int, dot: int, p: int) -> nat {
    (i - p - if ndot(s, i) == 1 && dot > p { 1int } else { 0 }) as nat
}

pub open spec fn p16(n: int) -> nat { pow2((4 * n) as nat) }

/// value, number of digits, kept part, lost part
pub open spec fn kept(v: nat, n: nat, sig: nat, loss: Option<Loss>) -> bool {
    &&& v < p16(n as int) && (n > 0 ==> v >= p16(n - 1))
    &&& n <= 32 ==> sig == v * p16(32 - n) && loss is None
    &&& n > 32 ==> sig == v / p16(n - 32) && loss == Some(loss_of(v % p16(n - 32), p16(n - 32)))
}

#[verifier::opaque]
pub open spec fn hstate(s: Seq<char>, i: int, h: Hs) -> bool {
    let n = match h.first { None => 0, Some(p) => hlen(s, i, h.dot, p as int) };
    let v = digits(s, 16, i);
    &&& 0 <= i <= s.len() && sig_end(s, 16, 0) == sig_end(s, 16, i) && ndot(s, i) <= 1 && off(s, i) == i
    &&& h.any == (i > ndot(s, i))
    &&& ndot(s, i) == 0 ==> h.dot == off(s, s.len() as int) && nfrac(s, i) == 0
    &&& ndot(s, i) == 1 ==> 0 <= h.dot < i && nfrac(s, i) == i - h.dot - 1
    &&& match h.first { None => v == 0, Some(p) => p < i && n > 0 && (ndot(s, i) == 1 ==> p != h.dot) }
    &&& n <= i && h.pos == 128 - 4 * n
    &&& kept(v, n as nat, h.sig, h.loss)
}

pub proof fn off_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures off(s, i) + (j - i) <= off(s, j)
    decreases j - i
{ if i < j { off_mono(s, i, j - 1); } }

pub proof fn end_ge(s: Seq<char>, radix: u32, i: int)
    requires 0 <= i <= s.len()
    ensures i <= sig_end(s, radix, i) <= s.len()
    decreases s.len() - i
{ if i < s.len() && (dval(s[i], radix) is Some || s[i] == '.') { end_ge(s, radix, i + 1); } }

pub proof fn ndot_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j
    ensures ndot(s, i) <= ndot(s, j)
    decreases j - i
{ if i < j { ndot_mono(s, i, j - 1); } }

pub proof fn p16s(n: int)
    requires n >= 0
    ensures p16(n + 1) == 16 * p16(n), p16(n) > 0
{
    pow2_add((4 * n) as nat, 4);
    p128();
    assert(pow2(4) == 16) by { lemma2_to64(); }
    lemma_pow2_pos((4 * n) as nat);
    assert(((4 * n) as nat + 4) as nat == (4 * (n + 1)) as nat);
}

pub proof fn kept0()
    ensures kept(0, 0, 0, None)
{
    lemma2_to64();
    assert(0 * p16(32) == 0);
}

/// one more digit
pub proof fn kept_step(v: nat, n: nat, sig: nat, loss: Option<Loss>, d: nat, sig1: nat, loss1: Option<Loss>)
    requires kept(v, n, sig, loss), d < 16, n > 0 || d > 0,
        n < 32 ==> sig1 == sig + d * p16(31 - n) && loss1 == loss,
        n >= 32 ==> sig1 == sig,
        n == 32 ==> loss1 == Some(loss_of(d, 16)),
        n > 32 ==> loss is Some && loss1 == Some(tail_loss(loss->0, d)),
    ensures kept(v * 16 + d, n + 1, sig1, loss1)
{
    p16s(n as int);
    if n > 0 { p16s(n - 1); }
    lemma2_to64();
    if n < 32 {
        p16s(31 - n);
        let (a, b) = (p16(31 - n) as int, v as int);
        assert((b * 16 + d) * a == b * (16 * a) + d * a) by (nonlinear_arith);
    } else if n == 32 {
        assert(p16(0) == 1);
        assert(v * 1 == v) by (nonlinear_arith);
        div_unique((v * 16 + d) as int, 16, v as int, d as int);
        assert(p16(1) == 16) by { p16s(0); }
    } else {
        let t = p16(n - 32) as int;
        p16s(n - 32);
        p16s(n - 33);
        let (q, r) = (v as int / t, v as int % t);
        div_mod_id(v as int, t);
        assert((v * 16 + d) as int == q * (16 * t) + (16 * r + d)) by (nonlinear_arith) requires v as int == q * t + r;
        assert(0 <= 16 * r + d < 16 * t) by (nonlinear_arith) requires 0 <= r < t, 0 <= d < 16;
        div_unique((v * 16 + d) as int, 16 * t, q, 16 * r + d);
        assert(t == 16 * p16(n - 33));
    }
}

pub open spec fn tail_loss(l: Loss, d: nat) -> Loss {
    if d == 0 { l } else if l == Loss::ExactlyZero { Loss::LessThanHalf } else if l == Loss::ExactlyHalf { Loss::MoreThanHalf } else { l }
}

pub open spec fn hdot(h: Hs, dot: int) -> Hs { Hs { any: h.any, dot, first: h.first, pos: h.pos, sig: h.sig, loss: h.loss } }

pub proof fn hs_start(s: Seq<char>)
    ensures hstate(s, 0, Hs { any: false, dot: off(s, s.len() as int) as int, first: None, pos: 128, sig: 0, loss: None })
{
    reveal(hstate);
    kept0();
}

pub proof fn hs_dot(s: Seq<char>, i: int, h: Hs)
    requires hstate(s, i, h), i < s.len(), s[i] == '.'
    ensures h.dot == off(s, s.len() as int) ==> hstate(s, i + 1, hdot(h, i)), h.dot != off(s, s.len() as int) ==> !hex_ok(s)
{
    reveal(hstate);
    off_mono(s, i, s.len() as int);
    if ndot(s, i) == 1 {
        end_ge(s, 16, i + 1);
        ndot_mono(s, i + 1, sig_end(s, 16, 0));
    }
}

pub proof fn hs_zero(s: Seq<char>, i: int, h: Hs)
    requires hstate(s, i, h), i < s.len(), dval(s[i], 16) == Some(0u32), h.first is None
    ensures hstate(s, i + 1, Hs { any: true, ..h })
{
    reveal(hstate);
}

pub proof fn hs_digit(s: Seq<char>, i: int, h: Hs, d: u32, first1: Option<usize>, sig1: nat, loss1: Option<Loss>)
    requires hstate(s, i, h), i < s.len(), dval(s[i], 16) == Some(d), d > 0 || h.first is Some, i <= usize::MAX,
        first1 == if h.first is None { Some(i as usize) } else { h.first },
        h.pos >= 4 ==> sig1 == h.sig + d as nat * pow2((h.pos - 4) as nat) && loss1 == h.loss,
        h.pos < 4 ==> sig1 == h.sig,
        h.pos < 4 && h.loss is None ==> loss1 == Some(loss_of(d as nat, 16)),
        h.pos < 4 && h.loss is Some ==> loss1 == Some(tail_loss(h.loss->0, d as nat)),
    ensures hstate(s, i + 1, Hs { any: true, dot: h.dot, first: first1, pos: h.pos - 4, sig: sig1, loss: loss1 })
{
    reveal(hstate);
    off_mono(s, i, s.len() as int);
    let n = (match h.first { None => 0, Some(p) => hlen(s, i, h.dot, p as int) }) as nat;
    let v = digits(s, 16, i);
    if n < 32 { assert(pow2((h.pos - 4) as nat) == p16(31 - n)); }
    kept_step(v, n, h.sig, h.loss, d as nat, sig1, loss1);
    let h1 = Hs { any: true, dot: h.dot, first: first1, pos: h.pos - 4, sig: sig1, loss: loss1 };
    assert(digits(s, 16, i + 1) == v * 16 + d as nat);
    assert(ndot(s, i + 1) == ndot(s, i));
    let p1 = first1->0 as int;
    assert(hlen(s, i + 1, h1.dot, p1) == n + 1);
}

/// the bits a digit goes to are still zero
pub proof fn hs_room(s: Seq<char>, i: int, h: Hs, d: u32, sig: u128)
    requires hstate(s, i, h), h.pos >= 4, d < 16, h.sig == sig
    ensures 4 <= h.pos <= 128,
        sig | ((d as u128) << ((h.pos - 4) as u128)) == sig + d as nat * pow2((h.pos - 4) as nat)
{
    reveal(hstate);
    let n = (match h.first { None => 0, Some(p) => hlen(s, i, h.dot, p as int) }) as nat;
    let v = digits(s, 16, i);
    p16s(31 - n);
    lemma2_to64();
    let k = (h.pos - 4) as nat;
    pow2_add(k, 4);
    pow2_add(4, k);
    assert(d as nat * pow2(k) < pow2(4) * pow2(k)) by (nonlinear_arith) requires (d as nat) < 16, pow2(k) > 0, pow2(4) == 16;
    pow2_le(k + 4, 128);
    shl_nowrap(d as u128, k as u128);
    if k + 4 < 128 {
        div_exact(v as int, pow2(k + 4) as int);
        or_disjoint(sig, (d as u128) << (k as u128), (k + 4) as u128);
    } else {
        assert(n == 0 && v < p16(0));
        assert(p16(0) == 1);
        assert(v == 0);
        assert(v * p16(32) == 0) by { lemma_mul_by_zero_is_zero(p16(32) as int); }
        assert(0u128 | ((d as u128) << (k as u128)) == (d as u128) << (k as u128)) by (bit_vector);
    }
}

pub proof fn hs_bounds(s: Seq<char>, i: int, h: Hs)
    requires hstate(s, i, h)
    ensures h.pos >= 128 - 4 * s.len(), h.any == (i > ndot(s, i)), h.first is None ==> digits(s, 16, i) == 0, off(s, i) == i
{
    reveal(hstate);
}

pub proof fn shl_isize(d: u32, k: isize)
    requires 4 <= k <= 128
    ensures (d as u128) << ((k - 4) as isize) == (d as u128) << ((k - 4) as u128)
{
}

pub proof fn hs_other(s: Seq<char>, i: int, h: Hs)
    requires hstate(s, i, h), i >= s.len() || (!is_hex(s[i]) && s[i] != '.')
    ensures sig_end(s, 16, 0) == i, off(s, i) == i, i < s.len() && clen(s[i]) == 1 ==> off(s, i + 1) == i + 1,
        h.any == (i > ndot(s, i)), ndot(s, i) <= 1, h.dot == off(s, s.len() as int) <==> ndot(s, i) == 0,
        i >= s.len() || !h.any ==> !hex_ok(s),
        i < s.len() ==> i < off(s, s.len() as int),
{
    reveal(hstate);
    off_mono(s, i, s.len() as int);
}

/// after the exponent: dot is the end of the significand if the text has none
#[verifier::opaque]
pub open spec fn hdone(s: Seq<char>, h: Hs, e: int) -> bool {
    let k = sig_end(s, 16, 0);
    &&& hex_ok(s)
    &&& h.any
    &&& e == clamp_exp(exp_val(after(s, k)))
    &&& hstate(s, k, if ndot(s, k) == 0 { hdot(h, off(s, s.len() as int) as int) } else { h })
    &&& ndot(s, k) == 0 ==> h.dot == k
}

pub open spec fn clamp_exp(x: int) -> int { if x > i32::MAX { i32::MAX as int } else if x < -i32::MAX { -i32::MAX } else { x } }

/// exponents that saturate are out of reach of the format in any case
pub proof fn sat_exp(f: Fm, m: nat, e: int, a: int, c: int, b: int, rm: Round)
    requires wff(f), f.qn < pow2(f.p), m > 0, -0x2000_0000 <= a <= 0, -0x2000_0100 <= b <= 0x2000_0100,
        c == clamp32(clamp_exp(e) + b), blen(m) <= 0x2000_0000
    ensures rnd(f, false, m, 1, e + a, rm) == rnd(f, false, m, 1, c - b + a, rm)
{
    blen0();
    if e + b == c {
    } else if e > 0 {
        rnd_big(f, false, m, e + a, rm);
        rnd_big(f, false, m, c - b + a, rm);
    } else {
        rnd_tiny(f, false, m, e + a, c - b + a, rm);
    }
}
pub open spec fn clamp32(x: int) -> int { if x > i32::MAX { i32::MAX as int } else if x < i32::MIN { i32::MIN as int } else { x } }

pub proof fn kept_blen(v: nat, n: nat, sig: nat, loss: Option<Loss>)
    requires kept(v, n, sig, loss), n > 0
    ensures v > 0, blen(v) <= 4 * n, sig > 0, blen(sig) <= 128, blen(sig) >= 125
{
    p16s(n - 1);
    blen_le(v, 4 * n);
    lemma2_to64();
    if n <= 32 {
        p16s(32 - n);
        pow2_add((4 * (n - 1)) as nat, (4 * (32 - n)) as nat);
        pow2_add((4 * n) as nat, (4 * (32 - n)) as nat);
        let (a, b) = (p16(32 - n) as int, v as int);
        assert(b * a >= p16(n - 1) * a) by (nonlinear_arith) requires b >= p16(n - 1), a > 0;
        assert(b * a < p16(n as int) * a) by (nonlinear_arith) requires b < p16(n as int), a > 0;
    } else {
        let t = p16(n - 32);
        p16s(n - 32);
        pow2_add((4 * (n - 32)) as nat, 124);
        pow2_add((4 * (n - 32)) as nat, 128);
        assert(p16(n - 1) == pow2(124) * t) by { assert((4 * (n - 32)) as nat + 124 == (4 * (n - 1)) as nat); lemma_mul_is_commutative(pow2(124) as int, t as int); }
        assert(p16(n as int) == pow2(128) * t) by { assert((4 * (n - 32)) as nat + 128 == (4 * n) as nat); lemma_mul_is_commutative(pow2(128) as int, t as int); }
        div_ge(v as int, t as int, pow2(124) as int);
        div_lt(v as int, t as int, pow2(128) as int);
    }
    blen_le(sig, 128);
    if blen(sig) <= 124 { blen_bounds(sig); pow2_le(blen(sig), 124); }
}

/// the digits kept and the class of those lost round as the whole number does
pub proof fn kept_rnd(f: Fm, v: nat, n: nat, sig: nat, loss: Option<Loss>, e: int, rm: Round)
    requires wff(f), f.qn < pow2(f.p), kept(v, n, sig, loss), n > 0
    ensures ({
        let l = match loss { Some(x) => x, None => Loss::ExactlyZero };
        &&& norm(f, false, sig, e + 4 * (n - 32), l, rm) == rnd(f, false, v, 1, e, rm)
        &&& unit(f, blen(sig) - 1 + e + 4 * (n - 32)) >= e + 4 * (n - 32)
    })
{
    kept_blen(v, n, sig, loss);
    if n <= 32 {
        lemma2_to64();
        rnd_shift(f, false, v, 1, e, rm, (4 * (32 - n)) as nat, 0);
        assert(1 * pow2(0) == 1);
        assert(sig / 1 == sig && sig % 1 == 0);
        norm_cut(f, false, sig, 1, e + 4 * (n - 32), rm);
    } else {
        let b = (4 * (n - 32)) as nat;
        lemma2_to64();
        lemma_pow2_pos(b);
        rnd_shift(f, false, v, 1, e, rm, 0, b);
        assert(v * pow2(0) == v && 1 * pow2(b) == pow2(b));
        if v < pow2(b) { lemma_basic_div(v as int, pow2(b) as int); }
        norm_cut(f, false, v, pow2(b), e + b, rm);
    }
}

pub proof fn hs_finish(f: Fm, s: Seq<char>, h: Hs, e: int, p: int, x: int, rm: Round)
    requires wff(f), f.qn < pow2(f.p), hdone(s, h, e), h.first == Some(p as usize), 0 <= p <= usize::MAX, s.len() < 0x800_0000,
        x == clamp32(e + 4 * (if h.dot > p { h.dot - p } else { -(p - h.dot - 1) }) - 1 + f.p - 128)
    ensures ({
        let l = match h.loss { Some(x) => x, None => Loss::ExactlyZero };
        &&& hex_out(f, false, s, rm) == norm(f, false, h.sig, x - (f.p - 1), l, rm)
        &&& unit(f, blen(h.sig) - 1 + x - (f.p - 1)) >= x - (f.p - 1)
    })
{
    reveal(hdone);
    reveal(hstate);
    let k = sig_end(s, 16, 0);
    let v = digits(s, 16, k);
    let n = hlen(s, k, if ndot(s, k) == 0 { off(s, s.len() as int) as int } else { h.dot }, p);
    let nf = nfrac(s, k);
    let b = 4 * (n - nf) + f.p - 129;
    assert(if h.dot > p { h.dot - p } else { -(p - h.dot - 1) } == n - nf);
    kept_blen(v, n, h.sig, h.loss);
    let ev = exp_val(after(s, k));
    sat_exp(f, v, ev, -4 * nf, x, b, rm);
    kept_rnd(f, v, n, h.sig, h.loss, x - b - 4 * nf, rm);
}

pub proof fn hs_zero_value(f: Fm, s: Seq<char>, h: Hs, e: int, rm: Round)
    requires hdone(s, h, e), h.first is None
    ensures hex_out(f, false, s, rm) == (Out { st: Status::OK, v: zero_d(f, false) })
{
    reveal(hdone);
    reveal(hstate);
    reveal(rnd);
}

pub proof fn hs_ok(s: Seq<char>, h: Hs, e: int)
    requires hdone(s, h, e)
    ensures hex_ok(s), h.any
{
    reveal(hdone);
}

pub proof fn hs_range(s: Seq<char>, h: Hs, e: int, p: int)
    requires hdone(s, h, e), h.first == Some(p as usize), 0 <= p <= usize::MAX
    ensures h.sig > 0, blen(h.sig) >= 125, p != h.dot, p < s.len(), 0 <= h.dot <= s.len()
{
    reveal(hdone);
    reveal(hstate);
    let k = sig_end(s, 16, 0);
    let n = hlen(s, k, if ndot(s, k) == 0 { off(s, s.len() as int) as int } else { h.dot }, p);
    kept_blen(digits(s, 16, k), n, h.sig, h.loss);
}
@fn IeeeFloat::from_hexadecimal_string
    requires wfs::<S>()
    ensures r is Ok == hex_ok(s@), r is Ok ==> wf(r->Ok_0.value),
        r is Ok && s@.len() < 0x800_0000 ==> out(r->Ok_0) == hex_out(fm::<S>(), false, s@, round)
@hint start
    let ghost f = fm::<S>();
    let ghost q = s@;
    proof {
        wfs_basic::<S>();
        hs_start(q);
        if q.len() == 0 { hs_other(q, 0, Hs { any: false, dot: off(q, q.len() as int) as int, first: None, pos: 128, sig: 0, loss: None }); }
    }
@loop 0
    invariant_except_break
        !has_exp, r.exp == 0,
        hstate(q, vx_i0 as int, Hs { any: any_digits, dot: dot as int, first: first_sig_digit, pos: bit_pos as int, sig: r.sig@[0] as nat, loss }),
        vx_i0 == q.len() ==> !hex_ok(q),
    invariant vx_i0 <= q.len(), wfs::<S>(), s@ == q, f == fm::<S>(), r.read_only_category_do_not_mutate == Category::Normal, !r.read_only_sign_do_not_mutate,
        r.sig@.len() == 1,
    ensures
        has_exp ==> hdone(q, Hs { any: any_digits, dot: dot as int, first: first_sig_digit, pos: bit_pos as int, sig: r.sig@[0] as nat, loss }, r.exp as int),
        !has_exp ==> !hex_ok(q),
    decreases q.len() - vx_i0
@hint loopstart 0
    let ghost i0 = vx_i0 as int;
    let ghost h0 = Hs { any: any_digits, dot: dot as int, first: first_sig_digit, pos: bit_pos as int, sig: r.sig@[0] as nat, loss };
    let ghost (sig0, k0) = (r.sig@[0], sig_end(q, 16, 0));
    proof {
        hs_bounds(q, i0, h0);
        if q[i0] == '.' { hs_dot(q, i0, h0); }
        else if !is_hex(q[i0]) { hs_other(q, i0, h0); }
        else if h0.pos >= 4 { hs_room(q, i0, h0, dval(q[i0], 16)->0, sig0); shl_isize(dval(q[i0], 16)->0, bit_pos); }
    }
@hint before 0 continue
    proof {
        hs_zero(q, i0, h0);
        if i0 + 1 == q.len() { hs_other(q, i0 + 1, Hs { any: true, ..h0 }); }
    }
@hint loopend 0
    proof {
        let h1 = Hs { any: any_digits, dot: dot as int, first: first_sig_digit, pos: bit_pos as int, sig: r.sig@[0] as nat, loss };
        if is_hex(q[i0]) {
            assert(off(q, i0) == p);
            hs_digit(q, i0, h0, dval(q[i0], 16)->0, first_sig_digit, r.sig@[0] as nat, loss);
        }
        assert(hstate(q, i0 + 1, h1));
        if i0 + 1 == q.len() { hs_other(q, i0 + 1, h1); }
    }
@hint before 0 letmutvx_c0=chars;
    let ghost t = after(q, i0);
    let ghost r0 = r;
    proof {
        assert(i0 == k0);
        assert(off(q, i0 + 1) == p + 1);
        assert(chars.s@ == t);
        assert(chars.i == exp_at(t));
    }
@loop 1
    invariant vx_c0.ok(), vx_c0.s@ == t, exp_at(t) <= vx_c0.i, exp_digits(t, vx_c0.i as int), 0 <= exp_at(t) <= t.len(),
        r.exp == clamp_exp(exp_abs(t, vx_c0.i as int) as int), r.exp >= 0, has_exp == (vx_c0.i > exp_at(t)),
        r.sig@ == r0.sig@, r.read_only_category_do_not_mutate == Category::Normal, !r.read_only_sign_do_not_mutate,
        t == after(q, k0), k0 == sig_end(q, 16, 0), s@ == q,
    decreases t.len() - vx_c0.i
@hint loopstart 1
    proof {
        if !is_dec(t[vx_c0.i as int]) { assert(!exp_digits(t, t.len() as int)); }
    }
@hint before 0 break
    proof {
        assert(exp_minus == exp_neg(t));
        assert(hdone(q, Hs { any: any_digits, dot: dot as int, first: first_sig_digit, pos: bit_pos as int, sig: r.sig@[0] as nat, loss }, r.exp as int)) by {
            reveal(hdone);
        }
    }
@hint before 1 if!any_digits
    let ghost hh = Hs { any: any_digits, dot: dot as int, first: first_sig_digit, pos: bit_pos as int, sig: r.sig@[0] as nat, loss };
    proof {
        if has_exp {
            hs_ok(q, hh, r.exp as int);
            if first_sig_digit is None { hs_zero_value(f, q, hh, r.exp as int, round); }
        }
    }
@hint before 0 letexp_adjustment=ifdot
    let ghost h = Hs { any: any_digits, dot: dot as int, first: Some(first_sig_digit), pos: bit_pos as int, sig: r.sig@[0] as nat, loss };
    let ghost e0 = r.exp as int;
    proof { hs_range(q, h, e0, first_sig_digit as int); }
@hint before 0 r.exp=r.exp.saturating_add(exp_adj
    proof {
        if q.len() < 0x800_0000 {
            hs_finish(f, q, h, e0, first_sig_digit as int, clamp32(e0 + exp_adjustment), round);
        }
    }
