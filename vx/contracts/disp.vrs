@module disp dig
@raw
// ---- how it is laid out ------------------------------------------------------------------------------

/// the digits from the most significant one down, those at places hi-1 .. lo
#[verifier::opaque]
pub open spec fn chars_of(b: Seq<u8>, hi: int, lo: int) -> Seq<char> { Seq::new((hi - lo) as nat, |i: int| b[hi - 1 - i] as char) }
#[verifier::opaque]
pub open spec fn zeros(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| '0') }

/// the options of the format specification, with their defaults
pub ghost struct Opt { pub width: nat, pub prec: Option<nat>, pub alt: bool }
pub open spec fn opt(f: Formatter) -> Opt {
    Opt { width: match f.w { Some(w) => w as nat, None => 3 }, prec: match f.p { Some(p) => Some(p as nat), None => None }, alt: f.alt }
}
pub open spec fn digits_for(f: Fm, o: Opt) -> nat {
    match o.prec { Some(p) => if p > 0 { p } else { 2 + f.p * 59 / 196 }, None => 2 + f.p * 59 / 196 }
}

/// with an exponent: the width asked for is too small for the zeros it would take without
pub open spec fn scientific(n: nat, e: int, o: Opt, prec: nat) -> bool {
    o.width == 0 || (if e >= 0 { e > o.width || n + e > prec } else { e + n - 1 < 0 && -(e + n - 1) > o.width })
}
/// the number with digits b, times 10^e
#[verifier::opaque]
pub open spec fn layout(b: Seq<u8>, e: int, o: Opt, prec: nat) -> Seq<char> {
    let n = b.len() as int;
    if scientific(b.len(), e, o, prec) {
        chars_of(b, n, n - 1) + seq!['.'] + (if n == 1 && !o.alt { zeros(1) } else { chars_of(b, n - 1, 0) })
            + (if o.alt { zeros(prec - n + 1) } else { zeros(0) }) + seq![if o.alt { 'e' } else { 'E' }] + signed_str(e + n - 1, if o.alt { 3 } else { 0 })
    } else if e >= 0 {
        chars_of(b, n, 0) + zeros(e)
    } else if -e < n {
        chars_of(b, n, -e) + seq!['.'] + chars_of(b, -e, 0)
    } else {
        "0."@ + zeros(-e - n) + chars_of(b, n, 0)
    }
}

#[verifier::opaque]
pub open spec fn zero_text(o: Opt) -> Seq<char> {
    if o.width == 0 {
        if o.alt { "0.0"@ + zeros(match o.prec { Some(p) => p - 1, None => 0 }) + "e+00"@ } else { "0.0E+0"@ }
    } else { seq!['0'] }
}

/// digits and exponent of what is printed for m * 2^e0
#[verifier::opaque]
pub open spec fn shown(m: nat, e0: int, b: Seq<u8>, e: int, prec: nat) -> bool {
    &&& isd(b) && 0 < b.len() <= prec && b[0] != 48 && b.last() != 48 && -0x7000 <= e <= 0x2_0000
    &&& exists|n: nat, k: nat| #[trigger] decimal_of(m, e0, n, k) && e + k >= 0 && near_dec(n, dnum(b), (e + k) as nat, prec)
}

#[verifier::opaque]
pub open spec fn sign_txt(neg: bool) -> Seq<char> { if neg { seq!['-'] } else { Seq::empty() } }

#[verifier::opaque]
pub open spec fn displayed(f: Fm, d: Dat, o: Opt, s: Seq<char>) -> bool {
    match d.cat {
        Category::Infinity => s == if d.sign { "-Inf"@ } else { "+Inf"@ },
        Category::NaN => s == "NaN"@,
        Category::Zero => s == sign_txt(d.sign) + zero_text(o),
        Category::Normal => exists|b: Seq<u8>, e: int| #[trigger] shown(d.m, d.exp - (f.p - 1), b, e, digits_for(f, o)) && s == sign_txt(d.sign) + layout(b, e, o, digits_for(f, o)),
    }
}

pub open spec fn maxprec() -> int { 0x100_0000 }

pub proof fn shown_end(m: nat, e0: int, n: nat, k: nat, b: Seq<u8>, t: nat, prec: nat)
    requires decimal_of(m, e0, n, k), near_dec(n, dnum(b), t, prec), isd(b), 0 < b.len() <= prec, b[0] != 48, b.last() != 48, -0x7000 <= t - k <= 0x2_0000
    ensures shown(m, e0, b, t - k, prec)
{
    reveal(shown);
    assert(t - k + k == t);
}

/// the decimal expansion of a value has few enough limbs
pub proof fn sized(v: Seq<u128>, n: nat)
    requires val(v) == n, v.len() == 0 || tight(v)
    ensures 128 * v.len() <= blen(n) + 128
{
    blen_bounds(n);
    if v.len() > 0 { tight_len(v, blen(n)); }
}

pub proof fn shl_fits(s0: Seq<u128>, s1: Seq<u128>, m: nat, p: nat, sh: nat)
    requires s0.len() == 1, val(s0) == m, m < pow2(p), s1.len() == (p + sh + 127) / 128, p > 0, forall|i: int| 0 <= i < s1.len() ==> s1[i] == (if i < 1 { s0[i] } else { 0 })
    ensures val(s1) == m, m * pow2(sh) < pow2((128 * s1.len()) as nat)
{
    val_high_zero(s1, 1);
    assert(s1.take(1) =~= s0);
    lemma_pow2_pos(sh);
    pow2_add(p, sh);
    mul_lt(m as int, pow2(p) as int, pow2(sh) as int);
    pow2_le(p + sh, (128 * s1.len()) as nat);
}

/// m = m1 * 2^tz
pub proof fn odd_part(m: nat, tz: nat)
    requires m > 0, m % pow2(tz) == 0
    ensures m == (m / pow2(tz)) * pow2(tz), 0 < m / pow2(tz) <= m
{
    lemma_pow2_pos(tz);
    div_mod_id(m as int, pow2(tz) as int);
    let (q, t) = ((m / pow2(tz)) as int, pow2(tz) as int);
    if q <= 0 { assert(q * t <= 0) by (nonlinear_arith) requires q <= 0, t > 0; }
    assert(q <= q * t) by (nonlinear_arith) requires q > 0, t > 0;
}

pub proof fn disp_fixed(f: Fm, d: Dat, op: Opt)
    ensures d.cat == Category::Infinity ==> displayed(f, d, op, if d.sign { "-Inf"@ } else { "+Inf"@ }),
        d.cat == Category::NaN ==> displayed(f, d, op, "NaN"@),
        d.cat == Category::Zero ==> displayed(f, d, op, sign_txt(d.sign) + zero_text(op))
{ reveal(displayed); }

/// the top limb is not zero
pub proof fn top_nonzero(v: Seq<u128>)
    requires v.len() > 0 ==> v[v.len() - 1] != 0
    ensures (v.len() == 0) == (val(v) == 0), val(v) > 0 ==> tight(v), v.len() > 0 ==> tight(v)
{
    if v.len() > 0 { tight_last(v); lemma_pow2_pos((128 * (v.len() - 1)) as nat); }
}
pub proof fn normal_facts(f: Fm, d: Dat)
    requires wfd(f, d), wff(f), d.cat == Category::Normal
    ensures f.lo <= d.exp <= f.hi, 0 < d.m, d.m < pow2(f.p), pow2(f.p) <= pow2(113)
{ pow2_le(f.p, 113); }

/// m1 * 5^y
pub proof fn sig_small(m1: nat, y: nat)
    requires m1 < pow2(128)
    ensures m1 * five(y) <= pow2(128 + 3 * y)
{
    p5_size(y);
    pow2_add(128, 3 * y);
    let (a, b, c, d) = (m1 as int, pow2(128) as int, five(y) as int, pow2(3 * y) as int);
    assert(a * c <= b * d) by (nonlinear_arith) requires 0 <= a <= b, 0 <= c <= d;
}

// what has been written, piece by piece
pub proof fn chars_nil(o: Seq<char>, b: Seq<u8>, hi: int)
    ensures o + chars_of(b, hi, hi) == o
{ reveal(chars_of); assert(o + chars_of(b, hi, hi) =~= o); }
pub proof fn chars_step(o: Seq<char>, b: Seq<u8>, hi: int, lo: int)
    requires 0 < lo <= hi <= b.len()
    ensures (o + chars_of(b, hi, lo)).push(b[lo - 1] as char) == o + chars_of(b, hi, lo - 1)
{ reveal(chars_of); assert((o + chars_of(b, hi, lo)).push(b[lo - 1] as char) =~= o + chars_of(b, hi, lo - 1)); }
pub proof fn zeros_nil(o: Seq<char>)
    ensures o + zeros(0) == o
{ reveal(zeros); assert(o + zeros(0) =~= o); }
pub proof fn zeros_step(o: Seq<char>, i: int)
    requires i >= 0
    ensures (o + zeros(i)).push('0') == o + zeros(i + 1)
{ reveal(zeros); assert((o + zeros(i)).push('0') =~= o + zeros(i + 1)); }
pub proof fn sgn_out(o: Seq<char>, neg: bool, o1: Seq<char>)
    requires o1 == if neg { o.push('-') } else { o }
    ensures o1 == o + sign_txt(neg)
{ reveal(sign_txt); assert(o1 =~= o + sign_txt(neg)); }

pub proof fn out_sci(o0: Seq<char>, sg: Seq<char>, o1: Seq<char>, o2: Seq<char>, o3: Seq<char>, o4: Seq<char>, ofin: Seq<char>, b: Seq<u8>, e: int, o: Opt, prec: nat)
    requires b.len() > 0, scientific(b.len(), e, o, prec), o1 == o0 + sg, o2 == o1.push(b[b.len() - 1] as char).push('.'),
        o3 == (if b.len() == 1 && !o.alt { o2.push('0') } else { o2 + chars_of(b, b.len() - 1, 0) }),
        o4 == (if o.alt && prec > b.len() - 1 { o3 + zeros(prec - b.len() + 1) } else { o3 }),
        ofin == o4.push(if o.alt { 'e' } else { 'E' }) + signed_str(e + b.len() - 1, if o.alt { 3 } else { 0 })
    ensures ofin == o0 + (sg + layout(b, e, o, prec))
{ reveal(layout); reveal(chars_of); reveal(zeros); assert(ofin =~= o0 + (sg + layout(b, e, o, prec))); }
pub proof fn out_int(o0: Seq<char>, sg: Seq<char>, o1: Seq<char>, ofin: Seq<char>, b: Seq<u8>, e: int, o: Opt, prec: nat)
    requires !scientific(b.len(), e, o, prec), e >= 0, o1 == o0 + sg, ofin == o1 + chars_of(b, b.len() as int, 0) + zeros(e)
    ensures ofin == o0 + (sg + layout(b, e, o, prec))
{ reveal(layout); assert(ofin =~= o0 + (sg + layout(b, e, o, prec))); }
pub proof fn out_mix(o0: Seq<char>, sg: Seq<char>, o1: Seq<char>, ofin: Seq<char>, b: Seq<u8>, e: int, o: Opt, prec: nat)
    requires !scientific(b.len(), e, o, prec), e < 0, -e < b.len(), o1 == o0 + sg,
        ofin == (o1 + chars_of(b, b.len() as int, -e)).push('.') + chars_of(b, -e, 0)
    ensures ofin == o0 + (sg + layout(b, e, o, prec))
{ reveal(layout); assert(ofin =~= o0 + (sg + layout(b, e, o, prec))); }
pub proof fn out_frac(o0: Seq<char>, sg: Seq<char>, o1: Seq<char>, ofin: Seq<char>, b: Seq<u8>, e: int, o: Opt, prec: nat)
    requires !scientific(b.len(), e, o, prec), e < 0, -e >= b.len(), o1 == o0 + sg,
        ofin == (o1 + "0."@ + zeros(-e - b.len())) + chars_of(b, b.len() as int, 0)
    ensures ofin == o0 + (sg + layout(b, e, o, prec))
{ reveal(layout); assert(ofin =~= o0 + (sg + layout(b, e, o, prec))); }
pub proof fn out_zero(o0: Seq<char>, neg: bool, o1: Seq<char>, ofin: Seq<char>, o: Opt)
    requires o1 == if neg { o0.push('-') } else { o0 },
        ofin == (if o.width == 0 { if o.alt { (if o.prec is Some { o1 + "0.0"@ + zeros(if o.prec->0 > 1 { o.prec->0 - 1 } else { 0 }) } else { o1 + "0.0"@ }) + "e+00"@ } else { o1 + "0.0E+0"@ } } else { o1.push('0') })
    ensures ofin == o0 + (sign_txt(neg) + zero_text(o))
{ reveal(zero_text); reveal(sign_txt); reveal(zeros); assert(ofin =~= o0 + (sign_txt(neg) + zero_text(o))); }

/// the significand times the power of two or five
#[verifier::opaque]
pub open spec fn expanded(v: Seq<u128>, ex: int, m1: nat, e1: int) -> bool {
    &&& v.len() > 0 && (v.len() <= 0x1000 || tight(v))
    &&& e1 >= 0 ==> ex == 0 && val(v) == m1 * pow2(e1 as nat)
    &&& e1 < 0 ==> ex == e1 && val(v) == m1 * five((-e1) as nat)
}
pub proof fn expanded_is(v: Seq<u128>, ex: int, m1: nat, e1: int)
    requires v.len() > 0, v.len() <= 0x1000 || tight(v), e1 >= 0 ==> ex == 0 && val(v) == m1 * pow2(e1 as nat), e1 < 0 ==> ex == e1 && val(v) == m1 * five((-e1) as nat)
    ensures expanded(v, ex, m1, e1)
{ reveal(expanded); }
pub proof fn start_facts(m: nat, e0: int, tz: nat, m1: nat, e1: int, v: Seq<u128>, ex: int)
    requires expanded(v, ex, m1, e1), m == m1 * pow2(tz), e1 == e0 + tz, 0 < m1 < pow2(113), -0x7000 <= e1 <= 0x9000
    ensures val(v) > 0, blen(val(v)) <= 0x1_8000, 0 < v.len() <= 0x1000, -0x7000 <= ex <= 0, decimal_of(m, e0, val(v), (-ex) as nat), dst(val(v), val(v), Seq::<u8>::empty(), 0, 0, 0)
{
    reveal(expanded);
    let n = val(v);
    if e1 >= 0 { decimal_up(m, m1, e0, tz, n); } else { decimal_down(m, m1, e0, tz, (-e1) as nat); }
    n_size(m1, e1, n);
    if v.len() > 0x1000 { sized(v, n); }
    dst_start(n);
}

@fn IeeeFloat::fmt rlimit(400)
    requires wf(*self), old(f).p is Some ==> old(f).p->0 <= maxprec()
    ensures final(f).same(*old(f)), r is Ok ==> exists|s: Seq<char>| final(f).out@ == old(f).out@ + s && #[trigger] displayed(fm::<S>(), dat(*self), opt(*old(f)), s)
@hint top
    hide(dnum); hide(ten); hide(five); hide(blen); hide(val); hide(wfd);
@hint start
    let ghost o0 = f.out@;
    let ghost op = opt(*f);
    let ghost fmt_ = fm::<S>();
    let ghost d = dat(*self);
    proof { wfs_basic::<S>(); disp_fixed(fmt_, d, op); }
@hint before 0 ifwidth==0
    let ghost oz = f.out@;
@hint before 0 whilevx_i0<vx_e0
    let ghost oa = f.out@;
    proof { zeros_nil(oa); }
@loop 0
    invariant 1 <= vx_i0, vx_i0 <= vx_e0 || vx_i0 == 1, vx_e0 == n, f.same(*old(f)), f.out@ == oa + zeros(vx_i0 - 1)
    decreases vx_e0 - vx_i0
@hint loopstart 0
    proof { zeros_step(oa, vx_i0 - 1); }
@hint before 0 returnOk(())
    proof { out_zero(o0, d.sign, oz, f.out@, op); }
@hint before 0 letprecision=
    let ghost o1 = f.out@;
    proof { sgn_out(o0, d.sign, o1); assert(d.cat == Category::Normal); normal_facts(fmt_, d); }
@hint after 0 letmutexp=
    let ghost e0 = exp as int;
    let ghost pr = precision as nat;
    proof {
        assert(pr == digits_for(fmt_, op));
        assert(e0 == d.exp - (fmt_.p - 1));
        assert(0 < pr <= maxprec());
    }
@hint after 0 lettrailing_zeros
    let ghost s0 = sig@;
    let ghost m = d.m;
    let ghost tz = trailing_zeros as nat;
    let ghost m1 = m / pow2(tz);
    let ghost e1 = e0 + tz;
    proof { val1(sig@); odd_part(m, tz); }
@hint before 0 ifexp==0
    let ghost s1 = sig@;
    proof { assert(val(sig@) == m1 && exp == e1); p128(); val_take_all(s1); }
@hint after 0 sig.resize
    proof { shl_fits(s1, sig@, m1, fmt_.p, shift as nat); }
@hint after 0 letmuttexp
    let ghost kk = texp as nat;
    let ghost mut y: nat = 0;
    let ghost mut w: nat = 1;
    proof {
        p10_small();
        assert(tight(sig@));
        lemma_mul_basics(m1 as int);
        lemma_mul_basics(kk as int);
    }
@loop 1
    invariant 0 < kk <= 0x7000, m1 > 0, m1 < pow2(128), w >= 1, p5@.len() == 0 ==> w == 1, p5@.len() > 0 ==> tight(p5@) && w >= 2 && w % 2 == 0 && val(p5@) == five(w / 2),
        val(sig@) == m1 * five(y), tight(sig@), y + w * texp == kk, texp == 0 ==> y == kk, exp == -kk,
    decreases texp
@hint loopstart 1
    let ghost pw = texp;
    let ghost (p5o, sgo, yo, wo) = (p5@, sig@, y, w);
    proof {
        power_bits(texp);
        assert(w * texp >= w) by (nonlinear_arith) requires texp >= 1;
        p5_size(w);
        p5_size(w / 2);
        p5_size(y);
        p5_size(y + w);
        p5_add(y, w);
        p10_pos(w);
        p10_pos(y);
        p10_pos(y + w);
        if p5@.len() > 0 {
            tight_len(p5@, 3 * (w / 2));
            full_mul(p5@, p5@);
            p5_add(w / 2, w / 2);
        }
        sig_small(m1, y);
        tight_len(sig@, 128 + 3 * y);
        p10_small();
        lemma_mul_is_associative(m1 as int, five(y) as int, five(w) as int);
        lemma_mul_strictly_positive(m1 as int, five(y + w) as int);
        assert(wo == 1 ==> five(wo) == 5);
    }
@hint after 0 p5.push
    proof { val1(p5@); p128(); tight_last(p5@); }
@loop 2
    invariant val(p5_scratch@) == five(wo), five(wo) > 0
    decreases p5_scratch@.len()
@hint loopstart 2
    proof { pop_zero(p5_scratch@); assert(p5_scratch@.drop_last() =~= p5_scratch@.subrange(0, p5_scratch@.len() - 1)); }
@hint before 0 mem::swap(&mutp5,
    proof { top_nonzero(p5_scratch@); }
@hint before 0 iftexp&1
    proof { assert(val(p5@) == five(wo) && tight(p5@)); tight_len(p5@, 3 * wo); full_mul(sig@, p5@); }
@loop 3
    invariant val(sig_scratch@) == m1 * five(yo + wo), m1 * five(yo + wo) > 0
    decreases sig_scratch@.len()
@hint loopstart 3
    proof { pop_zero(sig_scratch@); assert(sig_scratch@.drop_last() =~= sig_scratch@.subrange(0, sig_scratch@.len() - 1)); }
@hint before 0 mem::swap(&mutsig,
    proof { top_nonzero(sig_scratch@); }
@hint before 0 texp>>=1
    proof {
        let (wi, hf) = (w as int, pw as int / 2);
        assert(wi * (2 * hf) == (2 * wi) * hf) by (nonlinear_arith);
        assert(wi * (2 * hf + 1) == wi * (2 * hf) + wi) by (nonlinear_arith);
        assert((2 * wi) * 0 == 0);
        if pw % 2 == 1 { y = y + w; }
        w = 2 * w;
    }
@hint after 0 sig::shift_left(&mutsig,&mutexp,shift);
    proof { expanded_is(sig@, exp as int, m1, e1); }
@hint before 0 letmutbuffer
    let ghost n = val(sig@);
    let ghost k = (-exp) as nat;
    proof {
        if e1 == 0 { p128(); lemma_mul_basics(m1 as int); }
        if e1 <= 0 { expanded_is(sig@, exp as int, m1, e1); }
        assert(expanded(sig@, exp as int, m1, e1));
        start_facts(m, e0, tz, m1, e1, sig@, exp as int);
    }
@hint after 0 letmutdiscard_digits
    let ghost dis0 = discard_digits as nat;
    let ghost mut t: nat = 0;
    let ghost mut low: nat = 0;
    let ghost mut u: nat = 0;
    proof {
        discard_ok(n, pr, required as nat, dis0);
        if dis0 > 0 { ten_le(dis0, (pr - 1 + dis0) as nat); }
        assert(buffer@ =~= Seq::<u8>::empty());
    }
@loop 4
    invariant dst(n, val(sig@), buffer@, t, low, u), (sig@.len() == 0) == (val(sig@) == 0), sig@.len() <= 0x1000, exp == t - k, k <= 0x7000, blen(n) <= 0x1_8000,
        u == dis0 - discard_digits, discard_digits > 0 ==> in_trail && t == u && val(sig@) >= ten(discard_digits as nat), in_trail == (buffer@.len() == 0), buffer@.len() + t <= 0x1_8001
    decreases val(sig@)
@hint loopstart 4
    let ghost sv = val(sig@);
    let ghost b = buffer@;
    proof { dst_size(n, sv, b, t, low, u); }
@hint before 0 {letbits:usize=32;
    let ghost o = sig@;
    proof {
        p128();
        pow2_lt(16, 32);
        lemma2_to64();
        short_begin(o, 0, 10);
    }
@loop 5
    invariant bits == 32, vx_i5 <= o.len(), o.len() == sig@.len(), pow2(32) == 0x1_00000000, rem < 10, short_inv(o, sig@, 0, 10, rem as nat, vx_i5 as int)
    decreases vx_i5
@loop 6
    invariant bits == 32, vx_e6 == 0, vx_i6 <= 4, vx_i5 < o.len(), o.len() == sig@.len(), pow2(32) == 0x1_00000000, x == sig@[vx_i5 as int], rem < 10,
        sig@ == t0, short_inv(o, t0, 0, 10, r0, vx_i5 + 1),
        short_at(x as nat, r as nat, rem as nat, r0, 10, 32, vx_i6 as nat)
    decreases vx_i6
@hint before 0 letmutr=0
    let ghost r0 = rem as nat;
    let ghost x = sig@[vx_i5 as int];
    let ghost t0 = sig@;
    proof { short_start(x, r0, 10, 32, 4); }
@hint loopstart 6
    proof {
        short_step(x, r, rem as u128, r0, 10, 32, (vx_i6 - 1) as u128);
        let chunk = (x >> (32u128 * (vx_i6 - 1)) as u128) & (((1u128 << 32u128) - 1) as u128);
        join32(rem as u32, chunk as u32);
    }
@hint after 0 sig[vx_i5]=r
    proof {
        p128();
        short_end(x as nat, r as nat, rem as nat, r0, 10, 32);
        short_limb(o, t0, 0, 10, r0, vx_i5 + 1, x, r, rem as nat);
        assert(sig@ =~= t0.update(vx_i5 as int, r));
    }
@hint before 0 whilevx_last_is(&sig,0)
    let ghost q = val(sig@);
    proof {
        short_finish(o, sig@, 0, 10, rem as nat);
        assert(sv == q * 10 + rem as nat);
    }
@loop 7
    invariant val(sig@) == q, sig@.len() <= 0x1000
    decreases sig@.len()
@hint loopstart 7
    proof { pop_zero(sig@); assert(sig@.drop_last() =~= sig@.subrange(0, sig@.len() - 1)); }
@hint before 0 letdigit=rem
    proof {
        let r = rem as nat;
        top_nonzero(sig@);
        if discard_digits > 0 {
            ten_quot(q, r, discard_digits as nat);
            dst_skip(n, q, r, b, t, low);
            low = low + r * ten(t);
            t = t + 1;
            u = u + 1;
        } else if in_trail && rem == 0 {
            dst_zero(n, q, b, t, low, u);
            t = t + 1;
        } else {
            dst_push(n, q, r, b, (48 + rem) as u8, t, low, u);
        }
    }
@hint before 0 vx_assert(!buffer.is_empty())
    let ghost b0 = buffer@;
    let ghost mut t2: nat = t;
    proof {
        p10_pos(discard_digits as nat);
        dst_fin(n, b0, t, low, u);
        if b0.len() <= pr { dst_end(n, b0, t, low, u, pr); }
    }
@hint after 0 letmutfirst_sig
    let ghost f0 = first_sig as int;
    proof { step_start(b0, f0); }
@loop 8
    invariant b0 == buffer@, 0 < f0 <= first_sig < b0.len(), b0.last() != 48, dnum(b0.skip(f0)) == dnum(b0.skip(first_sig as int)) * ten((first_sig - f0) as nat)
    decreases b0.len() - first_sig
@hint loopstart 8
    proof { zero_step(b0, f0, first_sig as int); }
@loop 9
    invariant_except_break buffer@ == b0, first_sig == vx_i9, dnum(b0.skip(f0)) + 1 == (dnum(b0.skip(vx_i9 as int)) + 1) * ten((vx_i9 - f0) as nat)
    invariant 0 < f0 <= vx_i9 <= vx_e9, vx_e9 == b0.len(), isd(b0), f0 <= first_sig
    ensures first_sig <= b0.len(), dnum(b0.skip(f0)) + 1 == (dnum(b0.skip(first_sig as int)) + 1) * ten((first_sig - f0) as nat),
        first_sig < b0.len() ==> b0[first_sig as int] < 57 && buffer@ == b0.update(first_sig as int, (b0[first_sig as int] + 1) as u8),
        first_sig == b0.len() ==> buffer@ == b0
    decreases vx_e9 - vx_i9
@hint loopstart 9
    proof { isd_at(b0, vx_i9 as int); if b0[vx_i9 as int] == 57 { nine_step(b0, f0, vx_i9 as int); } }
@hint before 0 exp+=first_sigasExpInt
    proof {
        if b0[f0 - 1] < 53 { cut_down(n, b0, t, low, u, pr, first_sig as int); }
        else { cut_up(n, b0, t, low, u, pr, first_sig as int, buffer@); }
        t2 = t + first_sig as nat;
    }
@hint before 0 letdigits=
    let ghost bb = buffer@;
    let ghost ex = exp as int;
    proof {
        assert(ex == t2 - k);
        shown_end(m, e0, n, k, bb, t2, pr);
        assert(shown(m, e0, bb, ex, pr));
        assert(displayed(fmt_, d, op, sign_txt(d.sign) + layout(bb, ex, op, pr))) by { reveal(displayed); }
    }
@hint before 0 lettruncate_zero
    let ghost o2 = f.out@;
@hint before 0 whilevx_i10>vx_e10
    proof { chars_nil(o2, bb, bb.len() - 1); }
@loop 10
    invariant vx_e10 == 0, vx_i10 < bb.len(), buffer@ == bb, f.same(*old(f)), f.out@ == o2 + chars_of(bb, bb.len() - 1, vx_i10 as int)
    decreases vx_i10
@hint loopstart 10
    proof { chars_step(o2, bb, bb.len() - 1, vx_i10 as int); }
@hint before 0 if!truncate_zero&&
    let ghost o3 = f.out@;
@hint before 0 whilevx_i11<vx_e11
    proof { zeros_nil(o3); }
@loop 11
    invariant 0 <= vx_i11 <= vx_e11, f.same(*old(f)), f.out@ == o3 + zeros(vx_i11 as int)
    decreases vx_e11 - vx_i11
@hint loopstart 11
    proof { zeros_step(o3, vx_i11 as int); }
@hint before 0 (matchf.write_char(ifalternate
    let ghost o4 = f.out@;
@hint before 1 returnOk(())
    proof { out_sci(o0, sign_txt(d.sign), o1, o2, o3, o4, f.out@, bb, ex, op, pr); }
@hint before 0 whilevx_i12>vx_e12
    proof { chars_nil(o1, bb, bb.len() as int); }
@loop 12
    invariant vx_e12 == 0, vx_i12 <= bb.len(), buffer@ == bb, f.same(*old(f)), f.out@ == o1 + chars_of(bb, bb.len() as int, vx_i12 as int)
    decreases vx_i12
@hint loopstart 12
    proof { chars_step(o1, bb, bb.len() as int, vx_i12 as int); }
@hint before 0 whilevx_i13<vx_e13
    let ghost o5 = f.out@;
    proof { zeros_nil(o5); }
@loop 13
    invariant 0 <= vx_i13 <= vx_e13, vx_e13 == ex, f.same(*old(f)), f.out@ == o5 + zeros(vx_i13 as int)
    decreases vx_e13 - vx_i13
@hint loopstart 13
    proof { zeros_step(o5, vx_i13 as int); }
@hint before 2 returnOk(())
    proof { out_int(o0, sign_txt(d.sign), o1, f.out@, bb, ex, op, pr); }
@hint before 0 whilevx_i14>vx_e14
    proof { chars_nil(o1, bb, bb.len() as int); }
@loop 14
    invariant vx_e14 == unit_place, unit_place < bb.len(), vx_e14 <= vx_i14 <= bb.len(), buffer@ == bb, f.same(*old(f)), f.out@ == o1 + chars_of(bb, bb.len() as int, vx_i14 as int)
    decreases vx_i14
@hint loopstart 14
    proof { chars_step(o1, bb, bb.len() as int, vx_i14 as int); }
@hint before 0 whilevx_i15>vx_e15
    let ghost o6 = f.out@;
    proof { chars_nil(o6, bb, unit_place as int); }
@loop 15
    invariant vx_e15 == 0, vx_i15 <= unit_place, unit_place < bb.len(), buffer@ == bb, f.same(*old(f)), f.out@ == o6 + chars_of(bb, unit_place as int, vx_i15 as int)
    decreases vx_i15
@hint loopstart 15
    proof { chars_step(o6, bb, unit_place as int, vx_i15 as int); }
@hint before 0 whilevx_i16<vx_e16
    let ghost o7 = f.out@;
    proof { zeros_nil(o7); }
@loop 16
    invariant vx_e16 == unit_place, bb.len() <= vx_i16 <= vx_e16, f.same(*old(f)), f.out@ == o7 + zeros(vx_i16 - bb.len())
    decreases vx_e16 - vx_i16
@hint loopstart 16
    proof { zeros_step(o7, vx_i16 - bb.len()); }
@hint before 0 whilevx_i17>vx_e17
    let ghost o8 = f.out@;
    proof { chars_nil(o8, bb, bb.len() as int); }
@loop 17
    invariant vx_e17 == 0, vx_i17 <= bb.len(), buffer@ == bb, f.same(*old(f)), f.out@ == o8 + chars_of(bb, bb.len() as int, vx_i17 as int)
    decreases vx_i17
@hint loopstart 17
    proof { chars_step(o8, bb, bb.len() as int, vx_i17 as int); }
@hint end
    proof {
        if unit_place < bb.len() { out_mix(o0, sign_txt(d.sign), o1, f.out@, bb, ex, op, pr); }
        else { out_frac(o0, sign_txt(d.sign), o1, f.out@, bb, ex, op, pr); }
    }
