@module strs hex dec nanm conv
@raw
// ---- what a text means ---------------------------------------------------------------------------------

/// a minus sign, or a plus sign, or none
pub open spec fn minus(s: Seq<char>) -> bool { strip(s, "-"@) is Some }
pub open spec fn plus(s: Seq<char>) -> bool { !minus(s) && strip(s, "+"@) is Some }
pub open spec fn unsigned(s: Seq<char>) -> Seq<char> {
    match strip(s, "-"@) { Some(t) => t, None => match strip(s, "+"@) { Some(t) => t, None => s } }
}

pub enum Special { Number, Inf, NaN(bool, Option<u128>) }

/// the payload, which may stand in parentheses
pub open spec fn payload_text(s: Seq<char>) -> Seq<char> {
    match strip(s, "("@) {
        Some(t) => match strip_end(t, ")"@) { Some(u) => if u.len() > 0 { u } else { s }, None => s },
        None => s,
    }
}
/// a decimal, octal (after 0) or hexadecimal (after 0x) number
pub open spec fn payload_val(s: Seq<char>) -> Option<u128> {
    match strip(s, "0"@) {
        Some(t) => if t.len() > 0 { match strip1(t, 'x', 'X') { Some(u) => radix_val(u, 16), None => radix_val(t, 8) } } else { radix_val(s, 10) },
        None => radix_val(s, 10),
    }
}
pub open spec fn nan_form(s: Seq<char>) -> Special {
    let (sn, t) = match strip1(s, 's', 'S') { Some(t) => (true, t), None => (false, s) };
    let after_nan = match strip(t, "nan"@) { Some(u) => Some(u), None => strip(t, "NaN"@) };
    match after_nan {
        Some(u) => {
            let x = payload_text(u);
            if x.len() == 0 { Special::NaN(sn, None) } else { match payload_val(x) { Some(v) => Special::NaN(sn, Some(v)), None => Special::Number } }
        }
        None => Special::Number,
    }
}
pub open spec fn special(s: Seq<char>) -> Special {
    let t = unsigned(s);
    if t == "Inf"@ && (minus(s) || plus(s)) { Special::Inf }
    else if (t == "inf"@ || t == "INFINITY"@) && !plus(s) { Special::Inf }
    else if !plus(s) { nan_form(t) }
    else { Special::Number }
}

/// after 0x
pub open spec fn hex_text(t: Seq<char>) -> Option<Seq<char>> { match strip(t, "0"@) { Some(u) => strip1(u, 'x', 'X'), None => None } }

pub open spec fn str_ok(s: Seq<char>) -> bool {
    &&& s.len() > 0
    &&& special(s) !is Number || match hex_text(unsigned(s)) { Some(t) => hex_ok(t), None => dec_ok(unsigned(s)) }
}

pub open spec fn str_out<S: Semantics>(s: Seq<char>, rm: Round, o: Out) -> bool {
    let f = fm::<S>();
    match special(s) {
        Special::Inf => o == (Out { st: Status::OK, v: inf_d(f, minus(s)) }),
        Special::NaN(sn, x) => {
            &&& o.st == Status::OK && o.v.cat == Category::NaN && o.v.sign == minus(s) && o.v.exp == nan_exp(f)
            &&& o.v.m == if sn && S::NONFINITE_BEHAVIOR == NonfiniteBehavior::IEEE754 { snan_sig::<S>(x) as nat }
                else { ((S::NAN_SIGNIFICAND_BASE | S::QNAN_SIGNIFICAND) | (match x { Some(p) => p & S::NAN_PAYLOAD_MASK, None => 0 })) as nat }
        }
        Special::Number => match hex_text(unsigned(s)) {
            Some(t) => o == hex_out(f, minus(s), t, rm),
            None => o == dec_out(f, minus(s), unsigned(s), rm),
        },
    }
}

pub proof fn hex_neg(f: Fm, s: Seq<char>, neg: bool, rm: Round)
    ensures ({
        let (a, b) = (hex_out(f, false, s, if neg { rneg(rm) } else { rm }), hex_out(f, neg, s, rm));
        b == (Out { st: a.st, v: signed(a.v, neg) }) && !a.v.sign
    })
{
    let k = sig_end(s, 16, 0);
    rnd_neg(f, false, digits(s, 16, k), 1, exp_val(after(s, k)) - 4 * nfrac(s, k), if neg { rneg(rm) } else { rm });
    assert(rneg(rneg(rm)) == rm);
}
pub proof fn dec_neg(f: Fm, s: Seq<char>, neg: bool, rm: Round)
    ensures ({
        let (a, b) = (dec_out(f, false, s, if neg { rneg(rm) } else { rm }), dec_out(f, neg, s, rm));
        b == (Out { st: a.st, v: signed(a.v, neg) }) && !a.v.sign
    })
{
    let k = sig_end(s, 10, 0);
    let m = digits(s, 10, k);
    let e = dec_exp(s);
    assert(rneg(rneg(rm)) == rm);
    if e >= 0 { rnd_neg(f, false, m * pow(10, e as nat) as nat, 1, 0, if neg { rneg(rm) } else { rm }); }
    else { rnd_neg(f, false, m, pow(10, (-e) as nat) as nat, 0, if neg { rneg(rm) } else { rm }); }
}
/// no text, no number
pub proof fn empty_ok(s: Seq<char>)
    ensures s.len() == 0 ==> !hex_ok(s) && !dec_ok(s)
{ }
pub proof fn empty_strip(s: Seq<char>)
    ensures s.len() > 0 && unsigned(s).len() == 0 ==> !dec_ok(unsigned(s)) && hex_text(unsigned(s)) is None && special(s) is Number
{
    reveal_strlit("-"); reveal_strlit("+"); reveal_strlit("Inf"); reveal_strlit("inf"); reveal_strlit("INFINITY"); reveal_strlit("nan"); reveal_strlit("NaN"); reveal_strlit("0");
    let t = unsigned(s);
    if t.len() == 0 {
        assert("Inf"@.len() == 3 && "inf"@.len() == 3 && "INFINITY"@.len() == 8);
    }
}
pub proof fn shorter(s: Seq<char>)
    ensures unsigned(s).len() <= s.len(), hex_text(s) is Some ==> hex_text(s)->0.len() <= s.len()
{ reveal_strlit("-"); reveal_strlit("+"); reveal_strlit("0"); }
/// formats without signaling NaN have one NaN
pub proof fn only_nan<S: Semantics>(x: Option<u128>)
    requires wfs::<S>()
    ensures S::NONFINITE_BEHAVIOR == NonfiniteBehavior::NanOnly ==>
        fm::<S>().qn == (S::NAN_SIGNIFICAND_BASE | S::QNAN_SIGNIFICAND) | (match x { Some(p) => p & S::NAN_PAYLOAD_MASK, None => 0 })
{
    wfs_basic::<S>();
    if S::NONFINITE_BEHAVIOR == NonfiniteBehavior::NanOnly {
        reveal(wfs);
        let (b, q, m) = (S::NAN_SIGNIFICAND_BASE, S::QNAN_SIGNIFICAND, S::NAN_PAYLOAD_MASK);
        let x = match x { Some(p) => p, None => 0u128 };
        assert(q == 0 && m == 0 ==> (b | q) | (x & m) == b && (b | q) | 0u128 == b) by (bit_vector);
        nan_d_wf::<S>();
    }
}
pub proof fn wf_sign<S: Semantics>(d: Dat, neg: bool)
    ensures wfd(fm::<S>(), d) == wfd(fm::<S>(), signed(d, neg))
{ }
pub proof fn out_number<S: Semantics>(s: Seq<char>, rm: Round, o: Out)
    requires special(s) is Number, match hex_text(unsigned(s)) { Some(t) => o == hex_out(fm::<S>(), minus(s), t, rm), None => o == dec_out(fm::<S>(), minus(s), unsigned(s), rm) }
    ensures str_out::<S>(s, rm, o)
{ }
@fn IeeeFloat::from_str_r rlimit(60)
    requires wfs::<S>(), s@.len() <= 0x80_0000
    ensures r is Ok == str_ok(s@), r is Ok ==> wf(r->Ok_0.value),
        r is Ok ==> str_out::<S>(s@, round, out(r->Ok_0))
@hint top
    hide(radix_val); hide(hex_ok); hide(dec_ok); hide(hex_out); hide(dec_out); hide(snan_sig); hide(strip); hide(strip1); hide(strip_end); hide(wfd); hide(wfs); hide(rneg);
@hint start
    let ghost q = s@;
    let ghost rm = round;
    proof { wfs_basic::<S>(); empty_strip(q); shorter(q); shorter(unsigned(q)); }
@hint before 0 letspecial=
    let ghost t = s@;
    proof { assert(minus == crate::strs::minus(q) && explicit_plus == plus(q) && t == unsigned(q)); }
@hint before 0 ifletSome(r)=special
    let ghost sp = crate::strs::special(q);
    proof {
        assert(special is None == (sp is Number));
        if special is Some {
            val1(special->0.sig@);
            wf_sign::<S>(dat(special->0), minus);
            match sp { Special::NaN(sn, x) => { only_nan::<S>(x); } _ => {} }
        }
    }
@hint before 0 letr=ifis_hex
    let ghost t1 = s@;
    proof {
        assert(is_hex == (hex_text(t) is Some) && t1 == (match hex_text(t) { Some(u) => u, None => t }));
        hex_neg(fm::<S>(), t1, minus, rm);
        dec_neg(fm::<S>(), t1, minus, rm);
        empty_ok(t1);
    }
@hint after 0 letr=ifis_hex
    proof {
        wf_sign::<S>(dat(r.value), dat(r.value).sign != minus);
        {
            let nr = if minus { rneg(rm) } else { rm };
            assert(round == nr);
            assert(is_hex ==> out(r) == hex_out(fm::<S>(), false, t1, nr));
            assert(!is_hex ==> out(r) == dec_out(fm::<S>(), false, t1, nr));
            out_number::<S>(q, rm, Out { st: out(r).st, v: signed(out(r).v, minus) });
            assert(!out(r).v.sign);
        }
    }
