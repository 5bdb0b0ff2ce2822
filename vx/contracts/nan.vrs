@module nanm sig rnd flt nrm arith
@raw
/// the quiet bit
pub open spec fn qbit<S: Semantics>() -> u128 { S::QNAN_SIGNIFICAND & S::NAN_PAYLOAD_MASK }
pub open spec fn snan_payload<S: Semantics>(payload: Option<u128>) -> u128 {
    match payload { Some(p) => p & S::NAN_PAYLOAD_MASK & !qbit::<S>(), None => 0 }
}
/// the significand of a signalling NaN: the payload without the quiet bit, or the next bit down if nothing is left
pub open spec fn snan_sig<S: Semantics>(payload: Option<u128>) -> u128 {
    let q = snan_payload::<S>(payload);
    (S::QNAN_SIGNIFICAND & !S::NAN_PAYLOAD_MASK) | (if q == 0 { qbit::<S>() >> 1u128 } else { q })
}

pub proof fn qbit_is<S: Semantics>()
    requires wfs::<S>(), S::NONFINITE_BEHAVIOR == NonfiniteBehavior::IEEE754
    ensures qbit::<S>() == pow2((fm::<S>().p - 2) as nat), qbit::<S>() == 1u128 << ((fm::<S>().p - 2) as u128), S::NAN_SIGNIFICAND_BASE == 0,
        S::QNAN_SIGNIFICAND < pow2(fm::<S>().p), S::NAN_PAYLOAD_MASK < pow2(fm::<S>().p)
{
    wfs_basic::<S>();
    reveal(wfs);
    let p = fm::<S>().p;
    let (a, b) = ((p - 1) as u128, (p - 2) as u128);
    one_shl(a);
    one_shl(b);
    let (m, q) = (S::NAN_PAYLOAD_MASK, S::QNAN_SIGNIFICAND);
    let (s, t) = (1u128 << a, 1u128 << b);
    assert(s == 1u128 << a && t == 1u128 << b && a == b + 1 && b < 127 && m == sub(s, 1) && q == t ==> q & m == t) by (bit_vector);
    assert(s == 1u128 << a && t == 1u128 << b && a == b + 1 && b < 126 && m == sub(s, 1) && q == mul(3, t) ==> q & m == t) by (bit_vector);
}

pub proof fn snan_facts<S: Semantics>(payload: Option<u128>, q0: u128)
    requires wfs::<S>(), S::NONFINITE_BEHAVIOR == NonfiniteBehavior::IEEE754,
        q0 == (S::NAN_SIGNIFICAND_BASE | S::QNAN_SIGNIFICAND) | (match payload { Some(p) => p & S::NAN_PAYLOAD_MASK, None => 0 })
    ensures ({
        let m1 = q0 & !qbit::<S>();
        let m2 = if m1 & S::NAN_PAYLOAD_MASK == 0 { m1 | (qbit::<S>() >> 1) } else { m1 };
        &&& m2 == snan_sig::<S>(payload)
        &&& m2 < pow2(fm::<S>().p)
        &&& m2 & S::QNAN_SIGNIFICAND != S::QNAN_SIGNIFICAND
        &&& m2 & S::NAN_PAYLOAD_MASK != 0
        &&& m2 & qbit::<S>() == 0
    })
{
    wfs_basic::<S>();
    qbit_is::<S>();
    let (b, q, m) = (S::NAN_SIGNIFICAND_BASE, S::QNAN_SIGNIFICAND, S::NAN_PAYLOAD_MASK);
    let x = match payload { Some(p) => p & m, None => 0u128 };
    let w = qbit::<S>();
    let k = (fm::<S>().p - 2) as u128;
    let m1 = q0 & !w;
    let m2 = if m1 & m == 0 { m1 | (w >> 1) } else { m1 };
    let sp = x & !w;
    if payload is None { assert(0u128 & m == 0u128 && 0u128 & !w == 0u128) by (bit_vector); }
    assert(x & m == x) by {
        if payload is Some { let p = payload->0; assert((p & m) & m == p & m) by (bit_vector); } else { assert(0u128 & m == 0u128) by (bit_vector); }
    }
    assert(b == 0 && q0 == (b | q) | x && x & m == x && w == q & m && m1 == q0 & !w && sp == x & !w ==> m1 & m == sp && m1 == (q & !m) | sp) by (bit_vector);
    assert(0u128 == sp ==> ((q & !m) | sp) | (w >> 1) == (q & !m) | (w >> 1)) by (bit_vector);
    assert(w == 1u128 << k && k < 127 && k >= 1 ==> (w >> 1) & w == 0 && (w >> 1) != 0 && w != 0 && (w >> 1) < w) by (bit_vector);
    assert(w >= 2);
    let v = if sp == 0 { w >> 1 } else { sp };
    assert(m2 == (q & !m) | v);
    assert((x & !w) & w == 0) by (bit_vector);
    assert(w == q & m && w != 0 && v & w == 0 && m2 == (q & !m) | v ==> m2 & w == 0 && m2 & q != q) by (bit_vector);
    and_le(q, !m);
    and_le(x, !w);
    if payload is Some { and_le(payload->0, m); }
    lemma_pow2_pos(fm::<S>().p);
    or_lt(q & !m, v, fm::<S>().p);
    assert(w == 1u128 << k && k >= 1 && k < 127 && w == q & m && sub(w, 0) == w && m & w == w ==> true) by (bit_vector);
    // something of the payload is left
    if sp == 0 {
        reveal(wfs);
        one_shl((k + 1) as u128);
        let a = (k + 1) as u128;
        assert(w == 1u128 << k && a == k + 1 && k >= 1 && k < 126 && m == sub(1u128 << a, 1) && m2 == (q & !m) | (w >> 1) ==> m2 & m == w >> 1) by (bit_vector);
    } else {
        assert(x & m == x && sp == x & !w && m2 == (q & !m) | sp ==> m2 & m == sp) by (bit_vector);
    }
}
pub proof fn nan_d_wf<S: Semantics>()
    requires wfs::<S>()
    ensures wfd(fm::<S>(), nan_d(fm::<S>(), false)), S::NONFINITE_BEHAVIOR == NonfiniteBehavior::NanOnly ==> fm::<S>().qn == S::NAN_SIGNIFICAND_BASE
{
    wfs_basic::<S>();
    reveal(wfs);
    let b = S::NAN_SIGNIFICAND_BASE;
    assert(b | 0u128 == b) by (bit_vector);
}
@fn IeeeFloat::snan
    requires wfs::<S>()
    ensures wf(r), dat(r).cat == Category::NaN, !dat(r).sign, plain(r),
        S::NONFINITE_BEHAVIOR == NonfiniteBehavior::IEEE754 ==> snan::<S>(dat(r)) && dat(r).m == snan_sig::<S>(payload) && (dat(r).m as u128) & S::NAN_PAYLOAD_MASK != 0,
        S::NONFINITE_BEHAVIOR == NonfiniteBehavior::NanOnly ==> dat(r) == nan_d(fm::<S>(), false),
@hint start
    proof {
        wfs_basic::<S>();
        if S::NONFINITE_BEHAVIOR == NonfiniteBehavior::IEEE754 {
            qbit_is::<S>();
            snan_facts::<S>(payload, (S::NAN_SIGNIFICAND_BASE | S::QNAN_SIGNIFICAND) | (match payload { Some(p) => p & S::NAN_PAYLOAD_MASK, None => 0 }));
        } else {
            reveal(wfs);
            let (b, q, m) = (S::NAN_SIGNIFICAND_BASE, S::QNAN_SIGNIFICAND, S::NAN_PAYLOAD_MASK);
            let x = match payload { Some(p) => p, None => 0u128 };
            assert(q == 0 && m == 0 ==> (b | q) | (x & m) == b && (b | q) | 0u128 == b && b & !(q & m) == b && b & m == 0 && b | ((q & m) >> 1u128) == b) by (bit_vector);
            nan_d_wf::<S>();
        }
    }
