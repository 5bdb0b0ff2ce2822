@module ddo ddf dd ddx cvt conv nanm nxt rint scale remm inv cmpm strs ops arith bits sem
@raw
// ---- operations on pairs that are computed in the 106-bit format -------------------------------------

/// an outcome in the 106-bit format, as a pair
pub open spec fn out2(x: Out, st: Status, y: DD) -> bool { st == x.st && of_fb(x.v, y) }

pub open spec fn num(d: Dat) -> bool { !snan::<FB>(d) }
pub proof fn nan_num(s: bool)
    ensures num(nan_d(ff(), s)), !snan::<SD>(nan_d(fd(), s))
{
    facts(); ffacts();
    let (q, p) = (FB::QNAN_SIGNIFICAND, SD::QNAN_SIGNIFICAND);
    assert((0u128 | q) & q == q && (0u128 | p) & p == p) by (bit_vector);
}
pub proof fn rnd_nums(rm: Round)
    ensures forall|s: bool, n: nat, d: nat, e: int| #![trigger rnd(ff(), s, n, d, e, rm)] num(rnd(ff(), s, n, d, e, rm).v)
{
    ffacts();
    assert forall|s: bool, n: nat, d: nat, e: int| #![trigger rnd(ff(), s, n, d, e, rm)] num(rnd(ff(), s, n, d, e, rm).v) by { rnd_num(ff(), s, n, d, e, rm); }
}

/// a number that a pair came from is the number it is computed with
pub proof fn back(x: Dat, y: DD)
    requires wfd(ff(), x), x.cat == Category::Normal, of_fb(x, y), hi(y).cat == Category::Normal
    ensures fb(y) == x
{
    facts(); ffacts();
    let (h, l) = (hi(y), lo(y));
    dat_rep(h);
    mag_pos(ff(), x);
    if l.cat == Category::Zero {
        cvt_wide(h);
        mag_inj(ff(), cvt_spec::<SD, FB>(h, NE).o.v, x);
    } else {
        rnd_same(ff(), x, NE);
        dat_mag(ff(), ff(), x, NE);
    }
}

/// integers of up to 106 bits make the round trip
pub proof fn int_trip(n: nat, s: bool, y: DD, lo_: int, hi_: int, rm: Round, rm2: Round)
    requires n < pow2(106), of_fb(rnd(ff(), s, n, 1, 0, rm).v, y), n == 0 ==> !s, lo_ <= sg(s, n) <= hi_
    ensures rnd(ff(), s, n, 1, 0, rm).st == Status::OK, int_spec(ff(), fb(y), lo_, hi_, rm2) == (IntOut { st: Status::OK, v: sg(s, n), exact: true })
{
    facts(); ffacts(); p128();
    let o = rnd(ff(), s, n, 1, 0, rm);
    if n == 0 {
        reveal(rnd);
    } else {
        tops();
        pow2_le(1074 + 106, 1992);
        pow2_add(106, 1074);
        let (ni, t) = (n as int, pow2(1074) as int);
        lemma_pow2_pos(1074);
        pow2_half(106);
        lemma_pow2_pos(1992);
        let (b, w) = (largest_d(ff(), false).m as int, pow2(1992) as int);
        assert(b * w >= w) by (nonlinear_arith) requires b >= 1, w > 0;
        assert(ni * t < pow2(106) * t) by (nonlinear_arith) requires ni < pow2(106), t > 0;
        rnd_exact(ff(), s, n, 0, rm);
        let x = o.v;
        // 106 bits are far from overflow
        pow2_lt(1180, TOP);
        assert(iabs(fv(x)) == n * pow2(1074));
        assert(hi(y).cat == Category::Normal);
        back(x, y);
        let k = x.exp - 105;
        let mi = x.m as int;
        if k >= 0 {
            pow2_add(k as nat, 1074);
            let q = pow2(k as nat) as int;
            assert(mi * (q * t) == (mi * q) * t) by (nonlinear_arith);
            assert(mi * q == ni) by (nonlinear_arith) requires (mi * q) * t == ni * t, t > 0;
        } else {
            let g = (-k) as nat;
            pow2_add((1074 - g) as nat, g);
            let (q, r) = (pow2(g) as int, pow2((1074 - g) as nat) as int);
            lemma_pow2_pos(g); lemma_pow2_pos((1074 - g) as nat);
            assert(mi == ni * q) by (nonlinear_arith) requires mi * r == ni * (r * q), r > 0;
            div_unique(mi, q, ni, 0);
        }
    }
}
pub proof fn trips(n: nat, rm: Round)
    requires n < pow2(106)
    ensures rnd(ff(), false, n, 1, 0, rm).st == Status::OK,
        forall|y: DD, w: nat, rm2: Round| of_fb(rnd(ff(), false, n, 1, 0, rm).v, y) && n < pow2(w) ==> #[trigger] int_spec(ff(), fb(y), 0, pow2(w) - 1, rm2) == (IntOut { st: Status::OK, v: n as int, exact: true })
{
    ffacts(); facts();
    assert forall|y: DD, w: nat, rm2: Round| of_fb(rnd(ff(), false, n, 1, 0, rm).v, y) && n < pow2(w) implies #[trigger] int_spec(ff(), fb(y), 0, pow2(w) - 1, rm2) == (IntOut { st: Status::OK, v: n as int, exact: true }) by {
        int_trip(n, false, y, 0, pow2(w) - 1, rm, rm2);
    }
    if n == 0 { reveal(rnd); } else {
        p128();
        tops();
        pow2_le(1074 + 106, 1992);
        pow2_add(106, 1074);
        let (ni, t) = (n as int, pow2(1074) as int);
        lemma_pow2_pos(1074);
        pow2_half(106);
        lemma_pow2_pos(1992);
        let (b, w) = (largest_d(ff(), false).m as int, pow2(1992) as int);
        assert(b * w >= w) by (nonlinear_arith) requires b >= 1, w > 0;
        assert(ni * t < pow2(106) * t) by (nonlinear_arith) requires ni < pow2(106), t > 0;
        rnd_exact(ff(), false, n, 0, rm);
    }
}
@fn DoubleFloat::mul_add_r
    requires wf2(self), wf2(multiplicand), wf2(addend)
    ensures out2(fma_spec::<FB>(fb(self), fb(multiplicand), fb(addend), round), r.status, r.value)
@hint start
    proof { facts(); ffacts(); nan_num(false); nan_num(true); rnd_nums(round); }
@fn DoubleFloat::div_r
    requires wf2(self), wf2(rhs)
    ensures out2(div_spec::<FB>(fb(self), fb(rhs), round), r.status, r.value)
@hint start
    proof { facts(); ffacts(); nan_num(false); nan_num(true); rnd_nums(round); }
@fn DoubleFloat::ieee_rem
    requires wf2(self), wf2(rhs)
    ensures exists|x: Out| #[trigger] rem_spec::<FB>(fb(self), fb(rhs), x) && out2(x, r.status, r.value)
@hint start
    proof { facts(); ffacts(); nan_num(false); nan_num(true); }
@fn DoubleFloat::c_fmod
    requires wf2(self), wf2(rhs)
    ensures exists|x: Out| #[trigger] fmod_spec::<FB>(fb(self), fb(rhs), x) && out2(x, r.status, r.value)
@hint start
    proof { facts(); ffacts(); nan_num(false); nan_num(true); }
@fn DoubleFloat::round_to_integral
    requires wf2(self)
    ensures out2(rint_spec::<FB>(fb(self), round), r.status, r.value)
@hint start
    proof { facts(); ffacts(); nan_num(false); rnd_nums(round); }
@fn DoubleFloat::next_up
    requires wf2(self)
    ensures out2(next_spec::<FB>(fb(self)), r.status, r.value)
@hint start
    proof { facts(); ffacts(); nan_num(false); nan_num(true); }
@fn Float::next_down#DoubleFloat
    requires wf2(self)
    ensures wf2(r.value)
@fn DoubleFloat::from_u128_r
    ensures out2(rnd(ff(), false, input as nat, 1, 0, round), r.status, r.value),
        (input as nat) < pow2(106) ==> r.status == Status::OK && forall|w: nat, rm: Round| #![trigger int_spec(ff(), fb(r.value), 0, pow2(w) - 1, rm)] (input as nat) < pow2(w) ==>
            int_spec(ff(), fb(r.value), 0, pow2(w) - 1, rm) == (IntOut { st: Status::OK, v: input as int, exact: true })
@hint start
    proof {
        facts(); ffacts(); rnd_nums(round);
        if (input as nat) < pow2(106) { trips(input as nat, round); }
    }
@fn DoubleFloat::to_u128_r
    requires wf2(self), width <= 128
    ensures ({
        let x = int_spec(ff(), fb(self), 0, pow2(width as nat) - 1, round);
        r.status == x.st && r.value == x.v && *final(is_exact) == x.exact
    })
@fn DoubleFloat::get_exact_inverse
    requires wf2(self)
    ensures r is Some == inv_spec(ff(), fb(self)) is Some, r is Some ==> of_fb(inv_spec(ff(), fb(self))->0, r->0)
@hint start
    proof { facts(); ffacts(); }
@fn DoubleFloat::from_str_r rlimit(60)
    requires s@.len() <= 0x80_0000
    ensures r is Ok == str_ok(s@),
        r is Ok ==> wf2(r->Ok_0.value) && exists|o: Out| #[trigger] str_out::<FB>(s@, round, o) && if snan::<FB>(o.v) {
            lo(r->Ok_0.value) == zero_d(fd(), false) && str_out::<SD>(s@, round, Out { st: r->Ok_0.status, v: hi(r->Ok_0.value) })
        } else { out2(o, r->Ok_0.status, r->Ok_0.value) }
@hint top
    hide(str_out); hide(str_ok);
@hint start
    proof { facts(); ffacts(); }
@fn DoubleFloat::is_integer
    requires wf2(self)
    ensures r == (intd(hi(self)) && intd(lo(self)))
@fn DoubleFloat::is_denormal
    requires wf2(self)
    ensures r == (hi(self).cat == Category::Normal && (subn(hi(self)) || subn(lo(self)) || cmp_spec(fd(), hi(self), dplus(hi(self), lo(self), NE)) != Some(Ordering::Equal)))
@hint start
    proof { facts(); }
@fn DoubleFloat::ilogb
    requires wf2(self)
    ensures r == ilogb_spec(fd(), hi(self))
@fn DoubleFloat::scalbn_r
    requires wf2(self)
    ensures wf2(r), hi(r) == scalb_spec::<SD>(hi(self), exp as int, round), lo(r) == scalb_spec::<SD>(lo(self), exp as int, round)
@fn DoubleFloat::frexp_r
    requires wf2(self)
    ensures wf2(r), ({
        let (h, l) = (hi(self), lo(self));
        &&& h.cat == Category::Normal ==> *final(exp) == ilog(fd(), h) + 1 && hi(r) == scalb_spec::<SD>(h, -(ilog(fd(), h) + 1), round) && lo(r) == scalb_spec::<SD>(l, -(ilog(fd(), h) + 1), round)
        &&& h.cat == Category::Zero ==> *final(exp) == 0 && hi(r) == h && lo(r) == l
        &&& h.cat == Category::Infinity ==> *final(exp) == i32::MAX && hi(r) == h && lo(r) == l
    })
@hint start
    proof { facts(); }
@fn DoubleFloat::qnan
    ensures wf2(r), hi(r).cat == Category::NaN, !hi(r).sign, hi(r).m == (SD::NAN_SIGNIFICAND_BASE | SD::QNAN_SIGNIFICAND) | (match payload { Some(p) => p & SD::NAN_PAYLOAD_MASK, None => 0 }), lo(r) == zero_d(fd(), false)
@hint start
    proof { facts(); }
@fn DoubleFloat::snan
    ensures wf2(r), snan::<SD>(hi(r)), !hi(r).sign, hi(r).m == snan_sig::<SD>(payload), lo(r) == zero_d(fd(), false)
@hint start
    proof { facts(); }
@fn DoubleFloat::largest
    ensures wf2(r), hi(r) == largest_d(fd(), false), lo(r) == (Dat { cat: Category::Normal, sign: false, m: (pow2(53) - 2) as nat, exp: 969 })
@hint start
    proof { facts(); rnd_same(fd(), Dat { cat: Category::Normal, sign: false, m: (pow2(53) - 1) as nat, exp: 969 }, NE); }
@fn DoubleFloat::smallest_normalized
    ensures wf2(r), lo(r) == zero_d(fd(), false), hi(r) == (Dat { cat: Category::Normal, sign: false, m: pow2(52), exp: -969 })
@hint start
    proof { facts(); rnd_same(fd(), Dat { cat: Category::Normal, sign: false, m: pow2(52), exp: -969 }, NE); }
@fn DoubleFloat::add
    requires wf2(self), wf2(rhs)
    ensures added(self, rhs, NE, r.status, r.value)
@fn DoubleFloat::sub
    requires wf2(self), wf2(rhs)
    ensures exists|n: DD| #[trigger] wf2(n) && pair(n) == dd_neg(rhs) && added(self, n, NE, r.status, r.value)
@fn DoubleFloat::mul
    requires wf2(self), wf2(rhs)
    ensures mulled(self, rhs, NE, r.status, r.value)
@fn DoubleFloat::div
    requires wf2(self), wf2(rhs)
    ensures out2(div_spec::<FB>(fb(self), fb(rhs), NE), r.status, r.value)
@fn DoubleFloat::add_assign
    requires wf2(*old(self)), wf2(rhs)
    ensures exists|st: Status| #[trigger] added(*old(self), rhs, NE, st, *final(self))
@fn DoubleFloat::sub_assign
    requires wf2(*old(self)), wf2(rhs)
    ensures exists|n: DD, st: Status| #[trigger] wf2(n) && pair(n) == dd_neg(rhs) && #[trigger] added(*old(self), n, NE, st, *final(self))
@fn DoubleFloat::mul_assign
    requires wf2(*old(self)), wf2(rhs)
    ensures exists|st: Status| #[trigger] mulled(*old(self), rhs, NE, st, *final(self))
@fn DoubleFloat::div_assign
    requires wf2(*old(self)), wf2(rhs)
    ensures exists|st: Status| #[trigger] out2(div_spec::<FB>(fb(*old(self)), fb(rhs), NE), st, *final(self))
