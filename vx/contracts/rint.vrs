@module rint sig rnd flt nrm arith mag cmpm conv
@raw
/// d rounded to an integer of the same sign
pub open spec fn rint_spec<S: Semantics>(d: Dat, rm: Round) -> Out {
    let f = fm::<S>();
    match d.cat {
        Category::NaN => nan_one::<S>(d),
        Category::Normal => Out {
            st: if int_loss(f, d) == Loss::ExactlyZero { Status::OK } else { Status::INEXACT },
            v: rnd(f, d.sign, int_round(f, d, rm), 1, 0, rm).v,
        },
        _ => Out { st: Status::OK, v: d },
    }
}

/// nothing to do when the last bit is at least one
pub proof fn rint_big<S: Semantics>(d: Dat, rm: Round)
    requires wfs::<S>(), wfd(fm::<S>(), d), d.cat == Category::Normal, d.exp + 1 >= fm::<S>().p
    ensures rint_spec::<S>(d, rm) == (Out { st: Status::OK, v: d })
{
    let f = fm::<S>();
    wfs_basic::<S>();
    p128();
    let k = d.exp - (f.p - 1);
    rnd_same(f, d, rm);
    if k >= 0 {
        rnd_shift(f, d.sign, d.m, 1, k, rm, k as nat, 0);
        assert(1 * pow2(0) == 1);
    }
}

/// 2^(p - 1) as a number
pub open spec fn magic_d(f: Fm, s: bool) -> Dat { Dat { cat: Category::Normal, sign: s, m: pow2((f.p - 1) as nat), exp: f.p - 1 } }

pub proof fn magic_facts<S: Semantics>(rm: Round)
    requires wfs::<S>()
    ensures wfd(fm::<S>(), magic_d(fm::<S>(), false)), rnd(fm::<S>(), false, pow2((fm::<S>().p - 1) as nat), 1, 0, rm) == (Out { st: Status::OK, v: magic_d(fm::<S>(), false) })
{
    wfs_basic::<S>();
    rnd_same(fm::<S>(), magic_d(fm::<S>(), false), rm);
}

/// |d| + 2^(p - 1) rounded to p bits
pub open spec fn rint_mid(f: Fm, d: Dat, rm: Round) -> Dat {
    let q = pow2((f.p - 1) as nat) + int_round(f, d, rm);
    if q == pow2(f.p) { Dat { cat: Category::Normal, sign: d.sign, m: pow2((f.p - 1) as nat), exp: f.p as int } }
    else { Dat { cat: Category::Normal, sign: d.sign, m: q, exp: f.p - 1 } }
}

pub proof fn rint_add<S: Semantics>(d: Dat, rm: Round)
    requires wfs::<S>(), wfd(fm::<S>(), d), d.cat == Category::Normal, d.exp + 1 < fm::<S>().p
    ensures add_spec::<S>(d, magic_d(fm::<S>(), d.sign), rm) == (Out {
            st: if int_loss(fm::<S>(), d) == Loss::ExactlyZero { Status::OK } else { Status::INEXACT }, v: rint_mid(fm::<S>(), d, rm) }),
        int_round(fm::<S>(), d, rm) <= pow2((fm::<S>().p - 1) as nat)
{
    let f = fm::<S>();
    wfs_basic::<S>();
    p128();
    let t = (f.p - 1 - d.exp) as nat;
    let h = pow2((f.p - 1) as nat);
    let b = magic_d(f, d.sign);
    let w = pow2(t);
    let hw = h * w;
    lemma_pow2_pos(t);
    lemma_mul_strictly_positive(h as int, w as int);
    assert(d.m * pow2(0) == d.m);
    assert(sum_of(d, b) == sgn(d.sign, d.m) + sgn(d.sign, hw));
    let n = d.m + hw;
    assert(iabs(sum_of(d, b)) == n && (sum_of(d, b) < 0) == d.sign && n > 0);
    // n has p + t bits
    let fl = d.m / w;
    div_mod_id(d.m as int, w as int);
    // |d| < h
    pow2_half(f.p);
    pow2_half(t);
    lemma_pow2_pos((t - 1) as nat);
    let (hi, wi, mi) = (h as int, w as int, d.m as int);
    assert(mi < wi * hi) by (nonlinear_arith) requires mi < 2 * hi, wi >= 2, hi > 0;
    lemma_mul_is_commutative(hi, wi);
    div_lt(mi, wi, hi);
    let (q, r) = (n as int / wi, n as int % wi);
    let (fi, r0, ni) = (fl as int, mi % wi, n as int);
    assert(ni == (hi + fi) * wi + r0) by (nonlinear_arith) requires ni == mi + hi * wi, mi == fi * wi + r0;
    div_unique(ni, wi, hi + fi, r0);
    assert(q == h + fl && r == d.m as int % wi);
    // n has p + t bits, so the unit is one
    pow2_add((f.p - 1) as nat, t);
    pow2_add(f.p, t);
    assert(2 * (hi * wi) == (2 * hi) * wi) by (nonlinear_arith);
    blen_unique(n, f.p + t);
    flog1(n);
    let e = d.exp - (f.p - 1);
    assert(e == -t);
    let u = unit(f, flog(n, 1) + e);
    assert(u == 0);
    assert(n as int * 1 == n && 1 * pow2(t) == w);
    assert(cut_q(n, 1, u - e) == h + fl && cut_l(n, 1, u - e) == int_loss(f, d));
    reveal(rnd);
    assert(rnd(f, d.sign, n, 1, e, rm) == finish(f, d.sign, (h + fl) as nat, 0, int_loss(f, d), rm));
    assert(h % 2 == 0) by { pow2_half((f.p - 1) as nat); }
    assert((h + fl) % 2 == fl % 2);
    assert(int_floor(f, d) == fl);
    finish_cases(f, d.sign, (h + fl) as nat, 0, int_loss(f, d), rm);
    assert(loss_of(0, w) == Loss::ExactlyZero);
    if int_loss(f, d) == Loss::ExactlyZero { assert(!up(d.sign, fl % 2 == 1, Loss::ExactlyZero, rm)); }
}

/// taking 2^(p - 1) off again
pub proof fn rint_sub<S: Semantics>(d: Dat, rm: Round)
    requires wfs::<S>(), wfd(fm::<S>(), d), d.cat == Category::Normal, d.exp + 1 < fm::<S>().p
    ensures ({
        let f = fm::<S>();
        signed(add_spec::<S>(rint_mid(f, d, rm), magic_d(f, !d.sign), rm).v, d.sign) == rint_spec::<S>(d, rm).v
    })
{
    let f = fm::<S>();
    wfs_basic::<S>();
    rint_add::<S>(d, rm);
    let a = rint_mid(f, d, rm);
    let b = magic_d(f, !d.sign);
    let n = int_round(f, d, rm);
    let h = pow2((f.p - 1) as nat);
    p128();
    pow2_half(f.p);
    pow2_half(1);
    assert(h * pow2(0) == h && a.m * pow2(0) == a.m);
    assert(h * pow2(1) == 2 * h);
    assert(sum_of(a, b) == sgn(d.sign, n));
    rnd_neg(f, d.sign, n, 1, 0, rm);
    reveal(rnd);
}

/// truncation changes exactly the numbers that are not integers
pub proof fn trunc_same<S: Semantics>(d: Dat)
    requires wfs::<S>(), wfd(fm::<S>(), d), d.cat == Category::Normal
    ensures (rint_spec::<S>(d, Round::TowardZero).v == d) == (int_loss(fm::<S>(), d) == Loss::ExactlyZero)
{
    let f = fm::<S>();
    let rm = Round::TowardZero;
    wfs_basic::<S>();
    p128();
    if d.exp + 1 >= f.p { rint_big::<S>(d, rm); } else {
        let t = (f.p - 1 - d.exp) as nat;
        let q = d.m / pow2(t);
        lemma_pow2_pos(t);
        div_mod_id(d.m as int, pow2(t) as int);
        if int_loss(f, d) == Loss::ExactlyZero {
            assert(q * pow2(t) == d.m);
            rnd_shift(f, d.sign, q, 1, 0, rm, t, 0);
            assert(1 * pow2(0) == 1);
            rnd_same(f, d, rm);
        } else {
            rint_add::<S>(d, rm);
            reveal(rnd);
            if q > 0 {
                let g = (0 - qmin(f)) as nat;
                let j = (d.exp - f.lo) as nat;
                pow2_add(t, j);
                lemma_pow2_pos(j);
                let (qi, ti, ji, mi) = (q as int, pow2(t) as int, pow2(j) as int, d.m as int);
                assert(qi * (ti * ji) <= mi * ji && (qi * (ti * ji) == mi * ji ==> qi * ti == mi)) by (nonlinear_arith) requires qi * ti <= mi, ji > 0;
                mag_max(f, d);
                pow2_lt((f.p - 1) as nat, f.p);
                rnd_exact(f, d.sign, q, 0, rm);
            }
        }
    }
}
@fn IeeeFloat::round_to_integral
    requires wf(self)
    ensures out(r) == rint_spec::<S>(dat(self), round), wf(r.value)
@hint start
    let ghost f = fm::<S>();
    let ghost d = dat(self);
    proof {
        wfs_basic::<S>();
        if d.cat == Category::Normal {
            if d.exp + 1 >= f.p { rint_big::<S>(d, round); } else {
                one_shl((S::PRECISION - 1) as u128);
                magic_facts::<S>(Round::NearestTiesToEven);
                rint_add::<S>(d, round);
                rint_sub::<S>(d, round);
            }
        }
    }
@fn Float::is_integer
    requires wf(self)
    ensures r == (dat(self).cat == Category::Zero || (dat(self).cat == Category::Normal && int_loss(fm::<S>(), dat(self)) == Loss::ExactlyZero))
@hint start
    proof { if dat(self).cat == Category::Normal { trunc_same::<S>(dat(self)); } }
