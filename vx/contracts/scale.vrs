@module scale sig rnd flt nrm arith mag
@raw
/// floor(log2 |d|)
pub open spec fn ilog(f: Fm, d: Dat) -> int { blen(d.m) - 1 + d.exp - (f.p - 1) }

pub open spec fn ilogb_spec(f: Fm, d: Dat) -> int {
    match d.cat { Category::NaN => i32::MIN as int, Category::Zero => i32::MIN + 1, Category::Infinity => i32::MAX as int, Category::Normal => ilog(f, d) }
}

/// d * 2^n rounded once; the sign of a zero or infinity is kept and a NaN quieted
pub open spec fn scalb_spec<S: Semantics>(d: Dat, n: int, rm: Round) -> Dat {
    let f = fm::<S>();
    match d.cat {
        Category::Normal => rnd(f, d.sign, d.m, 1, d.exp - (f.p - 1) + n, rm).v,
        Category::NaN => nan_one::<S>(d).v,
        _ => d,
    }
}

pub proof fn rnd_norm(f: Fm, s: bool, m: nat, e: int, rm: Round)
    requires wff(f), m > 0
    ensures rnd(f, s, m, 1, e, rm) == norm(f, s, m, e, Loss::ExactlyZero, rm)
{
    assert(m / 1 == m && m % 1 == 0);
    norm_cut(f, s, m, 1, e, rm);
}

/// above the largest exponent the scale no longer matters
pub proof fn rnd_big(f: Fm, s: bool, m: nat, e: int, rm: Round)
    requires wff(f), m > 0, blen(m) - 1 + e > f.hi, f.qn < pow2(f.p)
    ensures rnd(f, s, m, 1, e, rm) == overflow(f, s, rm)
{
    rnd_norm(f, s, m, e, rm);
    norm_steps(f, s, m, e, Loss::ExactlyZero, rm);
    blen_bounds(m);
    blen0();
    nz_size(f, m, e);
    let u = unit(f, blen(m) - 1 + e);
    finish_cases(f, s, nz_q(m, e, u), u, nz_l(m, e, u, Loss::ExactlyZero), rm);
}

/// far below the least subnormal the scale no longer matters
pub proof fn rnd_tiny(f: Fm, s: bool, m: nat, e1: int, e2: int, rm: Round)
    requires wff(f), m > 0, blen(m) + e1 < qmin(f), blen(m) + e2 < qmin(f), f.qn < pow2(f.p)
    ensures rnd(f, s, m, 1, e1, rm) == rnd(f, s, m, 1, e2, rm)
{
    rnd_norm(f, s, m, e1, rm);
    rnd_norm(f, s, m, e2, rm);
    norm_steps(f, s, m, e1, Loss::ExactlyZero, rm);
    norm_steps(f, s, m, e2, Loss::ExactlyZero, rm);
    blen0();
    tiny_cut(m, (qmin(f) - e1) as nat);
    tiny_cut(m, (qmin(f) - e2) as nat);
}

pub proof fn tiny_cut(m: nat, k: nat)
    requires m > 0, blen(m) < k
    ensures m / pow2(k) == 0, loss_of(m % pow2(k), pow2(k)) == Loss::LessThanHalf
{
    blen_bounds(m);
    pow2_half(k);
    pow2_le(blen(m), (k - 1) as nat);
    lemma_pow2_pos(k);
    div_unique(m as int, pow2(k) as int, 0, m as int);
    assert(0 * pow2(k) == 0);
}

/// restricting the change of exponent to [-mc - 1, mc] does not change the result
pub proof fn clamp_same<S: Semantics>(d: Dat, n: int, c: int, rm: Round)
    requires wfs::<S>(), wfd(fm::<S>(), d), d.cat == Category::Normal,
        ({
            let f = fm::<S>();
            let mc = f.hi - (f.lo - (f.p - 1)) + 1;
            c == imin(imax(n, -mc - 1), mc)
        })
    ensures scalb_spec::<S>(d, n, rm) == scalb_spec::<S>(d, c, rm)
{
    wfs_basic::<S>();
    let f = fm::<S>();
    let e = d.exp - (f.p - 1);
    blen_bounds(d.m);
    blen0();
    blen_le(d.m, f.p);
    let mc = f.hi - (f.lo - (f.p - 1)) + 1;
    if n > mc {
        rnd_big(f, d.sign, d.m, e + n, rm);
        rnd_big(f, d.sign, d.m, e + c, rm);
    }
    if n < -mc - 1 {
        rnd_tiny(f, d.sign, d.m, e + n, e + c, rm);
    }
}

/// a NaN that comes out of rounding is the format's own quiet NaN
pub proof fn rnd_nan<S: Semantics>(s: bool, num: nat, den: nat, e: int, rm: Round)
    requires wfs::<S>(), den > 0
    ensures ({
        let f = fm::<S>();
        let v = rnd(f, s, num, den, e, rm).v;
        v.cat == Category::NaN ==> v == nan_d(f, s) && !snan::<S>(v) && nan_one::<S>(v).v == v
    })
{
    reveal(rnd);
    reveal(finish);
    wfs_basic::<S>();
    let (a, b) = (S::NAN_SIGNIFICAND_BASE, S::QNAN_SIGNIFICAND);
    assert((a | b) & b == b) by (bit_vector);
}
@fn IeeeFloat::ilogb
    requires wf(self)
    ensures r == ilogb_spec(fm::<S>(), dat(self))
@hint start
    let ghost f = fm::<S>();
    let ghost d = dat(self);
    proof {
        wfs_basic::<S>();
        blen_bounds(d.m);
        blen0();
        if d.cat == Category::Normal {
            blen_le(d.m, f.p);
            if d.m >= pow2((f.p - 1) as nat) {
                if blen(d.m) < f.p { pow2_le(blen(d.m), (f.p - 1) as nat); }
            } else {
                // subnormal: scaling it up is exact
                blen_le(d.m, (f.p - 1) as nat);
                norm_steps(f, d.sign, d.m, d.exp, Loss::ExactlyZero, Round::NearestTiesToEven);
                let u = unit(f, blen(d.m) - 1 + d.exp);
                assert(u == blen(d.m) - 1 + d.exp - (f.p - 1));
                nz_size(f, d.m, d.exp);
                nz_lt(d.m, d.exp, u, Loss::ExactlyZero);
                lemma_pow2_pos((d.exp - u) as nat);
                finish_cases(f, d.sign, nz_q(d.m, d.exp, u), u, Loss::ExactlyZero, Round::NearestTiesToEven);
            }
        }
    }
@fn IeeeFloat::scalbn_r
    requires wf(self)
    ensures dat(r) == scalb_spec::<S>(dat(self), exp as int, round), wf(r)
@hint start
    let ghost f = fm::<S>();
    let ghost d = dat(self);
    proof { wfs_basic::<S>(); st_facts(); }
@hint before 0 this.exp=this.exp.saturating_add
    proof {
        if d.cat == Category::Normal {
            clamp_same::<S>(d, exp as int, exp_change as int, round);
            rnd_norm(f, d.sign, d.m, d.exp - (f.p - 1) + exp_change, round);
            rnd_nan::<S>(d.sign, d.m, 1, d.exp - (f.p - 1) + exp_change, round);
        }
    }
@hint before 0 ifthis.is_nan()
    proof {
        if d.cat == Category::Normal {
            assert(dat(this) == rnd(f, d.sign, d.m, 1, d.exp - (f.p - 1) + exp_change, round).v);
            assert(dat(this) == scalb_spec::<S>(d, exp as int, round));
        } else {
            assert(dat(this) == d);
        }
    }
@fn Float::scalbn
    requires wf(self)
    ensures dat(r) == scalb_spec::<S>(dat(self), exp as int, Round::NearestTiesToEven), wf(r)
@fn IeeeFloat::frexp_r
    requires wf(self)
    ensures ({
        let d = dat(self);
        let f = fm::<S>();
        &&& wf(r)
        &&& d.cat == Category::Normal ==> *final(exp) == ilog(f, d) + 1 && dat(r) == scalb_spec::<S>(d, -(ilog(f, d) + 1), round)
        &&& d.cat == Category::Zero ==> *final(exp) == 0 && dat(r) == d
        &&& d.cat == Category::Infinity ==> *final(exp) == i32::MAX && dat(r) == d
        &&& d.cat == Category::NaN ==> *final(exp) == i32::MIN && dat(r) == nan_one::<S>(d).v
    })
@hint start
    proof {
        wfs_basic::<S>();
        blen_bounds(dat(self).m);
        blen0();
        if dat(self).cat == Category::Normal { blen_le(dat(self).m, fm::<S>().p); }
    }
@fn Float::frexp
    requires wf(self)
    ensures ({
        let d = dat(self);
        let f = fm::<S>();
        let round = Round::NearestTiesToEven;
        &&& wf(r)
        &&& d.cat == Category::Normal ==> *final(exp) == ilog(f, d) + 1 && dat(r) == scalb_spec::<S>(d, -(ilog(f, d) + 1), round)
        &&& d.cat == Category::Zero ==> *final(exp) == 0 && dat(r) == d
        &&& d.cat == Category::Infinity ==> *final(exp) == i32::MAX && dat(r) == d
        &&& d.cat == Category::NaN ==> *final(exp) == i32::MIN && dat(r) == nan_one::<S>(d).v
    })
