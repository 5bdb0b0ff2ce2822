@module nxt sig rnd flt nrm arith mag cmpm
@raw
/// the next number away from zero, and the next number towards zero
pub open spec fn succ_d(f: Fm, d: Dat) -> Dat {
    if d.m + 1 == pow2(f.p) { Dat { m: pow2((f.p - 1) as nat), exp: d.exp + 1, ..d } } else { Dat { m: d.m + 1, ..d } }
}
pub open spec fn pred_d(f: Fm, d: Dat) -> Dat {
    if d.m == pow2((f.p - 1) as nat) && d.exp > f.lo { Dat { m: (pow2(f.p) - 1) as nat, exp: d.exp - 1, ..d } } else { Dat { m: (d.m - 1) as nat, ..d } }
}

pub open spec fn next_spec<S: Semantics>(d: Dat) -> Out {
    let f = fm::<S>();
    match d.cat {
        Category::NaN => if snan::<S>(d) { Out { st: Status::INVALID_OP, v: nan_d(f, d.sign) } } else { Out { st: Status::OK, v: d } },
        Category::Infinity => Out { st: Status::OK, v: if d.sign { largest_d(f, true) } else { d } },
        Category::Zero => Out { st: Status::OK, v: smallest_d(f, false) },
        Category::Normal => Out {
            st: Status::OK,
            v: if d.sign { if d == smallest_d(f, true) { zero_d(f, true) } else { pred_d(f, d) } }
               else { if d == largest_d(f, false) { inf_d(f, false) } else { succ_d(f, d) } },
        },
    }
}
pub open spec fn flip(o: Out) -> Out { Out { st: o.st, v: signed(o.v, !o.v.sign) } }

/// `succ_d` is the least number above
pub proof fn succ_least(f: Fm, d: Dat, x: Dat)
    requires wff(f), wfd(f, d), d.cat == Category::Normal, !(d.exp == f.hi && d.m == largest_d(f, false).m), wfd(f, x), x.cat == Category::Normal
    ensures wfd(f, succ_d(f, d)), mag(f, succ_d(f, d)) == mag(f, d) + pow2((d.exp - f.lo) as nat), mag(f, x) > mag(f, d) ==> mag(f, x) >= mag(f, succ_d(f, d))
{
    p128();
    pow2_half(f.p);
    pow2_half((f.p - 1) as nat);
    lemma_pow2_pos((f.p - 2) as nat);
    let s = succ_d(f, d);
    mag_lt(f, x, d);
    mag_lt(f, d, x);
    mag_lt(f, s, x);
    mag_lt(f, x, s);
    let j = (d.exp - f.lo) as nat;
    pow2_half(j + 1);
    lemma_pow2_pos(j);
    let (m, t, h) = (d.m as int, pow2(j) as int, pow2((f.p - 1) as nat) as int);
    assert((m + 1) * t == m * t + t) by (nonlinear_arith);
    assert(h * (2 * t) == (2 * h) * t) by (nonlinear_arith);
}

/// `pred_d` is the greatest number below
pub proof fn pred_greatest(f: Fm, d: Dat, x: Dat)
    requires wff(f), wfd(f, d), d.cat == Category::Normal, !(d.exp == f.lo && d.m == 1), wfd(f, x), x.cat == Category::Normal
    ensures wfd(f, pred_d(f, d)), mag(f, pred_d(f, d)) < mag(f, d), mag(f, x) < mag(f, d) ==> mag(f, x) <= mag(f, pred_d(f, d))
{
    p128();
    pow2_half(f.p);
    pow2_half((f.p - 1) as nat);
    lemma_pow2_pos((f.p - 2) as nat);
    let s = pred_d(f, d);
    mag_lt(f, x, d);
    mag_lt(f, d, x);
    mag_lt(f, s, x);
    mag_lt(f, x, s);
    mag_lt(f, s, d);
}
@fn Float::is_smallest
    requires wf(self)
    ensures r == (dat(self) == smallest_d(fm::<S>(), dat(self).sign))
@fn Float::is_smallest_normalized
    requires wf(self)
    ensures r == (dat(self) == (Dat { cat: Category::Normal, sign: dat(self).sign, m: pow2((fm::<S>().p - 1) as nat), exp: fm::<S>().lo }))
@fn Float::is_largest
    requires wf(self)
    ensures r == (dat(self) == largest_d(fm::<S>(), dat(self).sign))
@fn IeeeFloat::next_up
    requires wf(self)
    ensures out(r) == next_spec::<S>(dat(self)), wf(r.value)
@hint start
    let ghost f = fm::<S>();
    let ghost d = dat(self);
    proof {
        wfs_basic::<S>();
        p128();
        val1(self.sig@);
        let p = f.p;
        let k = (S::PRECISION - 1) as u128;
        one_shl(k);
        if d.cat == Category::Normal {
            mask_mod(self.sig@[0], k);
            bit_top(d.m, p);
            bit_top((d.m - 1) as nat, p);
            bit_top(0, p);
            let h = pow2((p - 1) as nat) as int;
            let m = d.m as int;
            if m >= h { div_unique(m, h, 1, m - h); assert(1 * h == h); } else { div_unique(m, h, 0, m); assert(0 * h == 0); }
            if d != largest_d(f, false) && !d.sign { succ_least(f, d, d); }
            if d != smallest_d(f, true) && d.sign { pred_greatest(f, d, d); }
        }
    }
@hint after 0 sig::decrement
    proof { val1(this.sig@); }
@hint after 0 sig::increment
    proof { val1(this.sig@); }
@hint after 0 this.sig=[0]
    proof { val1(this.sig@); }
@hint after 0 sig::set_bit
    proof { val1(this.sig@); }
@hint after 1 sig::set_bit
    proof { val1(this.sig@); }
@fn Float::next_down
    requires wf(self)
    ensures out(r) == flip(next_spec::<S>(signed(dat(self), !dat(self).sign))), wf(r.value)
