@module cmpm sig rnd flt mag
@raw
pub open spec fn iord(x: int, y: int) -> Ordering { if x < y { Ordering::Less } else if x == y { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn sg(s: bool, x: nat) -> int { if s { -(x as int) } else { x as int } }

/// the order of IEEE 754: unordered with a NaN, otherwise the order of the extended reals
pub open spec fn cmp_spec(f: Fm, a: Dat, b: Dat) -> Option<Ordering> {
    if a.cat == Category::NaN || b.cat == Category::NaN { None }
    else if a.cat == Category::Infinity && b.cat == Category::Infinity && a.sign == b.sign { Some(Ordering::Equal) }
    else if a.cat == Category::Infinity { Some(if a.sign { Ordering::Less } else { Ordering::Greater }) }
    else if b.cat == Category::Infinity { Some(if b.sign { Ordering::Greater } else { Ordering::Less }) }
    else { Some(iord(sg(a.sign, mag(f, a)), sg(b.sign, mag(f, b)))) }
}

pub open spec fn wfx<S: Semantics>(x: IeeeFloat<S>) -> bool { wfs::<S>() && wfc(fm::<S>(), dat(x)) }

pub proof fn wfx_of<S: Semantics>(x: IeeeFloat<S>)
    requires wf(x)
    ensures wfx(x)
{
}
impl<S: Semantics> IeeeFloat<S> {
    // `<`, `>`, `<=`, `>=`: the provided methods of PartialOrd
    pub fn vx_lt(self, rhs: Self) -> (r: bool)
        requires wfx(self), wfx(rhs)
        ensures r == (cmp_spec(fm::<S>(), dat(self), dat(rhs)) == Some(Ordering::Less))
    { match self.partial_cmp(&rhs) { Some(Ordering::Less) => true, _ => false } }
    pub fn vx_gt(self, rhs: Self) -> (r: bool)
        requires wfx(self), wfx(rhs)
        ensures r == (cmp_spec(fm::<S>(), dat(self), dat(rhs)) == Some(Ordering::Greater))
    { match self.partial_cmp(&rhs) { Some(Ordering::Greater) => true, _ => false } }
    pub fn vx_le(self, rhs: Self) -> (r: bool)
        requires wfx(self), wfx(rhs)
        ensures r == (cmp_spec(fm::<S>(), dat(self), dat(rhs)) == Some(Ordering::Less) || cmp_spec(fm::<S>(), dat(self), dat(rhs)) == Some(Ordering::Equal))
    { match self.partial_cmp(&rhs) { Some(Ordering::Less) => true, Some(Ordering::Equal) => true, _ => false } }
    pub fn vx_ge(self, rhs: Self) -> (r: bool)
        requires wfx(self), wfx(rhs)
        ensures r == (cmp_spec(fm::<S>(), dat(self), dat(rhs)) == Some(Ordering::Greater) || cmp_spec(fm::<S>(), dat(self), dat(rhs)) == Some(Ordering::Equal))
    { match self.partial_cmp(&rhs) { Some(Ordering::Greater) => true, Some(Ordering::Equal) => true, _ => false } }
}
pub open spec fn is_lt(f: Fm, a: Dat, b: Dat) -> bool { cmp_spec(f, a, b) == Some(Ordering::Less) }
@fn IeeeFloat::cmp_abs_normal
    requires wfx(self), wfx(rhs), dat(self).cat == Category::Normal, dat(rhs).cat == Category::Normal
    ensures r == iord(mag(fm::<S>(), dat(self)) as int, mag(fm::<S>(), dat(rhs)) as int)
@hint start
    proof {
        wfs_basic::<S>();
        val1(self.sig@); val1(rhs.sig@);
        mag_lt(fm::<S>(), dat(self), dat(rhs));
        mag_lt(fm::<S>(), dat(rhs), dat(self));
    }
@fn IeeeFloat::partial_cmp
    requires wfx(*self), wfx(*rhs)
    ensures r == cmp_spec(fm::<S>(), dat(*self), dat(*rhs))
@hint start
    proof {
        wfs_basic::<S>();
        if dat(*self).cat == Category::Normal { mag_pos(fm::<S>(), dat(*self)); }
        if dat(*rhs).cat == Category::Normal { mag_pos(fm::<S>(), dat(*rhs)); }
    }
@fn IeeeFloat::eq
    requires wfx(*self), wfx(*rhs)
    ensures r == (cmp_spec(fm::<S>(), dat(*self), dat(*rhs)) == Some(Ordering::Equal))
@fn IeeeFloat::bitwise_eq
    requires wf(self), wf(rhs)
    ensures r == (dat(self) == dat(rhs))
@hint start
    proof { val1(self.sig@); val1(rhs.sig@); }
@hint end
    proof { assert(self.sig@ =~= rhs.sig@ <==> self.sig@[0] == rhs.sig@[0]); }
@fn Float::min
    requires wf(self), wf(other)
    ensures dat(r) == if dat(self).cat == Category::NaN || (dat(other).cat != Category::NaN && is_lt(fm::<S>(), dat(other), dat(self))) { dat(other) } else { dat(self) }
@fn Float::max
    requires wf(self), wf(other)
    ensures dat(r) == if dat(self).cat == Category::NaN || (dat(other).cat != Category::NaN && is_lt(fm::<S>(), dat(self), dat(other))) { dat(other) } else { dat(self) }
@fn Float::minimum
    requires wf(self), wf(other)
    ensures ({
        let (a, b) = (dat(self), dat(other));
        dat(r) == if a.cat == Category::NaN { a } else if b.cat == Category::NaN { b }
            else if a.cat == Category::Zero && b.cat == Category::Zero { if a.sign { a } else { b } }
            else if is_lt(fm::<S>(), b, a) { b } else { a }
    })
@fn Float::maximum
    requires wf(self), wf(other)
    ensures ({
        let (a, b) = (dat(self), dat(other));
        dat(r) == if a.cat == Category::NaN { a } else if b.cat == Category::NaN { b }
            else if a.cat == Category::Zero && b.cat == Category::Zero { if a.sign { b } else { a } }
            else if is_lt(fm::<S>(), a, b) { b } else { a }
    })
