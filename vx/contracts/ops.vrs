@module ops sig rnd flt nrm arith
@raw
pub open spec fn rte() -> Round { Round::NearestTiesToEven }

pub open spec fn sub_spec<S: Semantics>(a: Dat, b: Dat, rm: Round) -> Out {
    if a.cat == Category::NaN || b.cat == Category::NaN { nan_two::<S>(a, b) } else { add_spec::<S>(a, signed(b, !b.sign), rm) }
}
@fn IeeeFloat::add
    requires wf(self), wf(rhs)
    ensures out(r) == add_spec::<S>(dat(self), dat(rhs), rte()), wf(r.value),
        dat(self).cat == Category::Normal && dat(rhs).cat == Category::Normal ==> plain(r.value)
@fn IeeeFloat::sub
    requires wf(self), wf(rhs)
    ensures out(r) == sub_spec::<S>(dat(self), dat(rhs), rte()), wf(r.value),
        dat(self).cat == Category::Normal && dat(rhs).cat == Category::Normal ==> plain(r.value)
@fn IeeeFloat::mul
    requires wf(self), wf(rhs)
    ensures out(r) == mul_spec::<S>(dat(self), dat(rhs), rte()), wf(r.value)
@fn IeeeFloat::div
    requires wf(self), wf(rhs)
    ensures out(r) == div_spec::<S>(dat(self), dat(rhs), rte()), wf(r.value)
@fn Float::mul_add
    requires wf(self), wf(multiplicand), wf(addend)
    ensures out(r) == fma_spec::<S>(dat(self), dat(multiplicand), dat(addend), rte()), wf(r.value)
@fn IeeeFloat::add_assign
    requires wf(*old(self)), wf(rhs)
    ensures dat(*final(self)) == add_spec::<S>(dat(*old(self)), dat(rhs), rte()).v, wf(*final(self))
@fn IeeeFloat::sub_assign
    requires wf(*old(self)), wf(rhs)
    ensures dat(*final(self)) == sub_spec::<S>(dat(*old(self)), dat(rhs), rte()).v, wf(*final(self))
@fn IeeeFloat::mul_assign
    requires wf(*old(self)), wf(rhs)
    ensures dat(*final(self)) == mul_spec::<S>(dat(*old(self)), dat(rhs), rte()).v, wf(*final(self))
@fn IeeeFloat::div_assign
    requires wf(*old(self)), wf(rhs)
    ensures dat(*final(self)) == div_spec::<S>(dat(*old(self)), dat(rhs), rte()).v, wf(*final(self))
@fn IeeeFloat::default
    requires wfs::<S>()
    ensures dat(r) == zero_d(fm::<S>(), false), wf(r)
