@module dnorm dmath
@raw
/// a number that fits
pub proof fn cn_short(n: nat, pr: nat)
    requires n > 0, blen(n) <= pr
    ensures apxe(n, pr, n * pow2((pr - blen(n)) as nat), blen(n) - 1, 0), n * pow2((pr - blen(n)) as nat) < pow2(pr)
{
    reveal(apx);
    let b = blen(n);
    blen_bounds(n);
    blen0();
    blen_mul_pow(n, (pr - b) as nat);
    blen_bounds(n * pow2((pr - b) as nat));
    p128();
    pow2_half(pr);
    lemma_pow2_pos((pr - b) as nat);
    assert(posn(b - pr) == 0 && posn(-(b - pr)) == pr - b);
    let c = (n * pow2((pr - b) as nat)) as int;
    assert(c * 1 == c);
}

/// a number that is cut
pub proof fn cn_cut(n: nat, pr: nat, m: nat, l: Loss)
    requires n > 0, 0 < pr <= blen(n), ({ let s = (blen(n) - pr) as nat; m == n / pow2(s) && l == loss_of(n % pow2(s), pow2(s)) })
    ensures ({
        let h = pow2((pr - 1) as nat);
        &&& h <= m < 2 * h && 2 * h == pow2(pr) && (blen(n) == pr ==> l == Loss::ExactlyZero && m == n) && blen(m) == pr
        &&& l == Loss::ExactlyZero ==> apxe(n, pr, m, blen(n) - 1, 0)
        &&& l == Loss::LessThanHalf || l == Loss::ExactlyHalf ==> apxe(n, pr, m, blen(n) - 1, 1)
        &&& (l == Loss::MoreThanHalf || l == Loss::ExactlyHalf) && m + 1 < 2 * h ==> apxe(n, pr, m + 1, blen(n) - 1, 1)
        &&& (l == Loss::MoreThanHalf || l == Loss::ExactlyHalf) && m + 1 == 2 * h ==> apxe(n, pr, h, blen(n) as int, 1)
    })
{
    reveal(apx);
    let s = (blen(n) - pr) as nat;
    let h = pow2((pr - 1) as nat) as int;
    blen_bounds(n);
    blen_shr(n, s);
    blen_bounds(m);
    pow2_half(pr);
    p128();
    lemma_pow2_pos(s);
    lemma_pow2_pos((pr - 1) as nat);
    let t = pow2(s) as int;
    div_mod_id(n as int, t);
    let rr = n as int % t;
    let (ni, mi) = (n as int, m as int);
    assert(posn(s as int) == s && posn(-(s as int)) == 0);
    assert(ni * 1 == ni);
    assert((mi + 1) * t == mi * t + t) by (nonlinear_arith);
    pow2_half(s + 1);
    assert(h * (2 * t) == (2 * h) * t) by (nonlinear_arith);
    if s == 0 { assert(t == 1); assert(ni / 1 == ni && ni % 1 == 0); }
    assert(blen(n) - 1 - (pr - 1) == s);
    assert(posn(blen(n) - (pr - 1)) == s + 1 && posn(-(blen(n) - (pr - 1))) == 0);
    assert(0int * t == 0 && 1int * t == t && 1int * (2 * t) == 2 * t);
}
@fn IeeeFloat::calc_normal_from_limbs
    requires calc_precision % 128 == 127, calc_precision <= 0x800_0000, limbs@.len() <= 0x10_0000, val(limbs@) > 0
    ensures final(sig)@.len() == (calc_precision + 127) / 128,
        r.status == Status::OK || r.status == Status::INEXACT,
        apxe(val(limbs@), calc_precision as nat, val(final(sig)@), r.value as int, if r.status == Status::OK { 0 } else { 1 }),
        blen(val(limbs@)) - 1 <= r.value <= blen(val(limbs@)), blen(val(limbs@)) <= 128 * limbs@.len(),
        blen(val(limbs@)) <= calc_precision ==> r.status == Status::OK && r.value == blen(val(limbs@)) - 1
            && val(final(sig)@) == val(limbs@) * pow2((calc_precision - blen(val(limbs@))) as nat),
@hint start
    let ghost n = val(limbs@);
    let ghost pr = calc_precision as nat;
    let ghost b = blen(n);
    let ghost len = ((calc_precision + 127) / 128) as nat;
    proof {
        val_bound(limbs@);
        blen_le(n, (128 * limbs@.len()) as nat);
        blen_bounds(n);
        blen0();
        st_facts();
        p128();
        pow2_lt(pr, (128 * len) as nat);
        if b <= pr { cn_short(n, pr); }
    }
@hint before 0 letmutomsb
    let ghost m = val(sig@);
    let ghost l0 = loss;
    proof {
        if b >= pr {
            cn_cut(n, pr, m, loss);
            assert(n * pow2(0) == n);
        }
    }
@hint after 0 letfinal_exp
    proof {
        if b < pr { assert(final_exp == b - 1 && exp == pr - 1); } else { assert(final_exp == exp); }
    }
@hint before 0 vx_assert(sig::increment
    proof { assert(val(sig@) == m); inc_size(m, pr + 1); pow2_lt(pr, pr + 1); blen_unique(pow2(pr), pr + 1); blen_le(m + 1, pr + 1); if m + 1 < pow2(pr) { blen_le(m + 1, pr); } nbit0(m); }
@hint before 0 ifomsb==calc_precision+1
    proof {
        assert(carry(0, len) == 0); assert(carry(1, len) == pow2((128 * len) as nat)); assert(val(sig@) == m + 1);
        assert(pow2(1) == 2) by { pow2_half(1); }
    }
