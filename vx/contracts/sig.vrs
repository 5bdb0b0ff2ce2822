@module sig
pub const LIMB_BITS: usize = 128;
@fn limbs_for_bits
    requires bits <= 0x2000_0000
    ensures r == (bits + 127) / 128
@fn Loss::combine
    ensures r == loss_comb(self, less_significant)
@fn Loss::through_truncation
    requires limbs@.len() <= 0x20_0000
    ensures r == loss_of(val(limbs@) % pow2(bits as nat), pow2(bits as nat))
@hint start
    proof {
        p128();
        if bits == 0 { lemma_small_mod(0, 1); assert(val(limbs@) % 1 == 0); }
    }
@hint before 0 lethas_half
    proof {
        let sh = ((bits - 1) % 128) as u128;
        assert(half == 1u128 << sh);
        one_shl(sh);
    }
@hint after 0 has_rest=
    proof {
        loss_bits(val(limbs@), bits as nat);
        let i = (bits - 1) / 128;
        let sh = ((bits - 1) % 128) as u128;
        let hl = limb_at(limbs@, i) as u128;
        assert(half_limb == hl);
        assert(half == 1u128 << sh);
        bit_test(hl, sh);
        mask_mod(hl, sh);
        one_shl(sh);
        val_zero(rest@);
        if i < limbs.len() {
            val_bit(limbs@, i, sh as nat);
            val_mod(limbs@, i, sh as nat);
            lemma_pow2_pos((128 * i) as nat);
            let z = hl as nat % pow2(sh as nat);
            if z != 0 { lemma_mul_strictly_positive(z as int, pow2((128 * i) as nat) as int); } else { lemma_mul_basics(pow2((128 * i) as nat) as int); }
            assert((128 * i + sh as nat) as nat == (bits - 1) as nat);
            assert(rest@ =~= limbs@.take(i as int));
        } else {
            val_bound(limbs@);
            pow2_le((128 * limbs@.len()) as nat, (bits - 1) as nat);
            lemma_small_mod(val(limbs@), pow2((bits - 1) as nat));
            lemma_basic_div(val(limbs@) as int, pow2((bits - 1) as nat) as int);
            lemma_pow2_pos(sh as nat);
            lemma_basic_div(0, pow2(sh as nat) as int);
            lemma_small_mod(0, pow2(sh as nat));
        }
        assert(has_half == nbit(val(limbs@), (bits - 1) as nat));
        assert(has_rest == (val(limbs@) % pow2((bits - 1) as nat) != 0));
    }
@fn sig::is_all_zeros
    ensures r == (val(limbs@) == 0), r == all_zero(limbs@)
@hint start
    proof { val_zero(limbs@); }
@loop 0
    invariant_except_break vx_r0, vx_i0 <= limbs.len(), forall|j: int| 0 <= j < vx_i0 ==> limbs@[j] == 0
    ensures vx_r0 == all_zero(limbs@)
    decreases limbs.len() - vx_i0
@fn sig::olsb
    requires limbs@.len() <= 0x20_0000
    ensures r == 0 ==> val(limbs@) == 0, r > 0 ==> val(limbs@) > 0 && val(limbs@) % pow2((r - 1) as nat) == 0 && nbit(val(limbs@), (r - 1) as nat), r <= 128 * limbs@.len()
@hint start
    proof { val_zero(limbs@); }
@loop 0
    invariant vx_e0 == limbs.len(), vx_e0 <= 0x20_0000, vx_i0 <= vx_e0, val(limbs@) == 0 <==> all_zero(limbs@), forall|j: int| 0 <= j < vx_i0 ==> limbs@[j] == 0
    decreases vx_e0 - vx_i0
@hint before 0 return
    proof {
        let x = limbs@[i as int];
        tz_val(limbs@, i as int);
    }
@fn sig::omsb
    requires limbs@.len() <= 0x20_0000
    ensures r == blen(val(limbs@)), r <= 128 * limbs@.len()
@hint start
    proof { val_zero(limbs@); val_bound(limbs@); blen_le(val(limbs@), (128 * limbs@.len()) as nat); }
@loop 0
    invariant vx_e0 == 0, limbs.len() <= 0x20_0000, vx_i0 <= limbs.len(), val(limbs@) == 0 <==> all_zero(limbs@), forall|j: int| vx_i0 <= j < limbs.len() ==> limbs@[j] == 0,
        blen(val(limbs@)) <= 128 * limbs@.len()
    decreases vx_i0
@hint before 0 return
    proof { val_top(limbs@, i as int); }
@fn sig::cmp
    requires a@.len() == b@.len()
    ensures r == (if val(a@) < val(b@) { Ordering::Less } else if val(a@) == val(b@) { Ordering::Equal } else { Ordering::Greater })
@hint start
    let ghost (ga, gb) = (a@, b@);
@hint end
    proof { assert(a@ =~= b@); }
@loop 0
    invariant ga == a@, gb == b@, a.len() == b.len(), vx_i0 <= a.len(), forall|j: int| vx_i0 <= j < a.len() ==> a@[j] == b@[j]
    decreases vx_i0
@hint before 0 match
    proof { if *a < *b { val_cmp(ga, gb, vx_i0 as int); } if *b < *a { val_cmp(gb, ga, vx_i0 as int); } }
@fn sig::get_bit
    requires bit < 128 * limbs@.len()
    ensures r == nbit(val(limbs@), bit as nat)
@hint start
    proof {
        let i = bit / 128; let sh = (bit % 128) as u128;
        val_bit(limbs@, i as int, sh as nat);
        bit_test(limbs@[i as int], sh);
    }
@fn sig::set_bit
    requires bit < 128 * old(limbs)@.len(), !nbit(val(old(limbs)@), bit as nat)
    ensures final(limbs)@.len() == old(limbs)@.len(), val(final(limbs)@) == val(old(limbs)@) + pow2(bit as nat)
@hint start
    let ghost o = limbs@;
    proof {
        let i = (bit / 128) as int; let sh = (bit % 128) as u128;
        val_bit(o, i, sh as nat);
        or_bit(o[i], sh);
        val_update(o, i, (o[i] + pow2(sh as nat)) as u128);
        pow2_add(sh as nat, (128 * i) as nat);
        assert(bit as nat == sh as nat + (128 * i) as nat);
        let p = pow2((128 * i) as nat) as int;
        assert((o[i] as int + pow2(sh as nat)) * p == o[i] as int * p + pow2(sh as nat) * p) by (nonlinear_arith);
    }
@fn sig::shift_left
    requires 0 < old(dst)@.len() <= 0x20_0000, bits <= emax(), *old(exp) - bits >= i32::MIN
    ensures final(dst)@.len() == old(dst)@.len(), *final(exp) == *old(exp) - bits,
        val(final(dst)@) == (val(old(dst)@) * pow2(bits as nat)) % pow2((128 * old(dst)@.len()) as nat),
        val(old(dst)@) * pow2(bits as nat) < pow2((128 * old(dst)@.len()) as nat) ==> val(final(dst)@) == val(old(dst)@) * pow2(bits as nat)
@hint start
    let ghost o = dst@;
    proof {
        p128();
        if bits == 0 {
            val_bound(o);
            lemma_small_mod(val(o), pow2((128 * o.len()) as nat));
            assert(val(o) * pow2(0) == val(o)) by (nonlinear_arith) requires pow2(0) == 1;
        }
    }
@loop 0
    invariant vx_e0 == 0, vx_i0 <= dst.len(), o.len() == dst.len(), jump == bits / 128, shift == bits % 128, bits > 0, o == old(dst)@,
        dst.len() <= 0x20_0000,
        forall|k: int| vx_i0 <= k < dst.len() ==> #[trigger] dst@[k] as nat == shl_limb(o, jump as int, shift as nat, k),
        forall|k: int| 0 <= k < vx_i0 ==> dst@[k] == o[k]
    decreases vx_i0
@hint loopstart 0
    proof {
        let k = vx_i0 - 1;
        if shift > 0 {
            shl_zero(shift as nat);
            if k >= jump {
                join_l(o[k - jump], (if k >= jump + 1 { o[k - jump - 1] } else { 0 }), shift as u128, (128 - shift) as u128);
            }
        }
    }
@hint end
    proof {
        if bits > 0 { shl_all(dst@, o, bits as nat); }
    }
@fn sig::shift_right
    requires 0 < old(dst)@.len() <= 0x20_0000, bits <= i32::MAX, *old(exp) + bits <= i32::MAX
    ensures final(dst)@.len() == old(dst)@.len(), *final(exp) == *old(exp) + bits,
        val(final(dst)@) == val(old(dst)@) / pow2(bits as nat),
        r == loss_of(val(old(dst)@) % pow2(bits as nat), pow2(bits as nat))
@hint start
    let ghost o = dst@;
    proof {
        p128();
        if bits == 0 { assert(val(o) / 1 == val(o)); }
    }
@loop 0
    invariant vx_e0 == dst.len(), vx_i0 <= dst.len(), o.len() == dst.len(), jump == bits / 128, shift == bits % 128, bits > 0, o == old(dst)@,
        dst.len() <= 0x20_0000, bits <= i32::MAX,
        forall|k: int| 0 <= k < vx_i0 ==> #[trigger] dst@[k] as nat == shr_limb(o, jump as int, shift as nat, k),
        forall|k: int| vx_i0 <= k < dst.len() ==> dst@[k] == o[k]
    decreases vx_e0 - vx_i0
@hint loopstart 0
    proof {
        let k = vx_i0 as int;
        if shift > 0 {
            shr_zero(shift as nat);
            if k + jump < o.len() {
                join_r(o[k + jump], (if k + jump + 1 < o.len() { o[k + jump + 1] } else { 0 }), shift as u128, (128 - shift) as u128);
                shr_div(o[k + jump], shift as u128);
            }
        }
    }
@hint end
    proof {
        if bits > 0 { shr_all(dst@, o, bits as nat); }
    }
@fn sig::increment
    requires old(dst)@.len() <= 0x20_0000
    ensures final(dst)@.len() == old(dst)@.len(), r <= 1,
        val(final(dst)@) + carry(r, old(dst)@.len()) == val(old(dst)@) + 1
@hint start
    let ghost o = dst@;
    proof { p128(); val_take_all(o); }
@loop 0
    invariant vx_e0 == dst.len(), vx_i0 <= vx_e0, o.len() == dst.len(), o == old(dst)@,
        val(dst@.take(vx_i0 as int)) + pow2((128 * vx_i0) as nat) == val(o.take(vx_i0 as int)) + 1,
        forall|k: int| vx_i0 <= k < dst.len() ==> dst@[k] == o[k]
    decreases vx_e0 - vx_i0
@hint loopstart 0
    proof {
        let i = vx_i0 as int;
        let x = dst@[i];
        let y = if x == u128::MAX { 0u128 } else { (x + 1) as u128 };
        take_update(dst@, i, y);
        take_update(o, i, y);
        p128();
        let q = pow2((128 * i) as nat) as int;
        assert(y as int * q == if x == u128::MAX { x as int * q + q - pow2(128) * q } else { x as int * q + q }) by (nonlinear_arith)
            requires y as int == if x == u128::MAX { x + 1 - pow2(128) } else { x + 1 };
        val_high_eq(dst@.update(i, y), o, i + 1);
        assert(dst@.update(i, y).len() == o.len());
    }
@hint end
    proof { val_take_all(dst@); val_take_all(o); }
@fn sig::decrement
    requires old(dst)@.len() <= 0x20_0000
    ensures final(dst)@.len() == old(dst)@.len(), r <= 1,
        val(final(dst)@) - carry(r, old(dst)@.len()) == val(old(dst)@) - 1
@hint start
    let ghost o = dst@;
    proof { p128(); val_take_all(o); assert(!0u128 == u128::MAX) by (bit_vector); }
@loop 0
    invariant vx_e0 == dst.len(), vx_i0 <= vx_e0, o.len() == dst.len(), o == old(dst)@, !0u128 == u128::MAX,
        val(dst@.take(vx_i0 as int)) - pow2((128 * vx_i0) as nat) == val(o.take(vx_i0 as int)) - 1,
        forall|k: int| vx_i0 <= k < dst.len() ==> dst@[k] == o[k]
    decreases vx_e0 - vx_i0
@hint loopstart 0
    proof {
        let i = vx_i0 as int;
        let x = dst@[i];
        let y = if x == 0 { u128::MAX } else { (x - 1) as u128 };
        take_update(dst@, i, y);
        take_update(o, i, y);
        p128();
        let q = pow2((128 * i) as nat) as int;
        assert(y as int * q == if x == 0 { x as int * q - q + pow2(128) * q } else { x as int * q - q }) by (nonlinear_arith)
            requires y as int == if x == 0 { x - 1 + pow2(128) } else { x - 1 };
        val_high_eq(dst@.update(i, y), o, i + 1);
    }
@hint end
    proof { val_take_all(dst@); val_take_all(o); }
@fn sig::add
    requires old(a)@.len() == b@.len(), c <= 1
    ensures final(a)@.len() == old(a)@.len(), r <= 1,
        val(final(a)@) + carry(r, b@.len()) == val(old(a)@) + val(b@) + c
@hint start
    let ghost (o, gb, c0) = (a@, b@, c as int);
    proof { p128(); val_take_all(o); val_take_all(gb); assert(c as int * 1 == c); }
@loop 0
    invariant a.len() == b.len(), vx_i0 <= a.len(), o.len() == a.len(), b@ == gb, o == old(a)@, c <= 1,
        val(a@.take(vx_i0 as int)) + c as int * pow2((128 * vx_i0) as nat) == val(o.take(vx_i0 as int)) + val(gb.take(vx_i0 as int)) + c0,
        forall|k: int| vx_i0 <= k < a.len() ==> a@[k] == o[k]
    decreases a.len() - vx_i0
@hint loopstart 0
    let ghost (i, a1, c1) = (vx_i0 as int, a@, c as int);
@hint loopend 0
    proof {
        let y = a@[i];
        assert(a@ =~= a1.update(i, y));
        take_update(a1, i, y);
        take_update(o, i, y);
        take_update(gb, i, y);
        p128();
        let q = pow2((128 * i) as nat) as int;
        let (u, v, c2, yy, w) = (o[i] as int, gb[i] as int, c as int, y as int, pow2(128) as int);
        assert(c2 * w == if c2 == 0 { 0 } else { w }) by (nonlinear_arith) requires c2 == 0 || c2 == 1;
        assert(yy + c2 * w == u + v + c1);
        assert(yy * q + c2 * (w * q) == u * q + v * q + c1 * q) by (nonlinear_arith) requires yy + c2 * w == u + v + c1;
    }
@hint end
    proof { val_take_all(a@); val_take_all(o); val_take_all(gb); carry_mul(c, b@.len()); }
@fn sig::sub
    requires old(a)@.len() == b@.len(), c <= 1
    ensures final(a)@.len() == old(a)@.len(), r <= 1,
        val(final(a)@) - carry(r, b@.len()) == val(old(a)@) - val(b@) - c, val(final(a)@) < pow2((128 * b@.len()) as nat)
@hint start
    let ghost (o, gb, c0) = (a@, b@, c as int);
    proof { p128(); val_take_all(o); val_take_all(gb); assert(c as int * 1 == c); }
@loop 0
    invariant a.len() == b.len(), vx_i0 <= a.len(), o.len() == a.len(), b@ == gb, o == old(a)@, c <= 1,
        val(a@.take(vx_i0 as int)) - c as int * pow2((128 * vx_i0) as nat) == val(o.take(vx_i0 as int)) - val(gb.take(vx_i0 as int)) - c0,
        forall|k: int| vx_i0 <= k < a.len() ==> a@[k] == o[k]
    decreases a.len() - vx_i0
@hint loopstart 0
    let ghost (i, a1, c1) = (vx_i0 as int, a@, c as int);
@hint loopend 0
    proof {
        let y = a@[i];
        assert(a@ =~= a1.update(i, y));
        take_update(a1, i, y);
        take_update(o, i, y);
        take_update(gb, i, y);
        p128();
        let q = pow2((128 * i) as nat) as int;
        let (u, v, c2, yy, w) = (o[i] as int, gb[i] as int, c as int, y as int, pow2(128) as int);
        assert(c2 * w == if c2 == 0 { 0 } else { w }) by (nonlinear_arith) requires c2 == 0 || c2 == 1;
        assert(yy - c2 * w == u - v - c1);
        assert(yy * q - c2 * (w * q) == u * q - v * q - c1 * q) by (nonlinear_arith) requires yy - c2 * w == u - v - c1;
    }
@hint end
    proof { val_take_all(a@); val_take_all(o); val_take_all(gb); carry_mul(c, b@.len()); val_bound(a@); }
@fn sig::extract
    requires src@.len() <= 0x20_0000, old(dst)@.len() <= 0x20_0000, src_lsb + src_bits <= 128 * src@.len(), src_bits <= 128 * old(dst)@.len()
    ensures final(dst)@.len() == old(dst)@.len(), src_bits == 0 ==> final(dst)@ == old(dst)@,
        src_bits > 0 ==> val(final(dst)@) == (val(src@) / pow2(src_lsb as nat)) % pow2(src_bits as nat)
@hint start
    let ghost gs = src@;
    let ghost gl = (src_bits + 127) / 128;
    let ghost x = val(src@) / pow2(src_lsb as nat);
@hint after 0 let_:Loss
    let ghost d1 = dst@.take(gl);
    proof {
        skip_div(gs, src_lsb as nat);
        let s0 = src@;
        assert(s0 =~= gs.skip(src_lsb as int / 128));
        take_mod(s0, gl);
        let n = (128 * gl - shift) as nat;
        pow2_add(shift as nat, n);
        lemma_pow2_pos(shift as nat);
        lemma_pow2_pos(n);
        mod_div(val(s0) as int, pow2(shift as nat) as int, pow2(n) as int);
        assert(val(d1) == x % pow2(n));
    }
@hint before 0 letmask
    proof { one_shl((src_bits - n) as u128); }
@hint before 0 dst[dst_limbs-1]=dst[dst_limbs-1]&
    proof { one_shl((src_bits % 128) as u128); }
@hint after 0 letmask
    proof {
        let k = (src_bits - n) as u128;
        one_shl(k);
        mask_mod(src@[gl], k);
        let w = src@[gl] & mask;
        lemma_pow2_pos(k as nat);
        lemma_pow2_pos(n as nat);
        lemma_pow2_pos(shift as nat);
        let c = (128 - shift) as u128;
        assert(n % 128 == c && n / 128 == gl - 1) by (nonlinear_arith) requires n == 128 * gl - shift, 0 < shift < 128, c == 128 - shift, gl > 0;
        pow2_le(k as nat, shift as nat);
        pow2_sub(128, shift as nat);
        p128();
        lemma_mod_bound(src@[gl] as int, pow2(k as nat) as int);
        assert(w as nat == src@[gl] as nat % pow2(k as nat));
        lemma_pow2_pos(c as nat);
        mul_lt(w as int, pow2(shift as nat) as int, pow2(c as nat) as int);
        shl_nowrap(w, c);
        // the top limb of d1
        let i = gl - 1;
        val_mod(d1, i, c as nat);
        lemma_small_mod(val(d1), pow2(n as nat));
        assert((128 * i + c as nat) as nat == n as nat);
        take_all_mod(d1, i, c as nat);
        div_exact(w as int, pow2(c as nat) as int);
        or_disjoint(w << c, d1[i], c);
        let t = d1[i];
        let wc = w << c;
        assert(wc | t == t | wc) by (bit_vector);
        val_update(d1, i, (t + wc) as u128);
        pow2_add(c as nat, (128 * i) as nat);
        mod_join(x, n as nat, k as nat);
        // x / 2^n
        shr_add(val(src@), shift as nat, n as nat);
        take_mod(src@, gl);
        low_limb(src@.skip(gl), k as nat);
        let p = pow2((128 * i) as nat) as int;
        let pc = pow2(c as nat) as int;
        let wi = w as int;
        let ti = t as int;
        assert((ti + wi * pc) * p == ti * p + wi * (pc * p)) by (nonlinear_arith);
    }
@hint before 0 letvx_e0
    let ghost d2 = dst@.take(gl);
    proof {
        if n < src_bits {
            assert(d2 =~= d1.update(gl - 1, d2[gl - 1]));
        } else if n > src_bits && src_bits % 128 > 0 {
            let sh = (src_bits % 128) as u128;
            one_shl(sh);
            mask_mod(d1[gl - 1], sh);
            val_mod(d1, gl - 1, sh as nat);
            assert((128 * (gl - 1) + sh as nat) as nat == src_bits as nat);
            assert(d2 =~= d1.update(gl - 1, d2[gl - 1]));
            val_take(d2, gl - 1);
            assert(d2.take(gl - 1) =~= d1.take(gl - 1));
            assert(d2.take(gl) =~= d2);
            mod_mod(x, n as nat, src_bits as nat);
        } else {
            assert(d2 =~= d1);
        }
        assert(val(d2) == x % pow2(src_bits as nat));
    }
@loop 0
    invariant vx_e0 == dst.len(), gl <= vx_i0 <= vx_e0, dst@.take(gl) == d2, forall|k: int| gl <= k < vx_i0 ==> dst@[k] == 0, gl == dst_limbs, dst@.len() == old(dst)@.len()
    decreases vx_e0 - vx_i0
@hint loopend 0
    proof { assert(dst@.take(gl) =~= d2); }
@hint end
    proof { if src_bits > 0 { val_high_zero(dst@, gl); } }
@fn sig::from_limbs
    requires src@.len() <= 0x20_0000, old(dst)@.len() <= 0x20_0000, 0 < precision <= 128 * old(dst)@.len()
    ensures final(dst)@.len() == old(dst)@.len(),
        ({ let b = blen(val(src@)); let m = val(src@);
           if precision <= b { val(final(dst)@) == m / pow2((b - precision) as nat) && r.0 == loss_of(m % pow2((b - precision) as nat), pow2((b - precision) as nat)) && r.1 == b - 1 }
           else { (b > 0 ==> val(final(dst)@) == m) && (b == 0 ==> final(dst)@ == old(dst)@) && r.0 == Loss::ExactlyZero && r.1 == precision - 1 } })
@hint start
    proof {
        let m = val(src@);
        let b = blen(m);
        blen_bounds(m);
        p128();
        if precision <= b {
            let s = (b - precision) as nat;
            pow2_add(s, precision as nat);
            lemma_pow2_pos(s);
            div_lt(m as int, pow2(s) as int, pow2(precision as nat) as int) ;
            lemma_mul_is_commutative(pow2(s) as int, pow2(precision as nat) as int);
            lemma_small_mod(m / pow2(s), pow2(precision as nat));
        } else if b > 0 {
            assert(m / 1 == m);
            lemma_small_mod(m, pow2(b));
        }
    }
@fn sig::widening_mul
    ensures r@[0] + r@[1] * pow2(128) == a * b, val(r@) == a * b
@hint start
    let ghost (ga, gb) = (a as int, b as int);
    let ghost (a0, a1) = (a as int % pow2(64) as int, a as int / pow2(64) as int);
    let ghost (b0, b1) = (b as int % pow2(64) as int, b as int / pow2(64) as int);
    proof {
        lemma_mul_basics(ga);
        lemma_mul_basics(gb);
        wmul_eval(a, b);
        let z = [0u128, 0u128];
        val2(z@);
        p128();
    }
@hint loopstart 1
    let ghost w0 = wide@;
    proof {
        wmul_eval(a, b);
        low64(a);
        low64(b);
        one_shl(64);
        p128();
        let (p, q) = (half_of(a0, a1, i as int), half_of(b0, b1, vx_i1 as int));
        assert(0 <= p * q < pow2(128)) by (nonlinear_arith) requires 0 <= p < pow2(64), 0 <= q < pow2(64), pow2(64) * pow2(64) == pow2(128);
        let y = [(p * q) as u128, 0u128];
        val2(y@);
        let k = ((i + vx_i1) * 64) as nat;
        pow2_le(k, 128);
        pow2_add(128, 128);
        assert(p * q * pow2(k) < pow2(256)) by (nonlinear_arith) requires 0 <= p * q < pow2(128), 0 < pow2(k) <= pow2(128), pow2(256) == pow2(128) * pow2(128);
        assert(k == (64 * (i + (vx_i1 + 1) - 1)) as nat);
        assert((128 * 2) as nat == 256);
        lemma_pow2_pos(k);
    }
@hint end
    proof { val2(wide@); }
@loop 0
    invariant vx_e0 == 2, vx_i0 <= 2, HALF_BITS == 64, ga == a, gb == b,
        a0 == a as int % pow2(64) as int, a1 == a as int / pow2(64) as int, b0 == b as int % pow2(64) as int, b1 == b as int / pow2(64) as int,
        wide@.len() == 2, val(wide@) == wmul(a0, a1, b0, b1, vx_i0 as int, 0)
    decreases 2 - vx_i0
@loop 1
    invariant vx_e1 == 2, vx_i1 <= 2, HALF_BITS == 64, ga == a, gb == b, i < 2,
        a0 == a as int % pow2(64) as int, a1 == a as int / pow2(64) as int, b0 == b as int % pow2(64) as int, b1 == b as int / pow2(64) as int,
        wide@.len() == 2, val(wide@) == wmul(a0, a1, b0, b1, i as int, vx_i1 as int)
    decreases 2 - vx_i1
@fn sig::add_or_sub
    requires 0 < old(a_sig)@.len() <= 0x20_0000, old(b_sig)@.len() == old(a_sig)@.len(),
        -emax() <= *old(a_exp) <= emax(), -emax() <= b_exp <= emax(), -emax() <= *old(a_exp) - b_exp <= emax(),
        blen(val(old(a_sig)@)) < 128 * old(a_sig)@.len(), blen(val(old(b_sig)@)) < 128 * old(a_sig)@.len(),
        *old(a_exp) > b_exp ==> blen(val(old(a_sig)@)) >= blen(val(old(b_sig)@)),
        *old(a_exp) < b_exp ==> blen(val(old(b_sig)@)) >= blen(val(old(a_sig)@)),
    ensures final(a_sig)@.len() == old(a_sig)@.len(),
        addsub(val(old(a_sig)@), *old(a_exp) as int, *old(a_sign), val(old(b_sig)@), b_exp as int, b_sign, val(final(a_sig)@), *final(a_exp) as int, *final(a_sign), r)
@hint start
    let ghost (ma, mb, n) = (val(a_sig@), val(b_sig@), a_sig@.len());
    let ghost (ea, sa) = (*a_exp as int, *a_sign);
    proof {
        p128();
        blen_bounds(ma);
        blen_bounds(mb);
        pow2_lt(blen(ma), 128 * n);
        pow2_lt(blen(mb), 128 * n);
        pow2_le((imax(blen(ma) as int, blen(mb) as int) + 1) as nat, 128 * n);
        if *a_sign != b_sign {
            if bits_gt(ea, b_exp as int) {
                addsub_d_gt(ma, ea, sa, mb, b_exp as int, b_sign);
            } else if ea < b_exp {
                addsub_d_lt(ma, ea, sa, mb, b_exp as int, b_sign);
            } else {
                addsub_d_eq(ma, ea, sa, mb, b_sign);
            }
        } else {
            addsub_same(ma, ea, sa, mb, b_exp as int);
        }
    }
@fn sig::mul
    requires a@.len() >= 1, b@.len() >= 1, a@.len() <= 0x10_0000, b@.len() <= 0x10_0000, old(dst)@.len() == a@.len() + b@.len(),
        -emax() <= *old(exp) <= emax(), 0 < precision <= 0x1000_0000
    ensures final(dst)@.len() == old(dst)@.len(),
        ({ let m = val(a@) * val(b@); let s = if blen(m) <= precision { 0 } else { (blen(m) - precision) as nat };
           val(final(dst)@) == m / pow2(s) && *final(exp) == *old(exp) + 1 - precision + s && r == loss_of(m % pow2(s), pow2(s)) })
@hint start
    let ghost (xa, xb) = (val(a@), val(b@));
@hint after 0 ifa.len()>b.len()
    let ghost (na, nb) = (a@.len() as int, b@.len() as int);
    proof {
        lemma_mul_is_commutative(xa as int, xb as int);
        p128();
        val_take_all(a@);
        val_take_all(b@);
        lemma_mul_basics(val(b@) as int);
    }
@loop 0
    invariant vx_e0 == nb, nb == b@.len(), na >= 1, vx_i0 <= nb, dst@.len() == na + nb, forall|k: int| 0 <= k < vx_i0 ==> dst@[k] == 0
    decreases vx_e0 - vx_i0
@hint before 0 letvx_e1
    proof { val_zero(dst@.take(nb)); }
@loop 1
    invariant vx_e1 == na, na == a@.len(), nb == b@.len(), nb >= 1, vx_i1 <= na, dst@.len() == na + nb, na <= 0x10_0000, nb <= 0x10_0000,
        val(dst@.take(vx_i1 + nb)) == val(a@.take(vx_i1 as int)) * val(b@)
    decreases vx_e1 - vx_i1
@hint loopstart 1
    let ghost d0 = dst@;
    let ghost ii = vx_i1 as int;
    proof {
        val_take_all(b@);
        p128();
        let (x, q) = (a@[ii] as int, pow2((128 * ii) as nat) as int);
        assert(x * q * 0 == 0) by (nonlinear_arith);
    }
@loop 2
    invariant vx_e2 == nb, na == a@.len(), nb == b@.len(), ii == i, 0 <= i < na, vx_i2 <= nb, dst@.len() == na + nb, na <= 0x10_0000, nb <= 0x10_0000, d0.len() == dst@.len(),
        forall|k: int| ii + vx_i2 <= k < dst@.len() ==> dst@[k] == d0[k],
        val(dst@.take(ii + vx_i2)) + carry as int * pow2((128 * (ii + vx_i2)) as nat) == val(d0.take(ii + vx_i2)) + a@[ii] as int * pow2((128 * ii) as nat) * val(b@.take(vx_i2 as int))
    decreases vx_e2 - vx_i2
@hint loopstart 2
    let ghost (d1, c1, jj) = (dst@, carry as int, vx_i2 as int);
    proof {
        p128();
        let (x, y, c, d) = (a@[ii] as int, b@[jj] as int, carry as int, dst@[ii + jj] as int);
        let w = pow2(128) as int;
        assert(x * y + c + d < w * w) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < w, 0 <= c < w, 0 <= d < w;
    }
@hint loopend 2
    proof {
        let k = ii + jj;
        let yl = dst@[k];
        assert(dst@ =~= d1.update(k, yl));
        take_update(d1, k, yl);
        take_update(d0, k, yl);
        take_update(b@, jj, 0);
        pow2_add((128 * ii) as nat, (128 * jj) as nat);
        assert((128 * ii) as nat + (128 * jj) as nat == (128 * k) as nat);
        let (x, y, c, d) = (a@[ii] as int, b@[jj] as int, carry as int, d0[k] as int);
        let w = pow2(128) as int;
        let (qi, qj, qk) = (pow2((128 * ii) as nat) as int, pow2((128 * jj) as nat) as int, pow2((128 * k) as nat) as int);
        let l = yl as int;
        assert(l + c * w == x * y + c1 + d);
        mul_step(l, c, w, x, y, c1, d, qi, qj, qk, val(b@.take(jj)) as int);
    }
@hint before 0 dst[i+b.len()]
    let ghost (d2, c2) = (dst@, carry);
@hint after 0 dst[i+b.len()]
    proof {
        let k = ii + nb;
        assert(dst@ =~= d2.update(k, c2));
        take_update(d2, k, c2);
        val_take_all(b@);
        take_update(a@, ii, 0);
        // the limb above was not touched before
        assert(val(dst@.take(k + 1)) == val(d0.take(k)) + a@[ii] as int * pow2((128 * ii) as nat) * val(b@));
        assert((val(a@.take(ii)) as int + a@[ii] as int * pow2((128 * ii) as nat)) * val(b@) == val(a@.take(ii)) as int * val(b@) + a@[ii] as int * pow2((128 * ii) as nat) * val(b@)) by (nonlinear_arith);
    }
@hint before 0 letomsb
    proof {
        val_take_all(dst@);
        val_take_all(a@);
        assert(val(dst@) == xa * xb);
        assert(val(dst@) / 1 == val(dst@) && val(dst@) % 1 == 0);
    }
@fn sig::div
    requires 0 < precision <= 0x1000_0000, old(dividend)@.len() == (precision + 127) / 128, precision < 128 * old(dividend)@.len(),
        old(quotient)@.len() == old(dividend)@.len(), old(divisor)@.len() == old(dividend)@.len(),
        0 < val(old(dividend)@), 0 < val(old(divisor)@), blen(val(old(dividend)@)) <= precision, blen(val(old(divisor)@)) <= precision,
        -emax() <= *old(exp) <= emax()
    ensures final(quotient)@.len() == old(quotient)@.len(),
        ({ let (n0, d0, p) = (val(old(dividend)@), val(old(divisor)@), precision as nat);
           *final(exp) == *old(exp) + div_bd(d0, p) - div_bn(n0, d0, p) && div_res(div_n(n0, d0, p), div_d(d0, p), p, val(final(quotient)@), r) })
@hint start
    let ghost (n0, d0, p, len) = (val(dividend@), val(divisor@), precision as nat, dividend@.len());
    let ghost m = (128 * len) as nat;
    let ghost d = div_d(d0, p);
    let ghost n = div_n(n0, d0, p);
    proof {
        div_setup(n0, d0, p, m);
        p128();
    }
@hint after 0 letolsb_divisor
    proof {
        assert(val(divisor@) == d);
        nbit_lt(d, (olsb_divisor - 1) as nat, p);
    }
@hint before 0 quotient.copy
    proof { div_one(n, d, p); blen_bounds(n0 * pow2((p - blen(n0)) as nat)); }
@hint before 0 letdivisor_bits
    let ghost k = (olsb_divisor - 1) as nat;
    let ghost s1 = dividend@;
    proof {
        assert(val(dividend@) == n);
    }
@hint before 0 letdivisor=divisor[0]
    let ghost dv = d / pow2(k);
    proof {
        short_setup(s1, d, n, p, k, s1.last());
        pow2_le((p - k) as nat, 8);
        pow2_lt(8, 128);
        pow2_lt(8, 16);
        lemma_small_mod(dv, pow2(128));
        low_limb(divisor@, 128);
        lemma_small_mod(divisor@[0] as nat, pow2(128));
        lemma_pow2_pos(k);
    }
@hint before 0 {letbits:usize=16;
    let ghost o = dividend@;
    let ghost hi = rem as nat;
    proof {
        assert(val(o) == (n * pow2((p - k - 1) as nat)) % pow2(m));
        short_begin(o, hi, dv);
    }
@loop 0
    invariant bits == 16, vx_i0 <= len, len == o.len(), len == dividend@.len(), divisor as nat == dv, dv > 0, dv < pow2(8), dv < pow2(16), pow2(16) == 0x1_0000, (rem as nat) < dv, short_inv(o, dividend@, hi, dv, rem as nat, vx_i0 as int)
    decreases vx_i0
@loop 1
    invariant bits == 16, vx_e1 == 0, vx_i1 <= 8, vx_i0 < len, len == o.len(), len == dividend@.len(), divisor as nat == dv, dv > 0, dv < pow2(8), dv < pow2(16), pow2(16) == 0x1_0000, x == dividend@[vx_i0 as int], rem < dv, 
        dividend@ == t0, short_inv(o, t0, hi, dv, r0, vx_i0 + 1),
        short_at(x as nat, r as nat, rem as nat, r0, dv, 16, vx_i1 as nat)
    decreases vx_i1
@hint before 0 letmutr=0
    let ghost r0 = rem as nat;
    let ghost x = dividend@[vx_i0 as int];
    let ghost t0 = dividend@;
    proof { short_start(x, r0, dv, 16, 8); }
@hint loopstart 1
    proof {
        short_step(x, r, rem as u128, r0, divisor as u128, 16, (vx_i1 - 1) as u128);
        let chunk = (x >> (16u128 * (vx_i1 - 1)) as u128) & (((1u128 << 16u128) - 1) as u128);
        join16(rem, chunk as u16);
    }
@hint after 0 dividend[vx_i0]=r
    proof {
        p128();
        short_end(x as nat, r as nat, rem as nat, r0, dv, 16);
        short_limb(o, t0, hi, dv, r0, vx_i0 + 1, x, r, rem as nat);
        assert(dividend@ =~= t0.update(vx_i0 as int, r));
    }
@hint before 1 return
    proof {
        p128();
        short_finish(o, dividend@, hi, dv, rem as nat);
        shl_nowrap(rem as u128, 1);
        div_short(n, d, p, k, val(dividend@), rem as nat);
    }
@hint after 0 letdivisor:&[Limb]=
    proof { val1(dividend@); val1(divisor@); }
@hint before 1 letdivisor=divisor[0]
    let ghost dv = d / pow2(k);
    proof {
        short_setup(s1, d, n, p, k, s1.last());
        pow2_le((p - k) as nat, 16);
        pow2_lt(16, 128);
        pow2_lt(16, 32);
        lemma_small_mod(dv, pow2(128));
        low_limb(divisor@, 128);
        lemma_small_mod(divisor@[0] as nat, pow2(128));
        lemma_pow2_pos(k);
    }
@hint before 0 {letbits:usize=32;
    let ghost o = dividend@;
    let ghost hi = rem as nat;
    proof {
        assert(val(o) == (n * pow2((p - k - 1) as nat)) % pow2(m));
        short_begin(o, hi, dv);
    }
@loop 2
    invariant bits == 32, vx_i2 <= len, len == o.len(), len == dividend@.len(), divisor as nat == dv, dv > 0, dv < pow2(16), dv < pow2(32), pow2(32) == 0x1_00000000, (rem as nat) < dv, short_inv(o, dividend@, hi, dv, rem as nat, vx_i2 as int)
    decreases vx_i2
@loop 3
    invariant bits == 32, vx_e3 == 0, vx_i3 <= 4, vx_i2 < len, len == o.len(), len == dividend@.len(), divisor as nat == dv, dv > 0, dv < pow2(16), dv < pow2(32), pow2(32) == 0x1_00000000, x == dividend@[vx_i2 as int], rem < dv, 
        dividend@ == t0, short_inv(o, t0, hi, dv, r0, vx_i2 + 1),
        short_at(x as nat, r as nat, rem as nat, r0, dv, 32, vx_i3 as nat)
    decreases vx_i3
@hint before 1 letmutr=0
    let ghost r0 = rem as nat;
    let ghost x = dividend@[vx_i2 as int];
    let ghost t0 = dividend@;
    proof { short_start(x, r0, dv, 32, 4); }
@hint loopstart 3
    proof {
        short_step(x, r, rem as u128, r0, divisor as u128, 32, (vx_i3 - 1) as u128);
        let chunk = (x >> (32u128 * (vx_i3 - 1)) as u128) & (((1u128 << 32u128) - 1) as u128);
        join32(rem, chunk as u32);
    }
@hint after 0 dividend[vx_i2]=r
    proof {
        p128();
        short_end(x as nat, r as nat, rem as nat, r0, dv, 32);
        short_limb(o, t0, hi, dv, r0, vx_i2 + 1, x, r, rem as nat);
        assert(dividend@ =~= t0.update(vx_i2 as int, r));
    }
@hint before 2 return
    proof {
        p128();
        short_finish(o, dividend@, hi, dv, rem as nat);
        shl_nowrap(rem as u128, 1);
        div_short(n, d, p, k, val(dividend@), rem as nat);
    }
@hint after 1 letdivisor:&[Limb]=
    proof { val1(dividend@); val1(divisor@); }
@hint before 2 letdivisor=divisor[0]
    let ghost dv = d / pow2(k);
    proof {
        short_setup(s1, d, n, p, k, s1.last());
        pow2_le((p - k) as nat, 32);
        pow2_lt(32, 128);
        pow2_lt(32, 64);
        lemma_small_mod(dv, pow2(128));
        low_limb(divisor@, 128);
        lemma_small_mod(divisor@[0] as nat, pow2(128));
        lemma_pow2_pos(k);
    }
@hint before 0 {letbits:usize=64;
    let ghost o = dividend@;
    let ghost hi = rem as nat;
    proof {
        assert(val(o) == (n * pow2((p - k - 1) as nat)) % pow2(m));
        short_begin(o, hi, dv);
    }
@loop 4
    invariant bits == 64, vx_i4 <= len, len == o.len(), len == dividend@.len(), divisor as nat == dv, dv > 0, dv < pow2(32), dv < pow2(64), pow2(64) == 0x1_0000000000000000, (rem as nat) < dv, short_inv(o, dividend@, hi, dv, rem as nat, vx_i4 as int)
    decreases vx_i4
@loop 5
    invariant bits == 64, vx_e5 == 0, vx_i5 <= 2, vx_i4 < len, len == o.len(), len == dividend@.len(), divisor as nat == dv, dv > 0, dv < pow2(32), dv < pow2(64), pow2(64) == 0x1_0000000000000000, x == dividend@[vx_i4 as int], rem < dv, 
        dividend@ == t0, short_inv(o, t0, hi, dv, r0, vx_i4 + 1),
        short_at(x as nat, r as nat, rem as nat, r0, dv, 64, vx_i5 as nat)
    decreases vx_i5
@hint before 2 letmutr=0
    let ghost r0 = rem as nat;
    let ghost x = dividend@[vx_i4 as int];
    let ghost t0 = dividend@;
    proof { short_start(x, r0, dv, 64, 2); }
@hint loopstart 5
    proof {
        short_step(x, r, rem as u128, r0, divisor as u128, 64, (vx_i5 - 1) as u128);
        let chunk = (x >> (64u128 * (vx_i5 - 1)) as u128) & (((1u128 << 64u128) - 1) as u128);
        join64(rem, chunk as u64);
    }
@hint after 0 dividend[vx_i4]=r
    proof {
        p128();
        short_end(x as nat, r as nat, rem as nat, r0, dv, 64);
        short_limb(o, t0, hi, dv, r0, vx_i4 + 1, x, r, rem as nat);
        assert(dividend@ =~= t0.update(vx_i4 as int, r));
    }
@hint before 3 return
    proof {
        p128();
        short_finish(o, dividend@, hi, dv, rem as nat);
        shl_nowrap(rem as u128, 1);
        div_short(n, d, p, k, val(dividend@), rem as nat);
    }
@hint after 2 letdivisor:&[Limb]=
    proof { val1(dividend@); val1(divisor@); }
@loop 6
    invariant vx_e6 == quotient.len(), vx_i6 <= vx_e6, forall|j: int| 0 <= j < vx_i6 ==> quotient@[j] == 0
    decreases vx_e6 - vx_i6
@hint before 0 letvx_e7
    proof {
        val_zero(quotient@);
        lemma_small_mod(0, pow2(p));
        lemma_pow2_pos(p);
        assert(0nat % pow2(p) == 0 && 0nat / pow2(p) == 0) by { lemma_basic_div(0, pow2(p) as int); };
        assert((p - p) as nat == 0);
        assert(n * 1 == 2 * d * 0 + n) by (nonlinear_arith);
    }
@loop 7
    invariant vx_e7 == 0, vx_i7 <= precision, p == precision, len == dividend@.len(), len == divisor@.len(), len == quotient@.len(), m == 128 * len, p < m, len > 0, len <= 0x20_0000, precision <= 0x1000_0000,
        val(divisor@) == d, d > 0, 2 * d < pow2(m), long_inv(n, d, val(quotient@), val(dividend@), p, vx_i7 as nat)
    decreases vx_i7
@hint loopstart 7
    proof {
        long_step(n, d, val(quotient@), val(dividend@), p, vx_i7 as nat);
        p128();
    }
@hint before 0 {letvx_a6
    proof { div_long(n, d, p, val(quotient@), val(dividend@)); val_zero(dividend@); }
