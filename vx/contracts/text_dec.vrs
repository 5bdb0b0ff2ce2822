@module dec dscan
@raw
// ---- the digits as limbs -----------------------------------------------------------------------------

/// no zero limbs at the top
pub open spec fn tight(v: Seq<u128>) -> bool { v.len() > 0 && val(v) >= pow2((128 * (v.len() - 1)) as nat) }

pub proof fn tight_len(v: Seq<u128>, b: nat)
    requires tight(v), val(v) <= pow2(b)
    ensures 128 * v.len() <= b + 128, val(v) > 0, blen(val(v)) <= b + 1
{
    let n = (128 * (v.len() - 1)) as nat;
    lemma_pow2_pos(n);
    if n > b { pow2_lt(b, n); }
    pow2_lt(b, b + 1);
    blen_le(val(v), b + 1);
}

pub proof fn tight_last(v: Seq<u128>)
    requires v.len() > 0, v[v.len() - 1] != 0
    ensures tight(v)
{
    val_take(v, v.len() - 1);
    val_take_all(v);
    let (x, p) = (v[v.len() - 1] as int, pow2((128 * (v.len() - 1)) as nat) as int);
    lemma_pow2_pos((128 * (v.len() - 1)) as nat);
    assert(x * p >= p) by (nonlinear_arith) requires x >= 1, p > 0;
}

pub proof fn pop_zero(v: Seq<u128>)
    requires v.len() > 0, v[v.len() - 1] == 0
    ensures val(v.drop_last()) == val(v)
{
    assert(v.drop_last() =~= v.take(v.len() - 1));
    val_high_zero(v, v.len() - 1);
}

/// one limb of the product by a small number
pub proof fn mul_limb(o: Seq<u128>, v: Seq<u128>, i: int, m: u128, c0: u128, c: u128, lo: u128, hi: u128, low: u128, c1: u128)
    requires 0 <= i < o.len(), v.len() == o.len(), v[i] == o[i],
        val(v.take(i)) + c as nat * pow2((128 * i) as nat) == val(o.take(i)) * m as nat + c0 as nat,
        lo + hi * pow2(128) == o[i] * m,
        low == (if lo + c > u128::MAX { lo + c - pow2(128) } else { lo + c }), c1 == hi + (if lo + c > u128::MAX { 1int } else { 0 }),
    ensures val(v.update(i, low).take(i + 1)) + c1 as nat * pow2((128 * (i + 1)) as nat) == val(o.take(i + 1)) * m as nat + c0 as nat
{
    take_update(v, i, low);
    val_take(o, i);
    p128();
    let (w, x) = (pow2(128) as int, pow2((128 * i) as nat) as int);
    let (mi, oi, ci, lowi, c1i) = (m as int, o[i] as int, c as int, low as int, c1 as int);
    let (a, b) = (val(v.take(i)) as int, val(o.take(i)) as int);
    assert(lowi + c1i * w == oi * mi + ci) by (nonlinear_arith) requires lo + hi * w == oi * mi, lowi == (if lo + ci >= w { lo + ci - w } else { lo + ci }), c1i == hi + (if lo + ci >= w { 1int } else { 0 }), w == pow2(128);
    assert(lowi * x + c1i * (w * x) == (oi * mi + ci) * x) by (nonlinear_arith) requires lowi + c1i * w == oi * mi + ci;
    assert((oi * mi + ci) * x == (oi * x) * mi + ci * x) by (nonlinear_arith);
    assert((b + oi * x) * mi == b * mi + (oi * x) * mi) by (nonlinear_arith);
}

/// and its carry fits
pub proof fn mul_room(a: u128, m: u128, lo: u128, hi: u128, c: u128)
    requires lo + hi * pow2(128) == a * m
    ensures hi + (if lo + c > u128::MAX { 1int } else { 0 }) <= u128::MAX
{
    p128();
    let (ai, mi, w) = (a as int, m as int, pow2(128) as int);
    assert(ai * mi <= (w - 1) * (w - 1)) by (nonlinear_arith) requires 0 <= ai <= w - 1, 0 <= mi <= w - 1;
    assert((w - 1) * (w - 1) == (w - 2) * w + 1) by (nonlinear_arith);
    let h = hi as int;
    if h >= w - 1 { assert(h * w >= (w - 1) * w) by (nonlinear_arith) requires h >= w - 1, w > 0; assert((w - 1) * w == (w - 2) * w + w) by (nonlinear_arith); }
}

pub proof fn push_val(v: Seq<u128>, c: u128)
    ensures val(v.push(c)) == val(v) + c as nat * pow2((128 * v.len()) as nat)
{
    let w = v.push(c);
    val_take(w, v.len() as int);
    val_take_all(w);
    assert(w.take(v.len() as int) =~= v);
}

/// after the chunk
pub proof fn chunk_done(o: Seq<u128>, v: Seq<u128>, m: u128, c: u128, v0: u128)
    requires v.len() == o.len(), m > 0, val(v) + c as nat * pow2((128 * v.len()) as nat) == val(o) * m as nat + v0 as nat, o.len() == 0 || tight(o)
    ensures ({ let w = if c > 0 { v.push(c) } else { v }; val(w) == val(o) * m as nat + v0 as nat && (w.len() == 0 || tight(w)) })
{
    push_val(v, c);
    if c > 0 { tight_last(v.push(c)); } else {
        assert(0 * pow2((128 * v.len()) as nat) == 0);
        let (a, mi) = (val(o) as int, m as int);
        assert(a * mi >= a) by (nonlinear_arith) requires a >= 0, mi >= 1;
    }
}

pub proof fn digits_bound(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures digits(t, 10, i) < ten(i as nat)
    decreases i
{
    p10_small();
    if i > 0 { digits_bound(t, i - 1); p10_add((i - 1) as nat, 1); }
}

// ---- powers of five ----------------------------------------------------------------------------------

pub proof fn p5_eight()
    ensures five(0) == 1, five(1) == 5, five(2) == 25, five(3) == 125, five(4) == 625, five(5) == 3125, five(6) == 15625, five(7) == 78125
{
    p10_small();
    p5_add(1, 1); p5_add(2, 1); p5_add(3, 1); p5_add(4, 1); p5_add(5, 1); p5_add(6, 1);
}

pub proof fn power_bits(p: usize)
    ensures p & 7 == p % 8, p >> 3 == p / 8, p & 1 == p % 2, p >> 1 == p / 2
{
    assert(p & 7 == p % 8 && p >> 3 == p / 8 && p & 1 == p % 2 && p >> 1 == p / 2) by (bit_vector);
}

/// the product fits
pub proof fn full_mul(a: Seq<u128>, b: Seq<u128>)
    ensures blen(val(a) * val(b)) <= (a.len() + b.len()) * 128, val(a) * val(b) / pow2(0) == val(a) * val(b)
{
    val_bound(a);
    val_bound(b);
    p128();
    let (x, y) = ((128 * a.len()) as nat, (128 * b.len()) as nat);
    pow2_add(x, y);
    let (p, q, u, v) = (val(a) as int, val(b) as int, pow2(x) as int, pow2(y) as int);
    assert(p * q < u * v) by (nonlinear_arith) requires 0 <= p < u, 0 <= q < v;
    assert(p * q >= 0) by (nonlinear_arith) requires 0 <= p, 0 <= q;
    blen_le(val(a) * val(b), x + y);
    assert(p * q / 1 == p * q);
}

// ---- one attempt -------------------------------------------------------------------------------------

pub proof fn pr_shl(a: i32)
    requires 0 <= a <= 20
    ensures (128usize << a) == 128 * pow2(a as nat), (128usize << a) <= 0x800_0000, (128usize << a) % 128 == 0, (128usize << a) >= 128,
        a > 0 ==> (128usize << a) == 2 * (128usize << ((a - 1) as i32)), a == 20 ==> (128usize << a) == 0x800_0000
    decreases a
{
    p128();
    let b = a as usize;
    assert((128usize << a) == (128usize << b));
    assert(b <= 20 ==> (128usize << b) <= 0x800_0000 && (128usize << b) % 128 == 0 && (128usize << b) >= 128) by (bit_vector);
    if a > 0 {
        pr_shl((a - 1) as i32);
        let c = (a - 1) as usize;
        assert((128usize << ((a - 1) as i32)) == (128usize << c));
        assert(b <= 20 && b > 0 && c == b - 1 ==> (128usize << b) == 2 * (128usize << c)) by (bit_vector);
        assert(b == 20 ==> (128usize << b) == 0x800_0000) by (bit_vector);
        pow2_half(a as nat);
    } else {
        assert(b == 0 ==> (128usize << b) == 128) by (bit_vector);
    }
}

pub proof fn apx_len(n: nat, pr: nat, c: nat, e: int, i: nat)
    requires apxe(n, pr, c, e, i), pr > 0
    ensures pow2((pr - 1) as nat) <= c < pow2(pr), blen(c) == pr, c > 0, n > 0, i <= 1
{
    reveal(apx);
    pow2_half(pr);
    lemma_pow2_pos((pr - 1) as nat);
    blen_unique(c, pr);
}

pub proof fn prod_len(c1: nat, c2: nat, pr: nat)
    requires pr > 0, pow2((pr - 1) as nat) <= c1 < pow2(pr), pow2((pr - 1) as nat) <= c2 < pow2(pr)
    ensures ({
        let m = c1 * c2;
        let s = (blen(m) - pr) as nat;
        let c = m / pow2(s);
        &&& 2 * pr - 1 <= blen(m) <= 2 * pr && (blen(m) <= pr ==> s == 0)
        &&& blen(c) == pr && 0 < c && c < pow2(pr) && pow2((pr - 1) as nat) <= c
        &&& m == c * pow2(s) + m % pow2(s) && m % pow2(s) < pow2(s)
        &&& (loss_of(m % pow2(s), pow2(s)) == Loss::ExactlyZero) == (m % pow2(s) == 0)
    })
{
    let h = pow2((pr - 1) as nat);
    pow2_half(pr);
    lemma_pow2_pos((pr - 1) as nat);
    pow2_add((pr - 1) as nat, (pr - 1) as nat);
    pow2_add(pr, pr);
    let m = c1 * c2;
    let (a, b, hi, w) = (c1 as int, c2 as int, h as int, pow2(pr) as int);
    assert(hi * hi <= a * b) by (nonlinear_arith) requires 0 < hi <= a, hi <= b;
    assert(a * b < w * w) by (nonlinear_arith) requires 0 < a < w, 0 < b < w;
    blen_le(m, 2 * pr);
    assert(hi * hi > 0) by (nonlinear_arith) requires hi > 0;
    if blen(m) <= 2 * pr - 2 { blen_bounds(m); pow2_le(blen(m), (2 * pr - 2) as nat); }
    let s = (blen(m) - pr) as nat;
    blen_shr(m, s);
    blen_bounds(m / pow2(s));
    blen0();
    lemma_pow2_pos(s);
    div_mod_id(m as int, pow2(s) as int);
}

pub open spec fn quot_j(c1: nat, c2: nat, pr: nat) -> nat { if c1 < c2 { pr } else { (pr - 1) as nat } }

pub proof fn quot_len(c1: nat, c2: nat, pr: nat, c: nat, l: Loss)
    requires pr > 0, pow2((pr - 1) as nat) <= c1 < pow2(pr), pow2((pr - 1) as nat) <= c2 < pow2(pr), blen(c1) == pr, blen(c2) == pr,
        div_res(div_n(c1, c2, pr), div_d(c2, pr), pr, c, l)
    ensures ({
        let m = c1 * pow2(quot_j(c1, c2, pr));
        &&& div_bd(c2, pr) == 0 && div_bn(c1, c2, pr) == (if c1 < c2 { 1nat } else { 0 })
        &&& blen(c) == pr && 0 < c && c < pow2(pr) && pow2((pr - 1) as nat) <= c
        &&& m == c * c2 + m % c2 && m % c2 < c2
        &&& (l == Loss::ExactlyZero) == (m % c2 == 0)
    })
{
    reveal(div_res);
    p128();
    assert(c1 * pow2(0) == c1 && c2 * pow2(0) == c2) by (nonlinear_arith) requires pow2(0) == 1;
    let m = c1 * pow2(quot_j(c1, c2, pr));
    let h = pow2((pr - 1) as nat);
    pow2_half(pr);
    pow2_half(1);
    lemma_pow2_pos((pr - 1) as nat);
    pow2_add(1, (pr - 1) as nat);
    let (a, b, hi) = (c1 as int, c2 as int, h as int);
    assert((a * 1) * hi == a * hi);
    assert((a * 2) * hi == a * (2 * hi)) by (nonlinear_arith);
    div_mod_id(m as int, b);
    if c1 < c2 {
        assert(a * (2 * hi) < b * (2 * hi)) by (nonlinear_arith) requires a < b, hi > 0;
        assert(a * (2 * hi) >= b * hi) by (nonlinear_arith) requires a >= hi, b < 2 * hi, hi > 0;
    } else {
        assert(a * hi < b * (2 * hi)) by (nonlinear_arith) requires a < 2 * hi, b >= hi, hi > 0;
        assert(a * hi >= b * hi) by (nonlinear_arith) requires a >= b, hi > 0;
    }
    lemma_mul_is_commutative(b, hi);
    lemma_mul_is_commutative(b, 2 * hi);
    div_ge(m as int, b, hi);
    div_lt(m as int, b, 2 * hi);
    blen_unique(c, pr);
}

/// with enough digits a product is exact
pub proof fn mul_exact(d: nat, fv: nat, c1: nat, c2: nat, pr: nat, s: nat)
    requires d > 0, fv > 0, blen(d) + blen(fv) <= pr, c1 == d * pow2((pr - blen(d)) as nat), c2 == fv * pow2((pr - blen(fv)) as nat), s <= pr
    ensures (c1 * c2) % pow2(s) == 0
{
    let (x, y) = ((pr - blen(d)) as nat, (pr - blen(fv)) as nat);
    let r = (x + y - s) as nat;
    pow2_add(x, y);
    pow2_add(r, s);
    let (a, b, u, v) = (d as int, fv as int, pow2(x) as int, pow2(y) as int);
    assert((a * u) * (b * v) == (a * b) * (u * v)) by (nonlinear_arith);
    let q = (a * b) * pow2(r);
    assert((a * b) * (pow2(r) * pow2(s)) == q * pow2(s)) by { lemma_mul_is_associative(a * b, pow2(r) as int, pow2(s) as int); }
    lemma_pow2_pos(s);
    div_exact(q, pow2(s) as int);
}

/// with enough digits a quotient that is not exact is far from the boundary
pub proof fn quot_far(d: nat, fv: nat, c1: nat, c2: nat, pr: nat, c: nat, rho: nat, bb: nat)
    requires d > 0, fv > 0, c1 == d * pow2((pr - blen(d)) as nat), c2 == fv * pow2((pr - blen(fv)) as nat), blen(d) + blen(fv) + 140 <= bb, bb < pr,
        c1 * pow2(quot_j(c1, c2, pr)) == c * c2 + rho, 0 < rho < c2
    ensures pow2(128) < c % pow2(bb), pow2(128) < pow2(bb) - c % pow2(bb)
{
    let (x1, x2) = ((pr - blen(d)) as nat, (pr - blen(fv)) as nat);
    let g = c / pow2(bb);
    let m = (blen(fv) + 129) as nat;
    blen_bounds(fv);
    lemma_pow2_pos(bb);
    div_mod_id(c as int, pow2(bb) as int);
    div_far(d, fv, x1, x2, quot_j(c1, c2, pr), bb, blen(fv), m, c, rho, g);
    div_far(d, fv, x1, x2, quot_j(c1, c2, pr), bb, blen(fv), m, c, rho, g + 1);
    lemma_mul_is_distributive_add_other_way(pow2(bb) as int, g as int, 1);
}

// ---- distance from the boundary ----------------------------------------------------------------------

pub open spec fn all_ones(s: Seq<u128>) -> bool { forall|j: int| 0 <= j < s.len() ==> s[j] == u128::MAX }

pub proof fn val_ones(s: Seq<u128>)
    ensures val(s) < pow2((128 * s.len()) as nat), all_ones(s) <==> val(s) == pow2((128 * s.len()) as nat) - 1
    decreases s.len()
{
    val_bound(s);
    p128();
    if s.len() > 0 {
        let n = s.len() - 1;
        let t = s.drop_last();
        assert(t =~= s.take(n));
        val_ones(t);
        val_take(s, n);
        val_take_all(s);
        pow2_add(128, (128 * n) as nat);
        let (x, p, w) = (s[n] as int, pow2((128 * n) as nat) as int, pow2(128) as int);
        assert((128 * s.len()) as nat == 128 + (128 * n) as nat);
        if x < w - 1 {
            assert(x * p <= (w - 2) * p) by (nonlinear_arith) requires x <= w - 2, p > 0;
            assert((w - 2) * p == w * p - 2 * p) by (nonlinear_arith);
            assert(!all_ones(s));
        } else {
            assert(x * p == w * p - p) by (nonlinear_arith) requires x == w - 1;
            if all_ones(t) { assert forall|j: int| 0 <= j < s.len() implies s[j] == u128::MAX by { if j < n { assert(t[j] == s[j]); } } }
            if all_ones(s) { assert forall|j: int| 0 <= j < t.len() implies t[j] == u128::MAX by { assert(t[j] == s[j]); } }
        }
    }
}

pub proof fn ulps_facts(sc: Seq<u128>, bb: nat, i: int, sh: u128, mask: u128, limb: u128)
    requires i == bb / 128, i < sc.len(), sh == bb % 128, mask == (1u128 << sh) - 1, limb == sc[i] & mask, i > 0 ==> sh >= 13
    ensures ({
        let (r, w) = (val(sc) % pow2(bb), pow2(bb));
        let mid = sc.subrange(1, i);
        &&& limb <= mask && mask < u128::MAX && r < w
        &&& i == 0 ==> r == limb && w == mask + 1 && w <= pow2(127)
        &&& i > 0 && limb == 0 && all_zero(mid) ==> sc[0] <= r && sc[0] <= w - r && r < pow2(128)
        &&& i > 0 && limb == mask && all_ones(mid) ==> w - r == pow2(128) - sc[0] && pow2(128) - sc[0] <= r
        &&& i > 0 && !(limb == 0 && all_zero(mid)) && !(limb == mask && all_ones(mid)) ==> pow2(128) <= r && pow2(128) <= w - r
    })
{
    p128();
    one_shl(sh);
    mask_mod(sc[i], sh);
    val_mod(sc, i, sh as nat);
    lemma_pow2_pos(sh as nat);
    assert(128 * i + sh as nat == bb);
    lemma_pow2_pos(bb);
    lemma_mod_bound(val(sc) as int, pow2(bb) as int);
    assert(limb as nat == sc[i] as nat % pow2(sh as nat));
    lemma_mod_bound(sc[i] as int, pow2(sh as nat) as int);
    pow2_le(sh as nat, 127);
    pow2_lt(127, 128);
    let (l, m, x) = (limb as int, mask as int, pow2((128 * i) as nat) as int);
    lemma_pow2_pos((128 * i) as nat);
    let r = (val(sc) % pow2(bb)) as int;
    if i == 0 {
        val_take_all(sc);
        assert(x == 1);
        lemma_mul_basics(l);
        lemma_mul_basics(m + 1);
    } else {
        let mid = sc.subrange(1, i);
        let t = sc.take(i);
        val_split(t, 1);
        assert(t.skip(1) =~= mid);
        assert(t.take(1) =~= seq![sc[0]]);
        val1(seq![sc[0]]);
        val_zero(mid);
        val_ones(mid);
        pow2_add(128, (128 * (i - 1)) as nat);
        assert((128 * i) as nat == 128 + (128 * (i - 1)) as nat);
        let (y, v, w) = (pow2((128 * (i - 1)) as nat) as int, val(mid) as int, pow2(128) as int);
        lemma_pow2_pos((128 * (i - 1)) as nat);
        let vt = val(t) as int;
        assert(vt == sc[0] as int + w * v);
        assert(r == l * x + vt);
        pow2_le(13, sh as nat);
        lemma2_to64();
        let ww = pow2(bb) as int;
        assert(ww == (m + 1) * x);
        assert(ww == m * x + x) by (nonlinear_arith) requires ww == (m + 1) * x;
        assert(x >= w) by (nonlinear_arith) requires x == w * y, y >= 1, w > 0;
        assert(m >= 8191);
        assert(m * x >= 8191 * x) by (nonlinear_arith) requires m >= 8191, x > 0;
        if l == 0 { assert(l * x == 0) by (nonlinear_arith) requires l == 0; }
        if l >= 1 { assert(l * x >= x) by (nonlinear_arith) requires l >= 1, x > 0; }
        if l < m { assert(l * x <= m * x - x) by (nonlinear_arith) requires l <= m - 1, x > 0; }
        if v == 0 { assert(w * v == 0) by (nonlinear_arith) requires v == 0; }
        if v >= 1 { assert(w * v >= w) by (nonlinear_arith) requires v >= 1, w > 0; }
        assert(w * (y - 1) == x - w) by (nonlinear_arith) requires x == w * y;
        if v < y - 1 { assert(w * v <= x - 2 * w) by (nonlinear_arith) requires v <= y - 2, x == w * y, w > 0; }
    }
}

pub proof fn norm_zero_exp(f: Fm, e1: int, e2: int, l: Loss, rm: Round)
    ensures norm(f, false, 0, e1, l, rm) == norm(f, false, 0, e2, l, rm)
{ reveal(norm); }

/// one attempt with a product
pub proof fn mul_step(dd: nat, c1: nat, e1: int, i1: nat, ff: nat, c2: nat, e2: int, i2: nat, pr: nat, de: int, c: nat, x: int, l: Loss)
    requires pr > 2, apxe(dd, pr, c1, e1, i1), apxe(ff, pr, c2, e2, i2),
        ({ let m = c1 * c2; let s = if blen(m) <= pr { 0 } else { (blen(m) - pr) as nat }; c == m / pow2(s) && x == e1 + e2 + de + 1 - pr + s && l == loss_of(m % pow2(s), pow2(s)) })
    ensures approx(dd * ff, 1, de, pr, c, x, k_mul(i1, i2, l != Loss::ExactlyZero)), pow2((pr - 1) as nat) <= c < pow2(pr), blen(c) == pr, c > 0, dd * ff > 0,
        c1 == dd * pow2((pr - blen(dd)) as nat) && c2 == ff * pow2((pr - blen(ff)) as nat) && blen(dd) + blen(ff) <= pr ==> l == Loss::ExactlyZero
{
    apx_len(dd, pr, c1, e1, i1);
    apx_len(ff, pr, c2, e2, i2);
    prod_len(c1, c2, pr);
    let m = c1 * c2;
    let s = (blen(m) - pr) as nat;
    let rho = m % pow2(s);
    lemma_pow2_pos(s);
    lemma_mod_bound(m as int, pow2(s) as int);
    assert((l != Loss::ExactlyZero) == (rho > 0));
    dec_mul(dd, c1, e1, i1, ff, c2, e2, i2, pr, c, rho, s, de);
    assert(approx(dd * ff, 1, de, pr, c, x, k_mul(i1, i2, l != Loss::ExactlyZero)));
    if c1 == dd * pow2((pr - blen(dd)) as nat) && c2 == ff * pow2((pr - blen(ff)) as nat) && blen(dd) + blen(ff) <= pr { mul_exact(dd, ff, c1, c2, pr, s); }
}

/// one attempt with a quotient
pub proof fn div_step(dd: nat, c1: nat, e1: int, i1: nat, ff: nat, c2: nat, e2: int, i2: nat, pr: nat, de: int, c: nat, x: int, l: Loss)
    requires pr > 2, apxe(dd, pr, c1, e1, i1), apxe(ff, pr, c2, e2, i2),
        div_res(div_n(c1, c2, pr), div_d(c2, pr), pr, c, l), x == e1 + de - e2 + div_bd(c2, pr) - div_bn(c1, c2, pr)
    ensures approx(dd, ff, de, pr, c, x, k_div(i1, i2, l != Loss::ExactlyZero)), pow2((pr - 1) as nat) <= c < pow2(pr), blen(c) == pr, c > 0, dd > 0, ff > 0,
        c1 == dd * pow2((pr - blen(dd)) as nat) && c2 == ff * pow2((pr - blen(ff)) as nat) && l != Loss::ExactlyZero
            ==> forall|bb: nat| blen(dd) + blen(ff) + 140 <= bb < pr ==> pow2(128) < c % #[trigger] pow2(bb) && pow2(128) < pow2(bb) - c % pow2(bb),
        x >= e1 + de - e2 - 1, x <= e1 + de - e2
{
    apx_len(dd, pr, c1, e1, i1);
    apx_len(ff, pr, c2, e2, i2);
    quot_len(c1, c2, pr, c, l);
    let rho = (c1 * pow2(quot_j(c1, c2, pr))) % c2;
    dec_div(dd, c1, e1, i1, ff, c2, e2, i2, pr, c, rho, de);
    if c1 == dd * pow2((pr - blen(dd)) as nat) && c2 == ff * pow2((pr - blen(ff)) as nat) && l != Loss::ExactlyZero {
        assert forall|bb: nat| blen(dd) + blen(ff) + 140 <= bb < pr implies pow2(128) < c % #[trigger] pow2(bb) && pow2(128) < pow2(bb) - c % pow2(bb) by {
            quot_far(dd, ff, c1, c2, pr, c, rho, bb);
        }
    }
}

/// the number of units in the last place to the nearest boundary, as the code computes it
pub proof fn ulps_sum(sc: Seq<u128>, bb: nat, i: int, sh: u128, mask: u128, limb: u128, ul: u128)
    requires i == bb / 128, i < sc.len(), sh == bb % 128, mask == (1u128 << sh) - 1, limb == sc[i] & mask, i > 0 ==> sh >= 13,
        i == 0 ==> ul == (if mask - limb + 1 < limb { mask - limb + 1 } else { limb as int }),
        i > 0 && limb == 0 && all_zero(sc.subrange(1, i)) ==> ul == sc[0],
        i > 0 && !(limb == 0 && all_zero(sc.subrange(1, i))) && limb == mask && all_ones(sc.subrange(1, i)) ==> ul == (if sc[0] == 0 { 0 } else { u128::MAX - sc[0] + 1 }),
        i > 0 && !(limb == 0 && all_zero(sc.subrange(1, i))) && !(limb == mask && all_ones(sc.subrange(1, i))) ==> ul == u128::MAX,
    ensures ({
        let (r, w) = (val(sc) % pow2(bb), pow2(bb));
        &&& ul <= r && ul <= w - r
        &&& pow2(128) < r && pow2(128) < w - r ==> ul >= 3
    })
{
    ulps_facts(sc, bb, i, sh, mask, limb);
    p128();
    if i == 0 { pow2_lt(127, 128); }
}

/// what the last step of an accepted attempt hands to normalize
pub proof fn last_step(f: Fm, c: nat, pr: nat, ub: nat, tt: nat, x: int, y: int, re: int, m: nat, rm: Round)
    requires wff(f), c > 0, blen(c) == pr, ub <= f.p, f.p < pr, y == x - (pr - 1) + tt,
        ub > 0 ==> tt + ub == pr, ub == 0 ==> tt >= pr, ub == f.p || y == qmin(f),
        ub > 0 ==> m == (c / pow2(tt)) % pow2(ub), ub == 0 ==> m == 0, re == x + (f.p - ub)
    ensures norm(f, false, c / pow2(tt), y, loss_of(c % pow2(tt), pow2(tt)), rm) == norm(f, false, m, re - (f.p - 1), loss_of(c % pow2(tt), pow2(tt)), rm),
        m > 0 ==> unit(f, blen(m) - 1 + re - (f.p - 1)) >= re - (f.p - 1)
{
    blen_shr(c, tt);
    blen_bounds(c);
    blen0();
    lemma_pow2_pos(tt);
    if ub > 0 {
        let h = c / pow2(tt);
        assert(blen(h) == ub);
        blen_bounds(h);
        lemma_small_mod(h, pow2(ub));
        assert(m == h);
        assert(re - (f.p - 1) == y);
    } else {
        pow2_le(pr, tt);
        lemma_basic_div(c as int, pow2(tt) as int);
        p128();
        norm_zero_exp(f, y, re - (f.p - 1), loss_of(c % pow2(tt), pow2(tt)), rm);
    }
}

@fn IeeeFloat::from_decimal_string rlimit(300)
    requires wfs::<S>(), s@.len() <= 0x80_0000
    ensures r is Ok == dec_ok(s@), r is Ok ==> wf(r->Ok_0.value),
        r is Ok ==> out(r->Ok_0) == dec_out(fm::<S>(), false, s@, round)
@hint start
    let ghost f = fm::<S>();
    let ghost q = s@;
    proof {
        wfs_basic::<S>();
        ds_start(q);
        if q.len() == 0 { ds_end(q, Ds { any: false, dot: off(q, q.len() as int) as int, first: None, last: 0 }); }
    }
@loop 0
    invariant_except_break
        dec_exp == 0,
        dstate(q, vx_i0 as int, Ds { any: any_digits, dot: dot as int, first: first_sig_digit, last: last_sig_digit as int }),
        vx_i0 == q.len() ==> (any_digits ==> ddone(q, Ds { any: any_digits, dot: dot as int, first: first_sig_digit, last: last_sig_digit as int }, 0)) && (!any_digits ==> !dec_ok(q)),
    invariant vx_i0 <= q.len(), s@ == q, f == fm::<S>(),
    ensures
        any_digits ==> ddone(q, Ds { any: any_digits, dot: dot as int, first: first_sig_digit, last: last_sig_digit as int }, dec_exp as int),
        !any_digits ==> !dec_ok(q),
    decreases q.len() - vx_i0
@hint loopstart 0
    let ghost i0 = vx_i0 as int;
    let ghost h0 = Ds { any: any_digits, dot: dot as int, first: first_sig_digit, last: last_sig_digit as int };
    let ghost k0 = sig_end(q, 10, 0);
    proof {
        ds_bounds(q, i0, h0);
        if q[i0] == '.' { ds_dot(q, i0, h0); }
        else if !is_dec(q[i0]) { ds_other(q, i0, h0); }
    }
@hint loopend 0
    proof {
        let h1 = Ds { any: any_digits, dot: dot as int, first: first_sig_digit, last: last_sig_digit as int };
        if is_dec(q[i0]) {
            assert(off(q, i0) == p);
            ds_digit(q, i0, h0, dval(q[i0], 10)->0, first_sig_digit, last_sig_digit as int);
        }
        assert(dstate(q, i0 + 1, h1));
        if i0 + 1 == q.len() { ds_end(q, h1); }
    }
@hint before 0 letmutvx_c0=chars;
    let ghost t = after(q, i0);
    proof {
        assert(i0 == k0);
        assert(off(q, i0 + 1) == p + 1);
        assert(chars.s@ == t);
        assert(chars.i == exp_at(t));
    }
@loop 1
    invariant vx_c0.ok(), vx_c0.s@ == t, exp_at(t) <= vx_c0.i, exp_digits(t, vx_c0.i as int), 0 <= exp_at(t) <= t.len(),
        dec_exp == clamp_exp(exp_abs(t, vx_c0.i as int) as int), dec_exp >= 0, any_exp_digits == (vx_c0.i > exp_at(t)),
        t == after(q, k0), k0 == sig_end(q, 10, 0), s@ == q, k0 < q.len(), q[k0] == 'e' || q[k0] == 'E',
    decreases t.len() - vx_c0.i
@hint loopstart 1
    proof {
        if !is_dec(t[vx_c0.i as int]) { assert(!exp_digits(t, t.len() as int)); }
    }
@hint before 0 break
    proof {
        assert(exp_minus == exp_neg(t));
        assert(ddone(q, Ds { any: any_digits, dot: dot as int, first: first_sig_digit, last: last_sig_digit as int }, dec_exp as int)) by {
            reveal(ddone);
        }
    }
@hint before 0 letfirst_sig_digit=match
    let ghost hh = Ds { any: any_digits, dot: dot as int, first: first_sig_digit, last: last_sig_digit as int };
    let ghost e0 = dec_exp as int;
    let ghost mut dd: nat = 0;
    let ghost mut nd: int = 0;
    let ghost de = clamp32(e0 + sgn_adj(hh, 0));
    proof {
        ds_ok(q, hh, e0);
        if first_sig_digit is None { ds_zero_value(f, q, hh, e0, round); } else {
            let p = first_sig_digit->0 as int;
            let r = ds_found(f, q, hh, e0, p, de, round);
            dd = r.0;
            nd = r.1;
        }
    }
@hint before 0 ifnormalized_exp.saturating_sub
    proof {
        assert(dec_exp == de);
        assert(significand_digits == nd);
        let n = clamp32(de + nd - 1);
        assert(normalized_exp == n);
        if clamp32(clamp32(n - 1) * 42039) >= 12655 * f.hi { ds_over(f, q, dd, nd, de, n, round); }
        else if clamp32(clamp32(n + 1) * 28738) <= 8651 * (f.lo - f.p) { ds_under(f, q, dd, nd, de, n, round); }
        else { ds_in(f, q, dd, nd, de, n, round); }
    }
@hint before 0 letmax_limbs
    let ghost t = q.subrange(first_sig_digit as int, last_sig_digit + 1);
    proof {
        assert(off(q, first_sig_digit as int) == first_sig_digit && off(q, last_sig_digit + 1) == last_sig_digit + 1);
    }
@loop 2
    invariant chars.ok(), chars.s@ == t, t.len() <= 0x80_0000, val(dec_sig@) == digits(t, 10, chars.i as int), dec_sig@.len() == 0 || tight(dec_sig@),
        forall|j: int| 0 <= j < t.len() ==> is_dec(#[trigger] t[j]) || t[j] == '.',
    ensures val(dec_sig@) == digits(t, 10, t.len() as int), dec_sig@.len() == 0 || tight(dec_sig@)
    decreases t.len() - chars.i
@hint loopstart 2
    let ghost i0 = chars.i as int;
    let ghost o = dec_sig@;
    let ghost od = crate::math::val(o);
    proof {
        assert(!0u128 == u128::MAX) by (bit_vector);
    }
@loop 3
    invariant_except_break multiplier <= (u128::MAX - 9) / 10
    invariant chars.ok(), chars.s@ == t, i0 <= chars.i, t.len() <= 0x80_0000, digits(t, 10, chars.i as int) == digits(t, 10, i0) * multiplier as nat + val as nat, val < multiplier,
        !0u128 == u128::MAX,
        forall|j: int| 0 <= j < t.len() ==> is_dec(#[trigger] t[j]) || t[j] == '.',
        multiplier == 1 || chars.i > i0,
    ensures multiplier == 1 ==> chars.i == t.len() && val == 0
    decreases t.len() - chars.i
@hint loopstart 3
    let ghost (i1, m1, v1) = (chars.i as int, multiplier as int, val as int);
    proof { if i1 < t.len() { assert(is_dec(t[i1]) || t[i1] == '.'); } }
@hint before 0 multiplier*=10
    proof {
        let d0 = digits(t, 10, i0) as int;
        assert(digits(t, 10, i1 + 1) == digits(t, 10, i1) * 10 + dec_value as nat);
        assert((d0 * m1 + v1) * 10 == d0 * (m1 * 10) + v1 * 10) by (nonlinear_arith);
    }
@hint before 0 letmutcarry
    proof {
        val_take_all(o);
        p128();
        assert(dec_sig@.take(0) =~= Seq::<u128>::empty() && o.take(0) =~= Seq::<u128>::empty());
        assert(crate::math::val(Seq::<u128>::empty()) == 0);
        assert(0 * multiplier as nat == 0);
        assert(val as nat * 1 == val as nat);
    }
@loop 4
    invariant vx_e4 == dec_sig@.len(), vx_i4 <= vx_e4, o.len() == vx_e4,
        crate::math::val(dec_sig@.take(vx_i4 as int)) + carry as nat * pow2((128 * vx_i4) as nat) == crate::math::val(o.take(vx_i4 as int)) * multiplier as nat + val as nat,
        forall|k: int| vx_i4 <= k < vx_e4 ==> dec_sig@[k] == o[k],
    decreases vx_e4 - vx_i4
@hint loopstart 4
    let ghost (j4, a4, c4) = (vx_i4 as int, dec_sig@, carry);
@hint before 0 high+=overflow
    proof { mul_room(a4[j4], multiplier, vx_arr1@[0], vx_arr1@[1], c4); p128(); }
@hint loopend 4
    proof {
        mul_limb(o, a4, j4, multiplier, val, c4, vx_arr1@[0], vx_arr1@[1], low, carry);
        assert(dec_sig@ =~= a4.update(j4, low));
    }
@hint before 0 ifcarry>0
    proof {
        val_take_all(dec_sig@);
        val_take_all(o);
        chunk_done(o, dec_sig@, multiplier, carry, val);
    }
@hint before 0 letmutp5_scratch
    let ghost n = power as nat;
    let ghost mut w: nat = 4;
    let ghost mut y: nat = n % 8;
    proof {
        p5_eight();
        power_bits(power);
    }
@hint after 0 letmutr:Dyn
    proof {
        let k = power & 7;
        assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7);
        val1(p5@);
        val1(r@);
        p128();
        assert(tight(p5@) && tight(r@));
        assert(val(r@) == five(y));
    }
@loop 5
    invariant n <= 0x81_0000, w >= 4, val(p5@) == five(w), tight(p5@), val(r@) == five(y), tight(r@), y + (2 * w) * power == n
    decreases power
@hint loopstart 5
    let ghost pw = power;
    let ghost a5 = p5@;
    proof {
        power_bits(power);
        assert((2 * w) * power >= 2 * w) by (nonlinear_arith) requires power >= 1;
        p5_size(w);
        p5_size(2 * w);
        p5_size(y);
        tight_len(p5@, 3 * w);
        tight_len(r@, 3 * y);
        full_mul(p5@, p5@);
        p5_add(w, w);
        p10_pos(2 * w);
        assert(w + w == 2 * w);
    }
@loop 6
    invariant val(p5_scratch@) == five(2 * w), five(2 * w) > 0
    decreases p5_scratch@.len()
@hint loopstart 6
    proof { pop_zero(p5_scratch@); assert(p5_scratch@.drop_last() =~= p5_scratch@.subrange(0, p5_scratch@.len() - 1)); }
@hint before 0 mem::swap(&mutp5,
    proof { if p5_scratch@.len() > 0 { tight_last(p5_scratch@); } tight_len(p5_scratch@, 3 * (2 * w)); }
@hint before 0 r_scratch.resize
    proof {
        full_mul(r@, p5@);
        p5_add(y, 2 * w);
        p10_pos(y + 2 * w);
    }
@loop 7
    invariant val(r_scratch@) == five(y + 2 * w), five(y + 2 * w) > 0
    decreases r_scratch@.len()
@hint loopstart 7
    proof { pop_zero(r_scratch@); assert(r_scratch@.drop_last() =~= r_scratch@.subrange(0, r_scratch@.len() - 1)); }
@hint before 0 mem::swap(&mutr,
    proof { if r_scratch@.len() > 0 { tight_last(r_scratch@); } }
@hint before 0 power>>=1
    proof {
        let (wi, hf) = (w as int, pw as int / 2);
        assert((2 * wi) * (2 * hf) == (2 * (2 * wi)) * hf) by (nonlinear_arith);
        assert((2 * wi) * (2 * hf + 1) == (2 * wi) * (2 * hf) + 2 * wi) by (nonlinear_arith);
        if pw % 2 == 1 { y = y + 2 * w; }
        w = 2 * w;
    }
@hint before 0 letmutattempt
    let ghost n = mabs(dec_exp as int) as nat;
    let ghost ff = five(n);
    let ghost b0 = blen(dd) + blen(ff) + f.p + 141;
    proof {
        p5_size(n);
        p5_size(nd as nat);
        p10_pos(n);
        tight_len(pow5_full@, 3 * n);
        tight_len(dec_sig@, (4 * nd) as nat);
    }
@loop 8
    invariant 0 <= attempt <= 20, attempt > 0 ==> (128usize << ((attempt - 1) as i32)) - 1 < b0, b0 < 0x400_0000, b0 == blen(dd) + blen(ff) + f.p + 141,
        val(dec_sig@) == dd, dd > 0, val(pow5_full@) == ff, ff > 0, ff == five(n), n == mabs(dec_exp as int), n <= 0x81_0000, dec_exp == de,
        dec_sig@.len() <= 0x10_0000, pow5_full@.len() <= 0x10_0000, blen(dd) <= 0x300_0000, blen(ff) <= 0x300_0000,
        wfs::<S>(), f == fm::<S>(), s@ == q, dec_ok(q), dec_out(f, false, q, round) == dec_rnd(f, false, dd, de, round),
    decreases 20 - attempt
@hint loopstart 8
    let ghost at0 = attempt;
    proof {
        wfs_basic::<S>();
        if attempt == 20 { pr_shl(19); }
        pr_shl(attempt);
    }
@hint before 0 exp+=dec_exp
    let ghost pr = calc_precision as nat;
    let ghost (c1, e1, i1) = (val(sig_calc@), exp as int, if status == Status::OK { 0nat } else { 1 });
    let ghost (c2, e2, i2) = (val(pow5_calc@), pow5_exp as int, if pow5_status == Status::OK { 0nat } else { 1 });
    let ghost mut kk: nat = 0;
    let ghost (num, den) = if dec_exp >= 0 { (dd * ff, 1nat) } else { (dd, ff) };
    proof {
        apx_len(dd, pr, c1, e1, i1);
        apx_len(ff, pr, c2, e2, i2);
        dec_rnd5(f, false, dd, de, round);
        st_facts();
    }
@hint before 0 half_ulp_err2=(pow5_status
    proof {
        kk = k_mul(i1, i2, calc_loss != Loss::ExactlyZero);
        mul_step(dd, c1, e1, i1, ff, c2, e2, i2, pr, de, val(sig_calc@), exp as int, calc_loss);
    }
@hint before 0 ifexp<S::MIN_EXP
    proof {
        kk = k_div(i1, i2, calc_loss != Loss::ExactlyZero);
        div_step(dd, c1, e1, i1, ff, c2, e2, i2, pr, de, val(sig_calc@), exp as int, calc_loss);
    }
@hint before 0 vx_assert(sig::get_bit
    let ghost c = val(sig_calc@);
    let ghost bb = (pr - used_bits - 1) as nat;
    let ghost tt = truncated_bits as nat;
    proof {
        assert(nbit(c, (pr - 1) as nat)) by { bit_top(c, pr); }
        assert(used_bits <= f.p && f.p + 13 < pr && tt > bb && (used_bits > 0 ==> tt + used_bits == pr) && (used_bits == 0 ==> tt >= pr));
        assert(used_bits == f.p || exp - (pr - 1) + tt == qmin(f));
        assert(dec_out(f, false, q, round) == rnd(f, false, num, den, de, round));
    }
@hint before 0 letmask
    proof {
        let sh = (bits % 128) as u128;
        one_shl(sh);
        lemma_pow2_pos(sh as nat);
    }
@hint after 0 letlimb=sig_calc
    proof {
        let sh = (bits % 128) as u128;
        assert(limb <= mask && mask < u128::MAX) by { ulps_facts(sig_calc@, bb, i as int, sh, mask, limb); }
    }
@hint before 0 sig_calc[0].wrapping_neg
    proof { assert(limb == mask && all_ones(sig_calc@.subrange(1, i as int))); }
@hint before 0 letulps_from_boundary
    proof {
        assert((half_ulp_err + 1) / 2 == kk);
        assert(pr >= b0 ==> kk == 0 || (kk <= 3 && pow2(128) < c % pow2(bb) && pow2(128) < pow2(bb) - c % pow2(bb)));
    }
@hint before 0 ifulps_from_boundary
    let ghost ul = ulps_from_boundary;
    proof {
        let i = (bb / 128) as int;
        let sh = (bb % 128) as u128;
        let mask = ((1u128 << sh) - 1) as u128;
        assert(ul <= c % pow2(bb) && ul <= pow2(bb) - c % pow2(bb) && (pow2(128) < c % pow2(bb) && pow2(128) < pow2(bb) - c % pow2(bb) ==> ul >= 3)) by {
            assert(!0u128 == u128::MAX) by (bit_vector);
            ulps_sum(sig_calc@, bb, i, sh, mask, sig_calc@[i] & mask, ul);
        }
    }
@loop 9
    invariant_except_break vx_r9, forall|j: int| 0 <= j < vx_i9 ==> sig_calc@.subrange(1, i as int)[j] == u128::MAX
    invariant 1 <= i < sig_calc@.len(), vx_i9 <= i - 1,
    ensures vx_r9 == all_ones(sig_calc@.subrange(1, i as int))
    decreases i - vx_i9
@hint loopstart 9
    proof { assert(!0u128 == u128::MAX) by (bit_vector); }
@hint before 0 letmutr=IeeeFloat
    let ghost yy = exp - (pr - 1) + tt;
    proof {
        assert(ul >= kk);
        assert(rnd(f, false, num, den, de, round) == norm(f, false, c / pow2(tt), yy, loss_of(c % pow2(tt), pow2(tt)), round)) by {
            accept(f, num, den, de, pr, c, exp as int, kk, bb, tt, yy, round);
        }
    }
@hint before 0 returnOk(r.normalize
    proof {
        val1(r.sig@);
        last_step(f, c, pr, used_bits as nat, tt, exp as int, yy, r.exp as int, val(r.sig@), round);
    }
