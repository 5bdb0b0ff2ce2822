// ---- integers and powers of two ------------------------------------------------------------------

pub broadcast proof fn b_pow2_pos(n: nat)
    ensures #[trigger] pow2(n) > 0
{ lemma_pow2_pos(n); }

pub proof fn p128()
    ensures pow2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000, pow2(127) * 2 == pow2(128), pow2(0) == 1, pow2(1) == 2,
            pow2(64) == 0x1_0000_0000_0000_0000, pow2(32) == 0x1_0000_0000, pow2(16) == 0x1_0000
{
    lemma2_to64();
    lemma2_to64_rest();
    lemma_pow2_adds(64, 64);
    lemma_pow2_unfold(128);
    assert(0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int == 0x1_0000_0000_0000_0000_0000_0000_0000_0000int) by (compute);
}

pub proof fn pow2_add(a: nat, b: nat)
    ensures pow2(a + b) == pow2(a) * pow2(b)
{ lemma_pow2_adds(a, b); }

/// pow2(a) == pow2(b) * pow2(a - b)
pub proof fn pow2_sub(a: nat, b: nat)
    requires b <= a
    ensures pow2(a) == pow2(b) * pow2((a - b) as nat), pow2(a) == pow2((a - b) as nat) * pow2(b)
{
    lemma_pow2_adds(b, (a - b) as nat);
    lemma_mul_is_commutative(pow2(b) as int, pow2((a - b) as nat) as int);
}

pub proof fn pow2_le(a: nat, b: nat)
    requires a <= b
    ensures pow2(a) <= pow2(b)
{ if a < b { lemma_pow2_strictly_increases(a, b); } }

pub proof fn pow2_lt(a: nat, b: nat)
    requires a < b
    ensures pow2(a) < pow2(b), 2 * pow2(a) <= pow2(b)
{
    lemma_pow2_strictly_increases(a, b);
    lemma_pow2_unfold(a + 1);
    pow2_le(a + 1, b);
}

pub proof fn pow2_half(a: nat)
    requires a >= 1
    ensures pow2(a) == 2 * pow2((a - 1) as nat)
{ lemma_pow2_unfold(a); }

/// q and r determine the quotient and the remainder
pub proof fn div_unique(x: int, d: int, q: int, r: int)
    requires d > 0, 0 <= r < d, x == q * d + r
    ensures x / d == q, x % d == r
{
    lemma_fundamental_div_mod_converse(x, d, q, r);
}

pub proof fn div_mod_id(x: int, d: int)
    requires d > 0
    ensures x == (x / d) * d + x % d, x == d * (x / d) + x % d, 0 <= x % d < d
{
    lemma_fundamental_div_mod(x, d);
    lemma_mul_is_commutative(d, x / d);
    lemma_mod_bound(x, d);
}

pub proof fn div_lt(x: int, d: int, b: int)
    requires d > 0, 0 <= x < b * d
    ensures 0 <= x / d < b
{
    div_mod_id(x, d);
    assert(x / d < b) by (nonlinear_arith) requires x == (x / d) * d + x % d, 0 <= x % d < d, x < b * d, d > 0;
    assert(x / d >= 0) by (nonlinear_arith) requires x == (x / d) * d + x % d, 0 <= x % d < d, x >= 0, d > 0;
}

pub proof fn div_ge(x: int, d: int, b: int)
    requires d > 0, x >= b * d
    ensures x / d >= b
{
    div_mod_id(x, d);
    assert(x / d >= b) by (nonlinear_arith) requires x == (x / d) * d + x % d, 0 <= x % d < d, x >= b * d, d > 0;
}

pub proof fn div_exact(q: int, d: int)
    requires d > 0
    ensures (q * d) / d == q, (q * d) % d == 0, (d * q) / d == q, (d * q) % d == 0
{
    div_unique(q * d, d, q, 0);
    lemma_mul_is_commutative(q, d);
}

pub proof fn mul_le(a: int, b: int, c: int)
    requires a <= b, c >= 0
    ensures a * c <= b * c, c * a <= c * b
{
    lemma_mul_inequality(a, b, c);
    lemma_mul_is_commutative(a, c);
    lemma_mul_is_commutative(b, c);
}

pub proof fn mul_lt(a: int, b: int, c: int)
    requires a < b, c > 0
    ensures a * c < b * c, c * a < c * b
{
    lemma_mul_strict_inequality(a, b, c);
    lemma_mul_is_commutative(a, c);
    lemma_mul_is_commutative(b, c);
}

/// x / (a*b) == x / a / b
pub proof fn div_div(x: int, a: int, b: int)
    requires a > 0, b > 0, x >= 0
    ensures x / (a * b) == (x / a) / b, a * b > 0
{
    lemma_mul_strictly_positive(a, b);
    lemma_div_denominator(x, a, b);
}

// ---- single words --------------------------------------------------------------------------------

pub proof fn shl1(x: u128)
    ensures (x << 1u128) as nat == (x as nat * 2) % pow2(128)
{
    p128();
    assert(x << 1u128 == if x >= 0x8000_0000_0000_0000_0000_0000_0000_0000u128 { sub(x, 0x8000_0000_0000_0000_0000_0000_0000_0000u128) * 2 } else { x * 2 }) by (bit_vector);
    assert(x >= 0x8000_0000_0000_0000_0000_0000_0000_0000u128 ==> sub(x, 0x8000_0000_0000_0000_0000_0000_0000_0000u128) == x - 0x8000_0000_0000_0000_0000_0000_0000_0000u128) by (bit_vector);
}

pub proof fn shl_wrap(x: u128, k: u128)
    requires k < 128
    ensures (x << k) as nat == (x as nat * pow2(k as nat)) % pow2(128)
    decreases k
{
    p128();
    if k == 0 {
        assert(x << 0u128 == x) by (bit_vector);
        lemma_small_mod(x as nat, pow2(128));
        assert(x as nat * pow2(0) == x as nat);
    } else {
        let j = (k - 1) as u128;
        shl_wrap(x, j);
        assert(x << k == (x << j) << 1u128) by (bit_vector) requires k < 128, k > 0, j == sub(k, 1);
        shl1(x << j);
        let m = pow2(128) as int;
        let y = x as int * pow2(j as nat);
        lemma_mul_mod_noop_left(y, 2, m);
        pow2_half(k as nat);
        assert(y * 2 == x as int * pow2(k as nat)) by (nonlinear_arith) requires y == x as int * pow2(j as nat), pow2(k as nat) == 2 * pow2(j as nat);
    }
}

pub proof fn shl_nowrap(x: u128, k: u128)
    requires k < 128, x as nat * pow2(k as nat) < pow2(128)
    ensures (x << k) as nat == x as nat * pow2(k as nat)
{
    shl_wrap(x, k);
    lemma_small_mod(x as nat * pow2(k as nat), pow2(128));
}

pub proof fn one_shl(k: u128)
    requires k < 128
    ensures (1u128 << k) as nat == pow2(k as nat), (1u128 << k) >= 1
{
    pow2_lt(k as nat, 128);
    shl_nowrap(1, k);
    lemma_pow2_pos(k as nat);
}

pub proof fn shr_div(x: u128, k: u128)
    requires k < 128
    ensures (x >> k) as nat == x as nat / pow2(k as nat)
{
    lemma_u128_shr_is_div(x, k);
}

pub proof fn mask_mod(x: u128, k: u128)
    requires k < 128
    ensures (x & sub(1u128 << k, 1)) as nat == x as nat % pow2(k as nat), sub(1u128 << k, 1) == (1u128 << k) - 1
{
    let hi = x >> k;
    shr_div(x, k);
    one_shl(k);
    lemma_pow2_pos(k as nat);
    div_mod_id(x as int, pow2(k as nat) as int);
    p128();
    shl_nowrap(hi, k);
    assert(x & sub(1u128 << k, 1) == sub(x, (x >> k) << k)) by (bit_vector) requires k < 128;
}

pub open spec fn nbit(x: nat, k: nat) -> bool { (x / pow2(k)) % 2 == 1 }

pub proof fn bit_test(x: u128, k: u128)
    requires k < 128
    ensures ((x & (1u128 << k)) != 0) == nbit(x as nat, k as nat)
{
    shr_div(x, k);
    assert(((x & (1u128 << k)) != 0) == ((x >> k) % 2 == 1)) by (bit_vector) requires k < 128;
}

pub proof fn or_disjoint(a: u128, b: u128, k: u128)
    requires k < 128, a as nat % pow2(k as nat) == 0, (b as nat) < pow2(k as nat)
    ensures (a | b) as nat == a as nat + b as nat
{
    lemma_pow2_pos(k as nat);
    mask_mod(a, k);
    shr_div(b, k);
    lemma_basic_div(b as int, pow2(k as nat) as int);
    assert(a & b == 0) by (bit_vector) requires a & sub(1u128 << k, 1) == 0, b >> k == 0, k < 128;
    assert(a | b == add(a, b) && (a | b) >= a && (a | b) >= b) by (bit_vector) requires a & b == 0;
    assert(add(a, b) >= a && add(a, b) == (a | b));
    assert(a & b == 0 ==> b <= sub(!0u128, a)) by (bit_vector);
    assert(sub(!0u128, a) == u128::MAX - a) by { assert(!0u128 == u128::MAX) by (bit_vector); }
}

// ---- bit length ----------------------------------------------------------------------------------

/// number of bits of x: the least k with x < 2^k
pub open spec fn blen(x: nat) -> nat
    decreases x
{ if x == 0 { 0 } else { 1 + blen(x / 2) } }

pub proof fn blen_bounds(x: nat)
    ensures x < pow2(blen(x)), x > 0 ==> blen(x) >= 1 && pow2((blen(x) - 1) as nat) <= x
    decreases x
{
    p128();
    if x > 0 {
        blen_bounds(x / 2);
        pow2_half(blen(x));
        if x / 2 > 0 {
            pow2_half((blen(x) - 1) as nat);
        }
    }
}

pub proof fn blen_unique(x: nat, k: nat)
    requires x < pow2(k), k > 0 ==> pow2((k - 1) as nat) <= x
    ensures blen(x) == k
{
    blen_bounds(x);
    p128();
    let b = blen(x);
    if b > k {
        pow2_le(k, (b - 1) as nat);
    } else if b < k {
        pow2_le(b, (k - 1) as nat);
    }
}

pub proof fn blen_le(x: nat, k: nat)
    ensures (blen(x) <= k) == (x < pow2(k))
{
    blen_bounds(x);
    p128();
    if blen(x) <= k { pow2_le(blen(x), k); } else { pow2_le(k, (blen(x) - 1) as nat); }
}

pub proof fn blen_mono(x: nat, y: nat)
    requires x <= y
    ensures blen(x) <= blen(y)
{ blen_bounds(y); blen_le(x, blen(y)); }

pub proof fn blen_shl(x: nat, k: nat)
    requires x > 0
    ensures blen(x * pow2(k)) == blen(x) + k, x * pow2(k) > 0
{
    blen_bounds(x);
    let b = blen(x);
    lemma_pow2_pos(k);
    pow2_add(b, k);
    pow2_add((b - 1) as nat, k);
    mul_lt(x as int, pow2(b) as int, pow2(k) as int);
    mul_le(pow2((b - 1) as nat) as int, x as int, pow2(k) as int);
    lemma_mul_strictly_positive(x as int, pow2(k) as int);
    blen_unique(x * pow2(k), b + k);
}

pub proof fn blen_shr(x: nat, k: nat)
    ensures blen(x / pow2(k)) == if blen(x) >= k { (blen(x) - k) as nat } else { 0 }
{
    blen_bounds(x);
    let b = blen(x);
    lemma_pow2_pos(k);
    p128();
    if b <= k {
        pow2_le(b, k);
        lemma_basic_div(x as int, pow2(k) as int);
    } else {
        pow2_sub(b, k);
        pow2_sub((b - 1) as nat, k);
        div_lt(x as int, pow2(k) as int, pow2((b - k) as nat) as int);
        div_ge(x as int, pow2(k) as int, pow2((b - 1 - k) as nat) as int);
        blen_unique(x / pow2(k), (b - k) as nat);
    }
}

// ---- limb sequences ------------------------------------------------------------------------------

/// value of a little-endian limb sequence
pub open spec fn val(s: Seq<u128>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { val(s.drop_last()) + s.last() as nat * pow2(128 * (s.len() - 1) as nat) }
}

pub proof fn val_take(s: Seq<u128>, i: int)
    requires 0 <= i < s.len()
    ensures val(s.take(i + 1)) == val(s.take(i)) + s[i] as nat * pow2((128 * i) as nat)
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}

pub proof fn val_take_all(s: Seq<u128>)
    ensures s.take(s.len() as int) == s, val(s.take(0)) == 0
{
    assert(s.take(s.len() as int) =~= s);
}

pub proof fn val_bound(s: Seq<u128>)
    ensures val(s) < pow2((128 * s.len()) as nat)
    decreases s.len()
{
    p128();
    if s.len() > 0 {
        val_bound(s.drop_last());
        let n = (128 * (s.len() - 1)) as nat;
        pow2_add(128, n);
        assert(val(s) < pow2(128) * pow2(n)) by (nonlinear_arith)
            requires val(s) == val(s.drop_last()) + s.last() as nat * pow2(n), val(s.drop_last()) < pow2(n), s.last() as nat + 1 <= pow2(128);
    }
}

pub proof fn val1(s: Seq<u128>)
    requires s.len() == 1
    ensures val(s) == s[0]
{
    p128();
    assert(s.drop_last().len() == 0);
    assert(val(s.drop_last()) == 0);
    assert(s.last() as nat * pow2(0) == s.last() as nat) by (nonlinear_arith) requires pow2(0) == 1;
}

pub proof fn val2(s: Seq<u128>)
    requires s.len() == 2
    ensures val(s) == s[0] + s[1] * pow2(128)
{
    p128();
    val1(s.drop_last());
}

/// two limbs whose value fits the low one
pub proof fn val2_low(s: Seq<u128>)
    requires s.len() == 2, val(s) < pow2(128)
    ensures s[0] as nat == val(s), s[1] == 0
{
    val2(s);
    lemma_pow2_pos(128);
    let (h, w) = (s[1] as int, pow2(128) as int);
    assert(h >= 1 ==> h * w >= w) by (nonlinear_arith) requires w > 0;
    assert(0 * w == 0);
}

pub open spec fn all_zero(s: Seq<u128>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 0 }

pub proof fn val_zero(s: Seq<u128>)
    ensures all_zero(s) == (val(s) == 0)
    decreases s.len()
{
    if s.len() > 0 {
        val_zero(s.drop_last());
        let n = (128 * (s.len() - 1)) as nat;
        lemma_pow2_pos(n);
        if s.last() != 0 {
            lemma_mul_strictly_positive(s.last() as int, pow2(n) as int);
        }
        assert(forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s.drop_last()[i] == s[i]);
        if val(s) == 0 {
            assert(s.last() == 0);
            assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by { if i < s.len() - 1 { assert(s.drop_last()[i] == 0); } }
        }
    }
}

/// low part + high part
pub proof fn val_split(s: Seq<u128>, i: int)
    requires 0 <= i <= s.len()
    ensures val(s) == val(s.take(i)) + pow2((128 * i) as nat) * val(s.skip(i))
    decreases s.len() - i
{
    if i == s.len() {
        assert(s.take(i) =~= s);
        assert(s.skip(i).len() == 0);
        assert(val(s.skip(i)) == 0);
        assert(pow2((128 * i) as nat) * 0 == 0) by (nonlinear_arith);
    } else {
        let d = s.drop_last();
        let n = (128 * (s.len() - 1)) as nat;
        val_split(d, i);
        assert(d.take(i) =~= s.take(i));
        assert(s.skip(i).drop_last() =~= d.skip(i));
        assert(s.skip(i).last() == s.last());
        let m = (128 * (s.skip(i).len() - 1)) as nat;
        pow2_add((128 * i) as nat, m);
        assert((128 * i) as nat + m == n);
        assert(pow2((128 * i) as nat) * (val(d.skip(i)) + s.last() as nat * pow2(m)) == pow2((128 * i) as nat) * val(d.skip(i)) + s.last() as nat * (pow2((128 * i) as nat) * pow2(m))) by (nonlinear_arith);
    }
}

/// zero limbs on top do not count
pub proof fn val_high_zero(s: Seq<u128>, i: int)
    requires 0 <= i <= s.len(), forall|j: int| i <= j < s.len() ==> s[j] == 0
    ensures val(s) == val(s.take(i))
{
    val_split(s, i);
    val_zero(s.skip(i));
    assert(pow2((128 * i) as nat) * 0 == 0);
}

pub proof fn val_low_zero(s: Seq<u128>, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> s[j] == 0
    ensures val(s) == pow2((128 * i) as nat) * val(s.skip(i))
{
    val_split(s, i);
    val_zero(s.take(i));
}

/// position of the top limb decides the bit length
pub proof fn val_top(s: Seq<u128>, i: int)
    requires 0 <= i < s.len(), s[i] != 0, forall|j: int| i < j < s.len() ==> s[j] == 0
    ensures blen(val(s)) == 128 * i + blen(s[i] as nat), val(s) > 0
{
    val_high_zero(s, i + 1);
    val_take(s, i);
    val_bound(s.take(i));
    let n = (128 * i) as nat;
    let t = s[i] as nat;
    let b = blen(t);
    blen_bounds(t);
    lemma_pow2_pos(n);
    pow2_add(b, n);
    pow2_add((b - 1) as nat, n);
    assert(val(s) < pow2(b) * pow2(n)) by (nonlinear_arith)
        requires val(s) == val(s.take(i)) + t * pow2(n), val(s.take(i)) < pow2(n), t + 1 <= pow2(b);
    assert(val(s) >= pow2((b - 1) as nat) * pow2(n)) by (nonlinear_arith)
        requires val(s) >= t * pow2(n), t >= pow2((b - 1) as nat);
    lemma_mul_strictly_positive(t as int, pow2(n) as int);
    blen_unique(val(s), (n + b) as nat);
}

/// the top difference decides the order
pub proof fn val_cmp(a: Seq<u128>, b: Seq<u128>, i: int)
    requires a.len() == b.len(), 0 <= i < a.len(), a[i] < b[i], forall|j: int| i < j < a.len() ==> a[j] == b[j]
    ensures val(a) < val(b)
{
    val_split(a, i + 1);
    val_split(b, i + 1);
    assert(a.skip(i + 1) =~= b.skip(i + 1));
    val_take(a, i);
    val_take(b, i);
    val_bound(a.take(i));
    let p = pow2((128 * i) as nat);
    assert(val(a.take(i)) + a[i] as nat * p < val(b.take(i)) + b[i] as nat * p) by (nonlinear_arith)
        requires val(a.take(i)) < p, a[i] + 1 <= b[i];
}

pub proof fn val_eq(a: Seq<u128>, b: Seq<u128>)
    requires a.len() == b.len(), val(a) == val(b)
    ensures a == b
    decreases a.len()
{
    if a != b {
        let i = last_diff(a, b, a.len() as int);
        if a[i] < b[i] { val_cmp(a, b, i); } else { val_cmp(b, a, i); }
    }
}

pub proof fn last_diff(a: Seq<u128>, b: Seq<u128>, n: int) -> (i: int)
    requires a.len() == b.len(), 0 <= n <= a.len(), a != b, forall|j: int| n <= j < a.len() ==> a[j] == b[j]
    ensures 0 <= i < a.len(), a[i] != b[i], forall|j: int| i < j < a.len() ==> a[j] == b[j]
    decreases n
{
    if n == 0 { assert(a =~= b); 0 }
    else if a[n - 1] != b[n - 1] { n - 1 }
    else { last_diff(a, b, n - 1) }
}

pub proof fn val_update(s: Seq<u128>, i: int, x: u128)
    requires 0 <= i < s.len()
    ensures val(s.update(i, x)) == val(s) - s[i] as int * pow2((128 * i) as nat) + x as int * pow2((128 * i) as nat)
{
    let t = s.update(i, x);
    val_split(s, i + 1);
    val_split(t, i + 1);
    val_take(s, i);
    val_take(t, i);
    assert(t.skip(i + 1) =~= s.skip(i + 1));
    assert(t.take(i) =~= s.take(i));
}

// ---- shifts --------------------------------------------------------------------------------------

pub open spec fn limb_at(s: Seq<u128>, i: int) -> nat { if 0 <= i < s.len() { s[i] as nat } else { 0 } }

/// t[k] = o[k] >> sh | o[k+1] << (128 - sh)
pub open spec fn is_shr(t: Seq<u128>, o: Seq<u128>, sh: nat) -> bool {
    &&& t.len() == o.len()
    &&& forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] as nat == limb_at(o, k) / pow2(sh) + (limb_at(o, k + 1) % pow2(sh)) * pow2((128 - sh) as nat)
}

pub proof fn shr_tele(t: Seq<u128>, o: Seq<u128>, sh: nat, i: int)
    requires is_shr(t, o, sh), 0 < sh < 128, 0 <= i <= t.len()
    ensures pow2(sh) * val(t.take(i)) == val(o.take(i)) - limb_at(o, 0) % pow2(sh) + pow2((128 * i) as nat) * (limb_at(o, i) % pow2(sh))
    decreases i
{
    p128();
    if i == 0 {
        assert(pow2(sh) * 0 == 0) by (nonlinear_arith);
        let m = limb_at(o, 0) % pow2(sh);
        assert(pow2(0) * m == m) by (nonlinear_arith) requires pow2(0) == 1;
    } else {
        shr_tele(t, o, sh, i - 1);
        val_take(t, i - 1);
        val_take(o, i - 1);
        let p = pow2((128 * (i - 1)) as nat) as int;
        let s2 = pow2(sh) as int;
        let c2 = pow2((128 - sh) as nat) as int;
        let a = limb_at(o, i - 1) as int;
        let b = limb_at(o, i) as int % s2;
        lemma_pow2_pos(sh);
        div_mod_id(a, s2);
        pow2_sub(128, sh);
        pow2_add((128 * (i - 1)) as nat, 128);
        assert(t[i - 1] as int == a / s2 + b * c2);
        let q = a / s2;
        let m = a % s2;
        let vt = val(t.take(i - 1)) as int;
        let vo = val(o.take(i - 1)) as int;
        let l0 = limb_at(o, 0) as int % s2;
        assert(s2 * (vt + (q + b * c2) * p) == (vo + a * p) - l0 + (p * pow2(128)) * b) by (nonlinear_arith)
            requires s2 * vt == vo - l0 + p * m, a == q * s2 + m, s2 * c2 == pow2(128) as int;
    }
}

pub proof fn shr_val(t: Seq<u128>, o: Seq<u128>, sh: nat)
    requires is_shr(t, o, sh), 0 < sh < 128, t.len() > 0
    ensures val(t) == val(o) / pow2(sh)
{
    shr_tele(t, o, sh, t.len() as int);
    val_take_all(t);
    val_take_all(o);
    lemma_pow2_pos(sh);
    lemma_small_mod(0, pow2(sh));
    assert(pow2((128 * t.len()) as nat) * 0 == 0) by (nonlinear_arith);
    let r = limb_at(o, 0) as int % pow2(sh) as int;
    div_mod_id(limb_at(o, 0) as int, pow2(sh) as int);
    lemma_mul_is_commutative(pow2(sh) as int, val(t) as int);
    div_unique(val(o) as int, pow2(sh) as int, val(t) as int, r);
}

/// t[k] = o[k] << sh | o[k-1] >> (128 - sh)
pub open spec fn is_shl(t: Seq<u128>, o: Seq<u128>, sh: nat) -> bool {
    &&& t.len() == o.len()
    &&& forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] as nat == (limb_at(o, k) * pow2(sh)) % pow2(128) + limb_at(o, k - 1) / pow2((128 - sh) as nat)
}

pub proof fn shl_tele(t: Seq<u128>, o: Seq<u128>, sh: nat, i: int)
    requires is_shl(t, o, sh), 0 < sh < 128, 0 <= i <= t.len()
    ensures val(t.take(i)) == pow2(sh) * val(o.take(i)) - pow2((128 * i) as nat) * (limb_at(o, i - 1) / pow2((128 - sh) as nat))
    decreases i
{
    p128();
    let c2 = pow2((128 - sh) as nat) as int;
    lemma_pow2_pos((128 - sh) as nat);
    if i == 0 {
        lemma_basic_div(0, c2);
        assert(pow2(sh) * 0 == 0) by (nonlinear_arith);
        assert(pow2(0) * 0 == 0) by (nonlinear_arith);
    } else {
        shl_tele(t, o, sh, i - 1);
        val_take(t, i - 1);
        val_take(o, i - 1);
        let p = pow2((128 * (i - 1)) as nat) as int;
        let s2 = pow2(sh) as int;
        let a = limb_at(o, i - 1) as int;
        let b = limb_at(o, i - 2) as int / c2;
        lemma_pow2_pos(sh);
        pow2_sub(128, sh);
        let big = pow2(128) as int;
        // a * s2 == (a / c2) * 2^128 + (a * s2) % 2^128
        div_mod_id(a, c2);
        let hi = a / c2;
        let lo = a % c2;
        assert(a * s2 == hi * big + lo * s2) by (nonlinear_arith) requires a == hi * c2 + lo, s2 * c2 == big;
        assert(0 <= lo * s2 < big) by (nonlinear_arith) requires 0 <= lo < c2, s2 * c2 == big, s2 > 0;
        div_unique(a * s2, big, hi, lo * s2);
        pow2_add((128 * (i - 1)) as nat, 128);
        let vt = val(t.take(i - 1)) as int;
        let vo = val(o.take(i - 1)) as int;
        assert(t[i - 1] as int == lo * s2 + b);
        assert(vt + (lo * s2 + b) * p == s2 * (vo + a * p) - (p * big) * hi) by (nonlinear_arith)
            requires vt == s2 * vo - p * b, a * s2 == hi * big + lo * s2;
    }
}

pub proof fn shl_val(t: Seq<u128>, o: Seq<u128>, sh: nat)
    requires is_shl(t, o, sh), 0 < sh < 128, t.len() > 0
    ensures val(t) == (val(o) * pow2(sh)) % pow2((128 * t.len()) as nat)
{
    let n = t.len() as int;
    shl_tele(t, o, sh, n);
    val_take_all(t);
    val_take_all(o);
    val_bound(t);
    let q = limb_at(o, n - 1) as int / pow2((128 - sh) as nat) as int;
    let m = pow2((128 * n) as nat) as int;
    let (s2, vo, vt) = (pow2(sh) as int, val(o) as int, val(t) as int);
    lemma_pow2_pos((128 - sh) as nat);
    assert(vt == s2 * vo - m * q);
    assert(vo * s2 == q * m + vt) by (nonlinear_arith) requires vt == s2 * vo - m * q;
    div_unique(vo * s2, m, q, vt);
}

/// whole-limb moves
pub open spec fn is_jumpr(t: Seq<u128>, o: Seq<u128>, j: int) -> bool {
    &&& t.len() == o.len()
    &&& forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] as nat == limb_at(o, k + j)
}

pub proof fn jumpr_val(t: Seq<u128>, o: Seq<u128>, j: int)
    requires is_jumpr(t, o, j), j >= 0
    ensures val(t) == val(o) / pow2((128 * j) as nat)
{
    lemma_pow2_pos((128 * j) as nat);
    val_bound(o);
    if j >= o.len() {
        pow2_le((128 * o.len()) as nat, (128 * j) as nat);
        assert(forall|k: int| 0 <= k < t.len() ==> t[k] as nat == limb_at(o, k + j));
        val_zero(t);
        lemma_basic_div(val(o) as int, pow2((128 * j) as nat) as int);
    } else {
        let n = o.len() - j;
        val_split(o, j);
        val_bound(o.take(j));
        assert forall|k: int| n <= k < t.len() implies t[k] == 0 by { assert(t[k] as nat == limb_at(o, k + j)); }
        val_high_zero(t, n);
        assert forall|k: int| 0 <= k < n implies #[trigger] t.take(n)[k] == o.skip(j)[k] by { assert(t[k] as nat == limb_at(o, k + j)); }
        assert(t.take(n) =~= o.skip(j));
        lemma_mul_is_commutative(pow2((128 * j) as nat) as int, val(o.skip(j)) as int);
        div_unique(val(o) as int, pow2((128 * j) as nat) as int, val(o.skip(j)) as int, val(o.take(j)) as int);
    }
}

pub open spec fn is_jumpl(t: Seq<u128>, o: Seq<u128>, j: int) -> bool {
    &&& t.len() == o.len()
    &&& forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] as nat == limb_at(o, k - j)
}

pub proof fn jumpl_val(t: Seq<u128>, o: Seq<u128>, j: int)
    requires is_jumpl(t, o, j), j >= 0
    ensures val(t) == (val(o) * pow2((128 * j) as nat)) % pow2((128 * o.len()) as nat)
{
    let p = pow2((128 * j) as nat) as int;
    let m = pow2((128 * o.len()) as nat) as int;
    lemma_pow2_pos((128 * j) as nat);
    lemma_pow2_pos((128 * o.len()) as nat);
    if j >= o.len() {
        assert forall|k: int| 0 <= k < t.len() implies t[k] == 0 by { assert(t[k] as nat == limb_at(o, k - j)); }
        val_zero(t);
        pow2_sub((128 * j) as nat, (128 * o.len()) as nat);
        let e = pow2((128 * j - 128 * o.len()) as nat) as int;
        assert(val(o) as int * p == (val(o) as int * e) * m) by (nonlinear_arith) requires p == m * e;
        div_exact(val(o) as int * e, m);
    } else {
        let n = o.len() - j;
        assert forall|k: int| 0 <= k < j implies t[k] == 0 by { assert(t[k] as nat == limb_at(o, k - j)); }
        val_low_zero(t, j);
        assert forall|k: int| 0 <= k < n implies #[trigger] t.skip(j)[k] == o.take(n)[k] by { assert(t[k + j] as nat == limb_at(o, k)); }
        assert(t.skip(j) =~= o.take(n));
        val_split(o, n);
        let lo = val(o.take(n)) as int;
        let hi = val(o.skip(n)) as int;
        val_bound(o.take(n));
        pow2_add((128 * n) as nat, (128 * j) as nat);
        assert((128 * n) as nat + (128 * j) as nat == (128 * o.len()) as nat);
        assert(val(o) as int * p == hi * m + p * lo) by (nonlinear_arith)
            requires val(o) as int == lo + pow2((128 * n) as nat) as int * hi, m == pow2((128 * n) as nat) as int * p;
        assert(0 <= p * lo < m) by (nonlinear_arith) requires 0 <= lo < pow2((128 * n) as nat) as int, m == pow2((128 * n) as nat) as int * p, p > 0;
        div_unique(val(o) as int * p, m, hi, p * lo);
    }
}

/// (x mod a) * b mod (a) composition used for two-step left shifts
pub proof fn mod_shl_twice(x: nat, a: nat, b: nat, m: nat)
    requires m > 0
    ensures (((x * a) % m) * b) % m == (x * (a * b)) % m
{
    lemma_mul_mod_noop_left((x * a) as int, b as int, m as int);
    lemma_mul_is_associative(x as int, a as int, b as int);
}

pub proof fn or_bit(x: u128, k: u128)
    requires k < 128
    ensures nbit(x as nat, k as nat) ==> (x | (1u128 << k)) == x,
            !nbit(x as nat, k as nat) ==> (x | (1u128 << k)) as nat == x as nat + pow2(k as nat)
{
    bit_test(x, k);
    one_shl(k);
    assert(x & (1u128 << k) != 0 ==> (x | (1u128 << k)) == x) by (bit_vector) requires k < 128;
    assert(x & (1u128 << k) == 0 ==> (x | (1u128 << k)) == add(x, 1u128 << k) && (x | (1u128 << k)) >= x) by (bit_vector) requires k < 128;
    let y = 1u128 << k;
    assert(x & y == 0 ==> y <= sub(!0u128, x)) by (bit_vector);
    assert(sub(!0u128, x) == u128::MAX - x) by { assert(!0u128 == u128::MAX) by (bit_vector); }
}

// ---- joining two limbs in a shift ----------------------------------------------------------------

pub proof fn join_l(a: u128, b: u128, sh: u128, c: u128)
    requires 0 < sh < 128, c == 128 - sh
    ensures ((a << sh) | (b >> c)) as nat == (a as nat * pow2(sh as nat)) % pow2(128) + b as nat / pow2((128 - sh) as nat),
            (a << sh) as nat == (a as nat * pow2(sh as nat)) % pow2(128)
{
    shl_wrap(a, sh);
    shr_div(b, c);
    p128();
    pow2_sub(128, sh as nat);
    lemma_pow2_pos(c as nat);
    div_lt(b as int, pow2(c as nat) as int, pow2(sh as nat) as int);
    assert((a << sh) & sub(1u128 << sh, 1) == 0) by (bit_vector) requires sh < 128;
    mask_mod(a << sh, sh);
    or_disjoint(a << sh, b >> c, sh);
}

/// (b * 2^(128-s)) mod 2^128 == (b mod 2^s) * 2^(128-s)
pub proof fn mod_mul(b: nat, s: nat, n: nat)
    requires s <= n
    ensures (b * pow2((n - s) as nat)) % pow2(n) == (b % pow2(s)) * pow2((n - s) as nat)
{
    let p = pow2((n - s) as nat) as int;
    let q = pow2(s) as int;
    pow2_sub(n, s);
    lemma_pow2_pos(s);
    lemma_pow2_pos((n - s) as nat);
    div_mod_id(b as int, q);
    let (d, m) = (b as int / q, b as int % q);
    let bi = b as int;
    assert(bi * p == d * (q * p) + m * p) by (nonlinear_arith) requires bi == d * q + m;
    assert(0 <= m * p < q * p) by (nonlinear_arith) requires 0 <= m < q, p > 0;
    div_unique(bi * p, q * p, d, m * p);
}

pub proof fn join_r(a: u128, b: u128, sh: u128, c: u128)
    requires 0 < sh < 128, c == 128 - sh
    ensures ((a >> sh) | (b << c)) as nat == a as nat / pow2(sh as nat) + (b as nat % pow2(sh as nat)) * pow2((128 - sh) as nat)
{
    shl_wrap(b, c);
    shr_div(a, sh);
    p128();
    mod_mul(b as nat, sh as nat, 128);
    pow2_sub(128, sh as nat);
    lemma_pow2_pos(sh as nat);
    div_lt(a as int, pow2(sh as nat) as int, pow2(c as nat) as int);
    assert((b << c) & sub(1u128 << c, 1) == 0) by (bit_vector) requires c < 128;
    mask_mod(b << c, c);
    or_disjoint(b << c, a >> sh, c);
    let (u, v) = (a >> sh, b << c);
    assert(u | v == v | u) by (bit_vector);
}

// ---- whole shifts --------------------------------------------------------------------------------

pub open spec fn shl_limb(o: Seq<u128>, j: int, sh: nat, k: int) -> nat {
    if sh == 0 { limb_at(o, k - j) } else { (limb_at(o, k - j) * pow2(sh)) % pow2(128) + limb_at(o, k - j - 1) / pow2((128 - sh) as nat) }
}

pub proof fn shl_zero(sh: nat)
    requires 0 < sh < 128
    ensures (0nat * pow2(sh)) % pow2(128) == 0, 0nat / pow2((128 - sh) as nat) == 0
{
    lemma_pow2_pos(128);
    lemma_pow2_pos((128 - sh) as nat);
    lemma_mul_basics(pow2(sh) as int);
    lemma_small_mod(0, pow2(128));
    lemma_basic_div(0, pow2((128 - sh) as nat) as int);
}

pub proof fn shl_all(t: Seq<u128>, o: Seq<u128>, bits: nat)
    requires t.len() == o.len(), t.len() > 0,
        forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] as nat == shl_limb(o, bits as int / 128, bits % 128, k)
    ensures val(t) == (val(o) * pow2(bits)) % pow2((128 * o.len()) as nat),
        val(o) * pow2(bits) < pow2((128 * o.len()) as nat) ==> val(t) == val(o) * pow2(bits)
{
    let j = bits as int / 128;
    let sh = bits % 128;
    let m = pow2((128 * o.len()) as nat);
    lemma_pow2_pos((128 * o.len()) as nat);
    let u = Seq::new(o.len(), |k: int| limb_at(o, k - j) as u128);
    jumpl_val(u, o, j);
    if sh == 0 {
        assert forall|k: int| 0 <= k < t.len() implies t[k] == u[k] by { assert(t[k] as nat == shl_limb(o, j, sh, k)); }
        assert(t =~= u);
    } else {
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] as nat == (limb_at(u, k) * pow2(sh)) % pow2(128) + limb_at(u, k - 1) / pow2((128 - sh) as nat) by {
            assert(t[k] as nat == shl_limb(o, j, sh, k));
        }
        shl_val(t, u, sh);
        pow2_add((128 * j) as nat, sh);
        mod_shl_twice(val(o), pow2((128 * j) as nat), pow2(sh), m);
    }
    if val(o) * pow2(bits) < m { lemma_small_mod(val(o) * pow2(bits), m); }
}

pub open spec fn shr_limb(o: Seq<u128>, j: int, sh: nat, k: int) -> nat {
    if sh == 0 { limb_at(o, k + j) } else { limb_at(o, k + j) / pow2(sh) + (limb_at(o, k + j + 1) % pow2(sh)) * pow2((128 - sh) as nat) }
}

pub proof fn shr_zero(sh: nat)
    ensures 0nat / pow2(sh) == 0, (0nat % pow2(sh)) * pow2((128 - sh) as nat) == 0
{
    lemma_pow2_pos(sh);
    lemma_basic_div(0, pow2(sh) as int);
    lemma_small_mod(0, pow2(sh));
    lemma_mul_basics(pow2((128 - sh) as nat) as int);
}

pub proof fn shr_all(t: Seq<u128>, o: Seq<u128>, bits: nat)
    requires t.len() == o.len(), t.len() > 0,
        forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] as nat == shr_limb(o, bits as int / 128, bits % 128, k)
    ensures val(t) == val(o) / pow2(bits)
{
    let j = bits as int / 128;
    let sh = bits % 128;
    let u = Seq::new(o.len(), |k: int| limb_at(o, k + j) as u128);
    jumpr_val(u, o, j);
    if sh == 0 {
        assert forall|k: int| 0 <= k < t.len() implies t[k] == u[k] by { assert(t[k] as nat == shr_limb(o, j, sh, k)); }
        assert(t =~= u);
    } else {
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] as nat == limb_at(u, k) / pow2(sh) + (limb_at(u, k + 1) % pow2(sh)) * pow2((128 - sh) as nat) by {
            assert(t[k] as nat == shr_limb(o, j, sh, k));
            shr_zero(sh);
        }
        shr_val(t, u, sh);
        pow2_add((128 * j) as nat, sh);
        lemma_pow2_pos((128 * j) as nat);
        lemma_pow2_pos(sh);
        div_div(val(o) as int, pow2((128 * j) as nat) as int, pow2(sh) as int);
    }
}

// ---- limb-wise carries ---------------------------------------------------------------------------

pub proof fn take_update(s: Seq<u128>, i: int, x: u128)
    requires 0 <= i < s.len()
    ensures val(s.update(i, x).take(i + 1)) == val(s.take(i)) + x as nat * pow2((128 * i) as nat),
        pow2((128 * (i + 1)) as nat) == pow2(128) * pow2((128 * i) as nat),
        val(s.take(i + 1)) == val(s.take(i)) + s[i] as nat * pow2((128 * i) as nat)
{
    let t = s.update(i, x);
    val_take(t, i);
    val_take(s, i);
    assert(t.take(i) =~= s.take(i));
    pow2_add(128, (128 * i) as nat);
    assert((128 * (i + 1)) as nat == 128 + (128 * i) as nat);
}

/// equal above i
pub proof fn val_high_eq(t: Seq<u128>, o: Seq<u128>, i: int)
    requires t.len() == o.len(), 0 <= i <= t.len(), forall|k: int| i <= k < t.len() ==> t[k] == o[k]
    ensures val(t) - val(t.take(i)) == val(o) - val(o.take(i))
{
    val_split(t, i);
    val_split(o, i);
    assert(t.skip(i) =~= o.skip(i));
}
