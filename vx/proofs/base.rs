pub type Limb = u128;
pub type ExpInt = i32;

/// the fraction x/t as a class (0 <= x < t)
pub open spec fn loss_of(x: nat, t: nat) -> Loss {
    if x == 0 { Loss::ExactlyZero }
    else if 2 * x < t { Loss::LessThanHalf }
    else if 2 * x == t { Loss::ExactlyHalf }
    else { Loss::MoreThanHalf }
}

/// class of (high + low) where `low` is below one unit of high's denominator
pub open spec fn loss_comb(hi: Loss, lo: Loss) -> Loss {
    if lo == Loss::ExactlyZero { hi }
    else if hi == Loss::ExactlyZero { Loss::LessThanHalf }
    else if hi == Loss::ExactlyHalf { Loss::MoreThanHalf }
    else { hi }
}

pub open spec fn loss_inv(l: Loss) -> Loss {
    match l { Loss::LessThanHalf => Loss::MoreThanHalf, Loss::MoreThanHalf => Loss::LessThanHalf, l => l }
}

pub open spec fn bit1(b: bool) -> nat { if b { 1 } else { 0 } }

pub open spec fn emax() -> int { 0x1000_0000 }

/// x mod 2^(h+1), from bit h and the bits below it
pub proof fn bit_mod(x: nat, h: nat)
    ensures x % pow2(h + 1) == x % pow2(h) + if nbit(x, h) { pow2(h) } else { 0 }, pow2(h + 1) == 2 * pow2(h), x % pow2(h) < pow2(h)
{
    let p = pow2(h) as int;
    lemma_pow2_pos(h);
    pow2_half(h + 1);
    div_mod_id(x as int, p);
    let q = x as int / p;
    let b = q % 2;
    assert(x as int == (q / 2) * (2 * p) + (b * p + x as int % p)) by (nonlinear_arith)
        requires x as int == q * p + x as int % p, q == 2 * (q / 2) + b;
    assert(0 <= b * p + x as int % p < 2 * p) by (nonlinear_arith) requires 0 <= b <= 1, 0 <= x as int % p < p;
    div_unique(x as int, 2 * p, q / 2, b * p + x as int % p);
    assert(b == 1 ==> b * p == p) by (nonlinear_arith);
    assert(b == 0 ==> b * p == 0) by (nonlinear_arith);
}

/// x mod 2^(128 i + s) for the limb sequence s with s in limb i
pub proof fn val_mod(s: Seq<u128>, i: int, sh: nat)
    requires 0 <= i < s.len(), sh <= 128
    ensures val(s) % pow2((128 * i + sh) as nat) == (s[i] as nat % pow2(sh)) * pow2((128 * i) as nat) + val(s.take(i)),
            val(s.take(i)) < pow2((128 * i) as nat),
            pow2((128 * i + sh) as nat) == pow2(sh) * pow2((128 * i) as nat),
{
    let p = pow2((128 * i) as nat) as int;
    let t = pow2(sh) as int;
    lemma_pow2_pos(sh);
    lemma_pow2_pos((128 * i) as nat);
    val_split(s, i);
    val_bound(s.take(i));
    pow2_add(sh, (128 * i) as nat);
    assert((128 * i + sh) as nat == sh + (128 * i) as nat);
    // s.skip(i) == s[i] + 2^128 * rest
    let u = s.skip(i);
    val_split(u, 1);
    val1(u.take(1));
    assert(u.take(1)[0] == s[i]);
    let rest = val(u.skip(1)) as int;
    pow2_sub(128, sh);
    let w = pow2((128 - sh) as nat) as int;
    let a = s[i] as int;
    div_mod_id(a, t);
    let lo = val(s.take(i)) as int;
    let (d, m) = (a / t, a % t);
    let q = w * rest + d;
    let r = m * p + lo;
    let v = val(s) as int;
    assert(v == lo + p * (a + (t * w) * rest));
    assert(v == q * (t * p) + r) by (nonlinear_arith)
        requires v == lo + p * (a + (t * w) * rest), q == w * rest + d, r == m * p + lo, a == d * t + m;
    assert(0 <= r < t * p) by (nonlinear_arith) requires r == m * p + lo, 0 <= m, m + 1 <= t, 0 <= lo < p;
    lemma_mul_strictly_positive(t, p);
    div_unique(val(s) as int, t * p, q, r);
}

/// the fraction lost by dropping `bits` bits, from its top bit and the rest
pub proof fn loss_bits(x: nat, bits: nat)
    requires bits > 0
    ensures loss_of(x % pow2(bits), pow2(bits)) == match (nbit(x, (bits - 1) as nat), x % pow2((bits - 1) as nat) != 0) {
        (false, false) => Loss::ExactlyZero,
        (false, true) => Loss::LessThanHalf,
        (true, false) => Loss::ExactlyHalf,
        (true, true) => Loss::MoreThanHalf,
    }
{
    bit_mod(x, (bits - 1) as nat);
    lemma_pow2_pos((bits - 1) as nat);
}

/// bit 128 i + sh of a limb sequence
pub proof fn val_bit(s: Seq<u128>, i: int, sh: nat)
    requires 0 <= i < s.len(), sh < 128
    ensures nbit(val(s), (128 * i + sh) as nat) == nbit(s[i] as nat, sh)
{
    let k = (128 * i + sh) as nat;
    bit_mod(val(s), k);
    bit_mod(s[i] as nat, sh);
    val_mod(s, i, sh);
    val_mod(s, i, sh + 1);
    let p = pow2((128 * i) as nat) as int;
    lemma_pow2_pos((128 * i) as nat);
    lemma_pow2_pos(k);
    assert((128 * i + (sh + 1)) as nat == k + 1);
    let a = s[i] as int % pow2(sh) as int;
    assert((a + pow2(sh) as int) * p == a * p + pow2(sh) as int * p) by (nonlinear_arith);
}

pub proof fn shr_add(x: nat, a: nat, b: nat)
    ensures (x / pow2(a)) / pow2(b) == x / pow2(a + b)
{
    lemma_pow2_pos(a);
    lemma_pow2_pos(b);
    pow2_add(a, b);
    div_div(x as int, pow2(a) as int, pow2(b) as int);
}

/// the lowest set bit of a limb sequence sits in its lowest non-zero limb
pub proof fn tz_val(s: Seq<u128>, i: int)
    requires 0 <= i < s.len(), s[i] != 0, forall|j: int| 0 <= j < i ==> s[j] == 0
    ensures val(s) > 0, forall|k: nat| #![trigger nbit(s[i] as nat, k)] k < 128 && nbit(s[i] as nat, k) && s[i] as nat % pow2(k) == 0
        ==> nbit(val(s), (128 * i + k) as nat) && val(s) % pow2((128 * i + k) as nat) == 0
{
    val_zero(s);
    assert forall|k: nat| #![trigger nbit(s[i] as nat, k)] k < 128 && nbit(s[i] as nat, k) && s[i] as nat % pow2(k) == 0
        implies nbit(val(s), (128 * i + k) as nat) && val(s) % pow2((128 * i + k) as nat) == 0 by {
        val_bit(s, i, k);
        val_mod(s, i, k);
        val_zero(s.take(i));
    }
}

/// (x mod a*b) / a == (x / a) mod b
pub proof fn mod_div(x: int, a: int, b: int)
    requires x >= 0, a > 0, b > 0
    ensures (x % (a * b)) / a == (x / a) % b, a * b > 0
{
    lemma_mul_strictly_positive(a, b);
    let m = a * b;
    div_mod_id(x, m);
    let (q, r) = (x / m, x % m);
    div_mod_id(r, a);
    let (d, e) = (r / a, r % a);
    // x == a * (q * b + d) + e
    assert(x == (q * b + d) * a + e) by (nonlinear_arith) requires x == q * m + r, m == a * b, r == d * a + e;
    div_unique(x, a, q * b + d, e);
    lemma_mul_is_commutative(a, b);
    div_lt(r, a, b);
    div_unique(x / a, b, q, d);
}

/// x mod 2^(n + k) from its low n bits and the next k
pub proof fn mod_join(x: nat, n: nat, k: nat)
    ensures x % pow2(n + k) == x % pow2(n) + ((x / pow2(n)) % pow2(k)) * pow2(n), x % pow2(n) < pow2(n)
{
    let (a, b) = (pow2(n) as int, pow2(k) as int);
    lemma_pow2_pos(n);
    lemma_pow2_pos(k);
    pow2_add(n, k);
    let xi = x as int;
    div_mod_id(xi, a);
    let (q, r) = (xi / a, xi % a);
    div_mod_id(q, b);
    let (d, e) = (q / b, q % b);
    assert(xi == d * (a * b) + (r + e * a)) by (nonlinear_arith) requires xi == q * a + r, q == d * b + e;
    assert(0 <= r + e * a < a * b) by (nonlinear_arith) requires 0 <= r < a, 0 <= e, e + 1 <= b;
    lemma_mul_strictly_positive(a, b);
    div_unique(xi, a * b, d, r + e * a);
}

pub proof fn mod_mod(x: nat, n: nat, k: nat)
    requires k <= n
    ensures (x % pow2(n)) % pow2(k) == x % pow2(k)
{
    mod_join(x, k, (n - k) as nat);
    lemma_pow2_pos(k);
    lemma_pow2_pos((n - k) as nat);
    lemma_pow2_pos(n);
    let e = (x / pow2(k)) % pow2((n - k) as nat);
    assert(k + (n - k) as nat == n);
    div_unique((x % pow2(n)) as int, pow2(k) as int, e as int, (x % pow2(k)) as int);
}

/// the value of s starting at bit lsb, seen from limb lsb / 128
pub proof fn skip_div(s: Seq<u128>, lsb: nat)
    requires lsb / 128 <= s.len()
    ensures val(s) / pow2(lsb) == val(s.skip(lsb as int / 128)) / pow2(lsb % 128), val(s.skip(lsb as int / 128)) == val(s) / pow2((128 * (lsb / 128)) as nat)
{
    let j = lsb as int / 128;
    val_split(s, j);
    val_bound(s.take(j));
    let p = pow2((128 * j) as nat) as int;
    lemma_mul_is_commutative(p, val(s.skip(j)) as int);
    div_unique(val(s) as int, p, val(s.skip(j)) as int, val(s.take(j)) as int);
    shr_add(val(s), (128 * j) as nat, lsb % 128);
}

/// value of the low limbs
pub proof fn take_mod(s: Seq<u128>, i: int)
    requires 0 <= i <= s.len()
    ensures val(s.take(i)) == val(s) % pow2((128 * i) as nat), val(s.skip(i)) == val(s) / pow2((128 * i) as nat)
{
    val_split(s, i);
    val_bound(s.take(i));
    let p = pow2((128 * i) as nat) as int;
    lemma_mul_is_commutative(p, val(s.skip(i)) as int);
    div_unique(val(s) as int, p, val(s.skip(i)) as int, val(s.take(i)) as int);
}

/// low bits of a value sit in its low limb
pub proof fn low_limb(s: Seq<u128>, k: nat)
    requires s.len() > 0, k <= 128
    ensures val(s) % pow2(k) == s[0] as nat % pow2(k)
{
    val_mod(s, 0, k);
    lemma_pow2_pos(k);
    p128();
    let z = s[0] as nat % pow2(k);
    assert(z * pow2(0) == z) by (nonlinear_arith) requires pow2(0) == 1;
    assert(s.take(0).len() == 0);
    assert(val(s.take(0)) == 0);
}

/// the top limb of a value below 2^(128 i + c)
pub proof fn take_all_mod(s: Seq<u128>, i: int, c: nat)
    requires i == s.len() - 1, i >= 0, c <= 128, val(s) < pow2((128 * i + c) as nat)
    ensures s[i] < pow2(c)
{
    val_take(s, i);
    val_take_all(s);
    pow2_add(c, (128 * i) as nat);
    assert(c + (128 * i) as nat == (128 * i + c) as nat);
    let p = pow2((128 * i) as nat) as int;
    lemma_pow2_pos((128 * i) as nat);
    let (a, b, v) = (s[i] as int, pow2(c) as int, val(s.take(i)) as int);
    assert(a < b) by (nonlinear_arith) requires v + a * p < b * p, v >= 0, p > 0;
}

// ---- schoolbook multiplication of two limbs by halves ---------------------------------------------

pub open spec fn half_of(a0: int, a1: int, i: int) -> int { if i == 0 { a0 } else { a1 } }

/// the sum of the partial products before (i, j)
pub open spec fn wmul(a0: int, a1: int, b0: int, b1: int, i: int, j: int) -> int
    decreases i, j
{
    if i <= 0 && j <= 0 { 0 }
    else if j <= 0 { wmul(a0, a1, b0, b1, i - 1, 2) }
    else { wmul(a0, a1, b0, b1, i, j - 1) + half_of(a0, a1, i) * half_of(b0, b1, j - 1) * pow2((64 * (i + j - 1)) as nat) }
}

pub proof fn four(x: int, y: int, a0: int, a1: int, b0: int, b1: int, w: int)
    requires x == a1 * w + a0, y == b1 * w + b0
    ensures x * y == a0 * b0 + a0 * b1 * w + a1 * b0 * w + a1 * b1 * (w * w)
{
    let (u, v) = (a1 * w, b1 * w);
    assert((u + a0) * (v + b0) == u * v + u * b0 + a0 * v + a0 * b0) by (nonlinear_arith);
    assert((a1 * w) * (b1 * w) == a1 * b1 * (w * w)) by (nonlinear_arith);
    assert((a1 * w) * b0 == a1 * b0 * w) by (nonlinear_arith);
    assert(a0 * (b1 * w) == a0 * b1 * w) by (nonlinear_arith);
}

pub proof fn wmul_eval(a: u128, b: u128)
    ensures ({
        let w = pow2(64) as int;
        let (a0, a1, b0, b1) = (a as int % w, a as int / w, b as int % w, b as int / w);
        &&& wmul(a0, a1, b0, b1, 0, 0) == 0
        &&& wmul(a0, a1, b0, b1, 0, 1) == a0 * b0
        &&& wmul(a0, a1, b0, b1, 0, 2) == a0 * b0 + a0 * b1 * w
        &&& wmul(a0, a1, b0, b1, 1, 0) == a0 * b0 + a0 * b1 * w
        &&& wmul(a0, a1, b0, b1, 1, 1) == a0 * b0 + a0 * b1 * w + a1 * b0 * w
        &&& wmul(a0, a1, b0, b1, 1, 2) == a as int * b as int
        &&& wmul(a0, a1, b0, b1, 2, 0) == a as int * b as int
        &&& 0 <= a0 < w && 0 <= a1 < w && 0 <= b0 < w && 0 <= b1 < w
        &&& forall|i: int, j: int| 0 <= i <= 1 && 0 <= j <= 2 ==> 0 <= #[trigger] wmul(a0, a1, b0, b1, i, j) <= (a as int * b as int)
        &&& (a as int * b as int) < pow2(256)
        &&& w * w == pow2(128)
    })
{
    let w = pow2(64) as int;
    p128();
    pow2_add(64, 64);
    div_mod_id(a as int, w);
    div_mod_id(b as int, w);
    low64(a);
    low64(b);
    let (a0, a1, b0, b1) = (a as int % w, a as int / w, b as int % w, b as int / w);
    reveal_with_fuel(wmul, 8);
    let (ai, bi) = (a as int, b as int);
    four(ai, bi, a0, a1, b0, b1, w);
    assert(0 <= a0 * b0 && 0 <= a0 * b1 * w && 0 <= a1 * b0 * w && 0 <= a1 * b1 * (w * w)) by (nonlinear_arith) requires 0 <= a0, 0 <= a1, 0 <= b0, 0 <= b1, 0 <= w;
    lemma_mul_basics(a0 * b0);
    pow2_add(128, 128);
    assert(ai * bi < pow2(128) * pow2(128)) by (nonlinear_arith) requires 0 <= ai < pow2(128), 0 <= bi < pow2(128);
    assert forall|i: int, j: int| 0 <= i <= 1 && 0 <= j <= 2 implies 0 <= #[trigger] wmul(a0, a1, b0, b1, i, j) <= ai * bi by {
        assert(i == 0 || i == 1);
        assert(j == 0 || j == 1 || j == 2);
    }
}

/// both halves of a limb, as the code selects them
pub proof fn low64(a: u128)
    ensures (a >> 0) & sub(1u128 << 64, 1) == a as nat % pow2(64), (a >> 64) & sub(1u128 << 64, 1) == a as nat / pow2(64),
        a as nat / pow2(64) < pow2(64), sub(1u128 << 64, 1) == (1u128 << 64) - 1, (1u128 << 64) as nat == pow2(64)
{
    p128();
    mask_mod(a, 64);
    shr_div(a, 64);
    one_shl(64);
    assert(a >> 0 == a) by (bit_vector);
    mask_mod(a >> 64, 64);
    lemma_pow2_pos(64);
    assert(pow2(128) == pow2(64) * pow2(64)) by { pow2_add(64, 64); }
    div_lt(a as int, pow2(64) as int, pow2(64) as int);
    lemma_small_mod(a as nat / pow2(64), pow2(64));
}

pub open spec fn carry(c: u128, n: nat) -> nat { if c == 0 { 0 } else { pow2((128 * n) as nat) } }

pub proof fn carry_mul(c: u128, n: nat)
    requires c <= 1
    ensures c as int * pow2((128 * n) as nat) == carry(c, n)
{
    lemma_mul_basics(pow2((128 * n) as nat) as int);
}

// ---- addition and subtraction of aligned significands ---------------------------------------------

pub open spec fn absdiff(a: nat, b: nat) -> nat { if a < b { (b - a) as nat } else { (a - b) as nat } }

pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }

#[verifier::opaque]
/// (m, e, s, l) is the exact sum of (ma, ea, sa) and (mb, eb, sb), truncated to a multiple of 2^e
pub open spec fn addsub(ma: nat, ea: int, sa: bool, mb: nat, eb: int, sb: bool, m: nat, e: int, s: bool, l: Loss) -> bool {
    let k = imin(ea, eb);
    let a = ma * pow2((ea - k) as nat);
    let b = mb * pow2((eb - k) as nat);
    let n = if sa == sb { a + b } else { absdiff(a, b) };
    let t = pow2((e - k) as nat);
    &&& e >= k
    &&& (e == imax(ea, eb) || e == imax(ea, eb) - 1)
    &&& m == n / t
    &&& l == loss_of(n % t, t)
    &&& s == (if sa != sb && a < b { !sa } else { sa })
    &&& blen(m) <= imax(blen(ma) as int, blen(mb) as int) + 1
    &&& (l != Loss::ExactlyZero ==> blen(m) >= blen(ma) && blen(m) >= blen(mb))
}

pub open spec fn bits_gt(a: int, b: int) -> bool { a > b }

pub proof fn add_cut(x: nat, y: nat, s: nat)
    ensures (x * pow2(s) + y) / pow2(s) == x + y / pow2(s), (x * pow2(s) + y) % pow2(s) == y % pow2(s)
{
    let t = pow2(s) as int;
    lemma_pow2_pos(s);
    div_mod_id(y as int, t);
    let (q, r, xi, yi) = (y as int / t, y as int % t, x as int, y as int);
    assert(xi * t + yi == (xi + q) * t + r) by (nonlinear_arith) requires yi == q * t + r;
    div_unique(xi * t + yi, t, xi + q, r);
}

pub proof fn sub_cut(x: nat, y: nat, s: nat)
    requires y % pow2(s) == 0 ==> x >= y / pow2(s), y % pow2(s) != 0 ==> x >= y / pow2(s) + 1
    ensures x * pow2(s) >= y,
        (x * pow2(s) - y) as nat / pow2(s) == x - y / pow2(s) - (if y % pow2(s) != 0 { 1int } else { 0 }),
        loss_of((x * pow2(s) - y) as nat % pow2(s), pow2(s)) == loss_inv(loss_of(y % pow2(s), pow2(s)))
{
    let t = pow2(s) as int;
    lemma_pow2_pos(s);
    div_mod_id(y as int, t);
    let (q, r, xi, yi) = (y as int / t, y as int % t, x as int, y as int);
    if r == 0 {
        assert(xi * t - yi == (xi - q) * t + 0) by (nonlinear_arith) requires yi == q * t + r, r == 0;
        assert((xi - q) * t >= 0) by (nonlinear_arith) requires xi >= q, t > 0;
        div_unique(xi * t - yi, t, xi - q, 0);
    } else {
        assert(xi * t - yi == (xi - q - 1) * t + (t - r)) by (nonlinear_arith) requires yi == q * t + r;
        assert((xi - q - 1) * t >= 0) by (nonlinear_arith) requires xi >= q + 1, t > 0;
        div_unique(xi * t - yi, t, xi - q - 1, t - r);
    }
}

/// x * 2^d - y for d > 0, after moving x one bit up and y (d - 1) bits down
pub proof fn addsub_gt(x: nat, y: nat, d: nat)
    requires d > 0, blen(x) >= blen(y)
    ensures ({
        let s = (d - 1) as nat;
        let t = pow2(s);
        let (y1, f) = (y / t, y % t);
        let n = absdiff(x * pow2(d), y);
        let l = loss_of(f, t);
        let borrow = if l != Loss::ExactlyZero { 1int } else { 0 };
        &&& (l != Loss::ExactlyZero ==> 2 * x >= y1 + 1 && x * pow2(d) >= y)
        &&& (2 * x >= y1 ==> x * pow2(d) >= y && n / t == 2 * x - y1 - borrow && loss_of(n % t, t) == loss_inv(l))
        &&& (2 * x < y1 ==> x * pow2(d) < y && l == Loss::ExactlyZero && n / t == y1 - 2 * x && n % t == 0)
        &&& blen(n / t) <= blen(x) + 1
        &&& (l != Loss::ExactlyZero ==> blen(n / t) >= blen(x))
    })
{
    let s = (d - 1) as nat;
    let t = pow2(s);
    let (y1, f) = (y / t, y % t);
    lemma_pow2_pos(s);
    p128();
    blen_bounds(x);
    blen_bounds(y);
    pow2_half(d);
    div_mod_id(y as int, t as int);
    let (xi, ti) = (x as int, t as int);
    assert(xi * (2 * ti) == (2 * xi) * ti) by (nonlinear_arith);
    let bx = blen(x);
    pow2_le(blen(y), bx);
    pow2_half(bx + 1);
    if s == 0 {
        assert(y / 1 == y && y % 1 == 0);
        assert(x * pow2(d) == 2 * x) by (nonlinear_arith) requires pow2(d) == 2;
        assert(2 * x * pow2(0) == 2 * x) by (nonlinear_arith) requires pow2(0) == 1;
        if 2 * x >= y {
            sub_cut(2 * x, y, 0);
        } else {
            let z = (y - 2 * x) as nat;
            div_unique(z as int, 1, z as int, 0);
        }
        let n = absdiff(2 * x, y);
        assert(n < pow2(bx + 1));
        blen_le(n, bx + 1);
        assert(absdiff(x * pow2(d), y) == n);
        assert(n / 1 == n);
    } else {
        // 2x >= 2^blen(x) > y >= y1, and y1 + 1 <= 2^(blen(x) - 1)
        if x == 0 { assert(bx == 0); assert(y == 0); lemma_basic_div(0, t as int); lemma_small_mod(0, t); }
        else {
            pow2_half(bx);
            pow2_half(s);
            let y2 = y as int;
            lemma_pow2_pos((s - 1) as nat);
            let h = pow2((s - 1) as nat) as int;
            let b1 = pow2((bx - 1) as nat) as int;
            lemma_pow2_pos((bx - 1) as nat);
            assert(y2 < b1 * ti) by (nonlinear_arith) requires y2 < 2 * b1, ti == 2 * h, h >= 1, b1 > 0;
            div_lt(y as int, t as int, b1);
        }
        sub_cut(2 * x, y, s);
        let n = absdiff(x * pow2(d), y);
        let m = n / t;
        assert(m < pow2(bx + 1));
        blen_le(m, bx + 1);
        if f != 0 {
            // blen(m) >= bx
            if blen(m) < bx { blen_le(m, (bx - 1) as nat); }
        }
    }
}

/// x * 2^d + y, y moved d bits down
pub proof fn addsub_add(x: nat, y: nat, d: nat)
    ensures ({
        let t = pow2(d);
        let n = x * t + y;
        &&& n / t == x + y / t
        &&& n % t == y % t
        &&& blen(n / t) <= imax(blen(x) as int, blen(y) as int) + 1
        &&& blen(n / t) >= blen(x)
        &&& x + y / t < pow2((imax(blen(x) as int, blen(y) as int) + 1) as nat)
        &&& x * pow2(0) == x && y * pow2(0) == y
    })
{
    let t = pow2(d);
    add_cut(x, y, d);
    lemma_pow2_pos(d);
    p128();
    lemma_mul_basics(x as int);
    lemma_mul_basics(y as int);
    blen_bounds(x);
    blen_bounds(y);
    let b = imax(blen(x) as int, blen(y) as int) as nat;
    pow2_le(blen(x), b);
    pow2_le(blen(y), b);
    pow2_half(b + 1);
    lemma_div_is_ordered_by_denominator(y as int, 1, t as int);
    assert(y as int / 1 == y);
    blen_le(x + y / t, b + 1);
    blen_mono(x, x + y / t);
}

pub proof fn mul_step(l: int, c: int, w: int, x: int, y: int, c1: int, d: int, qi: int, qj: int, qk: int, bt: int)
    requires l + c * w == x * y + c1 + d, qk == qi * qj
    ensures l * qk + c * (w * qk) == c1 * qk + d * qk + (x * qi * (bt + y * qj) - x * qi * bt)
{
    assert((l + c * w) * qk == l * qk + c * (w * qk)) by (nonlinear_arith);
    assert((x * y + c1 + d) * qk == x * y * qk + c1 * qk + d * qk) by (nonlinear_arith);
    assert(x * qi * (bt + y * qj) == x * qi * bt + x * y * (qi * qj)) by (nonlinear_arith);
}

pub open spec fn borrow_of(l: Loss) -> nat { if l == Loss::ExactlyZero { 0 } else { 1 } }

/// what the code computes for a difference with ea > eb
pub proof fn addsub_d_gt(ma: nat, ea: int, sa: bool, mb: nat, eb: int, sb: bool)
    requires ea > eb, sa != sb, blen(ma) >= blen(mb)
    ensures ({
        let s = (ea - eb - 1) as nat;
        let y1 = mb / pow2(s);
        let l = loss_of(mb % pow2(s), pow2(s));
        let w = borrow_of(l);
        &&& y1 <= mb
        &&& (2 * ma < y1 ==> l == Loss::ExactlyZero && addsub(ma, ea, sa, mb, eb, sb, (y1 - 2 * ma) as nat, ea - 1, !sa, loss_inv(l)))
        &&& (2 * ma >= y1 ==> 2 * ma >= y1 + w && addsub(ma, ea, sa, mb, eb, sb, (2 * ma - y1 - w) as nat, ea - 1, sa, loss_inv(l)))
    })
{
    reveal(addsub);
    addsub_gt(ma, mb, (ea - eb) as nat);
    p128();
    lemma_mul_basics(mb as int);
    lemma_pow2_pos((ea - eb - 1) as nat);
    lemma_div_is_ordered_by_denominator(mb as int, 1, pow2((ea - eb - 1) as nat) as int);
    assert(mb as int / 1 == mb);
}

pub proof fn addsub_d_lt(ma: nat, ea: int, sa: bool, mb: nat, eb: int, sb: bool)
    requires ea < eb, sa != sb, blen(mb) >= blen(ma)
    ensures ({
        let s = (eb - ea - 1) as nat;
        let x1 = ma / pow2(s);
        let l = loss_of(ma % pow2(s), pow2(s));
        let w = borrow_of(l);
        &&& x1 <= ma
        &&& (x1 < 2 * mb ==> 2 * mb >= x1 + w && addsub(ma, ea, sa, mb, eb, sb, (2 * mb - x1 - w) as nat, eb - 1, !sa, loss_inv(l)))
        &&& (x1 >= 2 * mb ==> l == Loss::ExactlyZero && addsub(ma, ea, sa, mb, eb, sb, (x1 - 2 * mb) as nat, eb - 1, sa, loss_inv(l)))
    })
{
    reveal(addsub);
    let s = (eb - ea - 1) as nat;
    addsub_gt(mb, ma, (eb - ea) as nat);
    p128();
    lemma_mul_basics(ma as int);
    lemma_pow2_pos(s);
    lemma_div_is_ordered_by_denominator(ma as int, 1, pow2(s) as int);
    assert(ma as int / 1 == ma);
    let x1 = ma / pow2(s);
    let l = loss_of(ma % pow2(s), pow2(s));
    if x1 < 2 * mb {
        assert(2 * mb >= x1);
        if l == Loss::ExactlyZero {
            // strictly below: x1 * t < 2 mb * t
            let t = pow2(s) as int;
            div_mod_id(ma as int, t);
            let (xi, mi, mbi) = (x1 as int, ma as int, mb as int);
            pow2_half((eb - ea) as nat);
            assert(mbi * (2 * t) > mi) by (nonlinear_arith) requires mi == xi * t + 0, xi < 2 * mbi, t > 0;
        } else {
            let t = pow2(s) as int;
            div_mod_id(ma as int, t);
            let (xi, mi, mbi, f) = (x1 as int, ma as int, mb as int, ma as int % t);
            pow2_half((eb - ea) as nat);
            assert(mbi * (2 * t) > mi) by (nonlinear_arith) requires mi == xi * t + f, f < t, xi + 1 <= 2 * mbi, t > 0;
        }
    } else if l != Loss::ExactlyZero {
        assert(false);
    } else {
        let t = pow2(s) as int;
        div_mod_id(ma as int, t);
        let (xi, mi, mbi) = (x1 as int, ma as int, mb as int);
        pow2_half((eb - ea) as nat);
        assert(mbi * (2 * t) <= mi) by (nonlinear_arith) requires mi == xi * t + 0, xi >= 2 * mbi, t > 0;
        if x1 == 2 * mb {
            assert(mbi * (2 * t) == mi) by (nonlinear_arith) requires mi == xi * t + 0, xi == 2 * mbi, t > 0;
            div_unique(0, t, 0, 0);
        }
    }
}

pub proof fn addsub_d_eq(ma: nat, ea: int, sa: bool, mb: nat, sb: bool)
    requires sa != sb
    ensures addsub(ma, ea, sa, mb, ea, sb, absdiff(ma, mb), ea, (if ma < mb { !sa } else { sa }), Loss::ExactlyZero)
{
    reveal(addsub);
    p128();
    lemma_mul_basics(ma as int);
    lemma_mul_basics(mb as int);
    if ma < mb { blen_mono((mb - ma) as nat, mb); } else { blen_mono((ma - mb) as nat, ma); }
    let z = absdiff(ma, mb);
    assert(z / 1 == z && z % 1 == 0);
}

pub proof fn addsub_same(ma: nat, ea: int, sa: bool, mb: nat, eb: int)
    ensures ({
        let g = pow2((if ea > eb { ea - eb } else { eb - ea }) as nat);
        let (x, y) = if ea > eb { (ma, mb) } else { (mb, ma) };
        &&& x + y / g < pow2((imax(blen(ma) as int, blen(mb) as int) + 1) as nat)
        &&& (ea == eb || blen(x) >= blen(y) ==> addsub(ma, ea, sa, mb, eb, sa, x + y / g, imax(ea, eb), sa, loss_of(y % g, g)))
    })
{
    reveal(addsub);
    p128();
    lemma_mul_basics(ma as int);
    lemma_mul_basics(mb as int);
    if ea > eb { addsub_add(ma, mb, (ea - eb) as nat); } else { addsub_add(mb, ma, (eb - ea) as nat); }
}

// ---- division -------------------------------------------------------------------------------------

pub open spec fn div_bd(d0: nat, p: nat) -> nat { (p - blen(d0)) as nat }
pub open spec fn div_bn(n0: nat, d0: nat, p: nat) -> nat {
    let b = (p - blen(n0)) as nat;
    if n0 * pow2(b) < d0 * pow2(div_bd(d0, p)) { b + 1 } else { b }
}

/// the chunks of limb x above position w * i are divided: quotient bits r, remainder rem
#[verifier::opaque]
pub open spec fn short_at(x: nat, r: nat, rem: nat, r0: nat, dv: nat, w: nat, i: nat) -> bool {
    &&& rem < dv
    &&& r % pow2(w * i) == 0
    &&& r0 * pow2((128 - w * i) as nat) + x / pow2(w * i) == (r / pow2(w * i)) * dv + rem
}

pub proof fn short_start(x: u128, r0: nat, dv: nat, w: nat, i: nat)
    requires w * i == 128, r0 < dv
    ensures short_at(x as nat, 0, r0, r0, dv, w, i)
{
    reveal(short_at);
    p128();
    lemma_small_mod(0, pow2(128));
    lemma_basic_div(0, pow2(128) as int);
    lemma_basic_div(x as int, pow2(128) as int);
    assert((128 - w * i) as nat == 0);
    assert(r0 * 1 == r0);
    let d = dv as int;
    assert(0 * d == 0);
}

pub proof fn short_end(x: nat, r: nat, rem: nat, r0: nat, dv: nat, w: nat)
    requires short_at(x, r, rem, r0, dv, w, 0)
    ensures r0 * pow2(128) + x == r * dv + rem, rem < dv
{
    reveal(short_at);
    p128();
    assert(w * 0 == 0);
    assert(pow2(w * 0) == 1);
    assert(x / 1 == x && r / 1 == r);
}

/// one chunk of a short division inside a limb
pub proof fn short_step(x: u128, r: u128, rem: u128, r0: nat, dv: u128, bits: u128, i: u128)
    requires 0 < bits <= 64, 128u128 % bits == 0, i < 128u128 / bits, 0 < dv, dv < pow2(bits as nat), rem < dv,
        short_at(x as nat, r as nat, rem as nat, r0, dv as nat, bits as nat, (i + 1) as nat),
    ensures ({
        let pos = (bits * i) as u128;
        let chunk = (x >> pos) & sub(1u128 << bits, 1);
        let comb = rem * pow2(bits as nat) + chunk;
        let q = comb as nat / dv as nat;
        let r1 = (r | ((q as u128) << pos)) as nat;
        &&& bits * i < 128 && bits * i + bits <= 128
        &&& sub(1u128 << bits, 1) == (1u128 << bits) - 1
        &&& (1u128 << bits) as nat == pow2(bits as nat)
        &&& chunk < pow2(bits as nat)
        &&& comb < pow2(bits as nat) * pow2(bits as nat)
        &&& q < pow2(bits as nat)
        &&& comb % (dv as int) < dv
        &&& short_at(x as nat, r1, (comb % (dv as int)) as nat, r0, dv as nat, bits as nat, i as nat)
        &&& q * pow2((bits * i) as nat) < pow2(128)
    }),
{
    reveal(short_at);
    let w = bits as nat;
    let k = (bits * i) as nat;
    assert(bits as nat * (i + 1) as nat == (bits * (i + 1)) as nat);
    assert(bits as nat * i as nat == k);
    let bi = bits as int;
    let ii = i as int;
    assert(bi * (ii + 1) == bi * ii + bi) by (nonlinear_arith);

    assert(bi * (ii + 1) <= 128) by {
        div_mod_id(128, bi);
        let nn = 128int / bi;
        assert(bi * (ii + 1) <= 128) by (nonlinear_arith) requires ii + 1 <= nn, 128 == bi * nn + 0, bi > 0;
    }
    assert(bi * ii >= 0) by (nonlinear_arith) requires bi > 0, ii >= 0;
    let pos = (bits * i) as u128;
    assert(k + w == (bits * (i + 1)) as nat);
    one_shl(bits);
    mask_mod(x >> pos, bits);
    shr_div(x, pos);
    lemma_pow2_pos(w);
    lemma_pow2_pos(k);
    lemma_pow2_pos(k + w);
    let pw = pow2(w) as int;
    let pk = pow2(k) as int;
    let y = (x as nat / pow2(k)) as int;
    div_mod_id(y, pw);
    shr_add(x as nat, k, w);
    let hi = y / pw;
    let chunk = y % pw;
    assert(x as nat / pow2(k + w) == hi);
    let comb = rem as int * pw + chunk;
    let d = dv as int;
    let remi = rem as int;
    div_mod_id(comb, d);
    assert((remi + 1) * pw <= d * pw) by (nonlinear_arith) requires remi + 1 <= d, pw > 0;
    assert((remi + 1) * pw == remi * pw + pw) by (nonlinear_arith);
    assert(comb >= 0) by (nonlinear_arith) requires comb == remi * pw + chunk, 0 <= chunk, remi >= 0, pw > 0;
    lemma_mul_is_commutative(d, pw);
    div_lt(comb, d, pw);
    let q = comb / d;
    mul_lt(d, pw, pw);
    pow2_add(k, w);
    pow2_le(k + w, 128);
    // q << pos
    assert(q * pk < pk * pw) by (nonlinear_arith) requires q < pw, pk > 0;
    p128();
    pow2_le(w, 64);
    shl_nowrap(q as u128, pos);
    // r | ..
    if k + w == 128 {
        // r is a multiple of 2^128, that is 0
        lemma_small_mod(r as nat, pow2(128));
        let z = (q as u128) << pos;
        assert(0u128 | z == z) by (bit_vector);
    } else {
        or_disjoint(r, (q as u128) << pos, (k + w) as u128);
    }
    let r1 = r as int + q * pk;
    assert((r | ((q as u128) << pos)) as int == r1);
    // r == rq * 2^(k+w)
    div_mod_id(r as int, pow2(k + w) as int);
    let rq = r as int / pow2(k + w) as int;
    let ri = r as int;
    assert(r1 == (rq * pw + q) * pk + 0) by (nonlinear_arith) requires r1 == ri + q * pk, ri == rq * (pk * pw) + 0;
    div_unique(r1, pk, rq * pw + q, 0);
    pow2_add((128 - (k + w)) as nat, w);
    assert((128 - (k + w)) as nat + w == (128 - k) as nat);
    let g = pow2((128 - (k + w)) as nat) as int;
    let r0i = r0 as int;
    assert(r0i * (g * pw) + y == (rq * pw + q) * d + comb % d) by (nonlinear_arith)
        requires r0i * g + hi == rq * d + remi, y == hi * pw + chunk, comb == remi * pw + chunk, comb == q * d + comb % d;
}

pub proof fn join16(a: u16, b: u16)
    ensures (((a as u32) << 16) | (b as u32)) == a * 0x1_0000 + b
{
    assert((((a as u32) << 16) | (b as u32)) == add(mul(a as u32, 0x1_0000), b as u32)) by (bit_vector);
}
pub proof fn join32(a: u32, b: u32)
    ensures (((a as u64) << 32) | (b as u64)) == a * 0x1_0000_0000 + b
{
    assert((((a as u64) << 32) | (b as u64)) == add(mul(a as u64, 0x1_0000_0000), b as u64)) by (bit_vector);
}
pub proof fn join64(a: u64, b: u64)
    ensures (((a as u128) << 64) | (b as u128)) == a * 0x1_0000_0000_0000_0000 + b
{
    p128();
    shl_nowrap(a as u128, 64);
    div_exact(a as int, pow2(64) as int);
    or_disjoint((a as u128) << 64, b as u128, 64);
}

/// limbs above k are divided already
#[verifier::opaque]
pub open spec fn short_inv(o: Seq<u128>, t: Seq<u128>, hi: nat, dv: nat, rem: nat, k: int) -> bool {
    &&& t.len() == o.len()
    &&& forall|j: int| 0 <= j < k ==> t[j] == o[j]
    &&& hi * pow2((128 * (o.len() - k)) as nat) + val(o.skip(k)) == val(t.skip(k)) * dv + rem
    &&& rem < dv
}

pub proof fn short_limb(o: Seq<u128>, t: Seq<u128>, hi: nat, dv: nat, rem: nat, k: int, x: u128, r: u128, rem1: nat)
    requires short_inv(o, t, hi, dv, rem, k), 0 < k <= o.len(), rem * pow2(128) + x == r * dv + rem1, rem1 < dv, x == t[k - 1]
    ensures short_inv(o, t.update(k - 1, r), hi, dv, rem1, k - 1)
{
    reveal(short_inv);
    let u = t.update(k - 1, r);
    val_low(o, k - 1);
    val_low(u, k - 1);
    assert(u.skip(k) =~= t.skip(k));
    let n = (128 * (o.len() - k)) as nat;
    pow2_add(n, 128);
    assert(n + 128 == (128 * (o.len() - (k - 1))) as nat);
    let (h, p, w, so, st, d, rm, x, rr, r1) = (hi as int, pow2(n) as int, pow2(128) as int, val(o.skip(k)) as int, val(t.skip(k)) as int, dv as int, rem as int, x as int, r as int, rem1 as int);
    assert(h * (p * w) + (x + w * so) == (rr + w * st) * d + r1) by (nonlinear_arith)
        requires h * p + so == st * d + rm, rm * w + x == rr * d + r1;
}

pub proof fn short_begin(o: Seq<u128>, hi: nat, dv: nat)
    requires hi < dv
    ensures short_inv(o, o, hi, dv, hi, o.len() as int)
{
    reveal(short_inv);
    p128();
    let n = o.len() as int;
    assert(o.skip(n).len() == 0);
    assert(val(o.skip(n)) == 0);
    assert((128 * (o.len() - n)) as nat == 0);
    let d = dv as int;
    assert(0 * d == 0);
    assert(hi * 1 == hi);
}

pub proof fn short_finish(o: Seq<u128>, t: Seq<u128>, hi: nat, dv: nat, rem: nat)
    requires short_inv(o, t, hi, dv, rem, 0)
    ensures hi * pow2((128 * o.len()) as nat) + val(o) == val(t) * dv + rem, rem < dv, t.len() == o.len()
{
    reveal(short_inv);
    assert(o.skip(0) =~= o);
    assert(t.skip(0) =~= t);
}

pub proof fn val_low(s: Seq<u128>, k: int)
    requires 0 <= k < s.len()
    ensures val(s.skip(k)) == s[k] + pow2(128) * val(s.skip(k + 1))
{
    let u = s.skip(k);
    val_split(u, 1);
    val1(u.take(1));
    assert(u.skip(1) =~= s.skip(k + 1));
}

/// classes scale
pub proof fn loss_scale(x: nat, t: nat, g: nat)
    requires g > 0, x < t
    ensures loss_of(x * g, t * g) == loss_of(x, t)
{
    let (xi, ti, gi) = (x as int, t as int, g as int);
    assert(xi != 0 ==> xi * gi != 0) by (nonlinear_arith) requires gi > 0;
    assert(xi == 0 ==> xi * gi == 0) by (nonlinear_arith);
    assert((2 * xi < ti) == (2 * (xi * gi) < ti * gi)) by (nonlinear_arith) requires gi > 0;
    assert((2 * xi == ti) == (2 * (xi * gi) == ti * gi)) by (nonlinear_arith) requires gi > 0;
}

pub proof fn scale_div(x: nat, t: nat, g: nat)
    requires g > 0, t > 0
    ensures (x * g) / (t * g) == x / t, (x * g) % (t * g) == (x % t) * g, t * g > 0
{
    let (xi, ti, gi) = (x as int, t as int, g as int);
    div_mod_id(xi, ti);
    let (q, r) = (xi / ti, xi % ti);
    assert(xi * gi == q * (ti * gi) + r * gi) by (nonlinear_arith) requires xi == q * ti + r;
    assert(0 <= r * gi < ti * gi) by (nonlinear_arith) requires 0 <= r < ti, gi > 0;
    div_unique(xi * gi, ti * gi, q, r * gi);
}

/// a step of the long division: (q / 2^k) and the remainder r
pub open spec fn long_inv(nn: nat, d: nat, q: nat, r: nat, p: nat, k: nat) -> bool {
    &&& q % pow2(k) == 0
    &&& nn * pow2((p - k) as nat) == 2 * d * (q / pow2(k)) + r
    &&& r < 2 * d
    &&& (k < p ==> r % 2 == 0)
}

pub proof fn long_step(nn: nat, d: nat, q: nat, r: nat, p: nat, k: nat)
    requires long_inv(nn, d, q, r, p, k), 0 < k <= p
    ensures !nbit(q, (k - 1) as nat),
        r >= d ==> long_inv(nn, d, q + pow2((k - 1) as nat), (2 * (r - d)) as nat, p, (k - 1) as nat),
        r < d ==> long_inv(nn, d, q, 2 * r, p, (k - 1) as nat),
{
    let j = (k - 1) as nat;
    pow2_half(k);
    lemma_pow2_pos(j);
    let (qi, h) = (q as int, pow2(j) as int);
    div_mod_id(qi, 2 * h);
    let z = qi / (2 * h);
    assert(qi == (2 * z) * h + 0) by (nonlinear_arith) requires qi == z * (2 * h) + 0;
    div_unique(qi, h, 2 * z, 0);
    assert(qi + h == (2 * z + 1) * h + 0) by (nonlinear_arith) requires qi == (2 * z) * h;
    div_unique(qi + h, h, 2 * z + 1, 0);
    pow2_half((p - j) as nat);
    assert((p - j - 1) as nat == (p - k) as nat);
    let (ni, g, di, ri) = (nn as int, pow2((p - k) as nat) as int, d as int, r as int);
    assert(ni * (2 * g) == 2 * di * (2 * z) + 2 * ri) by (nonlinear_arith) requires ni * g == 2 * di * z + ri;
    assert(ni * (2 * g) == 2 * di * (2 * z + 1) + 2 * (ri - di)) by (nonlinear_arith) requires ni * g == 2 * di * z + ri;
}

/// the odd part of d
pub proof fn odd_part(d: nat, k: nat, p: nat)
    requires d > 0, blen(d) == p, d % pow2(k) == 0, k < p
    ensures d == (d / pow2(k)) * pow2(k), blen(d / pow2(k)) == p - k, d / pow2(k) >= pow2((p - k - 1) as nat), d / pow2(k) < pow2((p - k) as nat)
{
    lemma_pow2_pos(k);
    div_mod_id(d as int, pow2(k) as int);
    blen_shr(d, k);
    blen_bounds(d / pow2(k));
    blen_bounds(d);
    p128();
}

/// bits pushed out at the top by a left shift
pub proof fn shl_out(s: Seq<u128>, k: nat)
    requires s.len() > 0, 0 < k < 128
    ensures val(s) * pow2(k) == (s.last() as nat / pow2((128 - k) as nat)) * pow2((128 * s.len()) as nat) + (val(s) * pow2(k)) % pow2((128 * s.len()) as nat)
{
    let n = s.len() as int;
    let m = (128 * s.len()) as nat;
    let c = (128 - k) as nat;
    lemma_pow2_pos(m);
    lemma_pow2_pos(c);
    lemma_pow2_pos(k);
    div_mod_id((val(s) * pow2(k)) as int, pow2(m) as int);
    // val(s) * 2^k / 2^m == val(s) / 2^(m - k) == last / 2^(128 - k)
    pow2_sub(m, k);
    lemma_pow2_pos((m - k) as nat);
    scale_div(val(s), pow2((m - k) as nat), pow2(k));
    skip_div(s, (m - k) as nat);
    assert((m - k) as int / 128 == n - 1 && (m - k) % 128 == c) by (nonlinear_arith) requires m == 128 * n, c == 128 - k, 0 < k < 128, n > 0;
    val1(s.skip(n - 1));
}

/// the divisor and the dividend after normalisation
pub open spec fn div_d(d0: nat, p: nat) -> nat { d0 * pow2(div_bd(d0, p)) }
pub open spec fn div_n(n0: nat, d0: nat, p: nat) -> nat { n0 * pow2(div_bn(n0, d0, p)) }

/// the quotient of n * 2^(p - 1) by d and the class of the remainder
#[verifier::opaque]
pub open spec fn div_res(n: nat, d: nat, p: nat, q: nat, l: Loss) -> bool {
    q == (n * pow2((p - 1) as nat)) / d && l == loss_of((n * pow2((p - 1) as nat)) % d, d)
}

pub proof fn div_setup(n0: nat, d0: nat, p: nat, m: nat)
    requires n0 > 0, d0 > 0, blen(n0) <= p, blen(d0) <= p, 0 < p < m
    ensures ({
        let b = (p - blen(n0)) as nat;
        let d = div_d(d0, p);
        let n = div_n(n0, d0, p);
        &&& blen(d) == p && 0 < d && d < pow2(p) && pow2((p - 1) as nat) <= d
        &&& d < pow2(m) && 2 * d < pow2(m)
        &&& n0 * pow2(b) < pow2(m)
        &&& blen(n0 * pow2(b)) == p
        &&& (n0 * pow2(b) >= d ==> n == n0 * pow2(b))
        &&& (n0 * pow2(b) < d ==> n == (n0 * pow2(b)) * pow2(1) && n < pow2(m))
        &&& d <= n && n < 2 * d
    }),
{
    let b = (p - blen(n0)) as nat;
    blen_shl(n0, b);
    blen_shl(d0, div_bd(d0, p));
    let (x, d) = (n0 * pow2(b), div_d(d0, p));
    blen_bounds(x);
    blen_bounds(d);
    pow2_half(p);
    pow2_half(p + 1);
    assert((p + 1 - 1) as nat == p);
    pow2_le(p + 1, m);
    p128();
    pow2_half(b + 1);
    assert((b + 1 - 1) as nat == b);
    let (y, z) = (n0 as int, pow2(b) as int);
    assert(y * (2 * z) == (y * z) * 2) by (nonlinear_arith);
}

pub proof fn div_one(n: nat, d: nat, p: nat)
    requires blen(d) == p, p > 0, d % pow2((p - 1) as nat) == 0
    ensures div_res(n, d, p, n, Loss::ExactlyZero), d == pow2((p - 1) as nat)
{
    reveal(div_res);
    blen_bounds(d);
    let t = pow2((p - 1) as nat) as int;
    lemma_pow2_pos((p - 1) as nat);
    pow2_half(p);
    let k = d as int / t;
    div_mod_id(d as int, t);
    assert(k == 1) by (nonlinear_arith) requires t > 0, t <= d < 2 * t, d == t * k;
    assert(t * 1 == t);
    assert(d == t);
    div_exact(n as int, t);
}

/// what the short divisions compute
pub proof fn div_short(n: nat, d: nat, p: nat, k: nat, q: nat, rem: nat)
    requires k < p, d > 0, d % pow2(k) == 0, n * pow2((p - k - 1) as nat) == q * (d / pow2(k)) + rem, rem < d / pow2(k)
    ensures div_res(n, d, p, q, loss_of(rem, d / pow2(k)))
{
    reveal(div_res);
    lemma_pow2_pos(k);
    div_mod_id(d as int, pow2(k) as int);
    let dv = d / pow2(k);
    let g = pow2(k);
    pow2_add((p - k - 1) as nat, k);
    assert((p - k - 1) as nat + k == (p - 1) as nat);
    let nn = n * pow2((p - k - 1) as nat);
    div_unique(nn as int, dv as int, q as int, rem as int);
    scale_div(nn, dv, g);
    loss_scale(rem, dv, g);
    let (a, b, c) = (n as int, pow2((p - k - 1) as nat) as int, g as int);
    assert(a * (b * c) == (a * b) * c) by (nonlinear_arith);
    lemma_mul_is_commutative(dv as int, g as int);
}

pub proof fn div_long(n: nat, d: nat, p: nat, q: nat, r: nat)
    requires p > 0, d > 0, long_inv(n, d, q, r, p, 0)
    ensures div_res(n, d, p, q, if r == 0 { Loss::ExactlyZero } else if r < d { Loss::LessThanHalf } else if r == d { Loss::ExactlyHalf } else { Loss::MoreThanHalf })
{
    reveal(div_res);
    p128();
    assert(q / 1 == q);
    pow2_half(p);
    let h = (r / 2) as int;
    let (a, b, qq, dd) = (n as int, pow2((p - 1) as nat) as int, q as int, d as int);
    assert(a * b == qq * dd + h) by (nonlinear_arith) requires a * (2 * b) == 2 * dd * qq + 2 * h;
    div_unique(a * b, dd, qq, h);
}

/// the extracted short divisor and the initial remainder
pub proof fn short_setup(s: Seq<u128>, d: nat, n: nat, p: nat, k: nat, top: u128)
    requires s.len() > 0, d > 0, blen(d) == p, d % pow2(k) == 0, k + 1 < p, p < 128 * s.len(), val(s) == n, n < 2 * d, p - k <= 64, top == s.last()
    ensures ({
        let dv = d / pow2(k);
        let db = (p - k) as nat;
        let hi = (top >> (128 - (db - 1)) as u128) as nat;
        &&& d == dv * pow2(k) && dv < pow2(db) && dv > 0 && pow2((db - 1) as nat) <= dv
        &&& hi < dv
        &&& n * pow2((db - 1) as nat) == hi * pow2((128 * s.len()) as nat) + (n * pow2((db - 1) as nat)) % pow2((128 * s.len()) as nat)
    }),
{
    let dv = d / pow2(k);
    let db = (p - k) as nat;
    odd_part(d, k, p);
    shl_out(s, (db - 1) as nat);
    shr_div(top, (128 - (db - 1)) as u128);
    let m = (128 * s.len()) as nat;
    let hi = top as nat / pow2((128 - (db - 1)) as nat);
    let rest = (n * pow2((db - 1) as nat)) % pow2(m);
    lemma_pow2_pos(m);
    lemma_pow2_pos(k);
    pow2_half(db);
    pow2_add(db, k);
    assert(db + k == p);
    pow2_le(p, m);
    let (h, w, c, dd, t, dvi, g, nn) = (hi as int, pow2(m) as int, pow2((db - 1) as nat) as int, d as int, pow2(p) as int, dv as int, pow2(k) as int, n as int);
    assert(nn * c < dvi * t) by (nonlinear_arith) requires nn < 2 * dd, dd == dvi * g, t == (2 * c) * g, c > 0;
    assert(dvi * t <= dvi * w) by (nonlinear_arith) requires t <= w, dvi > 0;
    assert(h < dvi) by (nonlinear_arith) requires h * w <= nn * c, nn * c < dvi * w, w > 0;
}

pub proof fn nbit_lt(x: nat, k: nat, p: nat)
    requires nbit(x, k), x < pow2(p)
    ensures k < p
{
    if k >= p {
        pow2_le(p, k);
        lemma_basic_div(x as int, pow2(k) as int);
    }
}
