global size_of usize == 8;
// ---- std functions vstd has no specification for -------------------------------------------------

pub assume_specification[ u128::leading_zeros ](x: u128) -> (r: u32)
    ensures r == 128 - blen(x as nat), r <= 128;

pub assume_specification[ u128::trailing_zeros ](x: u128) -> (r: u32)
    ensures x == 0 ==> r == 128, x != 0 ==> r < 128 && x as nat % pow2(r as nat) == 0 && nbit(x as nat, r as nat);

pub assume_specification[ u128::overflowing_add ](a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == (a + b > u128::MAX), r.0 == if r.1 { a + b - u128::MAX - 1 } else { a + b };

pub assume_specification[ u128::overflowing_sub ](a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == (a < b), r.0 == if r.1 { a - b + u128::MAX + 1 } else { a - b };

pub assume_specification[ i32::saturating_add ](a: i32, b: i32) -> (r: i32)
    ensures r == if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b };

pub assume_specification[ u128::checked_shr ](a: u128, b: u32) -> (r: Option<u128>)
    ensures b < 128 ==> r == Some(a >> b), b >= 128 ==> r is None;

pub assume_specification[ Ordering::reverse ](a: Ordering) -> (r: Ordering)
    ensures r == match a { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, o => o };

pub assume_specification[ u128::wrapping_neg ](a: u128) -> (r: u128)
    ensures r == if a == 0 { 0 } else { u128::MAX - a + 1 };

pub assume_specification[ i128::wrapping_neg ](a: i128) -> (r: i128)
    ensures r == if a == i128::MIN { i128::MIN as int } else { -a };

pub assume_specification[ i128::unsigned_abs ](a: i128) -> (r: u128)
    ensures r == if a < 0 { -a } else { a as int };

// ---- panics --------------------------------------------------------------------------------------

pub fn vx_assert(c: bool)
    requires c
{ }

#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false
{ unreachable!() }

/// Ord for bool
pub fn vx_bool_cmp(a: bool, b: bool) -> (r: Ordering)
    ensures r == if a == b { Ordering::Equal } else if a { Ordering::Greater } else { Ordering::Less }
{ if a == b { Ordering::Equal } else if a { Ordering::Greater } else { Ordering::Less } }

// ---- the bitflags type `Status` ------------------------------------------------------------------

impl Status {
    pub fn status_sub(self, o: Status) -> (r: Status) ensures r.bits == self.bits & !o.bits { Status { bits: self.bits & !o.bits } }
    pub fn bitor(self, o: Status) -> (r: Status) ensures r.bits == self.bits | o.bits { Status { bits: self.bits | o.bits } }
    pub fn intersects(self, o: Status) -> (r: bool) ensures r == (self.bits & o.bits != 0) { self.bits & o.bits != 0 }
}

// ---- growable vectors of limbs: `SmallVec` is read as `Vec` ------------------------------------------

pub type DynPrecisionLimbVec = Vec<u128>;
pub fn vx_vec1(x: u128) -> (r: Vec<u128>)
    ensures r@ == seq![x]
{ let mut v = Vec::new(); v.push(x); assert(v@ =~= seq![x]); v }
pub fn vx_last_is(v: &Vec<u128>, x: u128) -> (r: bool)
    ensures r == (v@.len() > 0 && v@[v@.len() - 1] == x)
{ v.len() > 0 && v[v.len() - 1] == x }

pub assume_specification[ i32::unsigned_abs ](a: i32) -> (r: u32)
    ensures r == if a < 0 { -a } else { a as int };

pub assume_specification[ i32::abs ](a: i32) -> (r: i32)
    requires a > i32::MIN
    ensures r == if a < 0 { -a } else { a as int };

// ---- text ----------------------------------------------------------------------------------------

pub struct ParseError(pub &'static str);

/// bytes of a character in UTF-8
pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }

/// byte offset of character i
pub open spec fn off(s: Seq<char>, i: int) -> nat decreases i { if i <= 0 { 0 } else { off(s, i - 1) + clen(s[i - 1]) } }

/// the value of a character as a digit
pub open spec fn dval(c: char, radix: u32) -> Option<u32> {
    let v = if '0' <= c <= '9' { Some((c as u32 - '0' as u32) as u32) }
        else if 'a' <= c <= 'z' { Some((c as u32 - 'a' as u32 + 10) as u32) }
        else if 'A' <= c <= 'Z' { Some((c as u32 - 'A' as u32 + 10) as u32) }
        else { None };
    match v { Some(x) => if x < radix { Some(x) } else { None }, None => None }
}

pub assume_specification[ char::to_digit ](c: char, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 36
    ensures r == dval(c, radix);

pub assume_specification[ i32::saturating_mul ](a: i32, b: i32) -> (r: i32)
    ensures r == if a * b > i32::MAX { i32::MAX as int } else if a * b < i32::MIN { i32::MIN as int } else { a * b };

pub assume_specification[ i32::saturating_sub ](a: i32, b: i32) -> (r: i32)
    ensures r == if a - b > i32::MAX { i32::MAX as int } else if a - b < i32::MIN { i32::MIN as int } else { a - b };

pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](x: Result<T, E>, d: T) -> (r: T)
    ensures r == match x { Ok(v) => v, Err(_) => d };

#[verifier::external_body]
pub fn vx_str_len(s: &str) -> (r: usize)
    ensures r == off(s@, s@.len() as int), r < 0x1000_0000_0000_0000  // no string fills an address space
{ s.len() }

pub fn vx_str_is_empty(s: &str) -> (r: bool)
    ensures r == (s@.len() == 0)
{ vx_nchars(s) == 0 }

/// number of characters
#[verifier::external_body]
pub fn vx_nchars(s: &str) -> (r: usize)
    ensures r == s@.len(), r < 0x1000_0000_0000_0000
{ s.chars().count() }

/// the i-th item of `s.char_indices()`
#[verifier::external_body]
pub fn vx_char_at(s: &str, i: usize) -> (r: (usize, char))
    requires i < s@.len()
    ensures r.0 == off(s@, i as int), r.1 == s@[i as int]
{ s.char_indices().nth(i).unwrap() }

/// `&s[p..]`
#[verifier::external_body]
pub fn vx_str_from(s: &str, p: usize) -> (r: &str)
    requires exists|i: int| 0 <= i <= s@.len() && #[trigger] off(s@, i) == p
    ensures forall|i: int| 0 <= i <= s@.len() && #[trigger] off(s@, i) == p ==> r@ == s@.subrange(i, s@.len() as int)
{ &s[p..] }

/// `&s[p..q]`
#[verifier::external_body]
pub fn vx_str_slice(s: &str, p: usize, q: usize) -> (r: &str)
    requires exists|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] off(s@, i) == p && #[trigger] off(s@, j) == q
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] off(s@, i) == p && #[trigger] off(s@, j) == q ==> r@ == s@.subrange(i, j)
{ &s[p..q] }

/// `s.chars()`, and `.peekable()` of it
pub struct VxChars<'a> { pub s: &'a str, pub i: usize }
impl<'a> VxChars<'a> {
    pub open spec fn ok(&self) -> bool { self.i <= self.s@.len() }
    /// what is still to come
    pub open spec fn rest(&self) -> Seq<char> { self.s@.subrange(self.i as int, self.s@.len() as int) }
    pub fn vx_peek(&self) -> (r: Option<char>)
        requires self.ok()
        ensures r == if self.i < self.s@.len() { Some(self.s@[self.i as int]) } else { None }
    { if self.i < vx_nchars(self.s) { Some(vx_char_at(self.s, self.i).1) } else { None } }
    pub fn next(&mut self) -> (r: Option<char>)
        requires old(self).ok()
        ensures final(self).ok(), final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some(old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    {
        if self.i < vx_nchars(self.s) { let c = vx_char_at(self.s, self.i).1; self.i = self.i + 1; Some(c) } else { None }
    }
}
pub fn vx_chars<'a>(s: &'a str) -> (r: VxChars<'a>)
    ensures r.s@ == s@, r.i == 0
{ VxChars { s, i: 0 } }

/// s without the prefix p
pub open spec fn strip(s: Seq<char>, p: Seq<char>) -> Option<Seq<char>> {
    if p.len() <= s.len() && s.subrange(0, p.len() as int) == p { Some(s.subrange(p.len() as int, s.len() as int)) } else { None }
}
/// s without the suffix p
pub open spec fn strip_end(s: Seq<char>, p: Seq<char>) -> Option<Seq<char>> {
    if p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p { Some(s.subrange(0, s.len() - p.len())) } else { None }
}
/// s without a first character a or b
pub open spec fn strip1(s: Seq<char>, a: char, b: char) -> Option<Seq<char>> {
    if s.len() > 0 && (s[0] == a || s[0] == b) { Some(s.subrange(1, s.len() as int)) } else { None }
}
pub open spec fn same(r: Option<&str>, x: Option<Seq<char>>) -> bool { r is Some == x is Some && (r is Some ==> r->0@ == x->0) }

#[verifier::external_body]
pub fn vx_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures same(r, strip(s@, p@))
{ s.strip_prefix(p) }

#[verifier::external_body]
pub fn vx_strip_suffix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures same(r, strip_end(s@, p@))
{ s.strip_suffix(p) }

/// `s.strip_prefix([a, b])`
#[verifier::external_body]
pub fn vx_strip_char<'a>(s: &'a str, a: char, b: char) -> (r: Option<&'a str>)
    ensures same(r, strip1(s@, a, b))
{ s.strip_prefix([a, b]) }

#[verifier::external_body]
pub fn vx_str_eq(s: &str, t: &str) -> (r: bool)
    ensures r == (s@ == t@)
{ s == t }

/// the integer a run of digits denotes
pub open spec fn radix_nat(s: Seq<char>, radix: u32, i: int) -> nat
    decreases i
{ if i <= 0 { 0 } else { radix_nat(s, radix, i - 1) * radix as nat + (match dval(s[i - 1], radix) { Some(x) => x as nat, None => 0 }) } }
/// u128::from_str_radix: an optional plus sign, then digits only, and at least one
pub open spec fn radix_val(s: Seq<char>, radix: u32) -> Option<u128> {
    let t = if s.len() > 0 && s[0] == '+' { s.subrange(1, s.len() as int) } else { s };
    let v = radix_nat(t, radix, t.len() as int);
    if t.len() > 0 && (forall|j: int| 0 <= j < t.len() ==> dval(#[trigger] t[j], radix) is Some) && v <= u128::MAX { Some(v as u128) } else { None }
}
#[verifier::external_body]
pub fn vx_from_str_radix(s: &str, radix: u32) -> (r: Option<u128>)
    requires 2 <= radix <= 36
    ensures r == radix_val(s@, radix)
{ u128::from_str_radix(s, radix).ok() }

/// NegExt::negate_if on integers
pub trait VxNegExt: Sized {
    spec fn vx_int(self) -> int;
    fn negate_if(self, negate: bool) -> (r: Self)
        requires negate ==> self.vx_int() > i32::MIN
        ensures r.vx_int() == if negate { -self.vx_int() } else { self.vx_int() };
}

// ---- output --------------------------------------------------------------------------------------

/// what `fmt::Formatter` offers here: the options of the format specification and the text written so far
pub struct Formatter { pub w: Option<usize>, pub p: Option<usize>, pub alt: bool, pub out: Ghost<Seq<char>> }
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;

/// decimal digits of n, most significant first
pub open spec fn nat_str(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![(48 + n) as u8 as char] } else { nat_str(n / 10).push((48 + n % 10) as u8 as char) }
}
/// `{:+0W}`
pub open spec fn signed_str(x: int, w: int) -> Seq<char> {
    let d = nat_str(if x < 0 { -x as nat } else { x as nat });
    let z = if w - 1 - d.len() > 0 { (w - 1 - d.len()) as nat } else { 0 };
    seq![if x < 0 { '-' } else { '+' }] + Seq::new(z, |i: int| '0') + d
}

impl Formatter {
    pub open spec fn same(self, o: Formatter) -> bool { self.w == o.w && self.p == o.p && self.alt == o.alt }
    pub fn width(&self) -> (r: Option<usize>) ensures r == self.w { self.w }
    pub fn precision(&self) -> (r: Option<usize>) ensures r == self.p { self.p }
    pub fn alternate(&self) -> (r: bool) ensures r == self.alt { self.alt }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FmtResult)
        ensures final(self).same(*old(self)), r is Ok ==> final(self).out@ == old(self).out@.push(c)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures final(self).same(*old(self)), r is Ok ==> final(self).out@ == old(self).out@ + s@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_signed(&mut self, x: i32, w: usize) -> (r: FmtResult)
        ensures final(self).same(*old(self)), r is Ok ==> final(self).out@ == old(self).out@ + signed_str(x as int, w as int)
    { unimplemented!() }
}

#[verifier::external_body]
pub fn vx_drain_front(v: &mut Vec<u8>, n: usize)
    requires n <= old(v)@.len()
    ensures final(v)@ == old(v)@.subrange(n as int, old(v)@.len() as int)
{ v.drain(..n); }
