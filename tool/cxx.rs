// Runtime model of the C++ core language and of the libstdc++ entities that the
// verified functions use. Every contract here is an ASSUMED contract on the C++
// implementation; wherever Verus can, the Rust body next to it is verified
// against the contract, so the contract is at least satisfiable.
#[allow(unused_imports)]
use vstd::prelude::*;
#[allow(unused_imports)]
use vstd::arithmetic::power2::*;
verus! {
global size_of usize == 8;

// ---------------------------------------------------------------- integers
pub open spec fn tdiv(a: int, b: int) -> int
{ if a >= 0 { if b >= 0 { a / b } else { -(a / (-b)) } }
  else { if b >= 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trem(a: int, b: int) -> int
{ if a >= 0 { if b >= 0 { a % b } else { a % (-b) } }
  else { if b >= 0 { -((-a) % b) } else { -((-a) % (-b)) } } }
pub open spec fn wrap_i8(x: int) -> int { (x + 0x80) % 0x100 - 0x80 }
pub open spec fn wrap_i16(x: int) -> int { (x + 0x8000) % 0x1_0000 - 0x8000 }
pub open spec fn wrap_i32(x: int) -> int { (x + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000 }
pub open spec fn wrap_i64(x: int) -> int { (x + 0x8000_0000_0000_0000) % 0x1_0000_0000_0000_0000 - 0x8000_0000_0000_0000 }
pub open spec fn wrap_u8(x: int) -> int { x % 0x100 }
pub open spec fn wrap_u16(x: int) -> int { x % 0x1_0000 }
pub open spec fn wrap_u32(x: int) -> int { x % 0x1_0000_0000 }
pub open spec fn wrap_u64(x: int) -> int { x % 0x1_0000_0000_0000_0000 }

// call of exit(): never returns. `ok` carries the proof obligation "the error
// exit is taken only where the contract allows it".
#[verifier::external_body]
pub fn cxx_exit(Ghost(ok): Ghost<bool>) -> !
    requires ok
{ panic!("cxx_exit") }
// an unreachable program point (falling off a non-void function, failed assert)
#[verifier::external_body]
pub fn cxx_unreachable() -> !
    requires false
{ panic!("unreachable") }
#[verifier::external_body]
pub fn undef<T>() -> T { panic!("uninitialised value") }

pub fn c_bool_i32(b: bool) -> (r: i32) ensures r == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }
} // verus!

macro_rules! int_ops { ($t:ident, $div:ident, $rem:ident) => { verus! {
#[verifier::external_body]
pub fn $div(a: $t, b: $t) -> (r: $t)
    requires b != 0, !(a == $t::MIN && b == -1),
    ensures r == tdiv(a as int, b as int)
{ a / b }
#[verifier::external_body]
pub fn $rem(a: $t, b: $t) -> (r: $t)
    requires b != 0, !(a == $t::MIN && b == -1),
    ensures r == trem(a as int, b as int)
{ a % b }
} } }
int_ops!(i32, div_i32, rem_i32);
int_ops!(i64, div_i64, rem_i64);

macro_rules! uint_ops { ($t:ident, $div:ident, $rem:ident, $add:ident, $sub:ident, $mul:ident, $wrap:ident) => { verus! {
pub fn $div(a: $t, b: $t) -> (r: $t) requires b != 0 ensures r == a as int / b as int { a / b }
pub fn $rem(a: $t, b: $t) -> (r: $t) requires b != 0 ensures r == a as int % b as int { a % b }
#[verifier::external_body]
pub fn $add(a: $t, b: $t) -> (r: $t) ensures r == $wrap(a + b), a + b <= $t::MAX ==> r == a + b { a.wrapping_add(b) }
#[verifier::external_body]
pub fn $sub(a: $t, b: $t) -> (r: $t) ensures r == $wrap(a - b), a >= b ==> r == a - b { a.wrapping_sub(b) }
#[verifier::external_body]
pub fn $mul(a: $t, b: $t) -> (r: $t) ensures r == $wrap(a * b), a * b <= $t::MAX ==> r == a * b { a.wrapping_mul(b) }
} } }
uint_ops!(u32, div_u32, rem_u32, add_u32, sub_u32, mul_u32, wrap_u32);
uint_ops!(u64, div_u64, rem_u64, add_u64, sub_u64, mul_u64, wrap_u64);

macro_rules! int_cast { ($n:ident, $f:ident, $t:ident, $wrap:ident) => { verus! {
#[verifier::external_body]
pub fn $n(x: $f) -> (r: $t)
    ensures r == $wrap(x as int), ($t::MIN <= x <= $t::MAX) ==> r == x
{ x as $t }
} } }
int_cast!(c_i8_u8, i8, u8, wrap_u8); int_cast!(c_u8_i8, u8, i8, wrap_i8);
int_cast!(c_i8_i32, i8, i32, wrap_i32); int_cast!(c_u8_i32, u8, i32, wrap_i32);
int_cast!(c_i16_i32, i16, i32, wrap_i32); int_cast!(c_i32_i16, i32, i16, wrap_i16);
int_cast!(c_i8_i64, i8, i64, wrap_i64); int_cast!(c_u8_i64, u8, i64, wrap_i64);
int_cast!(c_i8_u64, i8, u64, wrap_u64); int_cast!(c_u8_u64, u8, u64, wrap_u64);
int_cast!(c_i8_u32, i8, u32, wrap_u32); int_cast!(c_u8_u32, u8, u32, wrap_u32);
int_cast!(c_i32_i8, i32, i8, wrap_i8); int_cast!(c_i32_u8, i32, u8, wrap_u8);
int_cast!(c_i32_u32, i32, u32, wrap_u32); int_cast!(c_u32_i32, u32, i32, wrap_i32);
int_cast!(c_i32_i64, i32, i64, wrap_i64); int_cast!(c_i64_i32, i64, i32, wrap_i32);
int_cast!(c_i32_u64, i32, u64, wrap_u64); int_cast!(c_u64_i32, u64, i32, wrap_i32);
int_cast!(c_u32_i64, u32, i64, wrap_i64); int_cast!(c_i64_u32, i64, u32, wrap_u32);
int_cast!(c_u32_u64, u32, u64, wrap_u64); int_cast!(c_u64_u32, u64, u32, wrap_u32);
int_cast!(c_i64_u64, i64, u64, wrap_u64); int_cast!(c_u64_i64, u64, i64, wrap_i64);
int_cast!(c_u64_i8, u64, i8, wrap_i8); int_cast!(c_u64_u8, u64, u8, wrap_u8);
int_cast!(c_i64_i8, i64, i8, wrap_i8); int_cast!(c_i64_u8, i64, u8, wrap_u8);
int_cast!(c_u32_u8, u32, u8, wrap_u8); int_cast!(c_u32_i8, u32, i8, wrap_i8);

verus! {
pub fn abs_i32(x: i32) -> (r: i32) requires x > i32::MIN ensures r == if x < 0 { -x } else { x as int } { if x < 0 { -x } else { x } }
pub fn abs_i64(x: i64) -> (r: i64) requires x > i64::MIN ensures r == if x < 0 { -x } else { x as int } { if x < 0 { -x } else { x } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub fn c_bool_i64(b: bool) -> (r: i64) ensures r == b2i(b) { if b { 1 } else { 0 } }
pub fn c_bool_u64(b: bool) -> (r: u64) ensures r == b2i(b) { if b { 1 } else { 0 } }
pub fn c_bool_u32(b: bool) -> (r: u32) ensures r == b2i(b) { if b { 1 } else { 0 } }
pub fn c_bool_u8(b: bool) -> (r: u8) ensures r == b2i(b) { if b { 1 } else { 0 } }
pub fn c_bool_i8(b: bool) -> (r: i8) ensures r == b2i(b) { if b { 1 } else { 0 } }

// bit operations on non-negative operands, by their arithmetic meaning
pub open spec fn band(a: int, b: int) -> int
    decreases a when a >= 0 && b >= 0
{ if a <= 0 { 0 } else { 2 * band(a / 2, b / 2) + (if a % 2 == 1 && b % 2 == 1 { 1int } else { 0int }) } }
pub open spec fn bor(a: int, b: int) -> int
    decreases a + b when a >= 0 && b >= 0
{ if a <= 0 && b <= 0 { 0 } else { 2 * bor(a / 2, b / 2) + (if a % 2 == 1 || b % 2 == 1 { 1int } else { 0int }) } }
} // verus!

macro_rules! bit_ops { ($t:ident, $and:ident, $or:ident, $shl:ident, $shr:ident, $bits:expr) => { verus! {
#[verifier::external_body]
pub fn $and(a: $t, b: $t) -> (r: $t) requires a >= 0, b >= 0
    ensures r == band(a as int, b as int), 0 <= r <= a, r <= b, b == 1 ==> r == a as int % 2, a == 1 ==> r == b as int % 2
{ a & b }
#[verifier::external_body]
pub fn $or(a: $t, b: $t) -> (r: $t) requires a >= 0, b >= 0
    ensures r == bor(a as int, b as int), r >= a, r >= b, b == 0 ==> r == a, a == 0 ==> r == b,
      (b == 1 && a as int % 2 == 0) ==> r == a + 1, (a == 1 && b as int % 2 == 0) ==> r == b + 1,
      (b == 1 && a as int % 2 == 1) ==> r == a
{ a | b }
// left shift: the mathematical value must be representable (otherwise undefined)
#[verifier::external_body]
pub fn $shl(a: $t, s: i32) -> (r: $t)
    requires 0 <= s < $bits, a >= 0, a * pow2(s as nat) <= $t::MAX
    ensures r == a * pow2(s as nat), s == 1 ==> r == 2 * a, s == 0 ==> r == a
{ a << s }
// right shift: floor division by a power of two (arithmetic shift on gcc/clang)
#[verifier::external_body]
pub fn $shr(a: $t, s: i32) -> (r: $t)
    requires 0 <= s < $bits
    ensures r == a as int / pow2(s as nat) as int, s == 1 ==> r == a as int / 2, s == 0 ==> r == a
{ a >> s }
} } }
bit_ops!(i32, and_i32, or_i32, shl_i32, shr_i32, 32);
bit_ops!(i64, and_i64, or_i64, shl_i64, shr_i64, 64);
bit_ops!(u32, and_u32, or_u32, shl_u32, shr_u32, 32);
bit_ops!(u64, and_u64, or_u64, shl_u64, shr_u64, 64);

verus! {
// ---------------------------------------------------------------- arrays, vectors, strings
pub trait CCopy: Sized {
    fn dup(&self) -> (r: Self) ensures r == *self;
}
} // verus!
macro_rules! ccopy { ($($t:ident),*) => { $(verus! { impl CCopy for $t { fn dup(&self) -> (r: Self) { *self } } })* } }
ccopy!(i8, u8, i16, i32, u32, i64, u64, bool);
verus! {
// C array / new T[n] / std::unique_ptr<T[]> / std::array
pub struct CArr<T> { pub v: Vec<T>, pub dead: Ghost<bool> }
impl<T> View for CArr<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T> CArr<T> {
    // allocated and not yet deleted
    pub closed spec fn live(&self) -> bool { !self.dead@ }
    // new T[n] without initialiser: contents arbitrary
    #[verifier::external_body]
    pub fn alloc(n: u64) -> (r: CArr<T>) ensures r@.len() == n, r.live() { unimplemented!() }
    // delete[]: afterwards nothing may be accessed, nor deleted again
    #[verifier::external_body]
    pub fn free(&mut self) requires old(self).live() ensures !final(self).live(), final(self)@.len() == 0 { unimplemented!() }
    pub fn at_ref(&self, i: u64) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { &self.v[i as usize] }
    pub fn put(&mut self, i: u64, x: T) requires i < old(self)@.len()
        ensures final(self)@ == old(self)@.update(i as int, x), final(self).live() == old(self).live() { self.v.set(i as usize, x) }
}
impl<T: CCopy> CArr<T> {
    pub fn at(&self, i: u64) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { self.v[i as usize].dup() }
}
impl<T> CArr<CArr<T>> {
    #[verifier::external_body]
    pub fn free2(&mut self, i: u64)
        requires i < old(self)@.len(), old(self)@[i as int].live()
        ensures final(self)@.len() == old(self)@.len(), final(self).live() == old(self).live(),
          forall|k: int| 0 <= k < old(self)@.len() && k != i ==> final(self)@[k] == old(self)@[k],
          final(self)@[i as int]@.len() == 0, !final(self)@[i as int].live()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put2(&mut self, i: u64, j: u64, x: T)
        requires i < old(self)@.len(), j < old(self)@[i as int]@.len()
        ensures final(self)@.len() == old(self)@.len(), final(self).live() == old(self).live(),
          forall|k: int| 0 <= k < old(self)@.len() && k != i ==> final(self)@[k] == old(self)@[k],
          final(self)@[i as int]@ == old(self)@[i as int]@.update(j as int, x), final(self)@[i as int].live() == old(self)@[i as int].live()
    { self.v[i as usize].v[j as usize] = x; }
}
impl<T> CCopy for CArr<T> {
    #[verifier::external_body]
    fn dup(&self) -> (r: Self) { unimplemented!() }
}

// std::vector
pub struct CVec<T> { pub v: Vec<T> }
impl<T> View for CVec<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T> CCopy for CVec<T> {
    #[verifier::external_body]
    fn dup(&self) -> (r: Self) { unimplemented!() }
}
impl<T> CVec<T> {
    pub fn new() -> (r: CVec<T>) ensures r@ == Seq::<T>::empty() { CVec { v: Vec::new() } }
    #[verifier::external_body]
    pub fn size(&self) -> (r: u64) ensures r == self@.len() { self.v.len() as u64 }
    #[verifier::external_body]
    pub fn empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn at_ref(&self, i: u64) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { &self.v[i as usize] }
    pub fn put(&mut self, i: u64, x: T) requires i < old(self)@.len()
        ensures final(self)@ == old(self)@.update(i as int, x) { self.v.set(i as usize, x) }
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: u64) ensures final(self)@ == old(self)@ { }
    #[verifier::external_body]
    pub fn pop_back(&mut self) requires old(self)@.len() > 0 ensures final(self)@ == old(self)@.drop_last() { self.v.pop(); }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { self.v.clear() }
}
impl<T> CVec<CVec<T>> {
    #[verifier::external_body]
    pub fn push_back2(&mut self, i: u64, x: T) requires i < old(self)@.len() ensures final(self)@.len() == old(self)@.len(), final(self)@[i as int]@ == old(self)@[i as int]@.push(x), forall|k: int| 0 <= k < old(self)@.len() && k != i ==> #[trigger] final(self)@[k] == old(self)@[k] { unimplemented!() }
}
// value initialisation T()
pub trait CDefault: Sized { spec fn is_dflt(x: Self) -> bool; }
impl CDefault for i32 { open spec fn is_dflt(x: i32) -> bool { x == 0 } }
impl<T> CDefault for CVec<T> { open spec fn is_dflt(x: CVec<T>) -> bool { x@.len() == 0 } }
impl<T: CDefault> CVec<T> {
    #[verifier::external_body]
    pub fn sized(n: u64) -> (r: CVec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> T::is_dflt(#[trigger] r@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn resize0(&mut self, n: u64) ensures final(self)@.len() == n, forall|i: int| 0 <= i < n && i < old(self)@.len() ==> #[trigger] final(self)@[i] == old(self)@[i], forall|i: int| old(self)@.len() <= i < n ==> T::is_dflt(#[trigger] final(self)@[i]) { unimplemented!() }
}
impl<T: CCopy> CVec<T> {
    pub fn at(&self, i: u64) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { self.v[i as usize].dup() }
    pub fn back(&self) -> (r: T) requires self@.len() > 0 ensures r == self@.last() { self.v[self.v.len() - 1].dup() }
    pub fn front(&self) -> (r: T) requires self@.len() > 0 ensures r == self@[0] { self.v[0].dup() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: u64, x: T) ensures final(self)@.len() == n,
       forall|k: int| 0 <= k < n ==> final(self)@[k] == (if k < old(self)@.len() { old(self)@[k] } else { x })
    { while (self.v.len() as u64) < n { self.v.push(x.dup()); } self.v.truncate(n as usize); }
}

// memset(a, 0, n * sizeof(T)) and memcpy of whole elements
#[verifier::external_body]
pub fn memzero_i32(a: &mut CArr<i32>, n: u64) requires n <= old(a)@.len()
    ensures final(a).live() == old(a).live(), final(a)@ == Seq::new(old(a)@.len(), |k: int| if k < n { 0i32 } else { old(a)@[k] })
{ unimplemented!() }
#[verifier::external_body]
pub fn memcpy_i32(a: &mut CArr<i32>, b: &CArr<i32>, n: u64) requires n <= old(a)@.len(), n <= b@.len()
    ensures final(a).live() == old(a).live(), final(a)@ == Seq::new(old(a)@.len(), |k: int| if k < n { b@[k] } else { old(a)@[k] })
{ unimplemented!() }
// first index >= k of c in s, or s.len()
pub open spec fn find_from(s: Seq<i8>, c: i8, k: int) -> int decreases s.len() - k
{ if k < 0 || k >= s.len() { s.len() as int } else if s[k] == c { k } else { find_from(s, c, k + 1) } }
pub proof fn find_is(s: Seq<i8>, c: i8, k: int, v: int)
    requires 0 <= k <= v <= s.len(), v < s.len() ==> s[v] == c, forall|x: int| k <= x < v ==> s[x] != c
    ensures find_from(s, c, k) == v
    decreases v - k
{ if k < v { find_is(s, c, k + 1, v); } }
// std::string: a sequence of char (signed 8 bit on this platform). size() < 2^63.
pub struct Str { pub v: Vec<i8> }
impl View for Str { type V = Seq<i8>; closed spec fn view(&self) -> Seq<i8> { self.v@ } }
impl CCopy for Str {
    #[verifier::external_body]
    fn dup(&self) -> (r: Self) { Str { v: self.v.clone() } }
}
impl Str {
    pub fn new() -> (r: Str) ensures r@ == Seq::<i8>::empty() { Str { v: Vec::new() } }
    #[verifier::external_body]
    pub fn size(&self) -> (r: u64) ensures r == self@.len(), r <= 0x7fff_ffff_ffff_ffff { self.v.len() as u64 }
    #[verifier::external_body]
    pub fn length(&self) -> (r: u64) ensures r == self@.len(), r <= 0x7fff_ffff_ffff_ffff { self.v.len() as u64 }
    #[verifier::external_body]
    pub fn empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    // operator[](size()) is the terminating NUL; beyond that undefined
    #[verifier::external_body]
    pub fn at(&self, i: u64) -> (r: i8) requires i <= self@.len()
        ensures r == (if i < self@.len() { self@[i as int] } else { 0i8 })
    { if (i as usize) < self.v.len() { self.v[i as usize] } else { 0 } }
    pub fn put(&mut self, i: u64, x: i8) requires i < old(self)@.len()
        ensures final(self)@ == old(self)@.update(i as int, x) { self.v.set(i as usize, x) }
    pub fn push_back(&mut self, x: i8) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    #[verifier::external_body]
    pub fn append(&mut self, s: &Str) ensures final(self)@ == old(self)@ + s@ { self.v.extend_from_slice(&s.v); }
    #[verifier::external_body]
    pub fn eq(&self, s: &Str) -> (r: bool) ensures r == (self@ == s@), r == (self@ =~= s@) { self.v == s.v }
    #[verifier::external_body]
    pub fn substr(&self, pos: u64, n: u64) -> (r: Str) requires pos <= self@.len()
        ensures r@ == self@.subrange(pos as int, if pos + n <= self@.len() { pos + n } else { self@.len() as int })
    { let e = std::cmp::min(self.v.len() as u64 - pos, n) + pos; Str { v: self.v[pos as usize..e as usize].to_vec() } }
    #[verifier::external_body]
    pub fn fill(n: u64, c: i8) -> (r: Str) ensures r@ == Seq::new(n as nat, |k: int| c) { Str { v: vec![c; n as usize] } }
    // s.find(c): first index or npos
    #[verifier::external_body]
    pub fn find(&self, c: i8) -> (r: u64)
        ensures r as int == (if find_from(self@, c, 0) == self@.len() { u64::MAX as int } else { find_from(self@, c, 0) }),
          r == u64::MAX || (r < self@.len() && self@[r as int] == c && forall|k: int| 0 <= k < r ==> self@[k] != c),
          r == u64::MAX ==> forall|k: int| 0 <= k < self@.len() ==> self@[k] != c
    { match self.v.iter().position(|x| *x == c) { Some(i) => i as u64, None => u64::MAX } }
}
#[verifier::external_body]
pub fn str_lit(s: Vec<i8>) -> (r: Str) ensures r@ == s@ { Str { v: s } }
#[verifier::external_body]
pub fn str_cat(a: &Str, b: &Str) -> (r: Str) ensures r@ == a@ + b@ { let mut v = a.v.clone(); v.extend_from_slice(&b.v); Str { v } }

pub fn max_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
pub fn min_i32(a: i32, b: i32) -> (r: i32) ensures r == (if b < a { b } else { a }) { if b < a { b } else { a } }
} // verus!

verus! {
// ---------------------------------------------------------------- floating point treated as exact real arithmetic
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Num { p: f64 }
impl Num { pub uninterp spec fn v(&self) -> real; }
impl CCopy for Num { #[verifier::external_body] fn dup(&self) -> (r: Self) { *self } }
#[verifier::external_body]
pub fn num_i32(x: i32) -> (r: Num) ensures r.v() == x as real { unimplemented!() }
#[verifier::external_body]
pub fn num_add(a: Num, b: Num) -> (r: Num) ensures r.v() == a.v() + b.v() { unimplemented!() }
#[verifier::external_body]
pub fn num_sub(a: Num, b: Num) -> (r: Num) ensures r.v() == a.v() - b.v() { unimplemented!() }
#[verifier::external_body]
pub fn num_mul(a: Num, b: Num) -> (r: Num) ensures r.v() == a.v() * b.v(), r.v() == b.v() * a.v() { unimplemented!() }
#[verifier::external_body]
pub fn num_div(a: Num, b: Num) -> (r: Num) requires b.v() != 0real ensures r.v() == a.v() / b.v() { unimplemented!() }
#[verifier::external_body]
pub fn num_neg(a: Num) -> (r: Num) ensures r.v() == 0real - a.v() { unimplemented!() }
#[verifier::external_body]
pub fn num_eq(a: Num, b: Num) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn num_ne(a: Num, b: Num) -> (r: bool) ensures r == (a.v() != b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn num_lt(a: Num, b: Num) -> (r: bool) ensures r == (a.v() < b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn num_gt(a: Num, b: Num) -> (r: bool) ensures r == (a.v() > b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn num_le(a: Num, b: Num) -> (r: bool) ensures r == (a.v() <= b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn num_ge(a: Num, b: Num) -> (r: bool) ensures r == (a.v() >= b.v()) { unimplemented!() }
pub fn min_Num(a: Num, b: Num) -> (r: Num) ensures r == (if b.v() < a.v() { b } else { a }) { if num_lt(b, a) { b } else { a } }
pub fn max_Num(a: Num, b: Num) -> (r: Num) ensures r == (if a.v() < b.v() { b } else { a }) { if num_lt(a, b) { b } else { a } }
// memset(a[i], 0, n * sizeof(double))
#[verifier::external_body]
pub fn memzero2_Num(a: &mut CArr<CArr<Num>>, i: u64, n: u64) requires i < old(a)@.len(), n <= old(a)@[i as int]@.len()
    ensures final(a)@.len() == old(a)@.len(), final(a).live() == old(a).live(), forall|k: int| 0 <= k < old(a)@.len() && k != i ==> final(a)@[k] == old(a)@[k],
      final(a)@[i as int].live() == old(a)@[i as int].live(), final(a)@[i as int]@.len() == old(a)@[i as int]@.len(),
      forall|k: int| 0 <= k < n ==> #[trigger] final(a)@[i as int]@[k].v() == 0real, forall|k: int| n <= k < old(a)@[i as int]@.len() ==> #[trigger] final(a)@[i as int]@[k] == old(a)@[i as int]@[k]
{ unimplemented!() }
#[verifier::external_body]
pub fn memzero_Num(a: &mut CArr<Num>, n: u64) requires n <= old(a)@.len()
    ensures final(a).live() == old(a).live(), final(a)@.len() == old(a)@.len(), forall|k: int| 0 <= k < n ==> #[trigger] final(a)@[k].v() == 0real, forall|k: int| n <= k < old(a)@.len() ==> #[trigger] final(a)@[k] == old(a)@[k]
{ unimplemented!() }
#[verifier::external_body]
pub fn memcpy_Num(a: &mut CArr<Num>, b: &CArr<Num>, n: u64) requires n <= old(a)@.len(), n <= b@.len()
    ensures final(a).live() == old(a).live(), final(a)@ == Seq::new(old(a)@.len(), |k: int| if k < n { b@[k] } else { old(a)@[k] })
{ unimplemented!() }
pub uninterp spec fn num_text(x: Num) -> Seq<i8>;
#[verifier::external_body]
pub fn to_string_Num(x: Num) -> (r: Str) ensures r@ == num_text(x) { unimplemented!() }

#[verifier::external_body]
pub fn num_u64(x: u64) -> (r: Num) ensures r.v() == x as real { unimplemented!() }
#[verifier::external_body]
pub fn num_i64(x: i64) -> (r: Num) ensures r.v() == x as real { unimplemented!() }
// a decimal literal: the exact rational it denotes
#[verifier::external_body]
pub fn num_lit(p: i64, q: i64) -> (r: Num) requires q > 0 ensures r.v() == p as real / (q as real) { unimplemented!() }
pub uninterp spec fn rsqrt(x: real) -> real;
#[verifier::external_body]
pub fn num_sqrt(a: Num) -> (r: Num) requires a.v() >= 0real ensures r.v() >= 0real, r.v() * r.v() == a.v(), r.v() == rsqrt(a.v()) { unimplemented!() }
#[verifier::external_body]
pub fn num_fabs(a: Num) -> (r: Num) ensures r.v() == (if a.v() < 0real { 0real - a.v() } else { a.v() }) { unimplemented!() }
pub uninterp spec fn cos_(x: real) -> real;
pub uninterp spec fn sin_(x: real) -> real;
#[verifier::external_body]
pub proof fn sin_cos(x: real) ensures cos_(x) * cos_(x) + sin_(x) * sin_(x) == 1real { }
#[verifier::external_body]
pub fn num_cos(a: Num) -> (r: Num) ensures r.v() == cos_(a.v()) { unimplemented!() }
#[verifier::external_body]
pub fn num_sin(a: Num) -> (r: Num) ensures r.v() == sin_(a.v()) { unimplemented!() }
// ---------------------------------------------------------------- std::mt19937_64
#[verifier::external_body] pub struct Mt { v: u64 }
pub uninterp spec fn mt_out(m: Mt) -> u64;      // the next output
pub uninterp spec fn mt_step(m: Mt) -> Mt;      // the state after producing it
pub uninterp spec fn mt_seed(s: u64) -> Mt;     // the state after seeding
impl CCopy for Mt { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Mt {
    #[verifier::external_body] pub fn new() -> (r: Mt) ensures r == mt_seed(5489) { unimplemented!() }
    #[verifier::external_body] pub fn seeded(s: u64) -> (r: Mt) ensures r == mt_seed(s) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: u64) ensures r == mt_out(*old(self)), *final(self) == mt_step(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn seed(&mut self, s: u64) ensures *final(self) == mt_seed(s) { unimplemented!() }
}
// ---------------------------------------------------------------- a function passed by the caller: it may keep state, so its
// answer may depend on all the arguments of its earlier calls
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)] pub struct CFn<A, B> { v: std::marker::PhantomData<(A, B)> }
pub uninterp spec fn fn_out<A, B>(f: CFn<A, B>, h: Seq<A>, x: A) -> B;
impl<A, B> CFn<A, B> {
    pub uninterp spec fn f(self) -> CFn<A, B>;       // which function it is
    pub uninterp spec fn h(self) -> Seq<A>;          // the arguments of the calls so far
    #[verifier::external_body] pub fn call(&mut self, x: A) -> (r: B) ensures r == fn_out::<A, B>(old(self).f(), old(self).h(), x), final(self).f() == old(self).f(), final(self).h() == old(self).h().push(x) { unimplemented!() }
}
// ---------------------------------------------------------------- std::bitset
pub open spec fn p2(k: int) -> int { if k <= 0 { 1 } else if k == 1 { 2 } else if k == 2 { 4 } else if k == 3 { 8 } else if k == 4 { 16 } else if k == 5 { 32 } else if k == 6 { 64 } else if k == 7 { 128 } else { 256 } }
pub open spec fn bitc(v: int, k: int) -> i8 { if (v / p2(k)) % 2 == 1 { 49i8 } else { 48i8 } }
pub open spec fn binval(s: Seq<i8>) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { 2 * binval(s.drop_last()) + (if s.last() == 49i8 { 1int } else { 0int }) } }
pub open spec fn is_bin(s: Seq<i8>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == 48i8 || s[k] == 49i8 }
} // verus!
macro_rules! bitset { ($n:ident, $bits:expr) => { verus! {
pub struct $n { pub b: u64 }
impl $n {
    pub open spec fn val(&self) -> int { self.b as int }
    #[verifier::external_body]
    pub fn from_u64(x: u64) -> (r: $n) ensures r.val() == x as int % p2($bits) { $n { b: x % (1 << $bits) } }
    // bitset(string): throws on other characters; the first N characters are used
    #[verifier::external_body]
    pub fn from_str(s: &Str) -> (r: $n) requires is_bin(s@)
        ensures r.val() == binval(s@.subrange(0, if s@.len() < $bits { s@.len() as int } else { $bits }))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: Str) ensures r@ == Seq::new($bits as nat, |i: int| bitc(self.val(), $bits - 1 - i)) { unimplemented!() }
    pub fn to_ulong(&self) -> (r: u64) ensures r == self.val() { self.b }
}
} } }
bitset!(Bitset6, 6);
bitset!(Bitset8, 8);

verus! {
// ---------------------------------------------------------------- std::ostringstream
pub open spec fn digit_char(d: int, upper: bool) -> i8 { if d < 10 { (48 + d) as i8 } else if upper { (55 + d) as i8 } else { (87 + d) as i8 } }
// digits of v >= 0, most significant first
pub open spec fn hexdigits(v: int, upper: bool) -> Seq<i8> decreases v
{ if v < 16 { seq![digit_char(v, upper)] } else { hexdigits(v / 16, upper).push(digit_char(v % 16, upper)) } }
pub open spec fn decdigits(v: int) -> Seq<i8> decreases v
{ if v < 10 { seq![digit_char(v, false)] } else { decdigits(v / 10).push(digit_char(v % 10, false)) } }
pub open spec fn fmt_dec(v: int) -> Seq<i8> { if v >= 0 { decdigits(v) } else { seq![45i8] + decdigits(-v) } }
pub open spec fn fmt_i32(v: int, hex: bool, upper: bool) -> Seq<i8> { if hex { hexdigits(wrap_u32(v), upper) } else { fmt_dec(v) } }
pub open spec fn padded(s: Seq<i8>, width: int, fill: i8) -> Seq<i8> { if s.len() >= width { s } else { Seq::new((width - s.len()) as nat, |k: int| fill) + s } }
pub struct Oss { pub v: Vec<i8>, pub hex: bool, pub upper: bool, pub fillc: i8, pub width: i32 }
impl View for Oss { type V = Seq<i8>; closed spec fn view(&self) -> Seq<i8> { self.v@ } }
pub open spec fn oss_put(a: &Oss, b: &Oss, s: Seq<i8>) -> bool
{ b.width == 0 && b.hex == a.hex && b.upper == a.upper && b.fillc == a.fillc && b@ == a@ + padded(s, a.width as int, a.fillc) && (a.width <= s.len() ==> b@ == a@ + s) }
impl Oss {
    #[verifier::external_body]
    pub fn new() -> (r: Oss) ensures r@ == Seq::<i8>::empty(), !r.hex, !r.upper, r.fillc == 32i8, r.width == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn str(&self) -> (r: Str) ensures r@ == self@ { Str { v: self.v.clone() } }
    #[verifier::external_body]
    pub fn str_(&self) -> (r: Str) ensures r@ == self@ { Str { v: self.v.clone() } }
    #[verifier::external_body]
    pub fn fill(&mut self, c: i8) ensures final(self)@ == old(self)@, final(self).hex == old(self).hex, final(self).upper == old(self).upper, final(self).fillc == c, final(self).width == old(self).width { self.fillc = c; }
    #[verifier::external_body]
    pub fn manip_hex(&mut self) ensures final(self)@ == old(self)@, final(self).hex, final(self).upper == old(self).upper, final(self).fillc == old(self).fillc, final(self).width == old(self).width { self.hex = true; }
    #[verifier::external_body]
    pub fn manip_dec(&mut self) ensures final(self)@ == old(self)@, !final(self).hex, final(self).upper == old(self).upper, final(self).fillc == old(self).fillc, final(self).width == old(self).width { self.hex = false; }
    #[verifier::external_body]
    pub fn manip_uppercase(&mut self) ensures final(self)@ == old(self)@, final(self).hex == old(self).hex, final(self).upper, final(self).fillc == old(self).fillc, final(self).width == old(self).width { self.upper = true; }
    #[verifier::external_body]
    pub fn manip_nouppercase(&mut self) ensures final(self)@ == old(self)@, final(self).hex == old(self).hex, !final(self).upper, final(self).fillc == old(self).fillc, final(self).width == old(self).width { self.upper = false; }
    #[verifier::external_body]
    pub fn manip_setw(&mut self, w: i32) ensures final(self)@ == old(self)@, final(self).hex == old(self).hex, final(self).upper == old(self).upper, final(self).fillc == old(self).fillc, final(self).width == w { self.width = w; }
    #[verifier::external_body]
    pub fn manip_setfill(&mut self, c: i8) ensures final(self)@ == old(self)@, final(self).hex == old(self).hex, final(self).upper == old(self).upper, final(self).fillc == c, final(self).width == old(self).width { self.fillc = c; }
    #[verifier::external_body]
    pub fn put_i8(&mut self, c: i8) ensures oss_put(old(self), final(self), seq![c]) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u8(&mut self, c: u8) ensures oss_put(old(self), final(self), seq![wrap_i8(c as int) as i8]) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_Str(&mut self, s: &Str) ensures oss_put(old(self), final(self), s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_i32(&mut self, x: i32) ensures oss_put(old(self), final(self), fmt_i32(x as int, old(self).hex, old(self).upper)) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_Num(&mut self, x: Num) ensures oss_put(old(self), final(self), num_text(x)) { unimplemented!() }
}
// std::stoi / std::to_string
pub open spec fn dec_value(s: Seq<i8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * dec_value(s.drop_last()) + (s.last() - 48) } }
pub open spec fn all_digits(s: Seq<i8>) -> bool { forall|k: int| 0 <= k < s.len() ==> 48 <= #[trigger] s[k] <= 57 }
#[verifier::external_body]
pub fn str_stoi(s: &Str) -> (r: i32) requires 0 < s@.len() <= 9, all_digits(s@) ensures r == dec_value(s@) { unimplemented!() }
#[verifier::external_body]
pub fn to_string_i32(x: i32) -> (r: Str) ensures r@ == fmt_dec(x as int) { unimplemented!() }
// std::string from a NUL-terminated array
#[verifier::external_body]
pub fn str_of_carr(a: &CArr<i8>) -> (r: Str)
    requires find_from(a@, 0, 0) < a@.len()
    ensures r@ == a@.subrange(0, find_from(a@, 0, 0))
{ unimplemented!() }
// <cctype> in the "C" locale, glibc (which also accepts negative char values: not in any class)
pub open spec fn is_digit_(c: int) -> bool { 48 <= c <= 57 }
pub open spec fn is_upper_(c: int) -> bool { 65 <= c <= 90 }
pub open spec fn is_lower_(c: int) -> bool { 97 <= c <= 122 }
#[verifier::external_body]
pub fn c_isdigit(c: i32) -> (r: i32) requires -128 <= c <= 255 ensures (r != 0) == is_digit_(c as int) { unimplemented!() }
#[verifier::external_body]
pub fn c_isalpha(c: i32) -> (r: i32) requires -128 <= c <= 255 ensures (r != 0) == (is_upper_(c as int) || is_lower_(c as int)) { unimplemented!() }
#[verifier::external_body]
pub fn c_isalnum(c: i32) -> (r: i32) requires -128 <= c <= 255 ensures (r != 0) == (is_digit_(c as int) || is_upper_(c as int) || is_lower_(c as int)) { unimplemented!() }
#[verifier::external_body]
pub fn c_isxdigit(c: i32) -> (r: i32) requires -128 <= c <= 255 ensures (r != 0) == (is_digit_(c as int) || 65 <= c <= 70 || 97 <= c <= 102) { unimplemented!() }
#[verifier::external_body]
pub fn c_isupper(c: i32) -> (r: i32) requires -128 <= c <= 255 ensures (r != 0) == is_upper_(c as int) { unimplemented!() }
#[verifier::external_body]
pub fn c_islower(c: i32) -> (r: i32) requires -128 <= c <= 255 ensures (r != 0) == is_lower_(c as int) { unimplemented!() }
#[verifier::external_body]
pub fn c_isspace(c: i32) -> (r: i32) requires -128 <= c <= 255 ensures (r != 0) == (c == 32 || 9 <= c <= 13) { unimplemented!() }
#[verifier::external_body]
pub fn c_toupper(c: i32) -> (r: i32) requires -128 <= c <= 255 ensures r == (if is_lower_(c as int) { c - 32 } else { c as int }) { unimplemented!() }
#[verifier::external_body]
pub fn c_tolower(c: i32) -> (r: i32) requires -128 <= c <= 255 ensures r == (if is_upper_(c as int) { c + 32 } else { c as int }) { unimplemented!() }
} // verus!
