@# exponentiation by squaring: binaryPow, genericBinaryPow
@driver
#include "/repo/src/math_utils/binary_pow.cpp"
namespace cuhksz {
// an arbitrary type with *=, once constructible from int and once not
struct AnyElem { AnyElem(int); AnyElem& operator*=(const AnyElem&); };
struct OpqElem { OpqElem& operator*=(const OpqElem&); };
}
template cuhksz::AnyElem cuhksz::genericBinaryPow<cuhksz::AnyElem, int>(cuhksz::AnyElem, int);
template cuhksz::AnyElem cuhksz::genericBinaryPow<cuhksz::AnyElem, long>(cuhksz::AnyElem, long);
template cuhksz::OpqElem cuhksz::genericBinaryPow<cuhksz::OpqElem, int>(cuhksz::OpqElem, int);
template cuhksz::OpqElem cuhksz::genericBinaryPow<cuhksz::OpqElem, long>(cuhksz::OpqElem, long);

@optype AnyElem => Elem
@optype OpqElem => Elem
@extern ctor_Elem => Elem_from_int
@trusted Elem_mul: the element type's *= is an associative operation (the property is stated for such types); a product may be formed only if it is representable
@prelude
use vstd::arithmetic::power::*;
// ---------------- abstract element type: a partial semigroup
pub struct Elem { pub id: int_id }
#[verifier::external_body]
pub struct int_id { p: u8 }
pub uninterp spec fn op(a: Elem, b: Elem) -> Elem;
pub uninterp spec fn one() -> Elem;
pub uninterp spec fn representable(a: Elem) -> bool;
pub open spec fn assoc() -> bool { forall|a: Elem, b: Elem, c: Elem| #[trigger] op(op(a, b), c) == op(a, op(b, c)) }
pub open spec fn epow(b: Elem, n: int) -> Elem decreases n { if n <= 1 { b } else { op(epow(b, n - 1), b) } }
impl CCopy for Elem { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn Elem_mul(a: Elem, b: Elem) -> (r: Elem) requires representable(op(a, b)) ensures r == op(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn Elem_from_int(i: i32) -> (r: Elem) requires i == 1 ensures r == one() { unimplemented!() }
pub proof fn epow_add(b: Elem, m: int, n: int)
    requires assoc(), m >= 1, n >= 1 ensures op(epow(b, m), epow(b, n)) == epow(b, m + n) decreases n
{
    if n > 1 { epow_add(b, m, n - 1); assert(op(op(epow(b, m), epow(b, n - 1)), b) == op(epow(b, m), op(epow(b, n - 1), b))); }
}
pub proof fn epow_all(b: Elem)
    requires assoc() ensures forall|m: int, n: int| m >= 1 && n >= 1 ==> #[trigger] op(epow(b, m), epow(b, n)) == epow(b, m + n)
{ assert forall|m: int, n: int| m >= 1 && n >= 1 implies #[trigger] op(epow(b, m), epow(b, n)) == epow(b, m + n) by { epow_add(b, m, n); } }
pub open spec fn powers_ok(b: Elem, n: int) -> bool { forall|k: int| 1 <= k <= n ==> representable(#[trigger] epow(b, k)) }

// ---------------- integers
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn ipow(b: int, e: int) -> int decreases e { if e <= 0 { 1 } else { b * ipow(b, e - 1) } }
pub proof fn ipow_2(e: int) requires e >= 0 ensures ipow(2, e) == pow2(e as nat) decreases e
{ if e > 0 { ipow_2(e - 1); lemma_pow2_unfold(e as nat); } else { lemma2_to64(); } }
pub proof fn ipow_1(e: int) ensures ipow(1, e) == 1 decreases e { if e > 0 { ipow_1(e - 1); } }
pub proof fn ipow_sq(b: int, e: int) requires e >= 0 ensures ipow(b * b, e) == ipow(b, 2 * e) decreases e
{
    if e > 0 { ipow_sq(b, e - 1); assert(ipow(b, 2 * e) == b * ipow(b, 2 * e - 1)); assert(ipow(b, 2 * e - 1) == b * ipow(b, 2 * e - 2));
      let p = ipow(b, 2 * e - 2); assert((b * b) * p == b * (b * p)) by (nonlinear_arith); }
}
pub proof fn ipow_ge(b: int, e: int) requires b != 0 ensures iabs(ipow(b, e)) >= 1 decreases e
{ if e > 0 { ipow_ge(b, e - 1); let p = ipow(b, e - 1); assert(iabs(b * p) >= 1) by (nonlinear_arith) requires b != 0, p != 0; } }
pub proof fn pow2_big(e: int) requires e >= 63 ensures pow2(e as nat) > i64::MAX decreases e
{ lemma2_to64(); lemma2_to64_rest(); if e > 63 { pow2_big(e - 1); lemma_pow2_unfold(e as nat); } }
// one squaring step: res * b^e is preserved, and nothing leaves the range of the final value
pub proof fn sq_step(b: int, e: int, res: int, tot: int)
    requires e >= 1, res * ipow(b, e) == tot, -0x8000_0000_0000_0000 <= tot <= 0x7fff_ffff_ffff_ffff, b != 0 ==> res != 0
    ensures ({ let nres = if e % 2 == 1 { res * b } else { res };
        nres * ipow(b * b, e / 2) == tot && (e / 2 == 0 ==> nres == tot) && (b != 0 ==> nres != 0 && -0x8000_0000_0000_0000 <= nres <= 0x7fff_ffff_ffff_ffff
        && (e / 2 >= 1 ==> b * b <= 0x7fff_ffff_ffff_ffff)) })
{
    let h = e / 2; let p = ipow(b * b, h);
    ipow_sq(b, h);
    if e % 2 == 1 { assert(ipow(b, e) == b * ipow(b, e - 1)); assert(res * (b * p) == (res * b) * p) by (nonlinear_arith); }
    let nres = if e % 2 == 1 { res * b } else { res };
    assert(nres * p == tot);
    if b != 0 {
        assert(b * b > 0) by (nonlinear_arith) requires b != 0;
        ipow_ge(b * b, h);
        assert(nres != 0) by (nonlinear_arith) requires b != 0, res != 0, nres == res || nres == res * b;
        assert(p != 0);
        assert(p > 0) by { ipow_pos(b * b, h); }
        assert(-0x8000_0000_0000_0000 <= nres <= 0x7fff_ffff_ffff_ffff) by (nonlinear_arith) requires nres * p == tot, p >= 1, -0x8000_0000_0000_0000 <= tot <= 0x7fff_ffff_ffff_ffff;
        if h >= 1 {
            let q = ipow(b * b, h - 1);
            ipow_pos(b * b, h - 1); ipow_ge(b * b, h - 1);
            let s = b * b; 
            assert(s >= 1) by (nonlinear_arith) requires s == b * b, b != 0;
            assert(s <= iabs(tot)) by (nonlinear_arith) requires nres * p == tot, p == s * q, q >= 1, s >= 1, nres != 0;
            if s > 0x7fff_ffff_ffff_ffff { 
               // |tot| == 2^63 == s*q*|nres| would need s == 2^63, which is not a square
               assert(s == 0x8000_0000_0000_0000);
               not_square(b);
            }
        }
    }
}
pub proof fn ipow_pos(b: int, e: int) requires b >= 0 ensures ipow(b, e) >= 0 decreases e
{ if e > 0 { ipow_pos(b, e - 1); let p = ipow(b, e - 1); assert(b * p >= 0) by (nonlinear_arith) requires b >= 0, p >= 0; } }
pub proof fn ipow_zero(e: int) ensures ipow(0, e) == (if e <= 0 { 1int } else { 0int }) { }
pub proof fn not_square(b: int) ensures b * b != 0x8000_0000_0000_0000
{
    let c = iabs(b);
    assert(b * b == c * c) by (nonlinear_arith) requires c == b || c == -b;
    if c <= 3037000499 { assert(c * c <= 3037000499 * 3037000499) by (nonlinear_arith) requires 0 <= c <= 3037000499; assert(3037000499int * 3037000499int < 0x8000_0000_0000_0000); }
    else { assert(c * c >= 3037000500 * 3037000500) by (nonlinear_arith) requires c >= 3037000500; assert(3037000500int * 3037000500int > 0x8000_0000_0000_0000); }
}

@fn cuhksz::binaryPow as binaryPow
@params base exp
@requires
exp >= 0 ==> i64::MIN <= ipow(base as int, exp as int) <= i64::MAX
@ensures
exp >= 0, r == ipow(base as int, exp as int)
@exit_ok exp_0 < 0
@entry
proof { ipow_1(exp as int);
  if exp >= 0 { ipow_2(exp as int); lemma2_to64(); if exp >= 63 { pow2_big(exp as int); } if exp > 0 { lemma_pow2_unfold(exp as nat); } } }
@loop 1
@invariant
exp >= 0, result * ipow(base as int, exp as int) == ipow(base_0 as int, exp_0 as int), base != 0 ==> result != 0, exp_0 >= 0, exp == 0 ==> result == ipow(base_0 as int, exp_0 as int)
@decreases exp
@begin
proof { let e = exp as int; let b = base as int; sq_step(b, e, result as int, ipow(base_0 as int, exp_0 as int)); assert(b != 0 ==> b * b != 0) by (nonlinear_arith); assert(b * b >= 0) by (nonlinear_arith); assert(0 * 0 == 0int); }

@repeat E=AnyElem T=int N=genericBinaryPow_int ; E=AnyElem T=long N=genericBinaryPow_long
@fn cuhksz::genericBinaryPow as $N sig cuhksz::$E (cuhksz::$E, $T)
@params base exp
@requires
assoc(), powers_ok(base, exp as int), representable(one())
@ensures
exp >= 0, r == (if exp == 0 { one() } else { epow(base, exp as int) })
@exit_ok exp_0 < 0
@entry
let ghost mut kb = 1int; let ghost mut kr = 1int;
proof { epow_all(base_0); }
@loop 1
@invariant
exp >= 0, kb >= 1, kr >= 1, base == epow(base_0, kb), result == epow(base_0, kr), kr + kb * exp == exp_0 || (exp == 0 && kr == exp_0), exp_0 >= 1
@decreases exp
@begin
proof { let e = exp as int; assert(kb * e == kb * (e % 2) + (2 * kb) * (e / 2)) by (nonlinear_arith);
  assert(kb * (e / 2) >= 0) by (nonlinear_arith) requires kb >= 1, e >= 0;
  assert(e / 2 >= 1 ==> (2 * kb) * (e / 2) >= 2 * kb) by (nonlinear_arith) requires kb >= 1, e >= 0;
  assert(e % 2 == 1 ==> kb * (e % 2) == kb); assert(e % 2 == 0 ==> kb * (e % 2) == 0);
  if e % 2 == 1 { kr = kr + kb; } 
  if e / 2 >= 1 { kb = 2 * kb; } }
@endrepeat
@repeat E=OpqElem T=int N=genericBinaryPowOpq_int ; E=OpqElem T=long N=genericBinaryPowOpq_long
@fn cuhksz::genericBinaryPow as $N sig cuhksz::$E (cuhksz::$E, $T)
@params base exp
@requires
assoc(), powers_ok(base, exp as int)
@ensures
exp > 0, r == epow(base, exp as int)
@exit_ok exp_0 <= 0
@entry
let ghost mut kb = 1int; let ghost mut kr = 1int;
proof { epow_all(base_0); }
@loop 1
@invariant
exp >= 0, kb >= 1, kr >= 1, base == epow(base_0, kb), result == epow(base_0, kr), kr + kb * exp == exp_0 || (exp == 0 && kr == exp_0), exp_0 >= 1
@decreases exp
@begin
proof { let e = exp as int; assert(kb * e == kb * (e % 2) + (2 * kb) * (e / 2)) by (nonlinear_arith);
  assert(kb * (e / 2) >= 0) by (nonlinear_arith) requires kb >= 1, e >= 0;
  assert(e / 2 >= 1 ==> (2 * kb) * (e / 2) >= 2 * kb) by (nonlinear_arith) requires kb >= 1, e >= 0;
  assert(e % 2 == 1 ==> kb * (e % 2) == kb); assert(e % 2 == 0 ==> kb * (e % 2) == 0);
  if e % 2 == 1 { kr = kr + kb; } 
  if e / 2 >= 1 { kb = 2 * kb; } }
@endrepeat
