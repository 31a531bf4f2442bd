@# BigNum<MAX_SIZE>, for every MAX_SIZE: the instance 1237 stands for the symbolic constant MAX()
@driver
#include "/repo/src/include/math_utils/BigNum.h"
namespace cuhksz {
template class BigNum<1237>;
int use_(const BigNum<1237>& a, const BigNum<1237>& b) { add(a, b); sub(a, b); mul(a, b); abs(a); toString(a); return cmp(a, b); }
void use2_(std::ostream& o, const BigNum<1237>& a) { o << a; }
}

@struct cuhksz::BigNum<1237> => BigNum
@nttp 1237 => max_size()
@trusted the template parameter MAX_SIZE is any number between 2 and 10,000,000
@prelude
pub uninterp spec fn MAX() -> int;
#[verifier::external_body]
pub proof fn max_bound() ensures 2 <= MAX() <= 10_000_000 { }
#[verifier::external_body]
pub fn max_size() -> (r: i32) ensures r == MAX(), 2 <= MAX() <= 10_000_000 { unimplemented!() }
pub open spec fn p10(k: int) -> int decreases k { if k <= 0 { 1 } else { 10 * p10(k - 1) } }
// value of the first n digits, least significant first
pub open spec fn dig(s: Seq<i32>, n: int) -> int decreases n { if n <= 0 { 0 } else { dig(s, n - 1) + s[n - 1] * p10(n - 1) } }
pub open spec fn digits(s: Seq<i32>, n: int) -> bool { forall|k: int| 0 <= k < n ==> 0 <= #[trigger] s[k] <= 9 }
pub open spec fn zeros(s: Seq<i32>, n: int) -> bool { forall|k: int| n <= k < s.len() ==> #[trigger] s[k] == 0 }
// canonical form: digits below len, zeros above, no leading zero, zero is positive
pub open spec fn wf(a: BigNum) -> bool {
    a.elem@.len() == MAX() && 0 <= a.len <= MAX() && digits(a.elem@, a.len as int) && zeros(a.elem@, a.len as int)
    && (a.sign == 1 || a.sign == -1) && (a.len > 0 ==> a.elem@[a.len - 1] != 0) && (a.len == 0 ==> a.sign == 1)
}
pub open spec fn mag(a: BigNum) -> int { dig(a.elem@, a.len as int) }
pub open spec fn val(a: BigNum) -> int { if a.sign < 0 { -mag(a) } else { mag(a) } }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
// representable in MAX_SIZE digits
pub open spec fn fits(x: int) -> bool { -p10(MAX()) < x < p10(MAX()) }
pub open spec fn minl(a: int, b: int) -> int { if b < a { b } else { a } }

pub proof fn p10_pos(k: int) ensures p10(k) >= 1, k >= 0 ==> p10(k + 1) == 10 * p10(k) decreases k { if k > 0 { p10_pos(k - 1); } }
pub proof fn p10_mono(a: int, b: int) requires a <= b ensures p10(a) <= p10(b) decreases b - a
{ if a < b { p10_mono(a, b - 1); p10_pos(b - 1); if b <= 0 { } } }
pub proof fn p10_add(a: int, b: int) requires a >= 0, b >= 0 ensures p10(a + b) == p10(a) * p10(b) decreases b
{ if b > 0 { p10_add(a, b - 1); let (x, y) = (p10(a), p10(b - 1)); assert(10 * (x * y) == x * (10 * y)) by (nonlinear_arith); } }
pub proof fn dig_bound(s: Seq<i32>, n: int)
    requires digits(s, n), 0 <= n <= s.len() ensures 0 <= dig(s, n) < p10(n) decreases n
{ if n > 0 { dig_bound(s, n - 1); p10_pos(n - 1); let (d, p) = (s[n - 1] as int, p10(n - 1)); assert(0 <= s[n - 1] <= 9); assert(0 <= d * p <= 9 * p) by (nonlinear_arith) requires 0 <= d <= 9, p >= 1; } }
pub proof fn dig_top(s: Seq<i32>, n: int)
    requires digits(s, n), 0 < n <= s.len(), s[n - 1] != 0 ensures dig(s, n) >= p10(n - 1), dig(s, n) < p10(n)
{ dig_bound(s, n - 1); dig_bound(s, n); p10_pos(n - 1); assert(0 <= s[n - 1]); let (d, p) = (s[n - 1] as int, p10(n - 1)); assert(d * p >= p) by (nonlinear_arith) requires d >= 1, p >= 1; }
pub proof fn dig_ext(s: Seq<i32>, t: Seq<i32>, n: int)
    requires forall|k: int| 0 <= k < n ==> s[k] == t[k] ensures dig(s, n) == dig(t, n) decreases n
{ if n > 0 { dig_ext(s, t, n - 1); } }
pub proof fn dig_update(s: Seq<i32>, k: int, v: i32, n: int)
    requires 0 <= k < s.len(), 0 <= n <= s.len()
    ensures dig(s.update(k, v), n) == dig(s, n) + (if k < n { (v - s[k]) * p10(k) } else { 0 })
    decreases n
{
    if n > 0 {
        dig_update(s, k, v, n - 1);
        if k == n - 1 { dig_ext(s.update(k, v), s, n - 1); let (x, y, p) = (v as int, s[k] as int, p10(k)); assert((x - y) * p == x * p - y * p) by (nonlinear_arith); }
    }
}
pub proof fn dig_tail(s: Seq<i32>, m: int, n: int)
    requires 0 <= m <= n <= s.len(), forall|k: int| m <= k < n ==> #[trigger] s[k] == 0 ensures dig(s, n) == dig(s, m) decreases n - m
{ if m < n { dig_tail(s, m, n - 1); assert(s[n - 1] == 0); let p = p10(n - 1); assert(0 * p == 0) by (nonlinear_arith); } }
// agreement above position i: the digit at i decides
pub proof fn dig_cmp(s: Seq<i32>, t: Seq<i32>, i: int, n: int)
    requires 0 <= i < n <= s.len(), n <= t.len(), digits(s, n), digits(t, n), forall|k: int| i < k < n ==> s[k] == t[k], s[i] > t[i]
    ensures dig(s, n) > dig(t, n)
    decreases n
{
    if i == n - 1 {
        dig_bound(s, n - 1); dig_bound(t, n - 1); p10_pos(n - 1);
        let (x, y, p) = (s[i] as int, t[i] as int, p10(n - 1));
        assert(x * p >= y * p + p) by (nonlinear_arith) requires x >= y + 1, p >= 1;
    } else { dig_cmp(s, t, i, n - 1); assert(s[n - 1] == t[n - 1]); }
}
pub proof fn cmp_len(a: BigNum, b: BigNum)
    requires wf(a), wf(b) ensures a.len > b.len ==> mag(a) > mag(b), mag(a) >= 0, mag(b) >= 0, a.len == 0 <==> mag(a) == 0, b.len == 0 <==> mag(b) == 0,
       mag(a) < p10(a.len as int), mag(b) < p10(b.len as int)
{
    dig_bound(a.elem@, a.len as int); dig_bound(b.elem@, b.len as int);
    if a.len > 0 { dig_top(a.elem@, a.len as int); p10_pos(a.len - 1); }
    if b.len > 0 { dig_top(b.elem@, b.len as int); p10_pos(b.len - 1); }
    if a.len > b.len { p10_mono(b.len as int, a.len - 1); }
}
// a nonzero value with less than 10^k has at most k digits
pub proof fn len_le(a: BigNum, k: int) requires wf(a), mag(a) < p10(k), k >= 0 ensures a.len <= k
{ if a.len > k { dig_top(a.elem@, a.len as int); p10_mono(k, a.len - 1); } }
// digitwise sum / difference
pub proof fn dig_sum(s: Seq<i32>, a: Seq<i32>, b: Seq<i32>, c: int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] s[k] == a[k] + c * b[k] ensures dig(s, n) == dig(a, n) + c * dig(b, n) decreases n
{
    if n > 0 {
        dig_sum(s, a, b, c, n - 1); assert(s[n - 1] == a[n - 1] + c * b[n - 1]);
        let (x, y, p, d) = (a[n - 1] as int, b[n - 1] as int, p10(n - 1), dig(b, n - 1));
        assert((x + c * y) * p == x * p + c * (y * p)) by (nonlinear_arith);
        assert(c * (d + y * p) == c * d + c * (y * p)) by (nonlinear_arith);
    } else { assert(c * 0 == 0) by (nonlinear_arith); }
}
// the digits of a canonical number beyond len are zero
pub proof fn dig_any(a: BigNum, n: int) requires wf(a), a.len <= n <= MAX() ensures dig(a.elem@, n) == mag(a) { dig_tail(a.elem@, a.len as int, n); }
pub proof fn cell(a: BigNum) requires wf(a) ensures forall|k: int| 0 <= k < MAX() ==> 0 <= #[trigger] a.elem@[k] <= 9
{ assert forall|k: int| 0 <= k < MAX() implies 0 <= #[trigger] a.elem@[k] <= 9 by { if k < a.len { } else { } } }
// a number below n digits with at least 10^(n-1) has a nonzero top digit
pub proof fn top_nz(s: Seq<i32>, n: int) requires 0 < n <= s.len(), digits(s, n), dig(s, n) >= p10(n - 1) ensures s[n - 1] != 0
{ if s[n - 1] == 0 { dig_bound(s, n - 1); dig_tail(s, n - 1, n); } }
// top cell times its weight is at most the value; and a too large or negative cell shows in the value
pub proof fn top_cell(s: Seq<i32>, n: int) requires 0 < n <= s.len(), digits(s, n - 1)
    ensures dig(s, n) >= s[n - 1] * p10(n - 1), s[n - 1] >= 10 ==> dig(s, n) >= p10(n), s[n - 1] < 0 ==> dig(s, n) < 0
{
    dig_bound(s, n - 1); p10_pos(n - 1); let (d, p) = (s[n - 1] as int, p10(n - 1));
    if d >= 10 { assert(d * p >= 10 * p) by (nonlinear_arith) requires d >= 10, p >= 1; }
    if d < 0 { assert(d * p <= -p) by (nonlinear_arith) requires d <= -1, p >= 1; }
}

pub proof fn mul_val(a: BigNum, b: BigNum) requires wf(a), wf(b)
    ensures val(a) * val(b) == (if a.sign == b.sign { mag(a) * mag(b) } else { -(mag(a) * mag(b)) }), a.len == 0 || b.len == 0 ==> mag(a) * mag(b) == 0 && val(a) * val(b) == 0, a.sign * b.sign == (if a.sign == b.sign { 1int } else { -1 })
{
    let (x, y) = (mag(a), mag(b));
    assert((-x) * (-y) == x * y && (-x) * y == -(x * y) && x * (-y) == -(x * y)) by (nonlinear_arith);
    assert(1 * (x * y) == x * y && (-1) * (x * y) == -(x * y)) by (nonlinear_arith);
    assert(a.sign * b.sign == 1 || a.sign * b.sign == -1) by (nonlinear_arith) requires a.sign == 1 || a.sign == -1, b.sign == 1 || b.sign == -1;
    assert(a.sign == b.sign ==> a.sign * b.sign == 1) by (nonlinear_arith) requires a.sign == 1 || a.sign == -1, b.sign == 1 || b.sign == -1;
    assert(a.sign != b.sign ==> a.sign * b.sign == -1) by (nonlinear_arith) requires a.sign == 1 || a.sign == -1, b.sign == 1 || b.sign == -1;
    if a.len == 0 || b.len == 0 { cmp_len(a, b); assert(0 * y == 0 && x * 0 == 0) by (nonlinear_arith); assert(val(a) == 0 || val(b) == 0); let (u, v) = (val(a), val(b)); assert(u * v == 0) by (nonlinear_arith) requires u == 0 || v == 0; }
}
pub proof fn mul_len(a: BigNum, b: BigNum) requires wf(a), wf(b), a.len > 0, b.len > 0
    ensures p10(a.len + b.len - 2) <= mag(a) * mag(b) < p10(a.len + b.len), mag(a) * mag(b) < p10(MAX()) ==> a.len + b.len - 1 <= MAX()
{
    let (x, y) = (mag(a), mag(b)); let (la, lb) = (a.len as int, b.len as int);
    dig_top(a.elem@, la); dig_top(b.elem@, lb); p10_add(la - 1, lb - 1); p10_add(la, lb); p10_pos(la - 1); p10_pos(lb - 1);
    let (p, q, u, v) = (p10(la - 1), p10(lb - 1), p10(la), p10(lb));
    assert(p * q <= x * y) by (nonlinear_arith) requires 1 <= p <= x, 1 <= q <= y;
    assert(x * y < u * v) by (nonlinear_arith) requires 0 <= x < u, 0 <= y < v;
    if x * y < p10(MAX()) && la + lb - 1 > MAX() { p10_mono(MAX(), la + lb - 2); }
}
// what the signs mean for the sums and products of two numbers
pub proof fn ops(a: BigNum, b: BigNum) requires wf(a), wf(b)
    ensures mag(a) >= 0, mag(b) >= 0, val(a) == a.sign * mag(a), a.len == 0 <==> mag(a) == 0, b.len == 0 <==> mag(b) == 0,
      iabs(val(a) * val(b)) == mag(a) * mag(b), fits(val(a) * val(b)) <==> fits(mag(a) * mag(b)), mag(a) < p10(MAX()), mag(b) < p10(MAX()), fits(val(a)), fits(val(b))
{
    max_bound(); cmp_len(a, b); mul_val(a, b); let (x, y) = (mag(a), mag(b)); assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0;
    assert(1 * (x * y) == x * y && (-1) * (x * y) == -(x * y)) by (nonlinear_arith);
    p10_mono(a.len as int, MAX()); p10_mono(b.len as int, MAX());
    assert(a.sign * x == (if a.sign < 0 { -x } else { x })) by (nonlinear_arith) requires a.sign == 1 || a.sign == -1;
}
pub proof fn ops_all(a: BigNum) requires wf(a)
    ensures forall|b: BigNum| #[trigger] wf(b) ==> mag(a) >= 0 && mag(b) >= 0 && (a.len == 0 <==> mag(a) == 0) && (b.len == 0 <==> mag(b) == 0)
      && (fits(val(a) * val(b)) <==> fits(mag(a) * mag(b))) && mag(a) < p10(MAX()) && mag(b) < p10(MAX())
{ assert forall|b: BigNum| #[trigger] wf(b) implies mag(a) >= 0 && mag(b) >= 0 && (a.len == 0 <==> mag(a) == 0) && (b.len == 0 <==> mag(b) == 0)
      && (fits(val(a) * val(b)) <==> fits(mag(a) * mag(b))) && mag(a) < p10(MAX()) && mag(b) < p10(MAX()) by { ops(a, b); } }
// strings
pub open spec fn isd(c: i8) -> bool { 48 <= c <= 57 }
pub open spec fn neg(s: Seq<i8>) -> int { if s.len() > 0 && s[0] == 45i8 { 1 } else { 0 } }
pub open spec fn numeral(s: Seq<i8>) -> bool { s.len() > neg(s) && forall|k: int| neg(s) <= k < s.len() ==> isd(#[trigger] s[k]) }
pub open spec fn sval(s: Seq<i8>, lo: int, hi: int) -> int decreases hi - lo { if hi <= lo { 0 } else { 10 * sval(s, lo, hi - 1) + (s[hi - 1] - 48) } }
pub proof fn sval_left(s: Seq<i8>, lo: int, hi: int)
    requires lo < hi ensures sval(s, lo, hi) == (s[lo] - 48) * p10(hi - lo - 1) + sval(s, lo + 1, hi) decreases hi - lo
{
    if hi - lo > 1 { sval_left(s, lo, hi - 1); let (d, p) = (s[lo] - 48, p10(hi - lo - 2)); assert(10 * (d * p) == d * (10 * p)) by (nonlinear_arith); }
    else { assert(sval(s, lo, lo) == 0); assert(p10(0) == 1); assert(sval(s, lo + 1, hi) == 0); }
}
pub proof fn dig_sval(e: Seq<i32>, s: Seq<i8>, lo: int, hi: int)
    requires lo <= hi, forall|k: int| 0 <= k < hi - lo ==> #[trigger] e[k] == s[hi - 1 - k] - 48
    ensures dig(e, hi - lo) == sval(s, lo, hi) decreases hi - lo
{ if lo < hi { sval_left(s, lo, hi); dig_sval(e, s, lo + 1, hi); assert(e[hi - lo - 1] == s[lo] - 48); } }
pub proof fn sval_sub(s: Seq<i8>, i: int) requires 0 <= i < s.len() ensures dec_value(s.subrange(i, i + 1)) == s[i] - 48
{ reveal_with_fuel(dec_value, 3); assert(s.subrange(i, i + 1).drop_last() =~= Seq::<i8>::empty()); }
// the digits from the top, as characters
pub open spec fn rev(e: Seq<i32>, n: int) -> Seq<i8> { Seq::new(n as nat, |k: int| (48 + e[n - 1 - k]) as i8) }
pub proof fn dig_low(e: Seq<i32>, n: int)
    requires 1 <= n <= e.len() ensures dig(e, n) == e[0] + 10 * dig(e.skip(1), n - 1) decreases n
{
    if n > 1 { dig_low(e, n - 1); assert(e.skip(1)[n - 2] == e[n - 1]); let (d, p) = (e[n - 1] as int, p10(n - 2)); assert(10 * (d * p) == d * (10 * p)) by (nonlinear_arith); }
    else { assert(dig(e, 1) == dig(e, 0) + e[0] * p10(0)); assert(dig(e.skip(1), 0) == 0); }
}
pub proof fn rev_dec(e: Seq<i32>, n: int)
    requires 1 <= n <= e.len(), digits(e, n), e[n - 1] != 0
    ensures rev(e, n) == decdigits(dig(e, n)) decreases n
{
    dig_low(e, n); let f = e.skip(1); let v = dig(e, n); assert(0 <= e[0] <= 9);
    if n == 1 { assert(dig(f, 0) == 0); assert(rev(e, 1) =~= decdigits(v)); }
    else {
        assert(f[n - 2] == e[n - 1]);
        assert forall|k: int| 0 <= k < n - 1 implies 0 <= #[trigger] f[k] <= 9 by { assert(f[k] == e[k + 1]); }
        rev_dec(f, n - 1); dig_top(f, n - 1); p10_pos(n - 2);
        let w = dig(f, n - 1);
        assert(v / 10 == w && v % 10 == e[0] && v >= 10);
        assert(rev(e, n) =~= rev(f, n - 1).push((48 + e[0]) as i8));
        assert(rev(e, n) =~= decdigits(v));
    }
}
// one carry / borrow step keeps the value
pub proof fn carry(s: Seq<i32>, t: Seq<i32>, i: int, c: int, n: int)
    requires 0 <= i, i + 1 < n <= s.len(), t.len() == s.len(), t[i] == s[i] - 10 * c, t[i + 1] == s[i + 1] + c, forall|k: int| 0 <= k < s.len() && k != i && k != i + 1 ==> #[trigger] t[k] == s[k]
    ensures dig(t, n) == dig(s, n)
{
    let u = s.update(i, t[i]); let w = u.update(i + 1, t[i + 1]);
    assert(w =~= t);
    dig_update(s, i, t[i], n); dig_update(u, i + 1, t[i + 1], n); p10_pos(i);
    let p = p10(i);
    assert((t[i] - s[i]) * p + (t[i + 1] - s[i + 1]) * (10 * p) == 0) by (nonlinear_arith) requires t[i] - s[i] == -10 * c, t[i + 1] - s[i + 1] == c;
}

@fn cuhksz::BigNum<1237>::BigNum as bn_zero sig void ()
@opt ctorof cuhksz::BigNum<1237>
@params
@ensures
wf(r), val(r) == 0, r.len == 0, r.sign == 1

@fn cuhksz::BigNum<1237>::BigNum as bn_int sig void (const int64_t)
@opt ctorof cuhksz::BigNum<1237>
@params x
@requires
fits(x as int)
@ensures
wf(r), val(r) == x
@loop 1
@invariant
iabs(i as int) <= iabs(x as int), x >= 0 ==> i >= 0, x <= 0 ==> i <= 0, 0 <= this_.len <= MAX(), this_.elem@.len() == MAX(), digits(this_.elem@, this_.len as int), zeros(this_.elem@, this_.len as int), this_.sign == if x < 0 { -1int } else { 1 },
dig(this_.elem@, this_.len as int) + iabs(i as int) * p10(this_.len as int) == iabs(x as int), iabs(x as int) < p10(MAX()),
i == 0 ==> (this_.len == 0 || this_.elem@[this_.len - 1] != 0)
@decreases iabs(i as int)
@begin
let ghost s0 = this_.elem@; let ghost n0 = this_.len as int; let ghost i0 = iabs(i as int);
proof { max_bound(); dig_bound(s0, n0); p10_pos(n0); let p = p10(n0);
  assert(i0 * p >= p) by (nonlinear_arith) requires i0 >= 1, p >= 1;
  if n0 >= MAX() { p10_mono(MAX(), n0); } }
@end
dig_update(s0, n0, this_.elem@[n0], n0 + 1); assert(this_.elem@ =~= s0.update(n0, this_.elem@[n0]));
dig_tail(s0, n0, n0 + 1);
let p = p10(n0); let d = i0 % 10; let q = i0 / 10;
assert(i0 * p == d * p + q * (10 * p)) by (nonlinear_arith) requires i0 == 10 * q + d;
@ret
assert(0 * p10(this_.len as int) == 0) by (nonlinear_arith);
if this_.len > 0 { dig_top(this_.elem@, this_.len as int); p10_pos(this_.len - 1); }

@fn cuhksz::BigNum<1237>::BigNum as bn_str sig void (const std::string &)
@opt ctorof cuhksz::BigNum<1237>
@params s
@requires
numeral(s@), s@.len() - neg(s@) <= MAX()
@ensures
wf(r), val(r) == (if neg(s@) == 1 { -sval(s@, 1, s@.len() as int) } else { sval(s@, 0, s@.len() as int) })
@entry
proof { max_bound(); }
@loop 1
@invariant
numeral(s@), s@.len() - neg(s@) <= MAX(), neg(s@) - 1 <= i < s@.len(), this_.len == s@.len() - 1 - i, this_.elem@.len() == MAX(), MAX() <= 10_000_000,
this_.sign == (if neg(s@) == 1 { -1int } else { 1 }), zeros(this_.elem@, this_.len as int),
forall|k: int| 0 <= k < this_.len ==> #[trigger] this_.elem@[k] == s@[s@.len() - 1 - k] - 48
@decreases i + 2
@begin
proof { sval_sub(s@, i as int); assert(isd(s@[i as int])); }
@after
proof { dig_sval(this_.elem@, s@, neg(s@), s@.len() as int);
 assert forall|k: int| 0 <= k < this_.len implies 0 <= #[trigger] this_.elem@[k] <= 9 by { assert(isd(s@[s@.len() - 1 - k])); } }
@loop 2
@invariant
0 <= this_.len <= MAX(), this_.elem@.len() == MAX(), digits(this_.elem@, this_.len as int), zeros(this_.elem@, this_.len as int), dig(this_.elem@, this_.len as int) == sval(s@, neg(s@), s@.len() as int), MAX() <= 10_000_000,
this_.sign == (if neg(s@) == 1 { -1int } else { 1 })
@decreases this_.len
@begin
proof { dig_tail(this_.elem@, this_.len - 1, this_.len as int); }

@fn cuhksz::BigNum<1237>::BigNum as bn_copy sig void (const BigNum<1237> &)
@opt ctorof cuhksz::BigNum<1237>
@params src
@requires
wf(*src)
@ensures
r.elem@ == src.elem@, r.len == src.len, r.sign == src.sign, wf(r), val(r) == val(*src), mag(r) == mag(*src)
@ret
assert(this_.elem@ =~= src.elem@);

@fn cuhksz::BigNum<1237>::operator= as bn_assign
@opt retunit
@params src
@requires
wf(*src), old(this).elem@.len() == MAX()
@ensures
final(this).elem@ == src.elem@, final(this).len == src.len, final(this).sign == src.sign, wf(*final(this)), val(*final(this)) == val(*src), mag(*final(this)) == mag(*src)
@ret
assert(this.elem@ =~= src.elem@);

@fn cuhksz::cmp as bn_cmp
@params a b isAbs
@requires
wf(*a), wf(*b)
@ensures
isAbs ==> (r > 0) == (mag(*a) > mag(*b)) && (r < 0) == (mag(*a) < mag(*b)),
!isAbs ==> (r > 0) == (val(*a) > val(*b)) && (r < 0) == (val(*a) < val(*b))
@entry
proof { cmp_len(*a, *b); cmp_len(*b, *a); }
@loop 1
@invariant
-1 <= i < a.len, a.len == b.len, wf(*a), wf(*b), !isAbs ==> a.sign == b.sign, forall|k: int| i < k < a.len ==> #[trigger] a.elem@[k] == b.elem@[k]
@decreases i + 2
@begin
proof { if a.elem@[i as int] > b.elem@[i as int] { dig_cmp(a.elem@, b.elem@, i as int, a.len as int); } if a.elem@[i as int] < b.elem@[i as int] { dig_cmp(b.elem@, a.elem@, i as int, a.len as int); } }
@after
proof { dig_ext(a.elem@, b.elem@, a.len as int); }

@fn cuhksz::add as bn_add
@params a b
@requires
wf(*a), wf(*b), fits(mag(*a) + mag(*b))
@ensures
wf(r), mag(r) == mag(*a) + mag(*b), r.sign == a.sign
@entry
proof { max_bound(); }
proof { cell(*a); cell(*b); cmp_len(*a, *b); cmp_len(*b, *a); }
let ghost n = if a.len < b.len { b.len as int } else { a.len as int };
let ghost nn = minl(n + 1, MAX());
let ghost tot = mag(*a) + mag(*b);
proof { dig_any(*a, nn); dig_any(*b, nn); if a.len > 0 { dig_top(a.elem@, a.len as int); } if b.len > 0 { dig_top(b.elem@, b.len as int); } }
@loop 1
@invariant
0 <= i <= n, ret.len == n, ret.elem@.len() == MAX(), n <= MAX() <= 10_000_000, ret.sign == 1, wf(*a), wf(*b),
forall|k: int| 0 <= k < MAX() ==> 0 <= #[trigger] a.elem@[k] <= 9, forall|k: int| 0 <= k < MAX() ==> 0 <= #[trigger] b.elem@[k] <= 9,
forall|k: int| 0 <= k < MAX() ==> #[trigger] ret.elem@[k] == (if k < i { a.elem@[k] + b.elem@[k] } else { 0 })
@decreases n - i
@after
proof { assert forall|k: int| 0 <= k < nn implies #[trigger] ret.elem@[k] == a.elem@[k] + 1 * b.elem@[k] by { }
 dig_sum(ret.elem@, a.elem@, b.elem@, 1, nn); assert(dig(ret.elem@, nn) == tot); }
@loop 2
@invariant
0 <= i <= n, ret.len == n, ret.elem@.len() == MAX(), n <= MAX() <= 10_000_000, nn == minl(n + 1, MAX()), tot < p10(MAX()),
dig(ret.elem@, nn) == tot, digits(ret.elem@, i as int),
forall|k: int| i < k < n ==> 0 <= #[trigger] ret.elem@[k] <= 18, i < n ==> 0 <= ret.elem@[i as int] <= 19,
n < MAX() ==> 0 <= ret.elem@[n] <= 1, i < n && n < MAX() ==> ret.elem@[n] == 0, zeros(ret.elem@, n + 1)
@decreases n - i
@begin
let ghost s0 = ret.elem@; let ghost i0 = i as int;
proof { if i == MAX() - 1 { top_cell(s0, MAX()); } }
@bodyend
if s0[i0] >= 10 { carry(s0, ret.elem@, i0, 1, nn); }
@after
proof {
  if n < MAX() {
    if ret.elem@[n] == 0 { dig_tail(ret.elem@, n, n + 1); if n > 0 { top_nz(ret.elem@, n); } }
  } else { top_nz(ret.elem@, n); }
}

@fn cuhksz::sub as bn_sub
@params a b
@requires
wf(*a), wf(*b)
@ensures
wf(r), val(r) == mag(*a) - mag(*b)
@decreases (if mag(*a) < mag(*b) { 1int } else { 0int })
@entry
proof { max_bound(); }
proof { cell(*a); cell(*b); cmp_len(*a, *b); cmp_len(*b, *a); }
let ghost n = a.len as int;
let ghost tot = mag(*a) - mag(*b);
proof { if mag(*a) >= mag(*b) { dig_any(*b, n); } }
@loop 1
@invariant
0 <= i <= n, n == a.len, ret.len == n, ret.elem@.len() == MAX(), n <= MAX() <= 10_000_000, ret.sign == 1, wf(*a), wf(*b), mag(*a) >= mag(*b),
forall|k: int| 0 <= k < MAX() ==> 0 <= #[trigger] a.elem@[k] <= 9, forall|k: int| 0 <= k < MAX() ==> 0 <= #[trigger] b.elem@[k] <= 9,
forall|k: int| 0 <= k < MAX() ==> #[trigger] ret.elem@[k] == (if k < i { a.elem@[k] - b.elem@[k] } else { 0 })
@decreases n - i
@after
proof { assert forall|k: int| 0 <= k < n implies #[trigger] ret.elem@[k] == a.elem@[k] + (-1) * b.elem@[k] by { }
 dig_sum(ret.elem@, a.elem@, b.elem@, -1, n); assert(dig(ret.elem@, n) == tot); }
@loop 2
@invariant
0 <= i <= n, ret.len == n, ret.elem@.len() == MAX(), n <= MAX() <= 10_000_000, tot >= 0, ret.sign == 1,
dig(ret.elem@, n) == tot, digits(ret.elem@, i as int),
forall|k: int| i < k < n ==> -9 <= #[trigger] ret.elem@[k] <= 9, i < n ==> -10 <= ret.elem@[i as int] <= 9, zeros(ret.elem@, n)
@decreases n - i
@begin
let ghost s0 = ret.elem@; let ghost i0 = i as int;
proof { if i == n - 1 { top_cell(s0, n); } }
@bodyend
if s0[i0] < 0 { carry(s0, ret.elem@, i0, -1, n); }
@loop 3
@invariant
0 <= ret.len <= n, n <= MAX() <= 10_000_000, ret.elem@.len() == MAX(), digits(ret.elem@, ret.len as int), zeros(ret.elem@, ret.len as int), ret.sign == 1,
dig(ret.elem@, ret.len as int) == tot
@decreases ret.len
@begin
proof { dig_tail(ret.elem@, ret.len - 1, ret.len as int); }
@ret
cmp_len(ret_v, ret_v);

@fn cuhksz::mul as bn_mul
@params a b
@requires
wf(*a), wf(*b), fits(mag(*a) * mag(*b))
@ensures
wf(r), val(r) == val(*a) * val(*b)
@entry
proof { max_bound(); }
proof { cell(*a); cell(*b); cmp_len(*a, *b); mul_val(*a, *b); if a.len > 0 && b.len > 0 { mul_len(*a, *b); } }
let ghost m = a.len + b.len - 1;
let ghost nn = minl(m + 1, MAX());
let ghost tot = mag(*a) * mag(*b);
@loop 1
@invariant
0 <= i <= a.len, m == a.len + b.len - 1, ret.len == m, 0 < a.len, 0 < b.len, ret.elem@.len() == MAX(), m <= MAX() <= 10_000_000, nn == minl(m + 1, MAX()), ret.sign == 1, wf(*a), wf(*b),
forall|k: int| 0 <= k < MAX() ==> 0 <= #[trigger] a.elem@[k] <= 9, forall|k: int| 0 <= k < MAX() ==> 0 <= #[trigger] b.elem@[k] <= 9,
forall|k: int| 0 <= k < MAX() ==> 0 <= #[trigger] ret.elem@[k] <= 81 * i, zeros(ret.elem@, m),
dig(ret.elem@, nn) == dig(a.elem@, i as int) * mag(*b)
@decreases a.len - i
@before
proof { dig_tail(ret.elem@, 0, nn); assert(0 * mag(*b) == 0) by (nonlinear_arith); }
@begin
proof { let q = a.elem@[i as int] * p10(i as int); assert(q * 0 == 0) by (nonlinear_arith); }
@bodyend
let (x, y, z) = (dig(a.elem@, i as int), a.elem@[i as int] * p10(i as int), mag(*b));
assert((x + y) * z == x * z + y * z) by (nonlinear_arith);
@loop 2
@invariant
0 <= i < a.len, 0 <= j <= b.len, m == a.len + b.len - 1, ret.len == m, ret.elem@.len() == MAX(), m <= MAX() <= 10_000_000, nn == minl(m + 1, MAX()), ret.sign == 1, wf(*a), wf(*b),
forall|k: int| 0 <= k < MAX() ==> 0 <= #[trigger] a.elem@[k] <= 9, forall|k: int| 0 <= k < MAX() ==> 0 <= #[trigger] b.elem@[k] <= 9,
forall|k: int| 0 <= k < MAX() ==> 0 <= #[trigger] ret.elem@[k] <= (if k < i + j { 81 * (i + 1) } else { 81 * i }), zeros(ret.elem@, m),
dig(ret.elem@, nn) == dig(a.elem@, i as int) * mag(*b) + (a.elem@[i as int] * p10(i as int)) * dig(b.elem@, j as int)
@decreases b.len - j
@begin
let ghost s0 = ret.elem@; let ghost j0 = j as int;
proof { let (x, y) = (a.elem@[i as int] as int, b.elem@[j as int] as int); assert(0 <= x * y <= 81) by (nonlinear_arith) requires 0 <= x <= 9, 0 <= y <= 9; }
@bodyend
let (x, y, p, q, d) = (a.elem@[i as int] as int, b.elem@[j0] as int, p10(i as int), p10(j0), dig(b.elem@, j0));
dig_update(s0, i + j0, ret.elem@[i + j0], nn); p10_add(i as int, j0);
assert((x * y) * (p * q) == (x * p) * (y * q)) by (nonlinear_arith);
let (xp, yq) = (x * p, y * q);
assert(xp * (d + yq) == xp * d + xp * yq) by (nonlinear_arith);
@loop 3
@invariant
0 <= i <= m, ret.len == m, m == a.len + b.len - 1, 0 < m, ret.elem@.len() == MAX(), m <= MAX() <= 10_000_000, nn == minl(m + 1, MAX()), tot < p10(MAX()), tot < p10(m + 1),
dig(ret.elem@, nn) == tot, digits(ret.elem@, i as int),
forall|k: int| i < k < m ==> 0 <= #[trigger] ret.elem@[k] <= 810_000_000, i < m ==> 0 <= ret.elem@[i as int] <= 910_000_000,
m < MAX() ==> 0 <= ret.elem@[m] <= 91_000_000, i < m && m < MAX() ==> ret.elem@[m] == 0, zeros(ret.elem@, m + 1)
@decreases m - i
@begin
let ghost s0 = ret.elem@; let ghost i0 = i as int;
proof { if i == MAX() - 1 { top_cell(s0, MAX()); } }
@bodyend
if s0[i0] >= 10 { carry(s0, ret.elem@, i0, s0[i0] as int / 10, nn); } else { assert(ret.elem@ =~= s0); }
@after
proof {
  if m < MAX() {
    top_cell(ret.elem@, m + 1);
    if ret.elem@[m] == 0 { dig_tail(ret.elem@, m, m + 1); top_nz(ret.elem@, m); }
  } else { top_nz(ret.elem@, m); }
}

@repeat O=+ N=plus E=val(*this)~+~val(*other) ; O=- N=minus E=val(*this)~-~val(*other) ; O=* N=times E=val(*this)~*~val(*other)
@fn cuhksz::BigNum<1237>::operator$O as bn_$N sig BigNum<1237> (const BigNum<1237> &) const
@params other
@requires
wf(*this), wf(*other), fits($E)
@ensures
wf(r), val(r) == $E
@entry
proof { ops(*this, *other); }

@fn cuhksz::BigNum<1237>::operator$O= as bn_$N_eq sig BigNum<1237> &(const BigNum<1237> &)
@opt retunit
@params other
@requires
wf(*old(this)), wf(*other), fits({ let this = old(this); $E })
@ensures
wf(*final(this)), val(*final(this)) == ({ let this = old(this); $E })
@entry
proof { ops(*this, *other); }
@endrepeat

@repeat O=+ N=plus E=val(*this)~+~smallNum ; O=- N=minus E=val(*this)~-~smallNum ; O=* N=times E=val(*this)~*~smallNum
@fn cuhksz::BigNum<1237>::operator$O as bn_$N_int sig BigNum<1237> (const int64_t) const
@params smallNum
@requires
wf(*this), fits(smallNum as int), fits($E)
@ensures
wf(r), val(r) == $E
@entry
proof { ops_all(*this); }

@fn cuhksz::BigNum<1237>::operator$O= as bn_$N_int_eq sig BigNum<1237> &(const int64_t)
@opt retunit
@params smallNum
@requires
wf(*old(this)), fits(smallNum as int), fits({ let this = old(this); $E })
@ensures
wf(*final(this)), val(*final(this)) == ({ let this = old(this); $E })
@entry
proof { ops_all(*this); }
@endrepeat

@fn cuhksz::BigNum<1237>::operator- as bn_neg sig BigNum<1237> () const
@params
@requires
wf(*this)
@ensures
wf(r), val(r) == -val(*this)
@entry
proof { cmp_len(*this, *this); }

@repeat O=++ N=inc E=+ ; O=-- N=dec E=-
@fn cuhksz::BigNum<1237>::operator$O as bn_$N sig BigNum<1237> &()
@opt retunit
@params
@requires
wf(*old(this)), fits(val(*old(this)) $E 1)
@ensures
wf(*final(this)), val(*final(this)) == val(*old(this)) $E 1
@entry
proof { max_bound(); p10_pos(0); p10_mono(1, MAX()); }

@fn cuhksz::BigNum<1237>::operator$O as bn_post$N sig BigNum<1237> (int)
@params dummy
@requires
wf(*old(this)), fits(val(*old(this)) $E 1)
@ensures
wf(*final(this)), val(*final(this)) == val(*old(this)) $E 1, wf(r), val(r) == val(*old(this))
@endrepeat

@repeat O=< N=lt ; O=<= N=le ; O=> N=gt ; O=>= N=ge ; O=== N=eq ; O=!= N=ne
@fn cuhksz::BigNum<1237>::operator$O as bn_$N
@params other
@requires
wf(*this), wf(*other)
@ensures
r == (val(*this) $O val(*other))
@endrepeat

@fn cuhksz::BigNum<1237>::abs as bn_abs
@params
@requires
wf(*this)
@ensures
wf(r), val(r) == iabs(val(*this))
@entry
proof { cmp_len(*this, *this); }

@fn cuhksz::abs as bn_absf
@params a
@requires
wf(*a)
@ensures
wf(r), val(r) == iabs(val(*a))

@fn cuhksz::BigNum<1237>::toString as bn_tostring
@params
@requires
wf(*this)
@ensures
r@ == fmt_dec(val(*this))
@entry
proof { max_bound(); cmp_len(*this, *this); if this.len > 0 { rev_dec(this.elem@, this.len as int); } }
@loop 1
@invariant
-1 <= i < this.len, wf(*this), s@ == (if this.sign < 0 { seq![45i8] } else { Seq::<i8>::empty() }) + (if this.len == 0 { seq![48i8] } else { Seq::<i8>::empty() }) + rev(this.elem@, this.len as int).subrange(0, this.len - 1 - i)
@decreases i + 2
@bodyend
let q = rev(this.elem@, this.len as int); let k = this.len - 1 - i; assert(0 <= this.elem@[i as int] <= 9);
assert(q.subrange(0, k + 1) =~= q.subrange(0, k).push(q[k])); assert(fmt_dec(this.elem@[i as int] as int) =~= seq![q[k]]);
@after
proof { let q = rev(this.elem@, this.len as int); assert(q.subrange(0, q.len() as int) =~= q); assert(this.len == 0 ==> q =~= Seq::<i8>::empty()); 
  if this.len == 0 { assert(fmt_dec(0) =~= seq![48i8]); } }
@ret
assert(ret_v@ =~= fmt_dec(val(*this)));

@fn cuhksz::toString as bn_tostringf
@params src
@requires
wf(*src)
@ensures
r@ == fmt_dec(val(*src))

@fn cuhksz::operator<< as bn_out
@opt retunit
@params os src
@requires
wf(*src), old(os).width == 0
@ensures
final(os)@ == old(os)@ + fmt_dec(val(*src))
