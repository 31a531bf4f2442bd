@# Fraction
@driver
#include "/repo/src/include/math_utils/Fraction.h"
template int cuhksz::gcd<int, int>(int, int);

@include gcd
@struct cuhksz::Fraction => Fraction
@prelude
pub open spec fn inr(x: int) -> bool { i32::MIN < x <= i32::MAX }
// normal form: positive denominator, lowest terms
pub open spec fn norm(f: Fraction) -> bool { f.denominator > 0 && f.numerator > i32::MIN && is_gcd(1, f.numerator as int, f.denominator as int) }
// f == n/d
pub open spec fn is_val(f: Fraction, n: int, d: int) -> bool { norm(f) && d != 0 && f.numerator * d == n * f.denominator }
pub open spec fn addn(a: Fraction, b: Fraction) -> int { a.numerator * b.denominator + a.denominator * b.numerator }
pub open spec fn subn(a: Fraction, b: Fraction) -> int { a.numerator * b.denominator - a.denominator * b.numerator }
pub open spec fn prods(a: Fraction, b: Fraction) -> bool { inr(a.numerator * b.denominator) && inr(a.denominator * b.numerator) }
pub open spec fn dd(a: Fraction, b: Fraction) -> int { a.denominator * b.denominator }
pub open spec fn intf(v: i32) -> Fraction { Fraction { numerator: v, denominator: 1 } }
pub proof fn int_norm(v: i32) requires v > i32::MIN ensures norm(intf(v))
{ assert(v == 1 * v && 1 == 1 * 1); 
  assert forall|d: int| d > 0 && #[trigger] divides(d, v as int) && divides(d, 1) implies d <= 1 by { let k = choose|k: int| 1 == #[trigger] (d * k); assert(d <= 1) by (nonlinear_arith) requires 1 == d * k, d > 0; } }
pub proof fn pos_prod(a: int, b: int) requires a > 0, b > 0 ensures a * b > 0 { assert(a * b > 0) by (nonlinear_arith) requires a > 0, b > 0; }
// dividing by the gcd gives lowest terms
pub proof fn reduce(n: int, d: int, g: int, n1: int, d1: int)
    requires d != 0, is_gcd(iabs(g), n, d), n1 == tdiv(n, g), d1 == tdiv(d, g)
    ensures n == g * n1, d == g * d1, d1 != 0, is_gcd(1, n1, d1), iabs(n1) <= iabs(n), iabs(d1) <= iabs(d), g != 0, n1 * d == n * d1
{
    divides_neg(g, n); divides_neg(g, d);
    trem_props(n, g); trem_props(d, g);
    let kn = choose|k: int| n == #[trigger] (g * k); let kd = choose|k: int| d == #[trigger] (g * k);
    let (tn, td) = (trem(n, g), trem(d, g));
    assert(tn == g * (kn - n1)) by (nonlinear_arith) requires n == g * kn, n == g * n1 + tn;
    assert(td == g * (kd - d1)) by (nonlinear_arith) requires d == g * kd, d == g * d1 + td;
    small_mult(tn, g, kn - n1); small_mult(td, g, kd - d1);
    assert(d1 != 0) by (nonlinear_arith) requires d == g * d1, d != 0;
    assert(n1 == 1 * n1 && d1 == 1 * d1);
    assert forall|x: int| x > 0 && #[trigger] divides(x, n1) && divides(x, d1) implies x <= 1 by {
        let u = choose|u: int| n1 == #[trigger] (x * u); let v = choose|v: int| d1 == #[trigger] (x * v);
        let y = iabs(g) * x;
        assert(n == (g * x) * u) by (nonlinear_arith) requires n == g * n1, n1 == x * u;
        assert(d == (g * x) * v) by (nonlinear_arith) requires d == g * d1, d1 == x * v;
        assert(iabs(g * x) == y) by { iabs_mul(g, x); }
        divides_neg(g * x, n); divides_neg(g * x, d);
        assert(y > 0) by (nonlinear_arith) requires y == iabs(g) * x, iabs(g) > 0, x > 0;
        assert(divides(y, n) && divides(y, d));
        assert(y <= iabs(g));
        assert(x <= 1) by (nonlinear_arith) requires y == iabs(g) * x, y <= iabs(g), iabs(g) > 0;
    }
    assert(n1 * d == n * d1) by (nonlinear_arith) requires n == g * n1, d == g * d1;
}
pub proof fn small_mult(t: int, g: int, k: int) requires iabs(t) < iabs(g), t == g * k ensures t == 0
{ iabs_mul(g, k); assert(t == 0) by (nonlinear_arith) requires iabs(t) == iabs(g) * iabs(k), iabs(t) < iabs(g); }
pub proof fn flip(n: int, d: int) requires is_gcd(1, n, d) ensures is_gcd(1, -n, -d)
{
    divides_neg(1, n); divides_neg(1, d);
    assert forall|x: int| x > 0 && #[trigger] divides(x, -n) && divides(x, -d) implies x <= 1 by { divides_neg(x, n); divides_neg(x, d); }
}
pub proof fn reduce_all(n: int, d: int)
    ensures forall|g: int| d != 0 && #[trigger] is_gcd(iabs(g), n, d) ==> g != 0 && tdiv(d, g) != 0 && is_gcd(1, tdiv(n, g), tdiv(d, g)) && is_gcd(1, -tdiv(n, g), -tdiv(d, g))
      && iabs(tdiv(n, g)) <= iabs(n) && iabs(tdiv(d, g)) <= iabs(d) && tdiv(n, g) * d == n * tdiv(d, g) && (-tdiv(n, g)) * d == n * (-tdiv(d, g))
{
    assert forall|g: int| d != 0 && #[trigger] is_gcd(iabs(g), n, d) implies g != 0 && tdiv(d, g) != 0 && is_gcd(1, tdiv(n, g), tdiv(d, g)) && is_gcd(1, -tdiv(n, g), -tdiv(d, g))
      && iabs(tdiv(n, g)) <= iabs(n) && iabs(tdiv(d, g)) <= iabs(d) && tdiv(n, g) * d == n * tdiv(d, g) && (-tdiv(n, g)) * d == n * (-tdiv(d, g)) by {
        let (n1, d1) = (tdiv(n, g), tdiv(d, g));
        reduce(n, d, g, n1, d1); flip(n1, d1);
        assert((-n1) * d == n * (-d1)) by (nonlinear_arith) requires n1 * d == n * d1;
    }
}
// lowest terms with positive denominator are unique: equality of fields is equality of values
pub proof fn unique(a: Fraction, b: Fraction)
    requires norm(a), norm(b)
    ensures (a.numerator == b.numerator && a.denominator == b.denominator) == (a.numerator * b.denominator == b.numerator * a.denominator)
{
    let (n, d, p, q) = (a.numerator as int, a.denominator as int, b.numerator as int, b.denominator as int);
    if n * q == p * d {
        coprime_div(n, d, p, q); coprime_div(p, q, n, d);
        // d | q and q | d, both positive
        let u = choose|u: int| q == #[trigger] (d * u); let v = choose|v: int| d == #[trigger] (q * v);
        assert(u >= 1) by (nonlinear_arith) requires q == d * u, q > 0, d > 0;
        assert(v >= 1) by (nonlinear_arith) requires d == q * v, q > 0, d > 0;
        assert(q >= d) by (nonlinear_arith) requires q == d * u, u >= 1, d > 0;
        assert(d >= q) by (nonlinear_arith) requires d == q * v, v >= 1, q > 0;
        assert(n == p) by (nonlinear_arith) requires n * q == p * d, d == q, q > 0;
    }
}
// gcd(n, d) = 1 and n q = p d imply d | q
pub proof fn coprime_div(n: int, d: int, p: int, q: int)
    requires d > 0, is_gcd(1, n, d), n * q == p * d
    ensures divides(d, q)
{
    let (x, y, g) = bezout(iabs(n) as nat, d as nat);
    assert(is_gcd(1, iabs(n), d)) by {
        divides_neg(1, n);
        assert forall|z: int| z > 0 && #[trigger] divides(z, iabs(n)) && divides(z, d) implies z <= 1 by { divides_neg(z, n); }
    }
    gcd_unique(1, g, iabs(n), d);
    let s = if n < 0 { -x } else { x };
    assert(n * s + d * y == 1) by (nonlinear_arith) requires iabs(n) * x + d * y == 1, s == (if n < 0 { -x } else { x }), iabs(n) == (if n < 0 { -n } else { n });
    let w = p * s + q * y;
    assert(q == d * w) by (nonlinear_arith) requires n * s + d * y == 1, n * q == p * d, w == p * s + q * y;
}
// products of the fields, in either order
pub proof fn comm(a: Fraction, b: Fraction)
    ensures a.numerator * b.denominator == b.denominator * a.numerator, a.denominator * b.numerator == b.numerator * a.denominator,
      a.denominator * b.denominator == b.denominator * a.denominator, a.numerator * b.numerator == b.numerator * a.numerator,
      a.denominator > 0 && b.denominator > 0 ==> a.denominator * b.denominator > 0,
      a.denominator > 0 ==> ((a.denominator * b.numerator == 0) == (b.numerator == 0))
{
    assert(a.numerator * b.denominator == b.denominator * a.numerator && a.denominator * b.numerator == b.numerator * a.denominator && a.denominator * b.denominator == b.denominator * a.denominator && a.numerator * b.numerator == b.numerator * a.numerator) by (nonlinear_arith);
    if a.denominator > 0 && b.denominator > 0 { pos_prod(a.denominator as int, b.denominator as int); }
    if a.denominator > 0 && b.numerator != 0 { let (x, y) = (a.denominator as int, b.numerator as int); assert(x * y != 0) by (nonlinear_arith) requires x > 0, y != 0; }
    if b.numerator == 0 { let x = a.denominator as int; assert(x * 0 == 0) by (nonlinear_arith); }
}
// sign of the cross product is the order of the values (denominators are positive)
pub open spec fn lt(a: Fraction, b: Fraction) -> bool { a.numerator * b.denominator < b.numerator * a.denominator }

@fn cuhksz::gcd as gcd_ii sig (int, int)
@params a b
@requires
a > i32::MIN, b > i32::MIN
@ensures
is_gcd(iabs(r as int), a as int, b as int), a >= 0 && b >= 0 ==> r >= 0
@entry
broadcast use rem_step;
@loop 1
@invariant
a > i32::MIN, b > i32::MIN, b != 0,
same_cd(a as int, b as int, a_0 as int, b_0 as int), a_0 >= 0 && b_0 >= 0 ==> a >= 0 && b >= 0, b_0 != 0
@decreases iabs(b as int)
@ret
gcd_done(a as int, b as int, a_0 as int, b_0 as int, ret_v as int);

@fn cuhksz::Fraction::Fraction as frac2 sig void (const int, const int)
@opt ctorof cuhksz::Fraction
@params n d
@requires
inr(n as int), inr(d as int)
@exit_ok
d == 0
@ensures
is_val(r, n as int, d as int)
@entry
proof { reduce_all(n as int, d as int); }

@fn cuhksz::Fraction::Fraction as frac1 sig void (const int)
@opt ctorof cuhksz::Fraction
@params v
@requires
inr(v as int)
@ensures
r == intf(v), norm(r)
@ret
int_norm(v); unique(this_, intf(v)); assert(this_.numerator * 1 == v * this_.denominator);

@fn cuhksz::Fraction::Fraction as frac0 sig void ()
@opt ctorof cuhksz::Fraction
@params
@ensures
r == intf(0), norm(r)

@fn cuhksz::Fraction::getNumerator as get_num
@opt this mut
@ensures
r == old(this).numerator, *final(this) == *old(this)
@fn cuhksz::Fraction::getDenominator as get_den
@opt this mut
@ensures
r == old(this).denominator, *final(this) == *old(this)

@repeat O=+ N=add E=addn ; O=- N=sub E=subn
@fn cuhksz::Fraction::operator$O as f_$N
@params other
@requires
norm(*this), norm(*other), prods(*this, *other), inr(dd(*this, *other)), inr($E(*this, *other))
@ensures
is_val(r, $E(*this, *other), dd(*this, *other))
@entry
proof { comm(*this, *other); }
@fn cuhksz::Fraction::operator$O= as f_$Neq
@params other
@requires
norm(*old(this)), norm(*other), prods(*old(this), *other), inr(dd(*old(this), *other)), inr($E(*old(this), *other))
@ensures
is_val(*final(this), $E(*old(this), *other), dd(*old(this), *other))
@entry
proof { comm(*this, *other); }
@endrepeat
@fn cuhksz::Fraction::operator* as f_mul
@params other
@requires
norm(*this), norm(*other), inr(this.numerator * other.numerator), inr(dd(*this, *other))
@ensures
is_val(r, this.numerator * other.numerator, dd(*this, *other))
@entry
proof { comm(*this, *other); }
@fn cuhksz::Fraction::operator*= as f_muleq
@params other
@requires
norm(*old(this)), norm(*other), inr(old(this).numerator * other.numerator), inr(dd(*old(this), *other))
@ensures
is_val(*final(this), old(this).numerator * other.numerator, dd(*old(this), *other))
@entry
proof { comm(*this, *other); }
@fn cuhksz::Fraction::operator/ as f_div
@params other
@requires
norm(*this), norm(*other), prods(*this, *other)
@exit_ok
other.numerator == 0
@entry
proof { comm(*this, *other); }
@ensures
other.numerator != 0, is_val(r, this.numerator * other.denominator, this.denominator * other.numerator)
@fn cuhksz::Fraction::operator/= as f_diveq
@params other
@requires
norm(*old(this)), norm(*other), prods(*old(this), *other)
@exit_ok
other.numerator == 0
@entry
proof { comm(*this, *other); }
@ensures
other.numerator != 0, is_val(*final(this), old(this).numerator * other.denominator, old(this).denominator * other.numerator)

@fn cuhksz::operator+ as i_add sig (int, const Fraction &)
@params v f
@requires
inr(v as int), norm(*f), inr(v * f.denominator), inr(v * f.denominator + f.numerator)
@ensures
is_val(r, v * f.denominator + f.numerator, f.denominator as int)
@entry
proof { int_norm(v); comm(intf(v), *f); comm(*f, intf(v)); }
@fn cuhksz::operator- as i_sub sig (int, const Fraction &)
@params v f
@requires
inr(v as int), norm(*f), inr(v * f.denominator), inr(v * f.denominator - f.numerator)
@ensures
is_val(r, v * f.denominator - f.numerator, f.denominator as int)
@entry
proof { int_norm(v); comm(intf(v), *f); comm(*f, intf(v)); }
@fn cuhksz::operator* as i_mul sig (int, const Fraction &)
@params v f
@requires
inr(v as int), norm(*f), inr(v * f.numerator)
@ensures
is_val(r, v * f.numerator, f.denominator as int)
@entry
proof { int_norm(v); comm(intf(v), *f); comm(*f, intf(v)); }
@fn cuhksz::operator/ as i_div sig (int, const Fraction &)
@params v f
@requires
inr(v as int), norm(*f), inr(v * f.denominator)
@exit_ok
f.numerator == 0
@ensures
f.numerator != 0, is_val(r, v * f.denominator, f.numerator as int)
@entry
proof { int_norm(v); comm(intf(v), *f); comm(*f, intf(v)); }

@fn cuhksz::Fraction::operator== as f_eq
@params other
@requires
norm(*this), norm(*other)
@entry
proof { comm(*this, *other); comm(*other, *this); }
@ensures
r == (this.numerator * other.denominator == other.numerator * this.denominator)
@ret
unique(*this, *other);
@fn cuhksz::Fraction::operator!= as f_ne
@params other
@requires
norm(*this), norm(*other)
@entry
proof { comm(*this, *other); comm(*other, *this); }
@ensures
r == (this.numerator * other.denominator != other.numerator * this.denominator)
@ret
unique(*this, *other);
@repeat O=< N=lt E=lt(*this,~*other) ; O=> N=gt E=lt(*other,~*this) ; O=<= N=le E=!lt(*other,~*this) ; O=>= N=ge E=!lt(*this,~*other)
@fn cuhksz::Fraction::operator$O as f_$N
@params other
@requires
norm(*this), norm(*other), prods(*this, *other)
@ensures
r == ($E)
@entry
proof { comm(*this, *other); comm(*other, *this); }
@endrepeat
@fn cuhksz::operator<< as f_out sig Fraction
@opt retunit
@params os f
@requires
!old(os).hex, old(os).width == 0
@ensures
final(os)@ == old(os)@ + (fmt_dec(f.numerator as int) + seq![47i8] + fmt_dec(f.denominator as int))
@entry
let ghost o0 = os@;
@ret
assert(os@ =~= o0 + (fmt_dec(f.numerator as int) + seq![47i8] + fmt_dec(f.denominator as int)));
