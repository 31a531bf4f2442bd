@# factorial, permutation, binomial
@driver
#include "/repo/src/include/math_utils/math_functions.h"
template int cuhksz::factorial<int>(int);
template long cuhksz::factorial<long>(long);
template int cuhksz::permutation<int>(int, int);
template long cuhksz::permutation<long>(long, long);
template int cuhksz::binomial<int>(int, int);
template long cuhksz::binomial<long>(long, long);

@prelude
pub open spec fn fact(n: int) -> int decreases n { if n <= 0 { 1 } else { n * fact(n - 1) } }
// n (n-1) ... (n-r+1)
pub open spec fn falling(n: int, r: int) -> int decreases r { if r <= 0 { 1 } else { n * falling(n - 1, r - 1) } }
// Pascal's triangle
pub open spec fn choose_(n: int, r: int) -> int decreases n
{ if r < 0 { 0 } else if r == 0 { 1 } else if n <= 0 { 0 } else { choose_(n - 1, r - 1) + choose_(n - 1, r) } }

pub proof fn fact_ge(n: int) requires n >= 0 ensures fact(n) >= 1, fact(n) >= n decreases n
{ if n > 0 { fact_ge(n - 1); let f = fact(n - 1); assert(n * f >= n) by (nonlinear_arith) requires n > 0, f >= 1; } }
pub proof fn fact_mono(a: int, b: int) requires 0 <= a <= b ensures fact(a) <= fact(b) decreases b - a
{ if a < b { fact_mono(a, b - 1); fact_ge(b - 1); let f = fact(b - 1); assert(b * f >= f) by (nonlinear_arith) requires b >= 1, f >= 1; } }
pub proof fn falling_ge(n: int, r: int) requires 0 <= r <= n ensures falling(n, r) >= 1 decreases r
{ if r > 0 { falling_ge(n - 1, r - 1); let f = falling(n - 1, r - 1); assert(n * f >= 1) by (nonlinear_arith) requires n >= 1, f >= 1; } }
pub proof fn falling_split(n: int, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= n
    ensures falling(n, a + b) == falling(n, a) * falling(n - a, b) decreases a
{ if a > 0 { falling_split(n - 1, a - 1, b); let (x, y) = (falling(n - 1, a - 1), falling(n - a, b)); assert(n * (x * y) == (n * x) * y) by (nonlinear_arith); } 
  else { assert(1 * falling(n, b) == falling(n, b)); } }
// prefixes of the product stay below the full product
pub proof fn falling_prefix(n: int, a: int, r: int)
    requires 0 <= a <= r <= n ensures 1 <= falling(n, a) <= falling(n, r)
{ falling_split(n, a, r - a); falling_ge(n, a); falling_ge(n - a, r - a); let (x, y) = (falling(n, a), falling(n - a, r - a)); assert(x * y >= x) by (nonlinear_arith) requires x >= 1, y >= 1; }
pub proof fn falling_step(n: int, a: int)
    requires 0 <= a < n ensures falling(n, a + 1) == falling(n, a) * (n - a)
{ falling_split(n, a, 1); assert(falling(n - a, 1) == (n - a) * falling(n - a - 1, 0)); assert((n - a) * 1 == n - a); }
// n P r == n! / (n - r)!
pub proof fn falling_fact(n: int, r: int)
    requires 0 <= r <= n ensures falling(n, r) * fact(n - r) == fact(n) decreases r
{ if r > 0 { falling_fact(n - 1, r - 1); let (x, y) = (falling(n - 1, r - 1), fact(n - r)); assert((n * x) * y == n * (x * y)) by (nonlinear_arith); } else { assert(1 * fact(n) == fact(n)); } }

pub proof fn choose_zero(n: int, r: int) requires r > n, n >= 0 ensures choose_(n, r) == 0 decreases n
{ if n > 0 { choose_zero(n - 1, r - 1); choose_zero(n - 1, r); } }
pub proof fn choose_nn(n: int) requires n >= 0 ensures choose_(n, n) == 1 decreases n
{ if n > 0 { choose_nn(n - 1); choose_zero(n - 1, n); } }
pub proof fn choose_ge(n: int, r: int) requires n >= 0 ensures choose_(n, r) >= 0, 0 <= r <= n ==> choose_(n, r) >= 1 decreases n
{ if n > 0 { choose_ge(n - 1, r - 1); choose_ge(n - 1, r); } }
pub proof fn choose_sym(n: int, r: int) requires 0 <= r <= n ensures choose_(n, r) == choose_(n, n - r) decreases n
{ if r == 0 { choose_nn(n); } else if r == n { choose_nn(n); } else { choose_sym(n - 1, r - 1); choose_sym(n - 1, r); } }
pub proof fn choose_1(n: int) requires n >= 1 ensures choose_(n, 1) == n decreases n
{ if n > 1 { choose_1(n - 1); assert(choose_(n - 1, 0) == 1); } else { choose_nn(1); } }
// C(a,k) <= C(a+x+y, k+y)
pub proof fn choose_mono(a: int, k: int, x: int, y: int) requires a >= 0, k >= 0, x >= 0, y >= 0
    ensures choose_(a, k) <= choose_(a + x + y, k + y) decreases x + y
{ 
    if x > 0 { choose_mono(a, k, x - 1, y); let n = a + x + y; choose_ge(n - 1, k + y - 1); choose_ge(n - 1, k + y); assert(k + y > 0 ==> choose_(n, k + y) == choose_(n - 1, k + y - 1) + choose_(n - 1, k + y)); }
    else if y > 0 { choose_mono(a, k, x, y - 1); let n = a + x + y; choose_ge(n - 1, k + y - 1); choose_ge(n - 1, k + y); assert(choose_(n, k + y) == choose_(n - 1, k + y - 1) + choose_(n - 1, k + y)); }
}
// C(n,r) r! (n-r)! == n!: Pascal's triangle is the quotient of factorials
pub proof fn choose_fact(n: int, r: int) requires 0 <= r <= n
    ensures choose_(n, r) * fact(r) * fact(n - r) == fact(n) decreases n
{
    if r == 0 { assert(1 * fact(0) * fact(n) == fact(n)); } else if r == n { choose_nn(n); assert(1 * fact(n) * fact(0) == fact(n)); } else {
        choose_fact(n - 1, r - 1); choose_fact(n - 1, r);
        let (a, b) = (choose_(n - 1, r - 1), choose_(n - 1, r)); let (f, g, h) = (fact(r - 1), fact(n - r - 1), fact(n - 1));
        assert(fact(r) == r * f); assert(fact(n - r) == (n - r) * g);
        assert(a * f * ((n - r) * g) == h); assert(b * (r * f) * g == h);
        assert((a + b) * (r * f) * ((n - r) * g) == r * (a * f * ((n - r) * g)) + (n - r) * (b * (r * f) * g)) by (nonlinear_arith);
        assert(r * h + (n - r) * h == n * h) by (nonlinear_arith);
    }
}
pub open spec fn dp_ok(c: Seq<int>, i: int, lo: int, hi: int) -> bool { forall|j: int| lo <= j < hi ==> #[trigger] c[j] == choose_(i + j + 1, j + 1) }

@repeat C=int R=i32 ; C=long R=i64
@fn cuhksz::factorial as factorial_$R sig $C ($C)
@params n
@requires
n >= 0 ==> fact(n as int) <= $R::MAX
@ensures
n >= 0, r == fact(n as int)
@exit_ok n_0 < 0
@entry
proof { assert(fact(0) == 1); assert(fact(1) == 1 * fact(0)); if n >= 0 { fact_ge(n as int); if n == $R::MAX { fact_ge(n - 1); let f = fact(n - 1); assert(n * f >= 2 * n) by (nonlinear_arith) requires f >= 2, n >= 0; } } }
@loop 1
@invariant
2 <= i, i <= n + 1 || i == 2, n >= 0, 1 <= fac, fac == fact(i - 1), fact(n as int) <= $R::MAX, n < $R::MAX
@decreases n + 2 - i
@begin
proof { fact_mono(i as int, n as int); assert(fact(i as int) == i * fact(i - 1)); assert(fac * i == i * fac && fac * i >= 1) by (nonlinear_arith) requires fac >= 1, i >= 1; }

@fn cuhksz::permutation as permutation_$R sig $C ($C, $C)
@params n r
@opt result res
@requires
0 <= r <= n ==> falling(n as int, r as int) <= $R::MAX
@ensures
0 <= r <= n, res == falling(n as int, r as int)
@exit_ok n_0 < 0 || r_0 < 0 || r_0 > n_0
@entry
proof { if 0 < r <= n { falling_step(n as int, 0); assert(1 * n == n); } }
@loop 1
@invariant
1 <= r <= r_0 <= n_0, n == n_0 - (r_0 - r) - 1, result == falling(n_0 as int, r_0 - r + 1)
@decreases r
@begin
proof { falling_step(n_0 as int, r_0 - r + 1); falling_prefix(n_0 as int, r_0 - r + 2, r_0 as int); }

@fn cuhksz::binomial as binomial_$R sig $C ($C, $C)
@params n r
@opt result res
@requires
0 <= r <= n ==> choose_(n as int, r as int) <= $R::MAX
@ensures
0 <= r <= n, res == choose_(n as int, r as int)
@decreases r
@exit_ok n_0 < 0 || r_0 < 0 || r_0 > n_0
@entry
proof { if 0 <= r <= n { choose_sym(n as int, r as int); } }
@loop 1
@invariant
0 <= i <= r, combination@.len() == r, forall|x: int| 0 <= x < i ==> #[trigger] combination@[x] == 1
@decreases r - i
@after
proof { assert forall|x: int| 0 <= x < r implies #[trigger] combination@[x] == choose_(0 + x + 1, x + 1) by { choose_nn(x + 1); } }
@loop 2
@invariant
0 <= i <= n - r, combination@.len() == r, forall|x: int| 0 <= x < r ==> #[trigger] combination@[x] == choose_(i + x + 1, x + 1)
@decreases n - r - i
@loop 3
@invariant
0 <= i < n - r, 0 <= j <= r, combination@.len() == r,
forall|x: int| j <= x < r ==> #[trigger] combination@[x] == choose_(i + x + 1, x + 1),
forall|x: int| 0 <= x < j ==> #[trigger] combination@[x] == choose_(i + 1 + x + 1, x + 1)
@decreases r - j
@begin
proof { choose_mono(i + 1 + j + 1, j + 1, n - r - (i + 1), r - (j + 1)); choose_ge(i + j + 1, j as int); choose_ge(i + j + 1, j + 1);
  assert(choose_(i + 1 + j + 1, j + 1) == choose_(i + j + 1, j as int) + choose_(i + j + 1, j + 1)); if j > 0 { assert(combination@[j - 1] == choose_(i + 1 + (j - 1) + 1, (j - 1) + 1)); } }
@endrepeat
