@# Matrix<ValueType>, instance double, with exact real arithmetic on the elements
@driver
#include "/repo/src/include/math_utils/Matrix.h"
namespace cuhksz {
template class Matrix<double>;
void use_(const Matrix<double>& a, std::ostream& o) { pow(a, 2); o << a; }
}

@struct cuhksz::Matrix<double> => Matrix
@optype double => Num
@trusted the arithmetic of the element type is exact (double treated as the reals)
@prelude
pub open spec fn shape(m: Matrix) -> bool { m.row >= 0 && m.col >= 0 && m.elem@.len() == m.row && (forall|i: int| 0 <= i < m.row ==> (#[trigger] m.elem@[i])@.len() == m.col) }
pub open spec fn owned(m: Matrix) -> bool { m.elem.live() && (forall|i: int| 0 <= i < m.row ==> (#[trigger] m.elem@[i]).live()) }
pub open spec fn wf(m: Matrix) -> bool { shape(m) && owned(m) }
#[verifier::inline]
pub open spec fn ent(m: Matrix, i: int, j: int) -> real { m.elem@[i]@[j].v() }
pub open spec fn same(a: Matrix, b: Matrix) -> bool { a.row == b.row && a.col == b.col && (forall|i: int, j: int| 0 <= i < a.row && 0 <= j < a.col ==> #[trigger] ent(a, i, j) == ent(b, i, j)) }
// sum of f(0) .. f(n-1)
pub open spec fn sum(f: spec_fn(int) -> real, n: int) -> real decreases n { if n <= 0 { 0real } else { sum(f, n - 1) + f(n - 1) } }
pub open spec fn dot(a: Matrix, b: Matrix, i: int, j: int, n: int) -> real { sum(|k: int| ent(a, i, k) * ent(b, k, j), n) }
pub open spec fn idn(i: int, j: int) -> real { if i == j { 1real } else { 0real } }
// entry (i, j) of a^n, from the definition a^0 = I, a^n = a^(n-1) * a
pub open spec fn pw(a: Matrix, n: nat, i: int, j: int) -> real decreases 2 * n, 0int
{ if n == 0 { idn(i, j) } else { pws(a, (n - 1) as nat, i, j, a.row as int) } }
// sum of the first d products of row i of a^n and column j of a
pub open spec fn pws(a: Matrix, n: nat, i: int, j: int, d: int) -> real decreases 2 * n + 1, d
{ if d <= 0 { 0real } else { pws(a, n, i, j, d - 1) + pw(a, n, i, d - 1) * ent(a, d - 1, j) } }
pub open spec fn ispow(r: Matrix, a: Matrix, n: nat) -> bool { wf(r) && r.row == a.row && r.col == a.row && (forall|i: int, j: int| 0 <= i < a.row && 0 <= j < a.row ==> #[trigger] ent(r, i, j) == pw(a, n, i, j)) }

// the product of row i with the vector x, and the vectors that every row maps to 0
pub open spec fn lin(m: Matrix, i: int, x: spec_fn(int) -> real) -> real { sum(|k: int| ent(m, i, k) * x(k), m.col as int) }
pub open spec fn null(m: Matrix, x: spec_fn(int) -> real) -> bool { forall|i: int| 0 <= i < m.row ==> #[trigger] lin(m, i, x) == 0real }
// the two homogeneous systems have the same solutions
pub open spec fn nulleq(a: Matrix, b: Matrix) -> bool { forall|x: spec_fn(int) -> real| #![trigger null(a, x)] #![trigger null(b, x)] null(a, x) == null(b, x) }
pub open spec fn pivots(m: Matrix, pv: Seq<int>) -> bool {
    pv.len() <= m.row && (forall|i: int| 0 <= i < pv.len() ==> 0 <= #[trigger] pv[i] < m.col) && (forall|i: int, j: int| 0 <= i < j < pv.len() ==> #[trigger] pv[i] < #[trigger] pv[j])
    && (forall|i: int, k: int| 0 <= i < pv.len() && 0 <= k <= pv[i] ==> #[trigger] ent(m, i, k) == (if k == pv[i] { 1real } else { 0real }))
}
// row echelon form with leading ones; pv: the pivot columns
pub open spec fn echelon(m: Matrix, pv: Seq<int>) -> bool { pivots(m, pv) && (forall|i: int, k: int| pv.len() <= i < m.row && 0 <= k < m.col ==> #[trigger] ent(m, i, k) == 0real) }
pub open spec fn is_echelon(m: Matrix) -> bool { exists|pv: Seq<int>| echelon(m, pv) }
pub open spec fn swapped(a: Matrix, b: Matrix, p: int, q: int) -> bool { a.row == b.row && a.col == b.col && (forall|i: int, k: int| 0 <= i < a.row && 0 <= k < a.col ==> #[trigger] ent(b, i, k) == ent(a, if i == p { q } else if i == q { p } else { i }, k)) }
// rows, each ending in a line feed, the entries separated by ", "
pub open spec fn row_txt(m: Matrix, i: int, j: int) -> Seq<i8> decreases j
{ if j <= 1 { num_text(m.elem@[i]@[0]) } else { row_txt(m, i, j - 1) + (seq![44i8, 32i8] + num_text(m.elem@[i]@[j - 1])) } }
pub open spec fn mat_txt(m: Matrix, i: int) -> Seq<i8> decreases i
{ if i <= 0 { Seq::<i8>::empty() } else { mat_txt(m, i - 1) + row_txt(m, i - 1, m.col as int) + seq![10i8] } }

pub proof fn sum_ext(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) == g(k) ensures sum(f, n) == sum(g, n) decreases n
{ if n > 0 { sum_ext(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }
pub proof fn sum_add(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int)
    ensures sum(|k: int| f(k) + g(k), n) == sum(f, n) + sum(g, n) decreases n
{ if n > 0 { sum_add(f, g, n - 1); } }
pub proof fn sum_scale(c: real, f: spec_fn(int) -> real, n: int)
    ensures sum(|k: int| c * f(k), n) == c * sum(f, n), sum(|k: int| f(k) * c, n) == sum(f, n) * c decreases n
{
    if n > 0 { sum_scale(c, f, n - 1); let (s, x) = (sum(f, n - 1), f(n - 1)); assert(c * (s + x) == c * s + c * x && (s + x) * c == s * c + x * c) by (nonlinear_arith); }
    else { assert(c * 0real == 0real && 0real * c == 0real) by (nonlinear_arith); }
}
pub proof fn sum_zero(n: int) ensures sum(|k: int| 0real, n) == 0real decreases n { if n > 0 { sum_zero(n - 1); } }
// exchange of the two sums
pub proof fn sum_swap(f: spec_fn(int, int) -> real, m: int, n: int)
    ensures sum(|i: int| sum(|j: int| f(i, j), n), m) == sum(|j: int| sum(|i: int| f(i, j), m), n) decreases m
{
    if m > 0 {
        sum_swap(f, m - 1, n);
        let p = |j: int| sum(|i: int| f(i, j), m - 1); let q = |j: int| f(m - 1, j);
        sum_add(p, q, n);
        sum_ext(|j: int| sum(|i: int| f(i, j), m), |j: int| p(j) + q(j), n);
        sum_ext(|j: int| f(m - 1, j), q, n);
    } else { sum_ext(|j: int| sum(|i: int| f(i, j), m), |j: int| 0real, n); sum_zero(n); }
}
pub proof fn sum_id(f: spec_fn(int) -> real, j: int, n: int)
    requires 0 <= j < n ensures sum(|k: int| f(k) * idn(k, j), n) == f(j) decreases n
{
    let g = |k: int| f(k) * idn(k, j);
    let (x, y) = (f(n - 1), f(j)); assert(x * 0real == 0real && y * 1real == y) by (nonlinear_arith);
    if j < n - 1 { sum_id(f, j, n - 1); }
    else { assert forall|k: int| 0 <= k < n - 1 implies #[trigger] g(k) == 0real by { let z = f(k); assert(z * 0real == 0real) by (nonlinear_arith); } sum_ext(g, |k: int| 0real, n - 1); sum_zero(n - 1); }
}
pub proof fn sum_id_left(f: spec_fn(int) -> real, i: int, n: int)
    requires 0 <= i < n ensures sum(|k: int| idn(i, k) * f(k), n) == f(i)
{
    sum_id(f, i, n);
    let g = |k: int| idn(i, k) * f(k); let h = |k: int| f(k) * idn(k, i);
    assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == h(k) by { let (x, y) = (idn(i, k), f(k)); assert(x * y == y * x) by (nonlinear_arith); }
    sum_ext(g, h, n);
}
pub proof fn pws_sum(a: Matrix, n: nat, i: int, j: int, d: int) ensures pws(a, n, i, j, d) == sum(|k: int| pw(a, n, i, k) * ent(a, k, j), d) decreases d
{ if d > 0 { pws_sum(a, n, i, j, d - 1); } }
pub proof fn pw_sum(a: Matrix, n: nat, i: int, j: int) ensures pw(a, n + 1, i, j) == sum(|k: int| pw(a, n, i, k) * ent(a, k, j), a.row as int)
{ pws_sum(a, n, i, j, a.row as int); }
// row i of b = row p of a + c * row q of a
pub proof fn lin_comb(a: Matrix, b: Matrix, i: int, p: int, q: int, c: real, x: spec_fn(int) -> real)
    requires a.col == b.col, forall|k: int| 0 <= k < a.col ==> #[trigger] ent(b, i, k) == ent(a, p, k) + c * ent(a, q, k)
    ensures lin(b, i, x) == lin(a, p, x) + c * lin(a, q, x)
{
    let n = a.col as int;
    let f = |k: int| ent(b, i, k) * x(k); let g = |k: int| ent(a, p, k) * x(k); let h = |k: int| ent(a, q, k) * x(k); let ch = |k: int| c * h(k); let gh = |k: int| g(k) + ch(k);
    sum_scale(c, h, n); sum_ext(ch, |k: int| c * h(k), n); sum_add(g, ch, n); sum_ext(gh, |k: int| g(k) + ch(k), n);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == gh(k) by { let (s, t, u) = (ent(a, p, k), ent(a, q, k), x(k)); assert((s + c * t) * u == s * u + c * (t * u)) by (nonlinear_arith); assert(ent(b, i, k) == s + c * t); }
    sum_ext(f, gh, n);
}
pub proof fn lin_same(a: Matrix, b: Matrix, i: int, p: int, x: spec_fn(int) -> real)
    requires a.col == b.col, forall|k: int| 0 <= k < a.col ==> #[trigger] ent(b, i, k) == ent(a, p, k)
    ensures lin(b, i, x) == lin(a, p, x)
{ sum_ext(|k: int| ent(b, i, k) * x(k), |k: int| ent(a, p, k) * x(k), a.col as int); }
pub proof fn null_swap(a: Matrix, b: Matrix, p: int, q: int)
    requires swapped(a, b, p, q), 0 <= p < a.row, 0 <= q < a.row ensures nulleq(a, b)
{
    assert forall|x: spec_fn(int) -> real| #[trigger] null(a, x) == #[trigger] null(b, x) by {
        assert forall|i: int| 0 <= i < a.row implies #[trigger] lin(b, i, x) == lin(a, if i == p { q } else if i == q { p } else { i }, x) by { lin_same(a, b, i, if i == p { q } else if i == q { p } else { i }, x); }
        assert forall|i: int| 0 <= i < a.row implies #[trigger] lin(a, i, x) == lin(b, if i == p { q } else if i == q { p } else { i }, x) by { lin_same(a, b, if i == p { q } else if i == q { p } else { i }, i, x); }
    }
}
pub proof fn null_scale(a: Matrix, b: Matrix, i: int, r: int)
    requires a.row == b.row, a.col == b.col, 0 <= i < a.row, 0 <= r < a.col, ent(a, i, r) != 0real,
      forall|l: int| 0 <= l < r ==> #[trigger] ent(a, i, l) == 0real,
      forall|k: int, l: int| 0 <= k < a.row && 0 <= l < a.col ==> #[trigger] ent(b, k, l) == (if k != i || l < r { ent(a, k, l) } else if l == r { 1real } else { ent(a, k, l) / ent(a, i, r) })
    ensures nulleq(a, b)
{
    let p = ent(a, i, r);
    assert forall|l: int| 0 <= l < a.col implies #[trigger] ent(a, i, l) == ent(b, i, l) + (p - 1real) * ent(b, i, l) by {
        let (u, v) = (ent(a, i, l), ent(b, i, l)); assert(v + (p - 1real) * v == p * v) by (nonlinear_arith);
        if l < r { assert(v == 0real); assert(p * 0real == 0real) by (nonlinear_arith); }
        else if l == r { assert(v == 1real); assert(p * 1real == p) by (nonlinear_arith); }
        else { assert(v == u / p); assert(p * (u / p) == u) by (nonlinear_arith) requires p != 0real; }
    }
    assert forall|x: spec_fn(int) -> real| #[trigger] null(a, x) == #[trigger] null(b, x) by {
        lin_comb(b, a, i, i, i, p - 1real, x);
        let (s, t) = (lin(a, i, x), lin(b, i, x)); assert(t + (p - 1real) * t == p * t) by (nonlinear_arith); assert(p * t == 0real ==> t == 0real) by (nonlinear_arith) requires p != 0real; assert(p * 0real == 0real) by (nonlinear_arith);
        assert forall|k: int| 0 <= k < a.row && k != i implies #[trigger] lin(a, k, x) == lin(b, k, x) by { lin_same(a, b, k, k, x); }
        if null(a, x) { assert forall|k: int| 0 <= k < b.row implies #[trigger] lin(b, k, x) == 0real by { assert(lin(a, k, x) == 0real); } }
        if null(b, x) { assert forall|k: int| 0 <= k < b.row implies #[trigger] lin(a, k, x) == 0real by { assert(lin(b, k, x) == 0real); } }
    }
}
pub proof fn null_elim(a: Matrix, b: Matrix, i: int, r: int)
    requires a.row == b.row, a.col == b.col, 0 <= i < a.row, 0 <= r < a.col,
      forall|k: int, l: int| 0 <= k < a.row && 0 <= l < a.col ==> #[trigger] ent(b, k, l) == (if k > i { ent(a, k, l) - ent(a, i, l) * ent(a, k, r) } else { ent(a, k, l) })
    ensures nulleq(a, b)
{
    assert forall|x: spec_fn(int) -> real| #[trigger] null(a, x) == #[trigger] null(b, x) by {
        assert forall|k: int| 0 <= k <= i implies #[trigger] lin(a, k, x) == lin(b, k, x) by { lin_same(a, b, k, k, x); }
        assert forall|k: int| i < k < a.row implies #[trigger] lin(b, k, x) == lin(a, k, x) + (0real - ent(a, k, r)) * lin(a, i, x) by {
            let c = 0real - ent(a, k, r);
            assert forall|l: int| 0 <= l < a.col implies #[trigger] ent(b, k, l) == ent(a, k, l) + c * ent(a, i, l) by { let (u, v, w) = (ent(a, k, l), ent(a, i, l), ent(a, k, r)); assert(u - v * w == u + (0real - w) * v) by (nonlinear_arith); }
            lin_comb(a, b, k, k, i, c, x);
        }
        if null(a, x) { assert forall|k: int| 0 <= k < b.row implies #[trigger] lin(b, k, x) == 0real by { assert(lin(a, k, x) == 0real); assert(lin(a, i, x) == 0real); let c = 0real - ent(a, k, r); assert(c * 0real == 0real) by (nonlinear_arith); } }
        if null(b, x) { assert forall|k: int| 0 <= k < b.row implies #[trigger] lin(a, k, x) == 0real by { assert(lin(b, k, x) == 0real); assert(lin(b, i, x) == 0real && lin(a, i, x) == 0real); let c = 0real - ent(a, k, r); assert(c * 0real == 0real) by (nonlinear_arith); } }
    }
}
// a^(m+n) = a^m * a^n
pub proof fn pw_add(a: Matrix, m: nat, n: nat, i: int, j: int)
    requires a.row == a.col, 0 <= i < a.row, 0 <= j < a.row
    ensures pw(a, m + n, i, j) == sum(|k: int| pw(a, m, i, k) * pw(a, n, k, j), a.row as int)
    decreases n
{
    let d = a.row as int;
    if n == 0 {
        sum_id(|k: int| pw(a, m, i, k), j, d);
        sum_ext(|k: int| pw(a, m, i, k) * pw(a, 0, k, j), |k: int| (|k: int| pw(a, m, i, k))(k) * idn(k, j), d);
    } else {
        let n1 = (n - 1) as nat;
        // left: sum_k pw(m+n1, i, k) * a(k, j) = sum_k (sum_l pw(m,i,l) pw(n1,l,k)) a(k,j)
        let f = |k: int, l: int| (pw(a, m, i, l) * pw(a, n1, l, k)) * ent(a, k, j);
        assert((m + n) as nat - 1 == m + n1);
        let l1 = |k: int| pw(a, m + n1, i, k) * ent(a, k, j); let l2 = |k: int| sum(|l: int| f(k, l), d);
        assert forall|k: int| 0 <= k < d implies #[trigger] l1(k) == l2(k) by {
            pw_add(a, m, n1, i, k);
            sum_scale(ent(a, k, j), |l: int| pw(a, m, i, l) * pw(a, n1, l, k), d);
            sum_ext(|l: int| f(k, l), |l: int| (|l: int| pw(a, m, i, l) * pw(a, n1, l, k))(l) * ent(a, k, j), d);
        }
        sum_ext(l1, l2, d);
        sum_swap(f, d, d);
        let r1 = |l: int| sum(|k: int| f(k, l), d); let r2 = |l: int| pw(a, m, i, l) * pw(a, n, l, j);
        assert forall|l: int| 0 <= l < d implies #[trigger] r1(l) == r2(l) by {
            let g = |k: int| pw(a, n1, l, k) * ent(a, k, j); let c = pw(a, m, i, l);
            sum_scale(c, g, d);
            let u = |k: int| f(k, l); let v = |k: int| c * g(k);
            assert forall|k: int| 0 <= k < d implies #[trigger] u(k) == v(k) by { let (y, z) = (pw(a, n1, l, k), ent(a, k, j)); assert((c * y) * z == c * (y * z)) by (nonlinear_arith); }
            sum_ext(u, v, d);
            pw_sum(a, n1, l, j);
            assert(sum(u, d) == sum(v, d) && sum(v, d) == c * sum(g, d));
        }
        sum_ext(r1, r2, d);
        pw_sum(a, m + n1, i, j); assert(m + n == m + n1 + 1);
        assert(sum(l1, d) == sum(l2, d) && sum(r1, d) == sum(r2, d));
    }
}
// product of two powers is a power
pub proof fn pow_mul(a: Matrix, x: Matrix, y: Matrix, r: Matrix, m: nat, n: nat)
    requires a.row == a.col, ispow(x, a, m), ispow(y, a, n), wf(r), r.row == a.row, r.col == a.row,
      forall|i: int, j: int| 0 <= i < a.row && 0 <= j < a.row ==> #[trigger] ent(r, i, j) == dot(x, y, i, j, a.row as int)
    ensures ispow(r, a, m + n)
{
    assert forall|i: int, j: int| 0 <= i < a.row && 0 <= j < a.row implies #[trigger] ent(r, i, j) == pw(a, m + n, i, j) by {
        pw_add(a, m, n, i, j);
        let u = |k: int| ent(x, i, k) * ent(y, k, j); let v = |k: int| pw(a, m, i, k) * pw(a, n, k, j);
        assert forall|k: int| 0 <= k < a.row implies #[trigger] u(k) == v(k) by { assert(ent(x, i, k) == pw(a, m, i, k)); assert(ent(y, k, j) == pw(a, n, k, j)); }
        sum_ext(u, v, a.row as int);
    }
}
pub open spec fn isprod(r: Matrix, x: Matrix, y: Matrix) -> bool { wf(r) && r.row == x.row && r.col == y.col && (forall|i: int, j: int| 0 <= i < r.row && 0 <= j < r.col ==> #[trigger] ent(r, i, j) == dot(x, y, i, j, x.col as int)) }
pub proof fn pow_all(a: Matrix)
    requires wf(a), a.row == a.col
    ensures ispow(a, a, 1),
      forall|x: Matrix, y: Matrix, r: Matrix, m: nat, n: nat| #[trigger] isprod(r, x, y) && #[trigger] ispow(x, a, m) && #[trigger] ispow(y, a, n) ==> ispow(r, a, m + n),
      forall|x: Matrix, y: Matrix, m: nat| #[trigger] same(x, y) && wf(x) && #[trigger] ispow(y, a, m) ==> ispow(x, a, m)
{
    pow_1(a);
    assert forall|x: Matrix, y: Matrix, r: Matrix, m: nat, n: nat| #[trigger] isprod(r, x, y) && #[trigger] ispow(x, a, m) && #[trigger] ispow(y, a, n) implies ispow(r, a, m + n) by { pow_mul(a, x, y, r, m, n); }
}
pub proof fn pow_1(a: Matrix) requires wf(a), a.row == a.col ensures ispow(a, a, 1)
{
    assert forall|i: int, j: int| 0 <= i < a.row && 0 <= j < a.row implies #[trigger] ent(a, i, j) == pw(a, 1, i, j) by {
        let f = |k: int| ent(a, k, j); sum_id_left(f, i, a.row as int); pw_sum(a, 0, i, j);
        sum_ext(|k: int| pw(a, 0, i, k) * ent(a, k, j), |k: int| idn(i, k) * f(k), a.row as int);
    }
}

@fn cuhksz::Matrix<double>::Matrix as mat_nm sig void (int, int)
@opt ctorof cuhksz::Matrix<double>
@params n m
@requires
n >= 0, m >= 0
@ensures
wf(r), r.row == n, r.col == m, forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> #[trigger] ent(r, i, j) == 0real
@loop 1
@invariant
0 <= i <= n, m >= 0, this_.row == n, this_.col == m, this_.elem@.len() == n, this_.elem.live(),
forall|k: int| 0 <= k < i ==> (#[trigger] this_.elem@[k])@.len() == m && this_.elem@[k].live(),
forall|k: int, j: int| 0 <= k < i && 0 <= j < m ==> #[trigger] ent(this_, k, j) == 0real
@decreases n - i

@fn cuhksz::Matrix<double>::Matrix as mat_n sig void (int)
@opt ctorof cuhksz::Matrix<double>
@params n
@requires
n >= 0
@ensures
wf(r), r.row == n, r.col == n, forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] ent(r, i, j) == 0real

@fn cuhksz::Matrix<double>::Matrix as mat_vec sig void (std::vector<std::vector<int>>)
@opt ctorof cuhksz::Matrix<double>
@params ini
@requires
0 < ini@.len() <= i32::MAX, ini@[0]@.len() <= i32::MAX, forall|k: int| 0 <= k < ini@.len() ==> (#[trigger] ini@[k])@.len() >= ini@[0]@.len()
@ensures
wf(r), r.row == ini@.len(), r.col == ini@[0]@.len(), forall|i: int, j: int| 0 <= i < r.row && 0 <= j < r.col ==> #[trigger] ent(r, i, j) == ini@[i]@[j] as real
@loop 1
@invariant
0 <= i <= this_.row, this_.row == ini@.len(), this_.col == ini@[0]@.len(), this_.elem@.len() == this_.row, this_.elem.live(),
forall|k: int| 0 <= k < ini@.len() ==> (#[trigger] ini@[k])@.len() >= ini@[0]@.len(),
forall|k: int| 0 <= k < i ==> (#[trigger] this_.elem@[k])@.len() == this_.col && this_.elem@[k].live(),
forall|k: int, j: int| 0 <= k < i && 0 <= j < this_.col ==> #[trigger] ent(this_, k, j) == ini@[k]@[j] as real
@decreases this_.row - i
@loop 2
@invariant
0 <= i < this_.row, 0 <= j <= this_.col, this_.row == ini@.len(), this_.col == ini@[0]@.len(), this_.elem@.len() == this_.row, this_.elem.live(),
forall|k: int| 0 <= k < ini@.len() ==> (#[trigger] ini@[k])@.len() >= ini@[0]@.len(),
forall|k: int| 0 <= k <= i ==> (#[trigger] this_.elem@[k])@.len() == this_.col && this_.elem@[k].live(),
forall|k: int, l: int| 0 <= k < i && 0 <= l < this_.col ==> #[trigger] ent(this_, k, l) == ini@[k]@[l] as real,
forall|l: int| 0 <= l < j ==> #[trigger] ent(this_, i as int, l) == ini@[i as int]@[l] as real
@decreases this_.col - j

@fn cuhksz::Matrix<double>::Matrix as mat_copy sig void (const Matrix<double> &)
@opt ctorof cuhksz::Matrix<double>
@params src
@requires
wf(*src)
@ensures
wf(r), same(r, *src)

@fn cuhksz::Matrix<double>::deepCopy as mat_deepcopy
@params src
@requires
wf(*src)
@ensures
wf(*final(this)), same(*final(this), *src)
@loop 1
@invariant
0 <= i <= src.row, wf(*src), this.row == src.row, this.col == src.col, this.elem@.len() == this.row, this.elem.live(),
forall|k: int| 0 <= k < i ==> (#[trigger] this.elem@[k])@.len() == this.col && this.elem@[k].live(),
forall|k: int, j: int| 0 <= k < i && 0 <= j < this.col ==> #[trigger] ent(*this, k, j) == ent(*src, k, j)
@decreases src.row - i
@loop 2
@invariant
0 <= i < src.row, 0 <= j <= src.col, wf(*src), this.row == src.row, this.col == src.col, this.elem@.len() == this.row, this.elem.live(),
forall|k: int| 0 <= k <= i ==> (#[trigger] this.elem@[k])@.len() == this.col && this.elem@[k].live(),
forall|k: int, l: int| 0 <= k < i && 0 <= l < this.col ==> #[trigger] ent(*this, k, l) == ent(*src, k, l),
forall|l: int| 0 <= l < j ==> #[trigger] ent(*this, i as int, l) == ent(*src, i as int, l)
@decreases src.col - j

@fn cuhksz::Matrix<double>::clear as mat_clear
@params
@requires
wf(*old(this))
@ensures
!final(this).elem.live()
@loop 1
@invariant
0 <= i <= this.row, this.elem@.len() == this.row, this.elem.live(), forall|k: int| i <= k < this.row ==> (#[trigger] this.elem@[k]).live()
@decreases this.row - i

@fn cuhksz::Matrix<double>::operator= as mat_assign
@opt retunit
@params src
@requires
wf(*old(this)), wf(*src)
@ensures
wf(*final(this)), same(*final(this), *src)

@fn cuhksz::Matrix<double>::operator== as mat_eq
@params other
@requires
wf(*this), wf(*other)
@ensures
r == same(*this, *other)
@loop 1
@invariant
0 <= i <= this.row, this.row == other.row, this.col == other.col, wf(*this), wf(*other), forall|k: int, l: int| 0 <= k < i && 0 <= l < this.col ==> #[trigger] ent(*this, k, l) == ent(*other, k, l)
@decreases this.row - i
@loop 2
@invariant
0 <= i < this.row, 0 <= j <= this.col, this.row == other.row, this.col == other.col, wf(*this), wf(*other), forall|k: int, l: int| 0 <= k < i && 0 <= l < this.col ==> #[trigger] ent(*this, k, l) == ent(*other, k, l),
forall|l: int| 0 <= l < j ==> #[trigger] ent(*this, i as int, l) == ent(*other, i as int, l)
@decreases this.col - j
@begin
assert(this.elem@[i as int]@[j as int].v() == ent(*this, i as int, j as int) && other.elem@[i as int]@[j as int].v() == ent(*other, i as int, j as int));

@fn cuhksz::Matrix<double>::operator!= as mat_ne
@params other
@requires
wf(*this), wf(*other)
@ensures
r == !same(*this, *other)

@fn cuhksz::Matrix<double>::operator* as mat_mul
@params other
@requires
wf(*this), wf(*other), this.col == other.row
@ensures
isprod(r, *this, *other)
@repeat S=this
@loop 1
@invariant
0 <= i <= this.row, wf(*this), wf(*other), this.col == other.row, wf(ret), ret.row == this.row, ret.col == other.col,
forall|k: int, l: int| 0 <= k < i && 0 <= l < ret.col ==> #[trigger] ent(ret, k, l) == dot(*this, *other, k, l, this.col as int),
forall|k: int, l: int| i <= k < ret.row && 0 <= l < ret.col ==> #[trigger] ent(ret, k, l) == 0real
@decreases this.row - i
@loop 2
@invariant
0 <= i < this.row, 0 <= j <= ret.col, wf(*this), wf(*other), this.col == other.row, wf(ret), ret.row == this.row, ret.col == other.col,
forall|k: int, l: int| 0 <= k < i && 0 <= l < ret.col ==> #[trigger] ent(ret, k, l) == dot(*this, *other, k, l, this.col as int),
forall|l: int| 0 <= l < j ==> #[trigger] ent(ret, i as int, l) == dot(*this, *other, i as int, l, this.col as int),
forall|k: int, l: int| i <= k < ret.row && 0 <= l < ret.col && !(k == i && l < j) ==> #[trigger] ent(ret, k, l) == 0real
@decreases ret.col - j
@loop 3
@invariant
0 <= i < this.row, 0 <= j < ret.col, 0 <= k <= this.col, wf(*this), wf(*other), this.col == other.row, wf(ret), ret.row == this.row, ret.col == other.col,
forall|k: int, l: int| 0 <= k < i && 0 <= l < ret.col ==> #[trigger] ent(ret, k, l) == dot(*this, *other, k, l, this.col as int),
forall|l: int| 0 <= l < j ==> #[trigger] ent(ret, i as int, l) == dot(*this, *other, i as int, l, this.col as int),
ent(ret, i as int, j as int) == dot(*this, *other, i as int, j as int, k as int),
forall|k: int, l: int| i <= k < ret.row && 0 <= l < ret.col && !(k == i && l <= j) ==> #[trigger] ent(ret, k, l) == 0real
@decreases this.col - k
@endrepeat

@fn cuhksz::Matrix<double>::operator*= as mat_muleq
@opt retunit
@params other
@requires
wf(*old(this)), wf(*other), old(this).col == other.row
@ensures
isprod(*final(this), *old(this), *other)
@loop 1
@invariant
*this == *old(this), 0 <= i <= this.row, wf(*this), wf(*other), this.col == other.row, wf(ret), ret.row == this.row, ret.col == other.col,
forall|k: int, l: int| 0 <= k < i && 0 <= l < ret.col ==> #[trigger] ent(ret, k, l) == dot(*this, *other, k, l, this.col as int),
forall|k: int, l: int| i <= k < ret.row && 0 <= l < ret.col ==> #[trigger] ent(ret, k, l) == 0real
@decreases this.row - i
@loop 2
@invariant
*this == *old(this), 0 <= i < this.row, 0 <= j <= ret.col, wf(*this), wf(*other), this.col == other.row, wf(ret), ret.row == this.row, ret.col == other.col,
forall|k: int, l: int| 0 <= k < i && 0 <= l < ret.col ==> #[trigger] ent(ret, k, l) == dot(*this, *other, k, l, this.col as int),
forall|l: int| 0 <= l < j ==> #[trigger] ent(ret, i as int, l) == dot(*this, *other, i as int, l, this.col as int),
forall|k: int, l: int| i <= k < ret.row && 0 <= l < ret.col && !(k == i && l < j) ==> #[trigger] ent(ret, k, l) == 0real
@decreases ret.col - j
@loop 3
@invariant
*this == *old(this), 0 <= i < this.row, 0 <= j < ret.col, 0 <= k <= this.col, wf(*this), wf(*other), this.col == other.row, wf(ret), ret.row == this.row, ret.col == other.col,
forall|k: int, l: int| 0 <= k < i && 0 <= l < ret.col ==> #[trigger] ent(ret, k, l) == dot(*this, *other, k, l, this.col as int),
forall|l: int| 0 <= l < j ==> #[trigger] ent(ret, i as int, l) == dot(*this, *other, i as int, l, this.col as int),
ent(ret, i as int, j as int) == dot(*this, *other, i as int, j as int, k as int),
forall|k: int, l: int| i <= k < ret.row && 0 <= l < ret.col && !(k == i && l <= j) ==> #[trigger] ent(ret, k, l) == 0real
@decreases this.col - k

@repeat O=+ N=add ; O=- N=sub
@fn cuhksz::Matrix<double>::operator$O as mat_$N
@params other
@requires
wf(*this), wf(*other), this.row == other.row, this.col == other.col
@ensures
wf(r), r.row == this.row, r.col == this.col, forall|i: int, j: int| 0 <= i < r.row && 0 <= j < r.col ==> #[trigger] ent(r, i, j) == ent(*this, i, j) $O ent(*other, i, j)
@loop 1
@invariant
0 <= i <= this.row, wf(*this), wf(*other), this.row == other.row, this.col == other.col, wf(ret), ret.row == this.row, ret.col == this.col,
forall|k: int, l: int| 0 <= k < i && 0 <= l < ret.col ==> #[trigger] ent(ret, k, l) == ent(*this, k, l) $O ent(*other, k, l)
@decreases this.row - i
@loop 2
@invariant
0 <= i < this.row, 0 <= j <= ret.col, wf(*this), wf(*other), this.row == other.row, this.col == other.col, wf(ret), ret.row == this.row, ret.col == this.col,
forall|k: int, l: int| 0 <= k < i && 0 <= l < ret.col ==> #[trigger] ent(ret, k, l) == ent(*this, k, l) $O ent(*other, k, l),
forall|l: int| 0 <= l < j ==> #[trigger] ent(ret, i as int, l) == ent(*this, i as int, l) $O ent(*other, i as int, l)
@decreases this.col - j

@fn cuhksz::Matrix<double>::operator$O= as mat_$Neq
@opt retunit
@params other
@requires
wf(*old(this)), wf(*other), old(this).row == other.row, old(this).col == other.col
@ensures
wf(*final(this)), final(this).row == old(this).row, final(this).col == old(this).col, forall|i: int, j: int| 0 <= i < final(this).row && 0 <= j < final(this).col ==> #[trigger] ent(*final(this), i, j) == ent(*old(this), i, j) $O ent(*other, i, j)
@loop 1
@invariant
0 <= i <= this.row, wf(*this), wf(*other), this.row == other.row, this.col == other.col, this.row == old(this).row, this.col == old(this).col,
forall|k: int, l: int| 0 <= k < i && 0 <= l < this.col ==> #[trigger] ent(*this, k, l) == ent(*old(this), k, l) $O ent(*other, k, l),
forall|k: int, l: int| i <= k < this.row && 0 <= l < this.col ==> #[trigger] ent(*this, k, l) == ent(*old(this), k, l)
@decreases this.row - i
@loop 2
@invariant
0 <= i < this.row, 0 <= j <= this.col, wf(*this), wf(*other), this.row == other.row, this.col == other.col, this.row == old(this).row, this.col == old(this).col,
forall|k: int, l: int| 0 <= k < i && 0 <= l < this.col ==> #[trigger] ent(*this, k, l) == ent(*old(this), k, l) $O ent(*other, k, l),
forall|l: int| 0 <= l < j ==> #[trigger] ent(*this, i as int, l) == ent(*old(this), i as int, l) $O ent(*other, i as int, l),
forall|k: int, l: int| i <= k < this.row && 0 <= l < this.col && !(k == i && l < j) ==> #[trigger] ent(*this, k, l) == ent(*old(this), k, l)
@decreases this.col - j
@endrepeat

@fn cuhksz::Matrix<double>::idMat as mat_id
@opt freshref
@params n
@requires
n >= 0
@ensures
wf(r), r.row == n, r.col == n, forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] ent(r, i, j) == idn(i, j)
@loop 1
@invariant
0 <= i <= n, wf(ret), ret.row == n, ret.col == n, forall|k: int, l: int| 0 <= k < n && 0 <= l < n ==> #[trigger] ent(ret, k, l) == (if k < i { idn(k, l) } else { 0real })
@decreases n - i

@fn cuhksz::pow as mat_pow
@opt freshref
@params src n
@requires
wf(*src), src.row == src.col
@ensures
ispow(r, *src, n as nat)
@decreases n
@entry
proof { pow_all(*src); }

@fn cuhksz::Matrix<double>::toString as mat_str
@requires
wf(*this), this.row == 0 || this.col >= 1
@ensures
r@ == mat_txt(*this, this.row as int)
@loop 1
@invariant
0 <= i <= this.row, wf(*this), this.row == 0 || this.col >= 1, s@ == mat_txt(*this, i as int)
@decreases this.row - i
@loop 2
@invariant
0 <= i < this.row, 1 <= j <= this.col, wf(*this), this.row == 0 || this.col >= 1, s@ =~= mat_txt(*this, i as int) + row_txt(*this, i as int, j as int)
@decreases this.col - j

@fn cuhksz::operator<< as mat_out
@opt retunit
@params os src
@requires
wf(*src), src.row == 0 || src.col >= 1, old(os).width == 0
@ensures
final(os)@ == old(os)@ + mat_txt(*src, src.row as int)

@fn cuhksz::Matrix<double>::reduce as mat_reduce
@requires
wf(*old(this)), old(this).row == 0 || old(this).col >= 1
@ensures
wf(*final(this)), final(this).row == old(this).row, final(this).col == old(this).col, is_echelon(*final(this)), nulleq(*old(this), *final(this))
@entry
let ghost mut pv: Seq<int> = Seq::empty();
@ret
assert(echelon(*this, pv));
@loop 1
@invariant
0 <= i <= this.row, this.row == 0 || 0 <= r < this.col, wf(*this), this.row == old(this).row, this.col == old(this).col, nulleq(*old(this), *this),
pivots(*this, pv), pv.len() == i, i == 0 ==> r == 0, i > 0 ==> pv.last() == r,
forall|k: int, l: int| i <= k < this.row && 0 <= l < r + (if i > 0 { 1int } else { 0int }) ==> #[trigger] ent(*this, k, l) == 0real
@decreases this.row - i
@begin
let ghost mut m2 = *this;
@bodyend
assert forall|k: int| 0 <= k < pv.len() implies pv[k] < r by { assert(pv[k] <= pv.last()); }
pv = pv.push(r as int);
@loop 2
@before
let ghost m1 = *this;
@invariant
*this == m1, 0 <= r <= this.col, r < this.col || nonZeroRow == -1, i > 0 ==> pv.last() <= r,
forall|k: int, l: int| i <= k < this.row && 0 <= l < r ==> #[trigger] ent(*this, k, l) == 0real,
i > 0 && r == pv.last() ==> forall|k: int, l: int| i <= k < this.row && l == r ==> #[trigger] ent(*this, k, l) == 0real
@decreases this.col - r
@after
proof { if nonZeroRow >= 0 { null_swap(m1, *this, i as int, nonZeroRow as int); } }
@loop 3
@invariant
i <= j <= this.row, nonZeroRow == -1, forall|k: int, l: int| i <= k < j && l == r ==> #[trigger] ent(*this, k, l) == 0real
@decreases this.row - j
@loop 4
@before
proof { m2 = *this; }
@invariant
r <= j < this.col, wf(*this), this.row == m2.row, this.col == m2.col, forall|k: int, l: int| 0 <= k < this.row && 0 <= l < this.col ==> #[trigger] ent(*this, k, l) == (if k == i && l > j { ent(m2, k, l) / ent(m2, i as int, r as int) } else { ent(m2, k, l) })
@decreases j - r
@loop 5
@before
let ghost m3 = *this;
proof { null_scale(m2, m3, i as int, r as int); assert forall|k: int, l: int| #![all_triggers] 0 <= k < i && 0 <= l < this.col implies ent(m3, k, l) == ent(m1, k, l) by {} }
@invariant
i < j <= this.row, wf(*this), this.row == m3.row, this.col == m3.col,
forall|k: int, l: int| 0 <= k < this.row && 0 <= l < this.col ==> #[trigger] ent(*this, k, l) == (if i < k && k < j { ent(m3, k, l) - ent(m3, i as int, l) * ent(m3, k, r as int) } else { ent(m3, k, l) })
@decreases this.row - j
@bodyend
assert forall|l: int| 0 <= l < this.col implies #[trigger] ent(*this, j as int, l) == ent(m3, j as int, l) - ent(m3, i as int, l) * ent(m3, j as int, r as int) by {
    let (x, y) = (ent(m3, i as int, l), ent(m3, j as int, r as int)); assert(x == 0real ==> x * y == 0real) by (nonlinear_arith); assert(x == 1real ==> x * y == y) by (nonlinear_arith);
}
@after
proof { null_elim(m3, *this, i as int, r as int); }
@loop 6
@invariant
r <= k < this.col, wf(*this), this.row == m3.row, this.col == m3.col,
forall|x: int, l: int| 0 <= x < this.row && 0 <= l < this.col ==> #[trigger] ent(*this, x, l) == (if i < x && (x < j || x == j && l > k) { ent(m3, x, l) - ent(m3, i as int, l) * ent(m3, x, r as int) } else { ent(m3, x, l) })
@decreases k - r
