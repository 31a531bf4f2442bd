@# statistics: sum, mean, variance, standard deviation (double treated as exact reals)
@driver
#include <vector>
#include "/repo/src/math_utils/statistics.cpp"
namespace cuhksz {
template int sum<int>(const int*, int);
template double sum<double>(const double*, int);
template int sum<std::vector<int>>(const std::vector<int>&);
template double sum<std::vector<double>>(const std::vector<double>&);
typedef int (*FI)(int);
typedef double (*FD)(double);
template int sum<int, FI>(const int*, int, FI);
template double sum<double, FD>(const double*, int, FD);
template int sum<std::vector<int>, FI>(const std::vector<int>&, FI);
template double sum<std::vector<double>, FD>(const std::vector<double>&, FD);
template double mean<int>(const int*, int);
template double mean<double>(const double*, int);
template double mean<std::vector<int>>(const std::vector<int>&);
template double mean<std::vector<double>>(const std::vector<double>&);
template double variance<std::vector<int>>(std::vector<int>);
template double variance<std::vector<double>>(std::vector<double>);
template double stddev<std::vector<int>>(std::vector<int>);
template double stddev<std::vector<double>>(std::vector<double>);
template double sample_variance<std::vector<int>>(const std::vector<int>&);
template double sample_variance<std::vector<double>>(const std::vector<double>&);
template double sample_stddev<std::vector<int>>(std::vector<int>);
template double sample_stddev<std::vector<double>>(std::vector<double>);
}

@optype double => Num
@trusted double arithmetic is exact (rounding is not modelled)
@prelude
pub open spec fn vi(s: Seq<i32>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i] as real) }
pub open spec fn vd(s: Seq<Num>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].v()) }
// sum of the first n elements
pub open spec fn rsum(s: Seq<real>, n: int) -> real decreases n { if n <= 0 { 0real } else { rsum(s, n - 1) + s[n - 1] } }
pub open spec fn isum(s: Seq<i32>, n: int) -> int decreases n { if n <= 0 { 0 } else { isum(s, n - 1) + s[n - 1] } }
// sum of the squared distances from m
pub open spec fn sqd(s: Seq<real>, m: real, n: int) -> real decreases n { if n <= 0 { 0real } else { sqd(s, m, n - 1) + (s[n - 1] - m) * (s[n - 1] - m) } }
pub open spec fn rmean(s: Seq<real>, n: int) -> real { rsum(s, n) / (n as real) }
pub open spec fn var(s: Seq<real>, n: int, d: int) -> real { sqd(s, rmean(s, n), n) / (d as real) }
pub open spec fn fits(s: Seq<i32>, n: int) -> bool { forall|k: int| 0 <= k <= n ==> i32::MIN <= #[trigger] isum(s, k) <= i32::MAX }
pub proof fn isum_rsum(s: Seq<i32>, n: int) requires n <= s.len() ensures isum(s, n) as real == rsum(vi(s), n) decreases n { if n > 0 { isum_rsum(s, n - 1); } }
pub proof fn sq_nonneg(x: real) ensures x * x >= 0real { assert(x * x >= 0real) by (nonlinear_arith); }
pub proof fn sqd_nonneg(s: Seq<real>, m: real, n: int) ensures sqd(s, m, n) >= 0real decreases n { if n > 0 { sqd_nonneg(s, m, n - 1); sq_nonneg(s[n - 1] - m); } }
pub proof fn div_pos(a: real, d: real) requires a >= 0real, d > 0real ensures a / d >= 0real { assert(a / d >= 0real) by (nonlinear_arith) requires a >= 0real, d > 0real; }
pub proof fn zero_div(d: real) requires d != 0real ensures 0real / d == 0real { assert(0real / d == 0real) by (nonlinear_arith) requires d != 0real; }
pub proof fn var_nonneg(s: Seq<real>, n: int, d: int) requires n >= 0, d > 0 ensures var(s, n, d) >= 0real { sqd_nonneg(s, rmean(s, n), n); div_pos(sqd(s, rmean(s, n), n), d as real); }

// what a function returns for the elements, called once for each, in order
pub open spec fn imap(f: CFn<i32, i32>, s: Seq<i32>, n: int) -> Seq<i32> { Seq::new(n as nat, |i: int| fn_out::<i32, i32>(f.f(), f.h() + s.take(i), s[i])) }
pub open spec fn dmap(f: CFn<Num, Num>, s: Seq<Num>, n: int) -> Seq<Num> { Seq::new(n as nat, |i: int| fn_out::<Num, Num>(f.f(), f.h() + s.take(i), s[i])) }

@repeat T=int E=i32 W=vi P=i CFIT=fits(arr@,~arr@.len()~as~int) FIT=fits(arr@,~size~as~int) ; T=double E=Num W=vd P=d FIT=true CFIT=true
@fn cuhksz::mean as mean_$P sig double (const $T *, int)
@params arr size
@requires
size != 0, size <= arr@.len(), $FIT
@ensures
size > 0 ==> r.v() == rmean($W(arr@), size as int), size < 0 ==> r.v() == 0real
@entry
proof { if size < 0 { zero_div(size as real); } }

@fn cuhksz::variance as variance_$P sig double (const $T *, int)
@params arr size
@requires
size != 0, size <= arr@.len(), $FIT
@ensures
size > 0 ==> r.v() == var($W(arr@), size as int, size as int), size < 0 ==> r.v() == 0real
@entry
proof { if size < 0 { zero_div(size as real); } }
@loop 1
@invariant
0 <= i, size > 0 ==> i <= size, sum_square.v() == sqd($W(arr@), rmean($W(arr@), size as int), i as int), size < 0 ==> i == 0
@decreases
size - i

@fn cuhksz::sample_variance as svariance_$P sig double (const $T *, int)
@params arr size
@requires
size != 0, size != 1, size > i32::MIN, size <= arr@.len(), $FIT
@ensures
size > 0 ==> r.v() == var($W(arr@), size as int, size - 1), size < 0 ==> r.v() == 0real
@entry
proof { if size < 0 { zero_div((size - 1) as real); } }
@loop 1
@invariant
0 <= i, size > 0 ==> i <= size, sum_square.v() == sqd($W(arr@), rmean($W(arr@), size as int), i as int), size < 0 ==> i == 0
@decreases
size - i

@fn cuhksz::stddev as stddev_$P sig double (const $T *, int)
@params arr size
@requires
size != 0, size <= arr@.len(), $FIT
@ensures
r.v() >= 0real, size > 0 ==> r.v() * r.v() == var($W(arr@), size as int, size as int), size < 0 ==> r.v() * r.v() == 0real
@entry
proof { if size > 0 { var_nonneg($W(arr@), size as int, size as int); } }

@fn cuhksz::sample_stddev as sstddev_$P sig double (const $T *, int)
@params arr size
@requires
size != 0, size != 1, size > i32::MIN, size <= arr@.len(), $FIT
@ensures
r.v() >= 0real, size > 0 ==> r.v() * r.v() == var($W(arr@), size as int, size - 1), size < 0 ==> r.v() * r.v() == 0real
@entry
proof { if size > 0 { var_nonneg($W(arr@), size as int, size - 1); } }

@fn cuhksz::mean as cmean_$P sig double (const std::vector<$T> &)
@params arr
@requires
arr@.len() > 0, $CFIT
@ensures
r.v() == rmean($W(arr@), arr@.len() as int)

@fn cuhksz::variance as cvariance_$P sig double (std::vector<$T>)
@params arr
@requires
arr@.len() > 0, $CFIT
@ensures
r.v() == var($W(arr@), arr@.len() as int, arr@.len() as int)
@loop 1
@invariant
arr@ == arr_0@, 0 <= it <= arr@.len(), sum_square.v() == sqd($W(arr@), rmean($W(arr@), arr@.len() as int), it as int)
@decreases
arr@.len() - it

@fn cuhksz::sample_variance as csvariance_$P sig double (const std::vector<$T> &)
@params arr
@requires
arr@.len() > 1, $CFIT
@ensures
r.v() == var($W(arr@), arr@.len() as int, arr@.len() - 1)
@loop 1
@invariant
0 <= it <= arr@.len(), sum_square.v() == sqd($W(arr@), rmean($W(arr@), arr@.len() as int), it as int)
@decreases
arr@.len() - it

@fn cuhksz::stddev as cstddev_$P sig double (std::vector<$T>)
@params arr
@requires
arr@.len() > 0, $CFIT
@ensures
r.v() >= 0real, r.v() * r.v() == var($W(arr@), arr@.len() as int, arr@.len() as int)
@entry
proof { var_nonneg($W(arr@), arr@.len() as int, arr@.len() as int); }

@fn cuhksz::sample_stddev as csstddev_$P sig double (std::vector<$T>)
@params arr
@requires
arr@.len() > 1, $CFIT
@ensures
r.v() >= 0real, r.v() * r.v() == var($W(arr@), arr@.len() as int, arr@.len() - 1)
@entry
proof { var_nonneg($W(arr@), arr@.len() as int, arr@.len() - 1); }
@endrepeat

@fn cuhksz::sum as sum_i sig int (const int *, int)
@params arr size
@requires
size <= arr@.len(), fits(arr@, size as int)
@ensures
r == isum(arr@, size as int), r as real == rsum(vi(arr@), size as int)
@loop 1
@invariant
0 <= i, i <= size || i == 0, sum == isum(arr@, i as int), size <= 0 ==> i == 0
@decreases
size - i
@begin
proof { assert(isum(arr@, i + 1) == isum(arr@, i as int) + arr@[i as int]); }
@ret
isum_rsum(arr@, size as int);

@fn cuhksz::sum as sum_d sig double (const double *, int)
@params arr size
@requires
size <= arr@.len()
@ensures
r.v() == rsum(vd(arr@), size as int)
@loop 1
@invariant
0 <= i, i <= size || i == 0, sum.v() == rsum(vd(arr@), i as int), size <= 0 ==> i == 0
@decreases
size - i

@fn cuhksz::sum as csum_i sig (const std::vector<int> &)
@params arr
@requires
fits(arr@, arr@.len() as int)
@ensures
r == isum(arr@, arr@.len() as int), r as real == rsum(vi(arr@), arr@.len() as int)
@loop 1
@invariant
0 <= it <= arr@.len(), sum == isum(arr@, it as int)
@decreases
arr@.len() - it
@begin
proof { assert(isum(arr@, it + 1) == isum(arr@, it as int) + arr@[it as int]); }
@ret
isum_rsum(arr@, arr@.len() as int);

@fn cuhksz::sum as csum_d sig (const std::vector<double> &)
@params arr
@ensures
r.v() == rsum(vd(arr@), arr@.len() as int)
@loop 1
@invariant
0 <= it <= arr@.len(), sum.v() == rsum(vd(arr@), it as int)
@decreases
arr@.len() - it


@fn cuhksz::sum as fsum_i sig auto (const int *, int, int (*)(int))
@params arr size fn1
@requires
size <= arr@.len(), fits(imap(fn1, arr@, size as int), size as int)
@ensures
r == isum(imap(fn1, arr@, size as int), size as int)
@loop 1
@invariant
0 <= i, i <= size || i == 0, sum == isum(imap(fn1_0, arr@, size as int), i as int), size <= 0 ==> i == 0, fn1.f() == fn1_0.f(), fn1.h() == fn1_0.h() + arr@.take(i as int)
@decreases
size - i
@begin
proof { assert(isum(imap(fn1_0, arr@, size as int), i + 1) == isum(imap(fn1_0, arr@, size as int), i as int) + imap(fn1_0, arr@, size as int)[i as int]); assert(arr@.take(i + 1) =~= arr@.take(i as int).push(arr@[i as int])); }

@fn cuhksz::sum as fcsum_i sig auto (const std::vector<int> &, int (*)(int))
@params arr fn1
@requires
fits(imap(fn1, arr@, arr@.len() as int), arr@.len() as int)
@ensures
r == isum(imap(fn1, arr@, arr@.len() as int), arr@.len() as int)
@loop 1
@invariant
0 <= it <= arr@.len(), sum == isum(imap(fn1_0, arr@, arr@.len() as int), it as int), fn1.f() == fn1_0.f(), fn1.h() == fn1_0.h() + arr@.take(it as int)
@decreases
arr@.len() - it
@begin
proof { assert(isum(imap(fn1_0, arr@, arr@.len() as int), it + 1) == isum(imap(fn1_0, arr@, arr@.len() as int), it as int) + imap(fn1_0, arr@, arr@.len() as int)[it as int]); assert(arr@.take(it + 1) =~= arr@.take(it as int).push(arr@[it as int])); }

@fn cuhksz::sum as fsum_d sig auto (const double *, int, double (*)(double))
@params arr size fn1
@requires
size <= arr@.len(), true
@ensures
r.v() == rsum(vd(dmap(fn1, arr@, size as int)), size as int)
@loop 1
@invariant
0 <= i, i <= size || i == 0, sum.v() == rsum(vd(dmap(fn1_0, arr@, size as int)), i as int), size <= 0 ==> i == 0, fn1.f() == fn1_0.f(), fn1.h() == fn1_0.h() + arr@.take(i as int)
@decreases
size - i
@begin
proof { assert(arr@.take(i + 1) =~= arr@.take(i as int).push(arr@[i as int])); }

@fn cuhksz::sum as fcsum_d sig auto (const std::vector<double> &, double (*)(double))
@params arr fn1
@requires
true
@ensures
r.v() == rsum(vd(dmap(fn1, arr@, arr@.len() as int)), arr@.len() as int)
@loop 1
@invariant
0 <= it <= arr@.len(), sum.v() == rsum(vd(dmap(fn1_0, arr@, arr@.len() as int)), it as int), fn1.f() == fn1_0.f(), fn1.h() == fn1_0.h() + arr@.take(it as int)
@decreases
arr@.len() - it
@begin
proof { assert(arr@.take(it + 1) =~= arr@.take(it as int).push(arr@[it as int])); }

