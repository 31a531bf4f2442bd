@# gcd / lcm
@driver
#include "/repo/src/include/math_utils/math_functions.h"
template int cuhksz::gcd<int, int>(int, int);
template int64_t cuhksz::gcd<int64_t, int64_t>(int64_t, int64_t);
template int64_t cuhksz::gcd<int, int64_t>(int, int64_t);
template int64_t cuhksz::gcd<int64_t, int>(int64_t, int);
template int cuhksz::lcm<int, int>(int, int);
template int64_t cuhksz::lcm<int64_t, int64_t>(int64_t, int64_t);

@include gcd
@repeat A=int B=int RA=i32 RB=i32 R=i32 N=gcd_ii ; A=long B=long RA=i64 RB=i64 R=i64 N=gcd_ll ; A=int B=long RA=i32 RB=i64 R=i64 N=gcd_il ; A=long B=int RA=i64 RB=i32 R=i64 N=gcd_li
@fn cuhksz::gcd as $N sig ($A, $B)
@params a b
@requires
a > $RA::MIN, b > $RB::MIN
@ensures
is_gcd(iabs(r as int), a as int, b as int), a >= 0 && b >= 0 ==> r >= 0
@entry
broadcast use rem_step;
@loop 1
@invariant
a > $RA::MIN, b > $RB::MIN, b != 0,
same_cd(a as int, b as int, a_0 as int, b_0 as int), a_0 >= 0 && b_0 >= 0 ==> a >= 0 && b >= 0, b_0 != 0
@decreases iabs(b as int)
@ret
gcd_done(a as int, b as int, a_0 as int, b_0 as int, ret_v as int);
@endrepeat

@repeat T=int R=i32 N=lcm_ii G=gcd_ii ; T=long R=i64 N=lcm_ll G=gcd_ll
@fn cuhksz::lcm as $N sig ($T, $T)
@params a b
@requires
a > $R::MIN, b > $R::MIN, a != 0 || b != 0, $R::MIN < a * b <= $R::MAX
@ensures
is_lcm(iabs(r as int), a as int, b as int), a >= 0 && b >= 0 ==> r >= 0
@ret
lcm_all(a as int, b as int);
@endrepeat
