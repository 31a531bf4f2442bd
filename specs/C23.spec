@# Random real numbers and the distributions (double treated as exact reals)
@driver
#include "/repo/src/random/Random.cpp"
#include "/repo/src/random/UniformDistribution.cpp"
#include "/repo/src/random/UniformIntDistribution.cpp"
#include "/repo/src/random/BernoulliDistribution.cpp"
#include "/repo/src/random/BinomialDistribution.cpp"
#include "/repo/src/random/PoissonDistribution.cpp"
#include "/repo/src/random/NegativeBinomialDistribution.cpp"
#include "/repo/src/random/NormalDistribution.cpp"
#include "/repo/src/random/GammaDistribution.cpp"
#include "/repo/src/random/StudentTDistribution.cpp"
#include "/repo/src/include/random/GeometricDistribution.h"
#include "/repo/src/include/random/ExponentialDistribution.h"
#include "/repo/src/include/random/ChiSquaredDistribution.h"
namespace cuhksz { void use_(Random& r) { UniformDistribution a; UniformIntDistribution b(1); BernoulliDistribution c; a.setRandomGenerator(r); b.setRandomGenerator(r); c.setRandomGenerator(r); } }

@runtime real
@heap Random
@heapalloc Random
@optype double => Num
@struct cuhksz::Distribution<double> => DistD
@struct cuhksz::Distribution<int> => DistI
@struct cuhksz::Distribution<bool> => DistB
@struct cuhksz::UniformDistribution => Unif
@struct cuhksz::UniformIntDistribution => UnifI
@struct cuhksz::BernoulliDistribution => Bern
@struct cuhksz::BinomialDistribution => Binom
@struct cuhksz::PoissonDistribution => Pois
@struct cuhksz::NegativeBinomialDistribution => NegB
@struct cuhksz::GeometricDistribution => Geom
@struct cuhksz::NormalDistribution => Norm
@struct cuhksz::GammaDistribution => Gamm
@struct cuhksz::ExponentialDistribution => Expo
@struct cuhksz::ChiSquaredDistribution => Chi2
@struct cuhksz::StudentTDistribution => Stud
@trusted std::mt19937_64 is a deterministic engine: its outputs depend on the seed and the number of calls only
@trusted double arithmetic is exact (rounding, overflow and underflow are not modelled); exp, log and pow are functions of which only signs are assumed
@prelude
pub open spec fn live(h: Heap, p: Ptr) -> bool { h.objs_Random().dom().contains(p) }
pub open spec fn eng(h: Heap, p: Ptr) -> Mt { h.objs_Random()[p].randomGenerator }
// generator p is now in state m, and no other object has changed
pub open spec fn moved(a: Heap, b: Heap, p: Ptr, m: Mt) -> bool { b.objs_Random() =~= a.objs_Random().insert(p, Random_ { randomGenerator: m }) }
pub open spec fn same(a: Heap, b: Heap) -> bool { b.objs_Random() =~= a.objs_Random() }
// q is a new generator, and no other object has changed
pub open spec fn made(a: Heap, b: Heap, q: Ptr) -> bool { q != 0 && !live(a, q) && b.objs_Random().dom() =~= a.objs_Random().dom().insert(q) && forall|x: Ptr| x != q ==> #[trigger] b.objs_Random()[x] == a.objs_Random()[x] }
pub open spec fn seed_of(s: i32) -> u64 { if s < 0 { (0x1_0000_0000_0000_0000 + s) as u64 } else { s as u64 } }
pub open spec fn top() -> real { 18446744073709551615real }
// the output of the engine spread linearly over [lo, hi)
pub open spec fn dbl(m: Mt, lo: real, hi: real) -> real { let x = (mt_out(m) as real) / top() * (hi - lo) + lo; if lo < hi && x >= hi { rnext(hi, lo) } else { x } }
pub open spec fn unit(m: Mt) -> real { dbl(m, 0real, 1real) }
pub proof fn spread(g: real, lo: real, hi: real) requires 0real <= g <= top(), lo <= hi ensures lo <= g / top() * (hi - lo) + lo <= hi
{ let q = g / top(); assert(0real <= q <= 1real) by (nonlinear_arith) requires q == g / 18446744073709551615real, 0real <= g <= 18446744073709551615real; let w = hi - lo; assert(0real <= q * w <= w) by (nonlinear_arith) requires 0real <= q <= 1real, w >= 0real; }

// Pascal's triangle
pub open spec fn choose_(n: int, k: int) -> int decreases n { if k < 0 { 0 } else if k == 0 { 1 } else if n <= 0 { 0 } else { choose_(n - 1, k - 1) + choose_(n - 1, k) } }
pub proof fn choose_next(n: int, k: int) requires n >= 0, k >= -1 ensures (k + 1) * choose_(n, k + 1) == (n - k) * choose_(n, k) decreases n
{
    if n == 0 { if k == 0 { assert((k + 1) * choose_(n, k + 1) == 0 && (n - k) * choose_(n, k) == 0); } else if k > 0 { assert(choose_(0, k + 1) == 0 && choose_(0, k) == 0); assert((k + 1) * 0 == 0 && (0 - k) * 0 == 0) by (nonlinear_arith); } else { assert((0 - k) * 0 == 0) by (nonlinear_arith); } }
    else if k < 0 { assert((n - k) * 0 == 0) by (nonlinear_arith); }
    else {
        choose_next(n - 1, k); choose_next(n - 1, k - 1);
        let (a, b, c) = (choose_(n - 1, k - 1), choose_(n - 1, k), choose_(n - 1, k + 1));
        assert(choose_(n, k + 1) == b + c);
        assert((k + 1) * (b + c) == (k + 1) * b + (k + 1) * c) by (nonlinear_arith);
        assert((k + 1) * b + (n - 1 - k) * b == n * b) by (nonlinear_arith);
        assert(k * b + (n - k) * b == n * b) by (nonlinear_arith);
        assert((n - k) * (a + b) == (n - k) * a + (n - k) * b) by (nonlinear_arith);
        if k == 0 { assert(choose_(n, 0) == 1 && b == 1 && a == 0); assert((n - k) * a == 0) by (nonlinear_arith) requires a == 0; } else { assert(choose_(n, k) == a + b); }
    }
}
pub proof fn choose_real(n: int, k: int) requires 0 <= k < n ensures choose_(n, k) as real * ((n - k) as real) / ((k + 1) as real) == choose_(n, k + 1) as real
{
    choose_next(n, k); let (a, b, c, d) = (choose_(n, k) as real, (n - k) as real, (k + 1) as real, choose_(n, k + 1) as real);
    mulr(choose_(n, k), n - k); mulr(k + 1, choose_(n, k + 1)); 
    assert((n - k) * choose_(n, k) == choose_(n, k) * (n - k)) by (nonlinear_arith);
    assert(a * b == c * d); divd(c, d);
}
pub proof fn mulr(a: int, b: int) ensures (a * b) as real == (a as real) * (b as real) { assert((a * b) as real == (a as real) * (b as real)) by (nonlinear_arith); }
pub proof fn divd(c: real, d: real) requires c != 0real ensures c * d / c == d { assert(c * d / c == d) by (nonlinear_arith) requires c != 0real; }
// binomial: probability of exactly k, and of at most k successes in n trials
pub open spec fn bterm(n: int, p: real, k: int) -> real { choose_(n, k) as real * rpow(p, k) * rpow(1real - p, n - k) }
pub open spec fn bcdf(n: int, p: real, k: int) -> real decreases k + 1 { if k < 0 { 0real } else { bcdf(n, p, k - 1) + bterm(n, p, k) } }
pub open spec fn btab(b: Binom) -> bool { 0 <= b.n_ && b.lookup_table@.len() == b.n_ + 1 && forall|i: int| 0 <= i < b.n_ ==> #[trigger] b.lookup_table@[i].v() == bcdf(b.n_ as int, b.p_.v(), i) }
// Poisson: exp(-l) l^k / k!
pub open spec fn pterm(l: real, k: int) -> real decreases k { if k <= 0 { rexp(0real - l) } else { pterm(l, k - 1) * (l / (k as real)) } }
pub open spec fn pcdf(l: real, k: int) -> real decreases k + 1 { if k < 0 { 0real } else { pcdf(l, k - 1) + pterm(l, k) } }
// negative binomial: C(k + n - 1, k) p^n (1 - p)^k
pub open spec fn nterm(n: int, p: real, k: int) -> real decreases k { if k <= 0 { rpow(p, n) } else { nterm(n, p, k - 1) * ((1real - p) * ((n + k - 1) as real) / (k as real)) } }
pub open spec fn ncdf(n: int, p: real, k: int) -> real decreases k + 1 { if k < 0 { 0real } else { ncdf(n, p, k - 1) + nterm(n, p, k) } }
pub proof fn rpow_add(x: real, a: int, b: int) requires a >= 0, b >= 0 ensures rpow(x, a) * rpow(x, b) == rpow(x, a + b) decreases b
{ if b > 0 { rpow_add(x, a, b - 1); let (p, q) = (rpow(x, a), rpow(x, b - 1)); assert(p * (q * x) == (p * q) * x) by (nonlinear_arith); } else { let p = rpow(x, a); assert(p * 1real == p) by (nonlinear_arith); } }
pub proof fn mul_pos(a: real, b: real) requires a > 0real, b > 0real ensures a * b > 0real { assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; }
pub proof fn pos_div(a: real, b: real) requires a > 0real, b > 0real ensures a / b > 0real { assert(a / b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; }
pub proof fn rpow_pos(x: real, n: int) requires 0real < x <= 1real ensures rpow(x, n) > 0real, x == 1real ==> rpow(x, n) == 1real decreases n { if n > 0 { rpow_pos(x, n - 1); mul_pos(rpow(x, n - 1), x); if x == 1real { assert(rpow(x, n - 1) * x == 1real) by (nonlinear_arith) requires rpow(x, n - 1) == 1real, x == 1real; } } }
pub proof fn pterm_pos(l: real, k: int) requires l > 0real ensures pterm(l, k) > 0real decreases k { rexp_pos(0real - l); if k > 0 { pterm_pos(l, k - 1); pos_div(l, k as real); mul_pos(pterm(l, k - 1), l / (k as real)); } }
pub proof fn nterm_pos(n: int, p: real, k: int) requires n > 0, 0real < p < 1real ensures nterm(n, p, k) > 0real decreases k { if k <= 0 { rpow_pos(p, n); } else { nterm_pos(n, p, k - 1); let t = (n + k - 1) as real; mul_pos(1real - p, t); pos_div((1real - p) * t, k as real); mul_pos(nterm(n, p, k - 1), (1real - p) * t / (k as real)); } }
// the state of the engine after n more outputs
pub open spec fn adv(m: Mt, n: int) -> Mt decreases n { if n <= 0 { m } else { mt_step(adv(m, n - 1)) } }
// normal (Marsaglia's polar method): a point of the square is accepted if it lies in the unit disc and is not its centre
pub open spec fn nu(m: Mt) -> real { dbl(m, 0real - 1real, 1real) }
pub open spec fn ns(m: Mt) -> real { nu(m) * nu(m) + nu(mt_step(m)) * nu(mt_step(m)) }
pub open spec fn nok(m: Mt) -> bool { ns(m) != 0real && ns(m) <= 1real }
pub open spec fn nfind(m: Mt, n: nat) -> Mt decreases n { if n == 0 || nok(m) { m } else { nfind(mt_step(mt_step(m)), (n - 1) as nat) } }
pub open spec fn nends(m: Mt) -> bool { exists|n: nat| nok(#[trigger] nfind(m, n)) }
pub open spec fn nacc(m: Mt) -> Mt { nfind(m, choose|n: nat| nok(#[trigger] nfind(m, n))) }
pub open spec fn nfac(f: real, s: real) -> bool { f >= 0real && f * f == (0real - 2real) * rlog(s) / s }
pub proof fn sq_sum(a: real, b: real) ensures a * a + b * b >= 0real { assert(a * a >= 0real) by (nonlinear_arith); assert(b * b >= 0real) by (nonlinear_arith); }
pub proof fn neg_div(l: real, s: real) requires l <= 0real, s > 0real ensures (0real - 2real) * l / s >= 0real { let t = (0real - 2real) * l; assert(t >= 0real); assert(t / s >= 0real) by (nonlinear_arith) requires t >= 0real, s > 0real; }
// the state after the two draws of the accepted point
pub open spec fn nnext(m: Mt) -> Mt { mt_step(mt_step(nacc(m))) }
pub open spec fn sroot(q: real, a: real) -> bool { q >= 0real && q * q == a }
// gamma: minus the logarithms of the draws of the integer part, and the method of Ahrens and Dieter for the fraction d
pub open spec fn gu(m: Mt) -> real { 1real - unit(m) }
pub open spec fn gsum(m: Mt, n: int) -> real decreases n { if n <= 0 { 0real } else { gsum(m, n - 1) + rlog(gu(adv(m, n - 1))) } }
pub proof fn one_zero(a: real) ensures a * 1real + 0real == a { }
pub proof fn inv_sign(l: real) requires l != 0real ensures (1real / l > 0real) == (l > 0real), 1real / l != 0real { assert((1real / l > 0real) == (l > 0real)) by (nonlinear_arith) requires l != 0real; assert(1real / l != 0real) by (nonlinear_arith) requires l != 0real; }
pub proof fn gu_pos(m: Mt) ensures 0real < gu(m) <= 1real, 0real <= unit(m) < 1real { spread(mt_out(m) as real, 0real, 1real); rnext_below(1real, 0real); }
pub proof fn gsum_neg(m: Mt, n: int) ensures gsum(m, n) <= 0real decreases n { if n > 0 { gsum_neg(m, n - 1); gu_pos(adv(m, n - 1)); rlog_neg(gu(adv(m, n - 1))); } }
pub proof fn gval_pos(m: Mt, k: real, t: real) requires t > 0real, frac(k) != 0real ==> gksi(gacc(adv(m, rfloor(k)), frac(k)), frac(k)) > 0real
    ensures gval(m, k, t) >= 0real, gval(m, k, t) == 0real ==> gzero(m, k)
{ gsum_neg(m, rfloor(k)); let s = gsum(m, rfloor(k)); let x = if frac(k) == 0real { 0real - s } else { gksi(gacc(adv(m, rfloor(k)), frac(k)), frac(k)) - s }; assert(x >= 0real); assert(t * x >= 0real) by (nonlinear_arith) requires t > 0real, x >= 0real; assert(x > 0real ==> t * x > 0real) by (nonlinear_arith) requires t > 0real; }
// the sum is zero: k is an integer and every draw was zero
pub open spec fn gzero(m: Mt, k: real) -> bool { frac(k) == 0real && gsum(m, rfloor(k)) == 0real }
pub open spec fn ee() -> real { 543656365691809real / 200000000000000real }
pub open spec fn glow(m: Mt, d: real) -> bool { gu(m) <= ee() / (ee() + d) }
pub open spec fn gksi(m: Mt, d: real) -> real { if glow(m, d) { rpowr(gu(mt_step(m)), 1real / d) } else { 1real - rlog(gu(mt_step(m))) } }
pub open spec fn gita(m: Mt, d: real) -> real { let k = gksi(m, d); if glow(m, d) { gu(mt_step(mt_step(m))) * rpowr(k, d - 1real) } else { gu(mt_step(mt_step(m))) * rexp(0real - k) } }
pub open spec fn gok(m: Mt, d: real) -> bool { let k = gksi(m, d); gita(m, d) <= rpowr(k, d - 1real) * rexp(0real - k) }
pub open spec fn gfind(m: Mt, d: real, n: nat) -> Mt decreases n { if n == 0 || gok(m, d) { m } else { gfind(mt_step(mt_step(mt_step(m))), d, (n - 1) as nat) } }
pub open spec fn gends(m: Mt, d: real) -> bool { exists|n: nat| gok(#[trigger] gfind(m, d, n), d) }
pub open spec fn gacc(m: Mt, d: real) -> Mt { gfind(m, d, choose|n: nat| gok(#[trigger] gfind(m, d, n), d)) }
pub open spec fn frac(k: real) -> real { k - (rfloor(k) as real) }
pub open spec fn gval(m: Mt, k: real, t: real) -> real { let d = frac(k); let s = gsum(m, rfloor(k)); if d == 0real { t * (0real - s) } else { t * (gksi(gacc(adv(m, rfloor(k)), d), d) - s) } }
pub open spec fn gend(m: Mt, k: real) -> Mt { let d = frac(k); let a = adv(m, rfloor(k)); if d == 0real { a } else { mt_step(mt_step(mt_step(gacc(a, d)))) } }
pub open spec fn gfine(m: Mt, k: real) -> bool { k < 2147483648real && (frac(k) != 0real ==> gends(adv(m, rfloor(k)), frac(k))) }

// ---------------------------------------------------------------- Random
@fn cuhksz::Random::nextInt as next_range sig int (int, int)
@params lo hi
@opt heap mut
@requires
live(*old(h), this)
@exit_ok
hi <= lo
@ensures
lo < hi, lo <= r < hi, r == lo + (mt_out(eng(*old(h), this)) as int) % (hi - lo), moved(*old(h), *final(h), this, mt_step(eng(*old(h), this)))

@fn cuhksz::Random::nextDouble as next_dbl sig double (double, double)
@params lo hi
@opt heap mut
@requires
live(*old(h), this)
@exit_ok
hi.v() < lo.v()
@ensures
lo.v() <= hi.v(), lo.v() < hi.v() ==> lo.v() <= r.v() < hi.v(), lo.v() == hi.v() ==> r.v() == lo.v(), r.v() == dbl(eng(*old(h), this), lo.v(), hi.v()), moved(*old(h), *final(h), this, mt_step(eng(*old(h), this)))
@entry
proof { if lo.v() <= hi.v() { spread(mt_out(eng(*h, this)) as real, lo.v(), hi.v()); } }

@fn cuhksz::Random::nextDouble as next_dmax sig double (double)
@params hi
@opt heap mut
@requires
live(*old(h), this)
@exit_ok
hi.v() < 0real
@ensures
0real <= hi.v(), r.v() == dbl(eng(*old(h), this), 0real, hi.v()), 0real < hi.v() ==> 0real <= r.v() < hi.v(), moved(*old(h), *final(h), this, mt_step(eng(*old(h), this)))

@fn cuhksz::Random::nextDouble as next_unit sig double ()
@opt heap mut
@requires
live(*old(h), this)
@ensures
0real <= r.v() < 1real, r.v() == unit(eng(*old(h), this)), moved(*old(h), *final(h), this, mt_step(eng(*old(h), this)))

@fn cuhksz::Random::Random as rnd_new sig void (int)
@params seed
@opt heap mut
@opt ctorof Random
@requires
live(*old(h), this)
@ensures
moved(*old(h), *final(h), this, mt_seed(seed_of(seed)))

@fn cuhksz::Random::Random as rnd_new0 sig void ()
@opt heap mut
@opt ctorof Random
@requires
live(*old(h), this)
@ensures
exists|s: i32| moved(*old(h), *final(h), this, mt_seed(#[trigger] seed_of(s)))

// ---------------------------------------------------------------- the common base
@repeat D=DistD T=double N=d ; D=DistI T=int N=i ; D=DistB T=bool N=b
@fn cuhksz::Distribution<$T>::Distribution as dist_of_$N sig void (Random &)
@params g
@opt heap ref
@opt ctorof cuhksz::Distribution<$T>
@ensures
r.randomGenerator == g, !r.newedRandom

@fn cuhksz::Distribution<$T>::Distribution as dist_own_$N sig void ()
@opt heap mut
@opt ctorof cuhksz::Distribution<$T>
@ensures
made(*old(h), *final(h), r.randomGenerator), r.newedRandom

@fn cuhksz::Distribution<$T>::~Distribution as dist_end_$N
@opt heap mut
@requires
old(this).newedRandom ==> live(*old(h), old(this).randomGenerator)
@ensures
old(this).newedRandom ==> final(h).objs_Random() =~= old(h).objs_Random().remove(old(this).randomGenerator), !old(this).newedRandom ==> same(*old(h), *final(h))

@fn cuhksz::Distribution<$T>::setRandomGenerator as set_gen_$N
@params g
@opt heap mut
@requires
old(this).newedRandom ==> live(*old(h), old(this).randomGenerator)
@ensures
final(this).randomGenerator == g, !final(this).newedRandom, old(this).newedRandom ==> final(h).objs_Random() =~= old(h).objs_Random().remove(old(this).randomGenerator), !old(this).newedRandom ==> same(*old(h), *final(h))

@endrepeat

// ---------------------------------------------------------------- uniform
@fn cuhksz::UniformDistribution::init as unif_init
@params lo hi
@exit_ok
lo.v() > hi.v()
@ensures
lo.v() <= hi.v(), final(this).min_.v() == lo.v(), final(this).max_.v() == hi.v(), final(this).base_ == old(this).base_

@fn cuhksz::UniformDistribution::next as unif_next
@opt heap mut
@requires
live(*old(h), old(this).base_.randomGenerator), old(this).min_.v() <= old(this).max_.v()
@ensures
old(this).min_.v() < old(this).max_.v() ==> old(this).min_.v() <= r.v() < old(this).max_.v(), r.v() == dbl(eng(*old(h), old(this).base_.randomGenerator), old(this).min_.v(), old(this).max_.v()), *final(this) == *old(this), moved(*old(h), *final(h), old(this).base_.randomGenerator, mt_step(eng(*old(h), old(this).base_.randomGenerator)))

@fn cuhksz::UniformDistribution::UniformDistribution as unif_own1 sig void (double)
@params hi
@opt heap mut
@opt ctorof cuhksz::UniformDistribution
@exit_ok
0real > hi.v()
@ensures
made(*old(h), *final(h), r.base_.randomGenerator), r.base_.newedRandom, 0real <= hi.v(), r.min_.v() == 0real, r.max_.v() == hi.v()

@fn cuhksz::UniformDistribution::UniformDistribution as unif_of1 sig void (Random &, double)
@params g hi
@opt heap ref
@opt ctorof cuhksz::UniformDistribution
@exit_ok
0real > hi.v()
@ensures
r.base_.randomGenerator == g, !r.base_.newedRandom, 0real <= hi.v(), r.min_.v() == 0real, r.max_.v() == hi.v()

@fn cuhksz::UniformDistribution::UniformDistribution as unif_own2 sig void (double, double)
@params lo hi
@opt heap mut
@opt ctorof cuhksz::UniformDistribution
@exit_ok
lo.v() > hi.v()
@ensures
made(*old(h), *final(h), r.base_.randomGenerator), r.base_.newedRandom, lo.v() <= hi.v(), r.min_.v() == lo.v(), r.max_.v() == hi.v()

@fn cuhksz::UniformDistribution::UniformDistribution as unif_of2 sig void (Random &, double, double)
@params g lo hi
@opt heap ref
@opt ctorof cuhksz::UniformDistribution
@exit_ok
lo.v() > hi.v()
@ensures
r.base_.randomGenerator == g, !r.base_.newedRandom, lo.v() <= hi.v(), r.min_.v() == lo.v(), r.max_.v() == hi.v()

@fn cuhksz::UniformDistribution::min as unif_get_min
@ensures
r == old(this).min_, *final(this) == *old(this)

@fn cuhksz::UniformDistribution::max as unif_get_max
@ensures
r == old(this).max_, *final(this) == *old(this)

// ---------------------------------------------------------------- uniform integers
@fn cuhksz::UniformIntDistribution::init as unifi_init
@params lo hi
@exit_ok
lo >= hi
@ensures
lo < hi, final(this).min_ == lo, final(this).max_ == hi, final(this).base_ == old(this).base_

@fn cuhksz::UniformIntDistribution::next as unifi_next
@opt heap mut
@requires
live(*old(h), old(this).base_.randomGenerator), old(this).min_ < old(this).max_
@ensures
old(this).min_ <= r < old(this).max_, r == old(this).min_ + (mt_out(eng(*old(h), old(this).base_.randomGenerator)) as int) % (old(this).max_ - old(this).min_), *final(this) == *old(this), moved(*old(h), *final(h), old(this).base_.randomGenerator, mt_step(eng(*old(h), old(this).base_.randomGenerator)))

@fn cuhksz::UniformIntDistribution::UniformIntDistribution as unifi_own1 sig void (int)
@params hi
@opt heap mut
@opt ctorof cuhksz::UniformIntDistribution
@exit_ok
0 >= hi
@ensures
made(*old(h), *final(h), r.base_.randomGenerator), r.base_.newedRandom, 0 < hi, r.min_ == 0, r.max_ == hi

@fn cuhksz::UniformIntDistribution::UniformIntDistribution as unifi_of1 sig void (Random &, int)
@params g hi
@opt heap ref
@opt ctorof cuhksz::UniformIntDistribution
@exit_ok
0 >= hi
@ensures
r.base_.randomGenerator == g, !r.base_.newedRandom, 0 < hi, r.min_ == 0, r.max_ == hi

@fn cuhksz::UniformIntDistribution::UniformIntDistribution as unifi_own2 sig void (int, int)
@params lo hi
@opt heap mut
@opt ctorof cuhksz::UniformIntDistribution
@exit_ok
lo >= hi
@ensures
made(*old(h), *final(h), r.base_.randomGenerator), r.base_.newedRandom, lo < hi, r.min_ == lo, r.max_ == hi

@fn cuhksz::UniformIntDistribution::UniformIntDistribution as unifi_of2 sig void (Random &, int, int)
@params g lo hi
@opt heap ref
@opt ctorof cuhksz::UniformIntDistribution
@exit_ok
lo >= hi
@ensures
r.base_.randomGenerator == g, !r.base_.newedRandom, lo < hi, r.min_ == lo, r.max_ == hi

@fn cuhksz::UniformIntDistribution::min as unifi_get_min
@ensures
r == old(this).min_, *final(this) == *old(this)

@fn cuhksz::UniformIntDistribution::max as unifi_get_max
@ensures
r == old(this).max_, *final(this) == *old(this)

// ---------------------------------------------------------------- Bernoulli
@fn cuhksz::BernoulliDistribution::init as bern_init
@params q
@exit_ok
q.v() < 0real || q.v() > 1real
@ensures
0real <= q.v() <= 1real, final(this).p_.v() == q.v(), final(this).base_ == old(this).base_

@fn cuhksz::BernoulliDistribution::next as bern_next
@opt heap mut
@requires
live(*old(h), old(this).base_.randomGenerator)
@ensures
r == (unit(eng(*old(h), old(this).base_.randomGenerator)) < old(this).p_.v()), *final(this) == *old(this), moved(*old(h), *final(h), old(this).base_.randomGenerator, mt_step(eng(*old(h), old(this).base_.randomGenerator)))

@fn cuhksz::BernoulliDistribution::BernoulliDistribution as bern_own1 sig void (double)
@params q
@opt heap mut
@opt ctorof cuhksz::BernoulliDistribution
@exit_ok
q.v() < 0real || q.v() > 1real
@ensures
made(*old(h), *final(h), r.base_.randomGenerator), r.base_.newedRandom, 0real <= q.v() <= 1real, r.p_.v() == q.v()

@fn cuhksz::BernoulliDistribution::BernoulliDistribution as bern_of1 sig void (Random &, double)
@params g q
@opt heap ref
@opt ctorof cuhksz::BernoulliDistribution
@exit_ok
q.v() < 0real || q.v() > 1real
@ensures
r.base_.randomGenerator == g, !r.base_.newedRandom, 0real <= q.v() <= 1real, r.p_.v() == q.v()

@fn cuhksz::BernoulliDistribution::p as bern_get_p
@ensures
r == old(this).p_, *final(this) == *old(this)

// ---------------------------------------------------------------- binomial
@prelude
// a product of three may be written in any order
pub proof fn rprod3(x: real, y: real, z: real) ensures (x * y) * z == x * (y * z), (x * y) * z == (x * z) * y, (x * y) * z == (y * z) * x, (x * y) * z == z * (x * y), (x * y) * z == (y * x) * z, (x * y) * z == y * (x * z), (x * y) * z == y * (z * x), (x * y) * z == (z * x) * y, (x * y) * z == (z * y) * x
{ assert((x * y) * z == x * (y * z) && (x * y) * z == (x * z) * y && (x * y) * z == (y * z) * x && (x * y) * z == z * (x * y) && (x * y) * z == (y * x) * z && (x * y) * z == y * (x * z) && (x * y) * z == y * (z * x) && (x * y) * z == (z * x) * y && (x * y) * z == (z * y) * x) by (nonlinear_arith); }

@prelude
pub proof fn rmd(x: real, y: real, k: real) requires k > 0real ensures x * (y / k) == (x * y) / k, x * (y / k) == (y * x) / k, x * (y / k) == (x / k) * y
{ assert(x * (y / k) == (x * y) / k && x * (y / k) == (y * x) / k && x * (y / k) == (x / k) * y) by (nonlinear_arith) requires k > 0real; }

@fn cuhksz::BinomialDistribution::init as binom_init
@params n q
@requires
n < i32::MAX
@exit_ok
n < 0 || q.v() < 0real || q.v() > 1real
@ensures
0 <= n, 0real <= q.v() <= 1real, final(this).n_ == n, final(this).p_.v() == q.v(), btab(*final(this)), final(this).base_ == old(this).base_
@loop 1
@invariant
0 <= i <= n, this.n_ == n, this.p_.v() == q.v(), this.base_ == old(this).base_, this.lookup_table@.len() == n + 1, threshold.v() == bcdf(n as int, q.v(), i - 1), coefficient.v() == choose_(n as int, i as int) as real, p_complement.v() == 1real - q.v(), forall|j: int| 0 <= j < i ==> #[trigger] this.lookup_table@[j].v() == bcdf(n as int, q.v(), j)
@begin
proof { choose_real(n as int, i as int); rprod3(choose_(n as int, i as int) as real, rpow(q.v(), i as int), rpow(1real - q.v(), n - i)); }
@decreases n - i

@fn cuhksz::BinomialDistribution::next as binom_next
@opt heap mut
@requires
live(*old(h), old(this).base_.randomGenerator), btab(*old(this))
@ensures
0 <= r <= old(this).n_, *final(this) == *old(this), moved(*old(h), *final(h), old(this).base_.randomGenerator, mt_step(eng(*old(h), old(this).base_.randomGenerator))),
forall|j: int| 0 <= j < r ==> #[trigger] bcdf(old(this).n_ as int, old(this).p_.v(), j) <= unit(eng(*old(h), old(this).base_.randomGenerator)),
r < old(this).n_ ==> unit(eng(*old(h), old(this).base_.randomGenerator)) < bcdf(old(this).n_ as int, old(this).p_.v(), r as int)
@loop 1
@invariant
0 <= i <= this.n_, *this == *old(this), rnd.v() == unit(eng(*old(h), old(this).base_.randomGenerator)), btab(*this), forall|j: int| 0 <= j < i ==> #[trigger] bcdf(old(this).n_ as int, old(this).p_.v(), j) <= rnd.v()
@decreases this.n_ - i

@fn cuhksz::BinomialDistribution::BinomialDistribution as binom_own2 sig void (int, double)
@params n q
@opt heap mut
@opt ctorof cuhksz::BinomialDistribution
@requires
n < i32::MAX
@exit_ok
n < 0 || q.v() < 0real || q.v() > 1real
@ensures
made(*old(h), *final(h), r.base_.randomGenerator), r.base_.newedRandom, 0 <= n, 0real <= q.v() <= 1real, r.n_ == n, r.p_.v() == q.v(), btab(r)

@fn cuhksz::BinomialDistribution::BinomialDistribution as binom_of2 sig void (Random &, int, double)
@params g n q
@opt heap ref
@opt ctorof cuhksz::BinomialDistribution
@requires
n < i32::MAX
@exit_ok
n < 0 || q.v() < 0real || q.v() > 1real
@ensures
r.base_.randomGenerator == g, !r.base_.newedRandom, 0 <= n, 0real <= q.v() <= 1real, r.n_ == n, r.p_.v() == q.v(), btab(r)

@fn cuhksz::BinomialDistribution::n as binom_get_n
@ensures
r == old(this).n_, *final(this) == *old(this)

@fn cuhksz::BinomialDistribution::p as binom_get_p
@ensures
r == old(this).p_, *final(this) == *old(this)

// ---------------------------------------------------------------- Poisson
@fn cuhksz::PoissonDistribution::init as pois_init
@params l
@exit_ok
l.v() <= 0real
@ensures
0real < l.v(), final(this).lambda_.v() == l.v(), final(this).expLambda.v() == rexp(0real - l.v()), final(this).base_ == old(this).base_

@fn cuhksz::PoissonDistribution::next as pois_next
@opt heap mut
@requires
live(*old(h), old(this).base_.randomGenerator), old(this).lambda_.v() > 0real, old(this).expLambda.v() == rexp(0real - old(this).lambda_.v()),
exists|k: int| 0 <= k < i32::MAX && unit(eng(*old(h), old(this).base_.randomGenerator)) < #[trigger] pcdf(old(this).lambda_.v(), k)
@ensures
0 <= r, *final(this) == *old(this), moved(*old(h), *final(h), old(this).base_.randomGenerator, mt_step(eng(*old(h), old(this).base_.randomGenerator))),
forall|j: int| 0 <= j < r ==> #[trigger] pcdf(old(this).lambda_.v(), j) <= unit(eng(*old(h), old(this).base_.randomGenerator)),
unit(eng(*old(h), old(this).base_.randomGenerator)) < pcdf(old(this).lambda_.v(), r as int)
@entry
let ghost k = choose|k: int| 0 <= k < i32::MAX && unit(eng(*old(h), old(this).base_.randomGenerator)) < #[trigger] pcdf(old(this).lambda_.v(), k);
proof { reveal_with_fuel(pcdf, 3); rexp_pos(0real - this.lambda_.v()); }
@loop 1
@invariant
0 <= result <= k, k < i32::MAX, probability.v() > 0real, this.lambda_.v() > 0real, rnd.v() < pcdf(this.lambda_.v(), k), *this == *old(this), rnd.v() == unit(eng(*old(h), old(this).base_.randomGenerator)), probability.v() == pterm(this.lambda_.v(), result as int), threshold.v() == pcdf(this.lambda_.v(), result as int), forall|j: int| 0 <= j < result ==> #[trigger] pcdf(old(this).lambda_.v(), j) <= rnd.v()
@begin
proof { pterm_pos(this.lambda_.v(), result as int + 1); rmd(pterm(this.lambda_.v(), result as int), this.lambda_.v(), (result as int + 1) as real); }
@decreases k - result

@fn cuhksz::PoissonDistribution::PoissonDistribution as pois_own1 sig void (double)
@params l
@opt heap mut
@opt ctorof cuhksz::PoissonDistribution
@exit_ok
l.v() <= 0real
@ensures
made(*old(h), *final(h), r.base_.randomGenerator), r.base_.newedRandom, 0real < l.v(), r.lambda_.v() == l.v(), r.expLambda.v() == rexp(0real - l.v())

@fn cuhksz::PoissonDistribution::PoissonDistribution as pois_of1 sig void (Random &, double)
@params g l
@opt heap ref
@opt ctorof cuhksz::PoissonDistribution
@exit_ok
l.v() <= 0real
@ensures
r.base_.randomGenerator == g, !r.base_.newedRandom, 0real < l.v(), r.lambda_.v() == l.v(), r.expLambda.v() == rexp(0real - l.v())

@fn cuhksz::PoissonDistribution::lambda as pois_get_lambda
@ensures
r == old(this).lambda_, *final(this) == *old(this)

// ---------------------------------------------------------------- negative binomial and geometric
@fn cuhksz::genericBinaryPow as gpow sig double (double, int)
@params base exp
@exit_ok exp_0 < 0
@ensures
exp >= 0, r.v() == rpow(base.v(), exp as int)
@entry
let ghost mut kb = 1int; let ghost mut kr = 1int;
proof { reveal_with_fuel(rpow, 3); let x = base_0.v(); assert(1real * x == x) by (nonlinear_arith); }
@loop 1
@invariant
exp >= 0, kb >= 1, kr >= 1, base.v() == rpow(base_0.v(), kb), result.v() == rpow(base_0.v(), kr), kr + kb * exp == exp_0 || (exp == 0 && kr == exp_0), exp_0 >= 1
@decreases exp
@begin
proof { let e = exp as int; assert(kb * e == kb * (e % 2) + (2 * kb) * (e / 2)) by (nonlinear_arith);
  assert(kb * (e / 2) >= 0) by (nonlinear_arith) requires kb >= 1, e >= 0;
  assert(e / 2 >= 1 ==> (2 * kb) * (e / 2) >= 2 * kb) by (nonlinear_arith) requires kb >= 1, e >= 0;
  assert(e % 2 == 1 ==> kb * (e % 2) == kb); assert(e % 2 == 0 ==> kb * (e % 2) == 0);
  rpow_add(base_0.v(), kr, kb); rpow_add(base_0.v(), kb, kb);
  if e % 2 == 1 { kr = kr + kb; } 
  if e / 2 >= 1 { kb = 2 * kb; } }

@fn cuhksz::NegativeBinomialDistribution::init as negb_init
@params n q
@exit_ok
n <= 0 || q.v() <= 0real || q.v() > 1real
@ensures
0 < n, 0real < q.v() <= 1real, final(this).r_ == n, final(this).p_.v() == q.v(), final(this).pPowr.v() == rpow(q.v(), n as int), final(this).base_ == old(this).base_

@fn cuhksz::NegativeBinomialDistribution::next as negb_next
@opt heap mut
@requires
live(*old(h), old(this).base_.randomGenerator), old(this).r_ > 0, 0real < old(this).p_.v() <= 1real, old(this).pPowr.v() == rpow(old(this).p_.v(), old(this).r_ as int),
exists|k: int| 0 <= k && k + old(this).r_ <= i32::MAX && unit(eng(*old(h), old(this).base_.randomGenerator)) < #[trigger] ncdf(old(this).r_ as int, old(this).p_.v(), k)
@ensures
0 <= r, *final(this) == *old(this), moved(*old(h), *final(h), old(this).base_.randomGenerator, mt_step(eng(*old(h), old(this).base_.randomGenerator))),
forall|j: int| 0 <= j < r ==> #[trigger] ncdf(old(this).r_ as int, old(this).p_.v(), j) <= unit(eng(*old(h), old(this).base_.randomGenerator)),
unit(eng(*old(h), old(this).base_.randomGenerator)) < ncdf(old(this).r_ as int, old(this).p_.v(), r as int)
@entry
let ghost k = choose|k: int| 0 <= k && k + old(this).r_ <= i32::MAX && unit(eng(*old(h), old(this).base_.randomGenerator)) < #[trigger] ncdf(old(this).r_ as int, old(this).p_.v(), k);
proof { reveal_with_fuel(ncdf, 3); rpow_pos(this.p_.v(), this.r_ as int); gu_pos(eng(*h, this.base_.randomGenerator)); }
@loop 1
@invariant
0 <= result <= k, k + this.r_ <= i32::MAX, this.r_ > 0, 0real < this.p_.v() <= 1real, rnd.v() < 1real, probability.v() > 0real, threshold.v() >= rpow(this.p_.v(), this.r_ as int), rnd.v() < ncdf(this.r_ as int, this.p_.v(), k), *this == *old(this), rnd.v() == unit(eng(*old(h), old(this).base_.randomGenerator)), p_complement.v() == 1real - this.p_.v(), probability.v() == nterm(this.r_ as int, this.p_.v(), result as int), threshold.v() == ncdf(this.r_ as int, this.p_.v(), result as int), forall|j: int| 0 <= j < result ==> #[trigger] ncdf(old(this).r_ as int, old(this).p_.v(), j) <= rnd.v()
@begin
proof { rpow_pos(this.p_.v(), this.r_ as int); nterm_pos(this.r_ as int, this.p_.v(), result as int + 1); let x = nterm(this.r_ as int, this.p_.v(), result as int); let q = 1real - this.p_.v(); let a = (this.r_ + result) as real; let kk = (result as int + 1) as real; rmd(x, q * a, kk); rprod3(x, q, a); rmd(q, a, kk); rprod3(x, q, a / kk); }
@decreases k - result

@fn cuhksz::NegativeBinomialDistribution::NegativeBinomialDistribution as negb_own2 sig void (int, double)
@params n q
@opt heap mut
@opt ctorof cuhksz::NegativeBinomialDistribution
@exit_ok
n <= 0 || q.v() <= 0real || q.v() > 1real
@ensures
made(*old(h), *final(h), r.base_.randomGenerator), r.base_.newedRandom, 0 < n, 0real < q.v() <= 1real, r.r_ == n, r.p_.v() == q.v(), r.pPowr.v() == rpow(q.v(), n as int)

@fn cuhksz::NegativeBinomialDistribution::NegativeBinomialDistribution as negb_of2 sig void (Random &, int, double)
@params g n q
@opt heap ref
@opt ctorof cuhksz::NegativeBinomialDistribution
@exit_ok
n <= 0 || q.v() <= 0real || q.v() > 1real
@ensures
r.base_.randomGenerator == g, !r.base_.newedRandom, 0 < n, 0real < q.v() <= 1real, r.r_ == n, r.p_.v() == q.v(), r.pPowr.v() == rpow(q.v(), n as int)

@fn cuhksz::NegativeBinomialDistribution::r as negb_get_r
@ensures
r == old(this).r_, *final(this) == *old(this)

@fn cuhksz::NegativeBinomialDistribution::p as negb_get_p
@ensures
r == old(this).p_, *final(this) == *old(this)

@fn cuhksz::GeometricDistribution::GeometricDistribution as geom_own1 sig void (double)
@params q
@opt heap mut
@opt ctorof cuhksz::GeometricDistribution
@exit_ok
q.v() <= 0real || q.v() > 1real
@ensures
made(*old(h), *final(h), r.base_.base_.randomGenerator), r.base_.base_.newedRandom, 0real < q.v() <= 1real, r.base_.r_ == 1, r.base_.p_.v() == q.v(), r.base_.pPowr.v() == rpow(q.v(), 1 as int)

@fn cuhksz::GeometricDistribution::GeometricDistribution as geom_of1 sig void (Random &, double)
@params g q
@opt heap ref
@opt ctorof cuhksz::GeometricDistribution
@exit_ok
q.v() <= 0real || q.v() > 1real
@ensures
r.base_.base_.randomGenerator == g, !r.base_.base_.newedRandom, 0real < q.v() <= 1real, r.base_.r_ == 1, r.base_.p_.v() == q.v(), r.base_.pPowr.v() == rpow(q.v(), 1 as int)

@fn cuhksz::GeometricDistribution::p as geom_get_p
@ensures
r == old(this).base_.p_, *final(this) == *old(this)

// ---------------------------------------------------------------- normal
@fn cuhksz::NormalDistribution::init as norm_init
@params mu sd
@exit_ok
sd.v() <= 0real
@ensures
0real < sd.v(), final(this).mean_.v() == mu.v(), final(this).stddev_.v() == sd.v(), final(this).base_ == old(this).base_, final(this).hasSpare == old(this).hasSpare

@fn cuhksz::NormalDistribution::next as norm_next
@opt heap mut
@attr #[verifier::allow_complex_invariants]
@requires
live(*old(h), old(this).base_.randomGenerator), !old(this).hasSpare ==> nends(eng(*old(h), old(this).base_.randomGenerator))
@ensures
final(this).mean_ == old(this).mean_, final(this).stddev_ == old(this).stddev_, final(this).base_ == old(this).base_,
old(this).hasSpare ==> !final(this).hasSpare && same(*old(h), *final(h)) && r.v() == old(this).spareResult.v() * old(this).stddev_.v() + old(this).mean_.v(),
!old(this).hasSpare ==> final(this).hasSpare && nok(nacc(eng(*old(h), old(this).base_.randomGenerator))) && moved(*old(h), *final(h), old(this).base_.randomGenerator, mt_step(mt_step(nacc(eng(*old(h), old(this).base_.randomGenerator))))),
!old(this).hasSpare ==> exists|f: real| #[trigger] nfac(f, ns(nacc(eng(*old(h), old(this).base_.randomGenerator)))) && r.v() == nu(nacc(eng(*old(h), old(this).base_.randomGenerator))) * f * old(this).stddev_.v() + old(this).mean_.v() && final(this).spareResult.v() == nu(mt_step(nacc(eng(*old(h), old(this).base_.randomGenerator)))) * f
@entry
let ghost m0 = eng(*h, this.base_.randomGenerator); let ghost mut k = choose|n: nat| nok(#[trigger] nfind(m0, n)); let ghost mut mc = m0;
@loop 1
@invariant_except_break
nok(nfind(mc, k)), eng(*h, this.base_.randomGenerator) == mc, nfind(mc, k) == nacc(m0)
@invariant
*this == *old(this), live(*h, this.base_.randomGenerator), !this.hasSpare, moved(*old(h), *h, this.base_.randomGenerator, eng(*h, this.base_.randomGenerator))
@loop_ensures
nok(nacc(m0)), eng(*h, this.base_.randomGenerator) == mt_step(mt_step(nacc(m0))), u.v() == nu(nacc(m0)), v.v() == nu(mt_step(nacc(m0))), sum.v() == ns(nacc(m0))
@decreases k
@bodyend
if nok(mc) { } else { mc = mt_step(mt_step(mc)); if k > 0 { k = (k - 1) as nat; } }
@after
proof { sq_sum(u.v(), v.v()); let s = sum.v(); rlog_neg(s); neg_div(rlog(s), s); }
@afterdecl result
proof { assert(nfac(result.v(), ns(nacc(m0)))); }

@fn cuhksz::NormalDistribution::NormalDistribution as norm_own2 sig void (double, double)
@params mu sd
@opt heap mut
@opt ctorof cuhksz::NormalDistribution
@exit_ok
sd.v() <= 0real
@ensures
made(*old(h), *final(h), r.base_.randomGenerator), r.base_.newedRandom, 0real < sd.v(), r.mean_.v() == mu.v(), r.stddev_.v() == sd.v(), !r.hasSpare

@fn cuhksz::NormalDistribution::NormalDistribution as norm_of2 sig void (Random &, double, double)
@params g mu sd
@opt heap ref
@opt ctorof cuhksz::NormalDistribution
@exit_ok
sd.v() <= 0real
@ensures
r.base_.randomGenerator == g, !r.base_.newedRandom, 0real < sd.v(), r.mean_.v() == mu.v(), r.stddev_.v() == sd.v(), !r.hasSpare

@fn cuhksz::NormalDistribution::mean as norm_get_mean
@ensures
r == old(this).mean_, *final(this) == *old(this)

@fn cuhksz::NormalDistribution::stddev as norm_get_stddev
@ensures
r == old(this).stddev_, *final(this) == *old(this)

// ---------------------------------------------------------------- gamma, exponential, chi-squared
@fn cuhksz::GammaDistribution::init as gamm_init
@params k t
@exit_ok
k.v() <= 0real || t.v() <= 0real
@ensures
0real < k.v(), 0real < t.v(), final(this).k_.v() == k.v(), final(this).theta_.v() == t.v(), final(this).base_ == old(this).base_

@fn cuhksz::GammaDistribution::GammaDistribution as gamm_own2 sig void (double, double)
@params k t
@opt heap mut
@opt ctorof cuhksz::GammaDistribution
@exit_ok
k.v() <= 0real || t.v() <= 0real
@ensures
made(*old(h), *final(h), r.base_.randomGenerator), r.base_.newedRandom, 0real < k.v(), 0real < t.v(), r.k_.v() == k.v(), r.theta_.v() == t.v()

@fn cuhksz::GammaDistribution::GammaDistribution as gamm_of2 sig void (Random &, double, double)
@params g k t
@opt heap ref
@opt ctorof cuhksz::GammaDistribution
@exit_ok
k.v() <= 0real || t.v() <= 0real
@ensures
r.base_.randomGenerator == g, !r.base_.newedRandom, 0real < k.v(), 0real < t.v(), r.k_.v() == k.v(), r.theta_.v() == t.v()

@fn cuhksz::GammaDistribution::k as gamm_get_k
@ensures
r == old(this).k_, *final(this) == *old(this)

@fn cuhksz::GammaDistribution::theta as gamm_get_theta
@ensures
r == old(this).theta_, *final(this) == *old(this)

@prelude
pub proof fn rcomm(x: real, y: real) ensures x * y == y * x, (-x) * y == -(x * y), x * (-y) == -(x * y), (0real - x) * y == -(x * y), x * (0real - y) == -(x * y)
{ assert(x * y == y * x && (-x) * y == -(x * y) && x * (-y) == -(x * y) && (0real - x) * y == -(x * y) && x * (0real - y) == -(x * y)) by (nonlinear_arith); }
pub proof fn rdist(t: real, x: real, y: real) ensures t * (x - y) == t * x - t * y, t * (x - y) == (x - y) * t, t * (x - y) == t * (x + -y)
{ assert(t * (x - y) == t * x - t * y && t * (x - y) == (x - y) * t) by (nonlinear_arith); assert(x - y == x + -y); }

@fn cuhksz::GammaDistribution::next as gamm_next
@opt heap mut
@attr #[verifier::allow_complex_invariants]
@requires
live(*old(h), old(this).base_.randomGenerator), old(this).k_.v() > 0real, old(this).theta_.v() > 0real, gfine(eng(*old(h), old(this).base_.randomGenerator), old(this).k_.v())
@ensures
*final(this) == *old(this), r.v() == gval(eng(*old(h), old(this).base_.randomGenerator), old(this).k_.v(), old(this).theta_.v()), moved(*old(h), *final(h), old(this).base_.randomGenerator, gend(eng(*old(h), old(this).base_.randomGenerator), old(this).k_.v())),
r.v() >= 0real, r.v() == 0real ==> gzero(eng(*old(h), old(this).base_.randomGenerator), old(this).k_.v())
@entry
let ghost m0 = eng(*h, this.base_.randomGenerator); let ghost p = this.base_.randomGenerator; let ghost kf = rfloor(this.k_.v()); let ghost d = frac(this.k_.v()); let ghost m1 = adv(m0, kf); let ghost mut n = choose|n: nat| gok(#[trigger] gfind(m1, d, n), d); let ghost mut mc = m1; proof { rfloor_def(this.k_.v()); }
@loop 1
@invariant
0 <= i, i <= kf, *this == *old(this), live(*h, p), p == this.base_.randomGenerator, eng(*h, p) == adv(m0, i as int), moved(*old(h), *h, p, adv(m0, i as int)), sum_k.v() == gsum(m0, i as int)
@begin
proof { gu_pos(adv(m0, i as int)); }
@decreases kf - i
@loop 2
@invariant_except_break
gok(gfind(mc, d, n), d), eng(*h, p) == mc, gfind(mc, d, n) == gacc(m1, d)
@invariant
*this == *old(this), live(*h, p), p == this.base_.randomGenerator, moved(*old(h), *h, p, eng(*h, p)), delta.v() == d, 0real < d < 1real
@loop_ensures
gok(gacc(m1, d), d), eng(*h, p) == mt_step(mt_step(mt_step(gacc(m1, d)))), ksi.v() == gksi(gacc(m1, d), d), ksi.v() > 0real
@begin
proof { gu_pos(mc); gu_pos(mt_step(mc)); gu_pos(mt_step(mt_step(mc))); }
@decreases n
@bodyend
if gok(mc, d) { } else { mc = mt_step(mt_step(mt_step(mc))); if n > 0 { n = (n - 1) as nat; } }
@ret
gval_pos(m0, this.k_.v(), this.theta_.v()); rcomm(this.theta_.v(), gsum(m0, kf)); rcomm(this.theta_.v(), -gsum(m0, kf)); rcomm(gsum(m0, kf), this.theta_.v()); rdist(this.theta_.v(), gksi(gacc(m1, d), d), gsum(m0, kf)); rcomm(this.theta_.v(), gksi(gacc(m1, d), d));

@fn cuhksz::ExponentialDistribution::ExponentialDistribution as expo_own1 sig void (double)
@params l
@opt heap mut
@opt ctorof cuhksz::ExponentialDistribution
@requires
l.v() != 0real
@exit_ok
l.v() <= 0real
@ensures
made(*old(h), *final(h), r.base_.base_.randomGenerator), r.base_.base_.newedRandom, 0real < l.v(), r.base_.k_.v() == 1real, r.base_.theta_.v() == 1real / l.v(), r.base_.theta_.v() > 0real
@head
proof { inv_sign(l.v()); }

@fn cuhksz::ExponentialDistribution::ExponentialDistribution as expo_of1 sig void (Random &, double)
@params g l
@opt heap ref
@opt ctorof cuhksz::ExponentialDistribution
@requires
l.v() != 0real
@exit_ok
l.v() <= 0real
@ensures
r.base_.base_.randomGenerator == g, !r.base_.base_.newedRandom, 0real < l.v(), r.base_.k_.v() == 1real, r.base_.theta_.v() == 1real / l.v(), r.base_.theta_.v() > 0real
@head
proof { inv_sign(l.v()); }

@fn cuhksz::ExponentialDistribution::lambda as expo_get_lambda
@requires
old(this).base_.theta_.v() > 0real
@ensures
r.v() == 1real / old(this).base_.theta_.v(), *final(this) == *old(this)

@fn cuhksz::ChiSquaredDistribution::ChiSquaredDistribution as chi2_own1 sig void (double)
@params f
@opt heap mut
@opt ctorof cuhksz::ChiSquaredDistribution
@exit_ok
f.v() <= 0real
@ensures
made(*old(h), *final(h), r.base_.base_.randomGenerator), r.base_.base_.newedRandom, 0real < f.v(), r.base_.k_.v() == f.v() / 2real, r.base_.theta_.v() == 2real

@fn cuhksz::ChiSquaredDistribution::ChiSquaredDistribution as chi2_of1 sig void (Random &, double)
@params g f
@opt heap ref
@opt ctorof cuhksz::ChiSquaredDistribution
@exit_ok
f.v() <= 0real
@ensures
r.base_.base_.randomGenerator == g, !r.base_.base_.newedRandom, 0real < f.v(), r.base_.k_.v() == f.v() / 2real, r.base_.theta_.v() == 2real

@fn cuhksz::ChiSquaredDistribution::r as chi2_get_r
@ensures
r.v() == old(this).base_.k_.v() * 2real, *final(this) == *old(this)

// ---------------------------------------------------------------- Student t
@fn cuhksz::StudentTDistribution::init as stud_init
@params f
@exit_ok
f.v() <= 0real
@ensures
0real < f.v(), final(this).r_.v() == f.v(), final(this).base_ == old(this).base_

@fn cuhksz::StudentTDistribution::StudentTDistribution as stud_own1 sig void (double)
@params f
@opt heap mut
@opt ctorof cuhksz::StudentTDistribution
@exit_ok
f.v() <= 0real
@ensures
made(*old(h), *final(h), r.base_.randomGenerator), r.base_.newedRandom, 0real < f.v(), r.r_.v() == f.v()

@fn cuhksz::StudentTDistribution::StudentTDistribution as stud_of1 sig void (Random &, double)
@params g f
@opt heap ref
@opt ctorof cuhksz::StudentTDistribution
@exit_ok
f.v() <= 0real
@ensures
r.base_.randomGenerator == g, !r.base_.newedRandom, 0real < f.v(), r.r_.v() == f.v()

@fn cuhksz::StudentTDistribution::r as stud_get_r
@ensures
r == old(this).r_, *final(this) == *old(this)

@fn cuhksz::StudentTDistribution::next as stud_next
@opt heap mut
@requires
live(*old(h), old(this).base_.randomGenerator), old(this).r_.v() > 0real, nends(eng(*old(h), old(this).base_.randomGenerator)), gfine(nnext(eng(*old(h), old(this).base_.randomGenerator)), old(this).r_.v() / 2real), !gzero(nnext(eng(*old(h), old(this).base_.randomGenerator)), old(this).r_.v() / 2real)
@ensures
*final(this) == *old(this), moved(*old(h), *final(h), old(this).base_.randomGenerator, gend(nnext(eng(*old(h), old(this).base_.randomGenerator)), old(this).r_.v() / 2real)),
exists|f: real| #[trigger] nfac(f, ns(nacc(eng(*old(h), old(this).base_.randomGenerator)))) && r.v() == nu(nacc(eng(*old(h), old(this).base_.randomGenerator))) * f * rsqrt(old(this).r_.v() / gval(nnext(eng(*old(h), old(this).base_.randomGenerator)), old(this).r_.v() / 2real, 2real)),
sroot(rsqrt(old(this).r_.v() / gval(nnext(eng(*old(h), old(this).base_.randomGenerator)), old(this).r_.v() / 2real, 2real)), old(this).r_.v() / gval(nnext(eng(*old(h), old(this).base_.randomGenerator)), old(this).r_.v() / 2real, 2real))
@entry
let ghost m0 = eng(*h, this.base_.randomGenerator); let ghost c = gval(nnext(m0), this.r_.v() / 2real, 2real);
proof {
    if c > 0real { pos_div(this.r_.v(), c); }
    assert forall|f: real| #[trigger] nfac(f, ns(nacc(m0))) implies nu(nacc(m0)) * f * 1real + 0real == nu(nacc(m0)) * f by { one_zero(nu(nacc(m0)) * f); }
}

