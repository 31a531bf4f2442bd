#include "vh.h"
#include <cmath>
#include <limits>
#include <memory>
#include <new>
#include <random>
#include "/repo/src/include/random/Random.h"
#include "/repo/src/random/Random.cpp"
#include "/repo/src/random/random_functions.cpp"
#include "/repo/src/random/UniformDistribution.cpp"
#include "/repo/src/random/UniformIntDistribution.cpp"
#include "/repo/src/random/BernoulliDistribution.cpp"
#include "/repo/src/random/BinomialDistribution.cpp"
#include "/repo/src/random/PoissonDistribution.cpp"
#include "/repo/src/random/NegativeBinomialDistribution.cpp"
#include "/repo/src/random/NormalDistribution.cpp"
#include "/repo/src/random/GammaDistribution.cpp"
#include "/repo/src/random/StudentTDistribution.cpp"
#include "/repo/src/include/random/GeometricDistribution.h"
#include "/repo/src/include/random/ExponentialDistribution.h"
#include "/repo/src/include/random/ChiSquaredDistribution.h"
using namespace cuhksz;
typedef std::mt19937_64 Eng;
static long live = 0;
void* operator new(size_t n) { live++; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { live++; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }
static const double EPS = 1e-9, E_ = 2.718281828459045;
// the engine is the only content of a Random
static_assert(sizeof(Random) == sizeof(Eng), "Random holds its engine");
static Eng& eng(Random& r) { return *reinterpret_cast<Eng*>(&r); }
// the state word whose output is y
static uint64_t untemper(uint64_t y) {
  uint64_t x = y; x ^= x >> 43; uint64_t r = x; for (int i = 0; i < 64; i++) r = x ^ ((r << 37) & 0xfff7eee000000000ULL); x = r;
  for (int i = 0; i < 64; i++) r = x ^ ((r << 17) & 0x71d67fffeda60000ULL); x = r;
  for (int i = 0; i < 64; i++) r = x ^ ((r >> 29) & 0x5555555555555555ULL); return r;
}
// an engine whose next outputs are those given
static Eng engine(const std::vector<uint64_t>& out, uint64_t seed) {
  Eng e(seed); std::ostringstream o; std::vector<uint64_t> w(312); for (auto& x : w) x = e();
  for (size_t i = 0; i < out.size(); i++) w[i] = untemper(out[i]);
  for (auto x : w) o << x << ' '; o << 0; std::istringstream s(o.str()); Eng r; s >> r; return r;
}
static double dbl(Eng& e, double lo, double hi) { double x = (double)e() / 18446744073709551615.0 * (hi - lo) + lo; if (lo < hi && x >= hi) x = std::nextafter(hi, lo); return x; }
static double unit(Eng& e) { return dbl(e, 0, 1); }
static bool shaky;  // a comparison was decided by less than the tolerance: what follows is not compared
static bool le(double a, double b) { if (!(std::fabs(a - b) > EPS * (std::fabs(a) + std::fabs(b)))) shaky = true; return a <= b; }
static double rnormal(Eng& e, bool& has, double& spare) {
  if (has) { has = false; return spare; }
  double u, v, s; do { u = dbl(e, -1, 1); v = dbl(e, -1, 1); s = u * u + v * v; } while (s == 0 || !le(s, 1));
  double f = std::sqrt(-2 * std::log(s) / s); if (1 - s < 1e-6) shaky = true; spare = v * f; has = true; return u * f;
}
static double rgamma(Eng& e, double k, double th) {
  double s = 0; int n = (int)std::floor(k); for (int i = 0; i < n; i++) s += std::log(1 - unit(e));
  double d = k - n; if (d == 0) return th * -s;
  for (;;) { double u = 1 - unit(e), v = 1 - unit(e), w = 1 - unit(e), ksi, ita; if (le(u, E_ / (E_ + d))) { ksi = std::pow(v, 1 / d); ita = w * std::pow(ksi, d - 1); } else { ksi = 1 - std::log(v); ita = w * std::exp(-ksi); } if (le(ita, std::pow(ksi, d - 1) * std::exp(-ksi))) return th * (ksi - s); }
}
static bool near(double a, double b, double scale) { return a == b || std::fabs(a - b) <= EPS * (std::fabs(b) + scale); }
static void real(double got, double want, double scale, const char* what) { if (!near(got, want, scale)) { char b[200]; snprintf(b, 200, "%s is %.17g, expected %.17g", what, got, want); vh::fail(b); } }
static void insync(Random& r, Eng& g) { if (!(eng(r) == g)) vh::fail("the generator is not in the state after the draws of this sample"); }
typedef std::vector<uint64_t> Outs;
static Outs draws() {  // engine outputs, with a bias to the ends and to the round fractions
  Outs o; int n = (int)vh::rint(0, 12); for (int i = 0; i < n; i++) { uint64_t x = vh::rnd(); switch (vh::rnd() % 8) { case 0: x = vh::rnd() % 4; break; case 1: x = ~(vh::rnd() % 4096); break; case 2: x = (uint64_t)1 << 63; x += vh::rnd() % 3 - 1; break; case 3: x &= 0xf000000000000000ULL; break; case 4: x >>= vh::rnd() % 64; break; case 5: x = ~(x >> vh::rnd() % 64); break; } o.push_back(x); } return o;
}
static std::string outs(const Outs& o) { std::ostringstream s; s << "engine outputs " << std::hex; for (auto x : o) s << "0x" << x << " "; return s.str(); }
static double runif(double lo, double hi) { return lo + (hi - lo) * ((double)(vh::rnd() >> 11) / 9007199254740992.0); }
static double pick(std::initializer_list<double> l) { return *(l.begin() + vh::rnd() % l.size()); }
// got is the least k with u < cdf(k)
static void inverse(double u, int got, std::function<long double(int)> cdf, int last) {
  if (got < 0 || got > last) vh::fail("sample " + vh::str(got) + " out of range");
  if (got > 0 && (long double)u < cdf(got - 1) - EPS) vh::fail("sample " + vh::str(got) + " although the draw " + vh::str(u) + " lies below P(X <= " + vh::str(got - 1) + ") = " + vh::str((double)cdf(got - 1)));
  if (got < last && (long double)u >= cdf(got) + EPS) vh::fail("sample " + vh::str(got) + " although the draw " + vh::str(u) + " lies above P(X <= " + vh::str(got) + ") = " + vh::str((double)cdf(got)));
}
template <class D> static void swap_generators(D* own, D* shared, Random& r, Random& q, Eng g) {
        std::unique_ptr<D> a(own), b(shared);
        a->next(); a->next(); insync(r, g);                       // a generator of its own
        a->setRandomGenerator(r); if (!(eng(r) == g)) vh::fail("setRandomGenerator changed the generator");
        b->setRandomGenerator(q); Eng h = eng(q); a->next(); if (!(eng(q) == h)) vh::fail("a draw changed another generator"); h = eng(r); b->next(); if (!(eng(r) == h)) vh::fail("a generator that was exchanged is still used");
        b->setRandomGenerator(r); a->setRandomGenerator(q); h = eng(r); a->next(); a->next(); a->next(); if (!(eng(r) == h)) vh::fail("a generator that was exchanged is still used");
        for (int i = 0; i < 3; i++) b->next();
      }
static const int MAXI = 2147483647;
int main() {
  vh::init();
  // ---- nextDouble
  for (long k = 0; k < vh::scale(40000, 500000); k++) {
    Outs o = draws(); double lo = pick({0, -1, 1, -3.5, 1e9, -1e300, 1e-300, runif(-10, 10), (double)vh::dint(-1000, 1000)}), w = pick({0, 1, 2, 1e-3, 1e10, 4.9e-324, runif(0, 5)}), hi = lo + w; int form = (int)(vh::rnd() % 3); uint64_t sd = vh::rnd() % 1000;
    vh::begin("nextDouble", [=] { char b[200]; snprintf(b, 200, "form %d min=%.17g max=%.17g rest of the engine seeded %d ", form, lo, hi, (int)sd); return b + outs(o); });
    Random r(1); Eng g = engine(o, sd); eng(r) = g;
    for (size_t i = 0; i < o.size() + 2; i++) {
      double a = form == 0 ? lo : 0, b = form == 0 ? hi : form == 1 ? std::fabs(hi) : 1;
      double x = form == 0 ? r.nextDouble(lo, hi) : form == 1 ? r.nextDouble(b) : r.nextDouble(), y = dbl(g, a, b);
      if (!(a <= x && (x < b || (a == b && x == a)))) { char t[200]; snprintf(t, 200, "value %.17g (draw %d) outside [min, max)", x, (int)i); vh::fail(t); }
      real(x, y, std::fabs(a) + std::fabs(b), "value"); insync(r, g);
    }
  }
  // ---- uniform, uniform int, Bernoulli
  for (long k = 0; k < vh::scale(8000, 80000); k++) {
    Outs o = draws(); double lo = runif(-5, 5), hi = lo + pick({0, 1, runif(0, 3)}), p = pick({0, 1, 0.5, 0.25, 1e-12, 1 - 1e-12, runif(0, 1)}); int a = (int)vh::dint(-MAXI, MAXI - 1), b = (int)vh::dint((long)a + 1, MAXI); uint64_t sd = vh::rnd() % 1000;
    vh::begin("uniform and Bernoulli", [=] { char t[200]; snprintf(t, 200, "min=%.17g max=%.17g int %d..%d p=%.17g ", lo, hi, a, b, p); return t + outs(o); });
    long before = live;
    { Random r(1); Eng g = engine(o, sd); eng(r) = g; UniformDistribution u(r, lo, hi), u1(r, hi - lo), u0(r); UniformIntDistribution v(r, a, b); BernoulliDistribution c(r, p), c0(r);
      vh::eq(u.min(), lo, "min"); vh::eq(u.max(), hi, "max"); vh::eq(u1.min(), 0.0, "min"); vh::eq(u1.max(), hi - lo, "max"); vh::eq(u0.max(), 1.0, "max"); vh::eq(v.min(), a, "min"); vh::eq(v.max(), b, "max"); vh::eq(c.p(), p, "p"); vh::eq(c0.p(), 0.5, "p");
      for (int i = 0; i < 12; i++) switch (vh::rnd() % 4) {
        case 0: { double x = u.next(), y = dbl(g, lo, hi); real(x, y, 10, "uniform sample"); if (!(lo <= x && (x < hi || lo == hi))) vh::fail("uniform sample outside [min, max)"); insync(r, g); break; }
        case 1: { double x = u1.next(), y = dbl(g, 0, hi - lo); real(x, y, 10, "uniform sample"); insync(r, g); break; }
        case 2: { int x = v.next(); vh::eq(x, (int)(a + (long)(g() % (uint64_t)((long)b - a))), "uniform int sample"); insync(r, g); break; }
        case 3: { bool x = c.next(); double y = unit(g); if (std::fabs(y - p) > EPS || (p == 0 || p == 1)) vh::eq(x, y < p, "Bernoulli sample"); insync(r, g); break; }
      }
      if (b >= 1) { UniformIntDistribution w(r, b); vh::eq(w.min(), 0, "min"); vh::eq(w.max(), b, "max"); } }
    if (live != before) vh::fail("storage lost or freed twice");
  }
  // ---- discrete distributions by inversion
  for (long k = 0; k < vh::scale(3000, 30000); k++) {
    Outs o = draws(); int n = (int)pick({0, 1, 2, 3, 20, 33, 34, 40, 60, 67, 100, 1000, (double)vh::dint(0, 200)}); double p = pick({0, 1, 0.5, 0.25, 0.9, 0.01, runif(0, 1)}); uint64_t sd = vh::rnd() % 1000;
    vh::begin("binomial", [=] { char t[100]; snprintf(t, 100, "n=%d p=%.17g seed %d ", n, p, (int)sd); return t + outs(o); });
    long before = live;
    { Random r(1); Eng g = engine(o, sd); eng(r) = g; BinomialDistribution d(r, n, p), d0(r, n); vh::eq(d.n(), n, "n"); vh::eq(d.p(), p, "p"); vh::eq(d0.p(), 0.5, "p"); insync(r, g);
      std::vector<long double> c(n + 1); long double s = 0; for (int i = 0; i <= n; i++) { long double t = p == 0 ? (i == 0) : p == 1 ? (i == n) : expl(lgammal(n + 1.0L) - lgammal(i + 1.0L) - lgammal(n - i + 1.0L) + i * logl((long double)p) + (n - i) * log1pl(-(long double)p)); s += t; c[i] = s; }
      for (int i = 0; i < 14; i++) { int x = d.next(); double u = unit(g); inverse(u, x, [&](int j) { return c[j]; }, n); if (p == 0 && x != 0) vh::fail("p = 0 gave " + vh::str(x)); if (p == 1 && x != n) vh::fail("p = 1 gave " + vh::str(x)); insync(r, g); } }
    if (live != before) vh::fail("storage lost or freed twice");
  }
  for (long k = 0; k < vh::scale(4000, 40000); k++) {
    Outs o = draws(); double l = pick({1, 0.5, 1e-3, 1e-9, 10, 100, 700, runif(0.01, 30), (double)vh::dint(1, 700)}); uint64_t sd = vh::rnd() % 1000;
    vh::begin("Poisson", [=] { char t[100]; snprintf(t, 100, "lambda=%.17g seed %d ", l, (int)sd); return t + outs(o); });
    Random r(1); Eng g = engine(o, sd); eng(r) = g; PoissonDistribution d(r, l); vh::eq(d.lambda(), l, "lambda"); insync(r, g);
    for (int i = 0; i < 14; i++) { int x = d.next(); double u = unit(g); auto c = [&](int j) { long double t = expl(-(long double)l), s = t; for (int a = 1; a <= j; a++) { t *= l / a; s += t; } return s; }; inverse(u, x, c, MAXI); insync(r, g); }
  }
  for (long k = 0; k < vh::scale(4000, 40000); k++) {
    Outs o = draws(); bool geo = vh::rnd() % 3 == 0; int n = geo ? 1 : (int)pick({1, 2, 3, 5, 8, 17, 60, (double)vh::dint(1, 80)}); double p = pick({1, 0.5, 0.25, 0.75, runif(0.02, 1)}); if (n * std::log(p) < -600) p = 0.5; uint64_t sd = vh::rnd() % 1000;
    vh::begin(geo ? "geometric" : "negative binomial", [=] { char t[100]; snprintf(t, 100, "r=%d p=%.17g seed %d ", n, p, (int)sd); return t + outs(o); });
    Random r(1); Eng g = engine(o, sd); eng(r) = g; std::unique_ptr<NegativeBinomialDistribution> d; if (geo) { auto* q = new GeometricDistribution(r, p); vh::eq(q->p(), p, "p"); d.reset(q); GeometricDistribution q0(r); vh::eq(q0.p(), 0.5, "p"); } else { d.reset(new NegativeBinomialDistribution(r, n, p)); NegativeBinomialDistribution d0(r, n); vh::eq(d0.p(), 0.5, "p"); }
    vh::eq(d->r(), n, "r"); vh::eq(d->p(), p, "p"); insync(r, g);
    for (int i = 0; i < 14; i++) { int x = d->next(); double u = unit(g); auto c = [&](int j) { long double t = powl(p, n), s = t; for (int a = 1; a <= j; a++) { t *= (1 - (long double)p) * (n + a - 1) / a; s += t; } return s; }; inverse(u, x, c, MAXI); insync(r, g); }
  }
  auto tame = [](Outs o) { for (auto& x : o) if (x > 0xfffffff000000000ULL) x = 0xfffffff000000000ULL; return o; };  // logarithms near 0 lose precision in the reference
  // ---- normal, gamma family, Student
  for (long k = 0; k < vh::scale(15000, 150000); k++) {
    Outs o = tame(draws()); double m = pick({0, 1, -4, 1e6, runif(-3, 3)}), sg = pick({1, 2, 1e-3, 1e4, runif(0.01, 9)}); uint64_t sd = vh::rnd() % 1000; int kind = (int)(vh::rnd() % 3);
    vh::begin("normal", [=] { char t[150]; snprintf(t, 150, "mean=%.17g stddev=%.17g form %d seed %d ", m, sg, kind, (int)sd); return t + outs(o); });
    Random r(1); Eng g = engine(o, sd); eng(r) = g; std::unique_ptr<NormalDistribution> d(kind == 0 ? new NormalDistribution(r) : kind == 1 ? new NormalDistribution(r, m) : new NormalDistribution(r, m, sg)); double mm = kind ? m : 0, ss = kind == 2 ? sg : 1;
    vh::eq(d->mean(), mm, "mean"); vh::eq(d->stddev(), ss, "stddev"); insync(r, g);
    bool has = false; double spare = 0; shaky = false;
    for (int i = 0; i < 9; i++) { double x = d->next(), y = rnormal(g, has, spare); if (shaky) break; real(x, y * ss + mm, ss + std::fabs(mm), "sample"); insync(r, g); }
  }
  for (long k = 0; k < vh::scale(20000, 200000); k++) {
    Outs o = tame(draws()); double kk = pick({1, 2, 3, 0.5, 1.5, 0.1, 0.9, 7.25, 40, 1e-2, runif(0.01, 6), (double)vh::dint(1, 300) / 2}), th = pick({1, 2, 0.25, 1e3, runif(0.1, 5)}); int kind = (int)(vh::rnd() % 4); uint64_t sd = vh::rnd() % 1000;
    vh::begin(kind == 3 ? "Student t" : kind == 2 ? "chi squared" : kind == 1 ? "exponential" : "gamma", [=] { char t[150]; snprintf(t, 150, "k or r=%.17g theta or lambda=%.17g seed %d ", kk, th, (int)sd); return t + outs(o); });
    Random r(1); Eng g = engine(o, sd); eng(r) = g; shaky = false;
    long before = live;
    if (kind == 3) {
      StudentTDistribution d(r, kk); vh::eq(d.r(), kk, "r"); insync(r, g);
      for (int i = 0; i < 5 && !shaky; i++) {   // the order of its two draws is not specified
        Eng g1 = g, g2 = g; bool h1 = false, h2 = false; double s1, s2; double n1 = rnormal(g1, h1, s1), c1 = rgamma(g1, kk / 2, 2); double c2 = rgamma(g2, kk / 2, 2), n2 = rnormal(g2, h2, s2);
        double x = d.next(); if (shaky) break; double w1 = n1 * std::sqrt(kk / c1), w2 = n2 * std::sqrt(kk / c2);
        if (c1 == 0 || c2 == 0 || !std::isfinite(w1) || !std::isfinite(w2)) break;
        if (eng(r) == g1 && near(x, w1, 1e-3)) g = g1; else if (eng(r) == g2 && near(x, w2, 1e-3)) g = g2; else { real(x, w1, 1e-3, "sample"); insync(r, g1); }
      }
    } else {
      GammaDistribution* d; double a = kk, b = th; GammaDistribution ga(r, kk, th); ExponentialDistribution ex(r, th); ChiSquaredDistribution ch(r, kk);
      vh::eq(ga.k(), kk, "k"); vh::eq(ga.theta(), th, "theta"); real(ex.lambda(), th, 0, "lambda"); vh::eq(ex.k(), 1.0, "k"); real(ex.theta(), 1 / th, 0, "theta"); real(ch.r(), kk, 0, "r"); real(ch.k(), kk / 2, 0, "k"); vh::eq(ch.theta(), 2.0, "theta"); insync(r, g);
      d = &ga; if (kind == 1) { d = &ex; a = 1; b = 1 / th; } else if (kind == 2) { d = &ch; a = kk / 2; b = 2; }
      for (int i = 0; i < 6; i++) { double x = d->next(), y = rgamma(g, a, b); if (shaky) break; real(x, y, b * 1e-3, "sample"); if (!(x >= 0)) vh::fail("negative sample"); insync(r, g); }
    }
    if (live != before) vh::fail("storage lost or freed twice");
  }
  // ---- generators: shared, own, exchanged
  for (long k = 0; k < vh::scale(1500, 15000); k++) {
    int sd = (int)vh::rint(-100, 100), t = (int)vh::rint(0, 11);
    vh::begin("own, shared and exchanged generators", [=] { return "distribution " + vh::str(t) + " seed " + vh::str(sd); });
    long before = live;
    {
      Random r(sd), q(sd + 1); Eng g((uint64_t)(long)sd);
      switch (t) {
        case 0: swap_generators(new UniformDistribution(2, 3), new UniformDistribution(r, 2, 3), r, q, g); break;
        case 1: swap_generators(new UniformIntDistribution(2, 30), new UniformIntDistribution(r, 2, 30), r, q, g); break;
        case 2: swap_generators(new BernoulliDistribution(0.5), new BernoulliDistribution(r), r, q, g); break;
        case 3: swap_generators(new BinomialDistribution(9, 0.3), new BinomialDistribution(r, 9, 0.3), r, q, g); break;
        case 4: swap_generators(new PoissonDistribution(3), new PoissonDistribution(r, 3), r, q, g); break;
        case 5: swap_generators(new NegativeBinomialDistribution(3, 0.4), new NegativeBinomialDistribution(r, 3, 0.4), r, q, g); break;
        case 6: swap_generators(new GeometricDistribution(0.4), new GeometricDistribution(r, 0.4), r, q, g); break;
        case 7: swap_generators(new NormalDistribution(1, 2), new NormalDistribution(r, 1, 2), r, q, g); break;
        case 8: swap_generators(new GammaDistribution(1.5, 2), new GammaDistribution(r, 1.5, 2), r, q, g); break;
        case 9: swap_generators(new ExponentialDistribution(2), new ExponentialDistribution(r, 2), r, q, g); break;
        case 10: swap_generators(new ChiSquaredDistribution(3), new ChiSquaredDistribution(r, 3), r, q, g); break;
        case 11: swap_generators(new StudentTDistribution(3), new StudentTDistribution(r, 3), r, q, g); break;
      }
    }
    if (live != before) vh::fail("storage lost or freed twice");
  }
  vh::begin("randomDouble", [] { return std::string("2000 draws"); });
  for (int i = 0; i < 2000; i++) { double a = randomDouble(), b = randomDouble(3), c = randomDouble(-2, -1); if (!(0 <= a && a < 1 && 0 <= b && b < 3 && -2 <= c && c < -1)) vh::fail("randomDouble out of range"); }
  // ---- errors
  vh::begin("errors", [] { return std::string("invalid parameters"); });
  Random r(3); UniformDistribution ok1(r, 2, 2); vh::eq(ok1.next(), 2.0, "uniform on [2,2]");
#define ERR(e) vh::must_exit([&] { e; }, #e)
  ERR(r.nextDouble(1, 0.5)); ERR(r.nextDouble(-1e-300)); ERR(r.nextDouble(0, -1)); ERR(UniformDistribution d(r, 1, 0)); ERR(UniformDistribution d(-1)); ERR(UniformDistribution d(3, 2)); ERR(UniformDistribution d(r, -0.5)); ERR(UniformIntDistribution d(r, 3, 3)); ERR(UniformIntDistribution d(0)); ERR(UniformIntDistribution d(r, -1));
  ERR(BernoulliDistribution d(r, -1e-9)); ERR(BernoulliDistribution d(1 + 1e-9)); ERR(BinomialDistribution d(r, -1, 0.5)); ERR(BinomialDistribution d(3, -1e-9)); ERR(BinomialDistribution d(r, 3, 1 + 1e-9)); ERR(PoissonDistribution d(r, 0)); ERR(PoissonDistribution d(-1));
  ERR(NegativeBinomialDistribution d(r, 0, 0.5)); ERR(NegativeBinomialDistribution d(-1, 0.5)); ERR(NegativeBinomialDistribution d(r, 1, 0)); ERR(NegativeBinomialDistribution d(1, 1 + 1e-9)); ERR(GeometricDistribution d(r, 0)); ERR(GeometricDistribution d(1.5));
  ERR(NormalDistribution d(r, 0, 0)); ERR(NormalDistribution d(1, -1)); ERR(GammaDistribution d(r, 0, 1)); ERR(GammaDistribution d(1, 0)); ERR(GammaDistribution d(-1, 1)); ERR(GammaDistribution d(r, 1, -1)); ERR(ExponentialDistribution d(r, -1)); ERR(ChiSquaredDistribution d(0)); ERR(ChiSquaredDistribution d(r, -1)); ERR(StudentTDistribution d(r, 0)); ERR(StudentTDistribution d(-2));
  return vh::finish();
}
