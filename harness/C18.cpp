#include "vh.h"
#include <random>
#include "/repo/src/include/random/Random.h"
#include "/repo/src/random/Random.cpp"
#include "/repo/src/random/random_functions.cpp"
#include "/repo/src/include/random/UniformIntDistribution.h"
#include "/repo/src/random/UniformIntDistribution.cpp"
using namespace cuhksz;
static int want(std::mt19937_64& g, long lo, long hi) { return (int)(lo + (long)(g() % (uint64_t)(hi - lo))); }
static void range(int seed, int lo, int hi, int n) {
  vh::begin("nextInt(min, max)", [=] { return "seed=" + vh::str(seed) + " min=" + vh::str(lo) + " max=" + vh::str(hi); });
  Random r(seed), r2(1); r2.setSeed(seed); std::mt19937_64 g((uint64_t)(long)seed);
  for (int i = 0; i < n; i++) { int x = r.nextInt(lo, hi); if (x < lo || x >= hi) vh::fail("value " + vh::str(x) + " out of range"); vh::eq(x, want(g, lo, hi), "value (draw " ); if (r2.nextInt(lo, hi) != x) vh::fail("setSeed and the constructor give different sequences"); }
}
int main() {
  vh::init();
  const int I = -2147483647 - 1, A = 2147483647;
  int ends[] = {I, I + 1, -1073741825, -1073741824, -65536, -2, -1, 0, 1, 2, 3, 10, 65536, 1073741823, 1073741824, A - 1, A};
  for (int lo : ends) for (int hi : ends) if (lo < hi) for (int seed : {0, 1, -1, 12345, A, I}) range(seed, lo, hi, 40);
  for (long k = 0; k < vh::scale(20000, 300000); k++) { int lo = (int)vh::dint(I, A - 1), hi = (int)vh::dint((long)lo + 1, A); range((int)vh::dint(I, A), lo, hi, 8); int a = (int)vh::rint(-50, 50); range((int)vh::rint(-9, 9), a, a + (int)vh::rint(1, 20), 8); }
  for (long k = 0; k < vh::scale(3000, 30000); k++) {   // the other forms, mixed, from one seed
    int seed = (int)vh::dint(I, A); std::vector<int> ops; for (int i = 0; i < 12; i++) ops.push_back((int)vh::rint(0, 3)); int mx = (int)vh::dint(1, A);
    vh::begin("sequence of nextInt()/nextInt(max)/nextBool()/setSeed", [=] { return "seed=" + vh::str(seed) + " max=" + vh::str(mx) + " ops=" + vh::seq(ops); });
    Random r(seed); std::mt19937_64 g((uint64_t)(long)seed);
    for (int o : ops) switch (o) {
      case 0: vh::eq(r.nextInt(), want(g, I, (long)A + 1), "nextInt()"); break;
      case 1: { int x = r.nextInt(mx); if (x < 0 || x >= mx) vh::fail("nextInt(max) out of range: " + vh::str(x)); vh::eq(x, want(g, 0, mx), "nextInt(max)"); break; }
      case 2: vh::eq(r.nextBool(), (bool)(g() % 2), "nextBool()"); break;
      case 3: r.setSeed(seed ^ 77); g.seed((uint64_t)(long)(seed ^ 77)); break;
    }
  }
  for (int lo = -3; lo <= 3; lo++) for (int w = 1; w <= 9; w++) {
    vh::begin("every value of the range occurs", [=] { return "min=" + vh::str(lo) + " max=" + vh::str(lo + w); });
    Random r(lo * 31 + w); std::set<int> s; for (int i = 0; i < 4000; i++) s.insert(r.nextInt(lo, lo + w)); if ((int)s.size() != w) vh::fail("only " + vh::str(s.size()) + " of " + vh::str(w) + " values");
    s.clear(); for (int i = 0; i < 4000; i++) { int x = randomInt(lo, lo + w); if (x < lo || x >= lo + w) vh::fail("randomInt out of range: " + vh::str(x)); s.insert(x); } if ((int)s.size() != w) vh::fail("randomInt: only " + vh::str(s.size()) + " of " + vh::str(w) + " values");
    Random q(5); UniformIntDistribution u(q, lo, lo + w); Random q2(5); for (int i = 0; i < 200; i++) vh::eq(u.next(), q2.nextInt(lo, lo + w), "UniformIntDistribution");
    for (int i = 0; i < 200; i++) { int x = randomInt(w); if (x < 0 || x >= w) vh::fail("randomInt(max) out of range: " + vh::str(x)); }
  }
  { bool n = false, p = false, t = false, f = false; for (int i = 0; i < 4000; i++) { int x = randomInt(); (x < 0 ? n : p) = true; (randomBool() ? t : f) = true; } vh::begin("randomInt(), randomBool()", [] { return std::string("4000 draws"); }); if (!n || !p) vh::fail("randomInt() gives only one sign"); if (!t || !f) vh::fail("randomBool() gives only one value"); }
  Random r(3);
  vh::must_exit([&] { r.nextInt(3, 3); }, "nextInt(3,3)"); vh::must_exit([&] { r.nextInt(4, 3); }, "nextInt(4,3)"); vh::must_exit([&] { r.nextInt(A, I); }, "nextInt(INT_MAX,INT_MIN)"); vh::must_exit([&] { r.nextInt(0); }, "nextInt(0)"); vh::must_exit([&] { r.nextInt(-5); }, "nextInt(-5)"); vh::must_exit([&] { r.nextInt(I); }, "nextInt(INT_MIN)");
  vh::must_exit([&] { UniformIntDistribution u(r, 3, 3); }, "UniformIntDistribution(3,3)");
  return vh::finish();
}
