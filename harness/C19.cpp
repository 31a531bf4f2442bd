#include "vh.h"
#include <list>
#include <deque>
#include <set>
#include <type_traits>
#include "/repo/src/include/algorithm/Map.h"
#include "/repo/src/include/algorithm/Filter.h"
#include "/repo/src/include/algorithm/Zip.h"
#include "/repo/src/include/containers/Vector.h"
using namespace cuhksz;
template <class C> void mf(const char* kind, const std::vector<int>& v, int md) {
  vh::begin("mapAll, filterContainer", [=] { return std::string(kind) + " " + vh::seq(v) + " modulus " + vh::str(md); });
  C c(v.begin(), v.end()), c0 = c; std::vector<int> in(c.begin(), c.end());
  std::vector<int> seen; int calls = 0; std::vector<long> want, got = mapAll(c, [&](int x) { seen.push_back(x); return (long)x * 3 + calls++; });
  for (size_t i = 0; i < in.size(); i++) want.push_back((long)in[i] * 3 + (long)i);
  if (got != want) vh::fail("mapAll gives " + vh::seq(got) + ", expected " + vh::seq(want)); if (seen != in) vh::fail("mapAll called the function on " + vh::seq(seen) + ", expected " + vh::seq(in)); if (c != c0) vh::fail("mapAll changed the container");
  seen.clear(); calls = 0; std::vector<int> w2, g2 = filterContainer(c, [&](int x) { seen.push_back(x); calls++; return ((x + calls) % md + md) % md == 0; });
  for (size_t i = 0; i < in.size(); i++) if (((in[i] + (int)i + 1) % md + md) % md == 0) w2.push_back(in[i]);
  if (g2 != w2) vh::fail("filterContainer gives " + vh::seq(g2) + ", expected " + vh::seq(w2)); if (seen != in) vh::fail("filterContainer called the function on " + vh::seq(seen) + ", expected " + vh::seq(in)); if (c != c0) vh::fail("filterContainer changed the container");
  std::vector<int> all = filterContainer(c, [](int) { return true; }), none = filterContainer(c, [](int) { return 0; });
  if (all != in) vh::fail("filter that accepts everything gives " + vh::seq(all)); if (!none.empty()) vh::fail("filter that accepts nothing gives " + vh::seq(none));
}
static void refs(const std::vector<int>& v) {   // the function gets the elements themselves, not copies
  vh::begin("mapAll with a function that changes its argument", [=] { return vh::seq(v); });
  std::vector<int> c = v; std::vector<int> old = mapAll(c, [](int& x) { int o = x; x = x + 1; return o; });
  if (old != v) vh::fail("results are " + vh::seq(old)); for (size_t i = 0; i < v.size(); i++) if (c[i] != v[i] + 1) vh::fail("element " + vh::str(i) + " was not changed in place");
}
template <class C> std::string show(const std::vector<C>& z) { std::string s = "["; for (const C& r : z) s += vh::seq(r); return s + "]"; }
template <class C> void z(const std::vector<std::vector<int>>& in, const char* kind) {
  vh::begin("zip", [=] { return std::string(kind) + " " + show(in); });
  std::vector<C> a; for (auto& v : in) a.push_back(C(v.begin(), v.end())); std::vector<C> a0 = a;
  size_t m = in[0].size(); for (auto& v : in) m = std::min(m, v.size());
  std::vector<C> want(m), got; for (size_t i = 0; i < m; i++) for (auto& v : in) want[i].push_back(v[i]);
  switch (a.size()) {
    case 1: got = zip(a[0]); break;
    case 2: got = zip(a[0], a[1]); break;
    case 3: got = zip(a[0], a[1], a[2]); break;
    case 4: got = zip(a[0], a[1], a[2], a[3]); break;
    default: got = zip(a[0], a[1], a[2], a[3], a[4]); break;
  }
  if (got != want) vh::fail("zip gives " + show(got) + ", expected " + show(want)); if (a != a0) vh::fail("an argument was changed");
  if (a.size() == 3) { Zip<C> zz(a[0], a[1], a[2]); std::vector<C> x = zz, y = zz(), x2 = zz; if (x != want || y != want || x2 != want) vh::fail("Zip object gives " + show(x)); Zip<C> same(a[0], a[0], a[1]); std::vector<C> w(std::min(in[0].size(), in[1].size())); for (size_t i = 0; i < w.size(); i++) { w[i].push_back(in[0][i]); w[i].push_back(in[0][i]); w[i].push_back(in[1][i]); } if (same() != w) vh::fail("Zip of the same container twice gives " + show(same())); }
}
int main() {
  vh::init();
  for (long k = 0; k < vh::scale(6000, 60000); k++) {
    std::vector<int> v; int n = (int)vh::rint(0, k % 50 == 0 ? 300 : 12); for (int i = 0; i < n; i++) v.push_back((int)(k % 2 ? vh::rint(-5, 5) : vh::dint(-1000000, 1000000))); int md = (int)vh::rint(1, 5);
    mf<std::vector<int>>("vector", v, md); mf<std::list<int>>("list", v, md); mf<std::deque<int>>("deque", v, md); mf<std::multiset<int>>("multiset", v, md); refs(v);
    std::vector<std::vector<int>> in((size_t)vh::rint(1, 5)); for (auto& r : in) { int len = (int)vh::rint(0, 6); for (int i = 0; i < len; i++) r.push_back((int)vh::rint(-99, 99)); } z<std::vector<int>>(in, "vector"); z<std::list<int>>(in, "list"); z<std::deque<int>>(in, "deque");
  }
  for (int a = 0; a <= 4; a++) for (int b = 0; b <= 4; b++) for (int c = 0; c <= 4; c++) for (int k = 1; k <= 3; k++) { std::vector<std::vector<int>> in; int l[] = {a, b, c}; for (int j = 0; j < k; j++) { in.push_back({}); for (int i = 0; i < l[j]; i++) in[j].push_back(10 * j + i); } z<std::vector<int>>(in, "vector"); z<std::list<int>>(in, "list"); }
  { std::string s = "hello"; vh::begin("mapAll and filterContainer on a string", [] { return std::string("hello"); }); std::vector<char> w = mapAll(s, [](char c) { return (char)(c - 32); }); if (std::string(w.begin(), w.end()) != "HELLO") vh::fail("mapAll on a string"); w = filterContainer(s, [](char c) { return c == 'l'; }); if (w.size() != 2) vh::fail("filterContainer on a string"); }
  { std::vector<std::string> s = {"a", "", "bcd"}; vh::begin("mapAll and filterContainer on strings", [] { return std::string("a, (empty), bcd"); }); std::vector<size_t> w = mapAll(s, [](const std::string& x) { return x.size(); }); if (w != std::vector<size_t>({1, 0, 3})) vh::fail("mapAll on strings"); std::vector<std::string> f = filterContainer(s, [](const std::string& x) { return !x.empty(); }); if (f != std::vector<std::string>({"a", "bcd"})) vh::fail("filterContainer on strings"); }
  { Vector<int> s; s.push(3); s.push(4); s.push(5); vh::begin("mapAll and filterContainer on Vector", [] { return std::string("3 4 5"); }); std::vector<int> w = mapAll(s, [](int x) { return x * x; }); if (w != std::vector<int>({9, 16, 25})) vh::fail("mapAll on Vector"); w = filterContainer(s, [](int x) { return x != 4; }); if (w != std::vector<int>({3, 5})) vh::fail("filterContainer on Vector"); }
  return vh::finish();
}
