#include "vh.h"
#include <algorithm>
#include "/repo/src/include/containers/Set.h"
#include "/repo/src/include/containers/MultiSet.h"
#include "/repo/src/include/containers/Map.h"
#include "/repo/src/include/containers/MultiMap.h"
using namespace cuhksz;
typedef std::vector<std::string> Log;
static Log* lg;
static void op(const std::string& s) { lg->push_back(s); }
template <class T> T val() { return (T)vh::dint(-6, 6); }
template <> std::string val<std::string>() { std::string s; int n = (int)vh::rint(0, 2); while (n--) s += (char)vh::rint('a', 'c'); return s; }
namespace vh { template <class A, class B> std::ostream& operator<<(std::ostream& o, const std::pair<A, B>& p) { return o << p.first << "=>" << p.second; } }
template <class A, class B> std::string pr(const std::vector<std::pair<A, B>>& v) { std::string r; for (auto& p : v) r += vh::str(p.first) + "=>" + vh::str(p.second) + " "; return r; }
template <class C> void cmp(C& a, C& b, int eq, int lt, int gt) {
  vh::eq((int)(a == b), eq, "operator=="); vh::eq((int)(a != b), !eq, "operator!="); vh::eq((int)(a < b), lt, "operator<");
  vh::eq((int)(a <= b), !gt, "operator<="); vh::eq((int)(a > b), gt, "operator>"); vh::eq((int)(a >= b), !lt, "operator>=");
}
// the model of a (multi)set is a sorted vector
template <class C, class T> void same(const C& c, std::vector<T> m) {
  std::sort(m.begin(), m.end()); std::vector<T> a(c.begin(), c.end());
  if (a != m) vh::fail("contents are " + vh::seq(a) + ", expected " + vh::seq(m));
  vh::eq(c.size(), (int)m.size(), "size()"); vh::eq(c.isEmpty(), m.empty(), "isEmpty()");
}
template <class T> bool has(const std::vector<T>& m, const T& v) { return std::find(m.begin(), m.end(), v) != m.end(); }
template <class T> void sets(long steps) {
  Log log; lg = &log; Log* keep = &log; Set<T> s, s2; MultiSet<T> u, u2; std::vector<T> a, a2, b, b2;
  vh::begin("sequence of operations on Set and MultiSet", [keep] { return vh::seq(*keep); });
  if (vh::rint(0, 2) == 0) { T x = val<T>(), y = val<T>(); op("construct from {x,y,x}: " + vh::str(x) + " " + vh::str(y)); s = Set<T>{x, y, x}; u = MultiSet<T>{x, y, x}; a = {x}; if (!(y == x)) a.push_back(y); b = {x, y, x}; same(s, a); same(u, b); }
  for (long k = 0; k < steps; k++) {
    T v = val<T>();
    switch (vh::rint(0, 8)) {
      case 0: case 1: op("insert " + vh::str(v)); s.insert(v); if (!has(a, v)) a.push_back(v); u.insert(v); b.push_back(v); break;
      case 2: op("Set.erase " + vh::str(v)); s.erase(v); a.erase(std::remove(a.begin(), a.end(), v), a.end()); break;
      case 3: if (has(b, v)) { op("MultiSet.erase " + vh::str(v)); u.erase(v); b.erase(std::remove(b.begin(), b.end(), v), b.end()); } else if (vh::rint(0, 40) == 0) vh::must_exit([&] { u.erase(v); }, "MultiSet.erase of a value it does not hold"); break;
      case 4: op("contains/count " + vh::str(v)); vh::eq(s.contains(v), has(a, v), "Set.contains"); vh::eq(u.contains(v), has(b, v), "MultiSet.contains"); vh::eq(u.count(v), (int)std::count(b.begin(), b.end(), v), "count"); break;
      case 5: if (vh::rint(0, 3) == 0) { op("clear"); s.clear(); u.clear(); a.clear(); b.clear(); } break;
      case 6: op("copy to the other"); s2 = s; u2 = u; a2 = a; b2 = b; same(s2, a2); same(u2, b2); break;
      case 7: { op("swap roles"); Set<T> t = s; s = s2; s2 = t; MultiSet<T> w = u; u = u2; u2 = w; std::swap(a, a2); std::swap(b, b2); break; }
      case 8: { op("compare, convert"); std::vector<T> x = a, y = a2; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); cmp(s, s2, x == y, x < y, x > y); x = b; y = b2; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); cmp(u, u2, x == y, x < y, x > y);
        std::set<T> t = s.toStlSet(); std::set<T> t2 = s; if (t != t2) vh::fail("conversion to std::set"); Set<T> d(t); same(d, a); std::multiset<T> w = u.toStlMultiset(); std::multiset<T> w2 = u; if (w != w2) vh::fail("conversion to std::multiset"); MultiSet<T> e(w); same(e, b); break; }
    }
    same(s, a); same(u, b);
  }
}
template <class K, class V> void maps(long steps) {
  typedef std::pair<K, V> P; Log log; lg = &log; Log* keep = &log; Map<K, V> s, s2; MultiMap<K, V> u, u2; std::map<K, V> a, a2; std::vector<P> b, b2;
  vh::begin("sequence of operations on Map and MultiMap", [keep] { return vh::seq(*keep); });
  auto sameM = [&](Map<K, V>& m, std::map<K, V>& w) { std::vector<P> x(m.begin(), m.end()), y(w.begin(), w.end()); if (x != y) vh::fail("Map holds " + pr(x) + ", expected " + pr(y)); const Map<K, V>& cm = m; std::vector<P> z(cm.begin(), cm.end()); if (z != y) vh::fail("const iteration of Map"); vh::eq(m.size(), (int)w.size(), "Map.size()"); vh::eq(m.isEmpty(), w.empty(), "Map.isEmpty()"); };
  auto sameU = [&](MultiMap<K, V>& m, std::vector<P> w) { std::vector<P> x(m.begin(), m.end()); for (size_t i = 1; i < x.size(); i++) if (x[i].first < x[i - 1].first) vh::fail("MultiMap is not in key order: " + pr(x)); std::sort(x.begin(), x.end()); std::sort(w.begin(), w.end()); if (x != w) vh::fail("MultiMap holds " + pr(x) + ", expected " + pr(w)); vh::eq(m.size(), (int)w.size(), "MultiMap.size()"); vh::eq(m.isEmpty(), w.empty(), "MultiMap.isEmpty()"); };
  { K k1 = val<K>(), k2 = val<K>(), k3 = val<K>(); V v1 = val<V>(), v2 = val<V>(), v3 = val<V>(); op("construct {" + vh::str(k1) + "," + vh::str(v1) + "} {" + vh::str(k2) + "," + vh::str(v2) + "} {" + vh::str(k3) + "," + vh::str(v3) + "}");
    Map<K, V> m{{k1, v1}, {k2, v2}, {k3, v3}}; std::map<K, V> w{{k1, v1}, {k2, v2}, {k3, v3}}; sameM(m, w); MultiMap<K, V> mm{{k1, v1}, {k2, v2}, {k3, v3}}; std::vector<P> ww{{k1, v1}, {k2, v2}, {k3, v3}}; sameU(mm, ww); if (vh::rint(0, 1)) { s = m; a = w; } u = mm; b = ww; }
  for (long i = 0; i < steps; i++) {
    K k = val<K>(); V v = val<V>();
    switch (vh::rint(0, 10)) {
      case 0: op("set " + vh::str(k) + " " + vh::str(v)); s.set(k, v); a[k] = v; break;
      case 1: op("[" + vh::str(k) + "] = " + vh::str(v)); s[k] = v; a[k] = v; break;
      case 2: op("read [" + vh::str(k) + "]"); vh::eq(s[k], a[k], "operator[]"); break;
      case 3: if (a.count(k)) { const Map<K, V>& c = s; op("get " + vh::str(k)); vh::eq(c.get(k), a[k], "const get"); s.get(k) = v; a[k] = v; vh::eq(s.get(k), v, "get"); } else if (vh::rint(0, 40) == 0) { const Map<K, V>& c = s; vh::must_exit([&] { s.get(k); }, "Map.get of a missing key"); vh::must_exit([&] { c.get(k); }, "const Map.get of a missing key"); } break;
      case 4: op("erase " + vh::str(k)); s.erase(k); a.erase(k); u.erase(k); b.erase(std::remove_if(b.begin(), b.end(), [&](const P& p) { return p.first == k; }), b.end()); break;
      case 5: { op("contains/find/count " + vh::str(k)); vh::eq(s.contains(k), a.count(k) > 0, "contains"); std::set<V> w; int n = 0; for (auto& p : b) if (p.first == k) { w.insert(p.second); n++; } vh::eq(u.count(k), n, "MultiMap.count"); Set<V> g = u.find(k); std::vector<V> x(g.begin(), g.end()), y(w.begin(), w.end()); if (x != y) vh::fail("find gave " + vh::seq(x) + ", expected " + vh::seq(y)); break; }
      case 6: if (vh::rint(0, 3) == 0) { op("clear"); s.clear(); a.clear(); u.clear(); b.clear(); } break;
      case 7: op("copy to the other"); s2 = s; u2 = u; a2 = a; b2 = b; break;
      case 8: { op("swap roles"); Map<K, V> t = s; s = s2; s2 = t; MultiMap<K, V> w = u; u = u2; u2 = w; std::swap(a, a2); std::swap(b, b2); break; }
      case 9: { op("compare, convert"); cmp(s, s2, a == a2, a < a2, a > a2); std::map<K, V> t = s.toStlMap(); std::map<K, V> t2 = s; if (t != a || t2 != a) vh::fail("conversion to std::map"); Map<K, V> d(t); sameM(d, a);
        std::multimap<K, V> w = u.toStlMultimap(), w2 = u2.toStlMultimap(); std::multimap<K, V> w3 = u; if (w != w3) vh::fail("conversion to std::multimap"); cmp(u, u2, w == w2, w < w2, w > w2); MultiMap<K, V> e(w); sameU(e, b); break; }
      case 10: { K k2 = val<K>(); op("multimap from stl with {" + vh::str(k) + "," + vh::str(v) + "} added"); std::multimap<K, V> w = u.toStlMultimap(); w.insert({k, v}); MultiMap<K, V> e(w); u = e; b.push_back({k, v}); (void)k2; break; }
    }
    sameM(s, a); sameU(u, b);
  }
}
int main() {
  vh::init();
  for (long i = 0; i < vh::scale(700, 20000); i++) { sets<int>(vh::rint(1, 40)); sets<std::string>(vh::rint(1, 30)); maps<int, int>(vh::rint(1, 40)); maps<std::string, int>(vh::rint(1, 30)); maps<int, std::string>(vh::rint(1, 30)); }
  for (int i = 0; i < 3; i++) { sets<long>(500); maps<long, long>(500); }
  return vh::finish();
}
