#include "vh.h"
#include <cmath>
#include "/repo/src/json/Json.cpp"
#include "/repo/src/json/json_functions.cpp"
using namespace cuhksz;
typedef JSONObject J;
struct M { int t = 0; bool b = false; int i = 0; double f = 0; std::string s; std::vector<M> a; std::map<std::string, M> o; };
static std::vector<std::string> lg;
static long live = 0; static bool counting = true;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); if (counting) live++; return p; }
void operator delete(void* p) noexcept { if (p && counting) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p && counting) live--; free(p); }
static void op(const std::string& s) { counting = false; lg.push_back(s); counting = true; }
static std::string esc(const std::string& s) { std::string r; for (char c : s) { const char* p = strchr("\"\\\b\f\n\r\t", c); if (c && p) { r += '\\'; r += "\"\\bfnrt"[p - "\"\\\b\f\n\r\t"]; } else r += c; } return r; }
static void same(const J& j, const M& m, const std::string& at) {
  auto no = [&](const std::string& w) { vh::fail("at " + at + ": " + w); };
  if ((int)j.getType() != m.t) no("type is " + vh::str((int)j.getType()) + ", expected " + vh::str(m.t));
  if (j.isNull() != (m.t == 0)) no("isNull() is wrong");
  if (j.length() != (m.t == 2 ? (int)m.a.size() : -1)) no("length() is " + vh::str(j.length()));
  if (j.size() != (m.t == 2 ? (int)m.a.size() : m.t == 1 ? (int)m.o.size() : -1)) no("size() is " + vh::str(j.size()));
  if (j.toString() != (m.t == 3 ? esc(m.s) : "")) no("toString() is " + vh::show(j.toString()) + ", expected " + vh::show(m.t == 3 ? esc(m.s) : ""));
  if ((std::string)j != j.toString()) no("conversion to string");
  if (j.toDouble() != (m.t == 4 ? m.f : 0.0) || (double)j != j.toDouble() || j.toFloat() != (float)j.toDouble() || (float)j != j.toFloat()) no("toDouble()/toFloat() is " + vh::str(j.toDouble()));
  if (j.toInt() != (m.t == 5 ? m.i : 0) || (int)j != j.toInt()) no("toInt() is " + vh::str(j.toInt()));
  if (j.toBool() != (m.t == 6 && m.b) || (bool)j != j.toBool()) no("toBool() is " + vh::str(j.toBool()));
  int n = 0; J& mj = const_cast<J&>(j);
  for (auto& x : j.ArrayRange()) { (void)x; n++; }
  if (n != (m.t == 2 ? (int)m.a.size() : 0)) no("ArrayRange() visits " + vh::str(n) + " elements");
  n = 0; for (auto& x : mj.ArrayRange()) { if (&x != &j.at((unsigned)n)) no("ArrayRange() order"); n++; }
  n = 0; auto it = m.o.begin();
  for (auto& x : j.ObjectRange()) { if (n < (int)m.o.size() && x.first != it->first) no("ObjectRange() key " + vh::show(x.first)); if (n < (int)m.o.size()) ++it; n++; }
  if (n != (m.t == 1 ? (int)m.o.size() : 0)) no("ObjectRange() visits " + vh::str(n) + " entries");
  { auto r = mj.ObjectRange(); const auto& cr = r; n = 0; for (auto p = cr.begin(); p != cr.end(); ++p) n++; if (n != (m.t == 1 ? (int)m.o.size() : 0)) no("const ObjectRange()"); }
  if (m.t == 2) for (size_t k = 0; k < m.a.size(); k++) { same(j.at((unsigned)k), m.a[k], at + "[" + vh::str(k) + "]"); }
  if (m.t == 1) for (auto& e : m.o) { if (!j.hasKey(e.first)) no("hasKey(" + vh::show(e.first) + ") is false"); same(j.at(e.first), e.second, at + "[" + vh::show(e.first) + "]"); }
  for (const char* k : {"a", "b", "zz", ""}) if (j.hasKey(k) != (m.t == 1 && m.o.count(k))) no(std::string("hasKey(") + k + ") is wrong");
}
static std::string key() { switch (vh::rint(0, 9)) { case 0: return ""; case 1: return "a\"b"; case 2: return std::string("n\0l", 3); case 3: return "\xff"; default: return std::string(1, (char)vh::rint('a', 'e')); } }
static std::string text() { int n = (int)vh::rint(0, 4); std::string s; while (n--) { s += vh::rint(0, 2) ? (char)vh::rint('a', 'z') : "\"\\\b\f\n\r\t/\0\x7f\x80"[vh::rint(0, 10)]; } return s; }
static double num() { return vh::rint(0, 1) ? vh::rint(-1000, 1000) / 8.0 : vh::rint(-5, 5); }
static int intv() { return (int)vh::dint(-2147483647L - 1, 2147483647L); }
struct P { J* j; M* m; std::string at; };
static void nodes(J& j, M& m, const std::string& at, std::vector<P>& out) {
  out.push_back(P{&j, &m, at});
  if (m.t == 2) for (size_t k = 0; k < m.a.size(); k++) nodes(j[(int)k], m.a[k], at + "[" + vh::str(k) + "]", out);
  if (m.t == 1) for (auto& e : m.o) nodes(j[e.first], e.second, at + "[" + vh::show(e.first) + "]", out);
}
static void scalar(J& j, M& m, const std::string& at) {
  M r;
  switch (vh::rint(0, 6)) {
    case 0: r.t = 6; r.b = vh::rint(0, 1); op(at + " = bool"); j = r.b; break;
    case 1: r.t = 5; r.i = intv(); op(at + " = int " + vh::str(r.i)); j = r.i; break;
    case 2: r.t = 4; r.f = num(); op(at + " = double " + vh::str(r.f)); j = r.f; break;
    case 3: r.t = 3; r.s = text(); op(at + " = string " + vh::show(r.s)); j = r.s; break;
    case 4: r.t = 3; r.s = "lit"; op(at + " = \"lit\""); j = "lit"; break;
    case 5: op(at + " = nullptr"); if (vh::rint(0, 1)) j = J(nullptr); else j = nullptr; break;
    case 6: r.t = (int)vh::rint(0, 6); op(at + " = Build(" + vh::str(r.t) + ")"); j = J::Build((J::Type)r.t); break;
  }
  m = r;
}
static J fresh(M& m, int d) {
  switch (vh::rint(0, d > 0 ? 9 : 5)) {
    case 0: return J();
    case 1: m.t = 6; m.b = vh::rint(0, 1); return J(m.b);
    case 2: m.t = 5; m.i = intv(); return J(m.i);
    case 3: m.t = 4; m.f = num(); return J(m.f);
    case 4: m.t = 3; m.s = text(); return J(m.s);
    case 5: { m.t = 3; m.s = "chars"; const char* p = "chars"; return J(p); }
    case 6: { m.t = 2; M x, y; x.t = 5; x.i = 7; y.t = 6; y.b = true; M z; J c = fresh(z, d - 1); m.a = {x, y, z}; return J::Array(7, true, c); }
    case 7: { m.t = 1; M u, v, w; J a = fresh(u, d - 1), b = fresh(v, d - 1), c = fresh(w, d - 1); std::string k1 = key(), k2 = key(), k3 = key(); m.o[k1] = u; m.o[k2] = v; m.o[k3] = w; return J{k1, a, k2, b, k3, c}; }
    case 8: { m.t = 2; J r = J::Array(); int n = (int)vh::rint(0, 3); while (n--) { M x; r.append(fresh(x, d - 1)); m.a.push_back(x); } return r; }
    default: { m.t = 1; J r = J::Object(); int n = (int)vh::rint(0, 3); while (n--) { M x; std::string k = key(); r[k] = fresh(x, d - 1); m.o[k] = x; } return r; }
  }
}
static void arr(M& m) { if (m.t != 2) { m = M(); m.t = 2; } }
static void obj(M& m) { if (m.t != 1) { m = M(); m.t = 1; } }
static size_t count(const M& m) { size_t n = 1; for (auto& x : m.a) n += count(x); for (auto& e : m.o) n += count(e.second); return n; }
static void run(int steps) {
  J r; M m;
  { r = fresh(m, 3); op("r = fresh value"); same(r, m, "r"); }
  while (steps--) {
    std::vector<P> ns; nodes(r, m, "r", ns); P p = ns[vh::rint(0, (long)ns.size() - 1)], q = ns[vh::rint(0, (long)ns.size() - 1)];
    switch (vh::rint(0, 14)) {
      case 0: case 1: scalar(*p.j, *p.m, p.at); break;
      case 2: { M v; J x = fresh(v, 2); std::string k = key(); op(p.at + "[" + vh::show(k) + "] = fresh value"); (*p.j)[k] = x; obj(*p.m); p.m->o[k] = v; break; }
      case 3: { M v; J x = fresh(v, 2); int k = (int)vh::rint(0, 5); op(p.at + "[" + vh::str(k) + "] = fresh value"); arr(*p.m); if ((int)p.m->a.size() <= k) p.m->a.resize(k + 1); p.m->a[k] = v; if (vh::rint(0, 1)) (*p.j)[k] = std::move(x); else p.j->at((unsigned)k) = x; break; }
      case 4: { std::string k = key(); op("read " + p.at + ".at(" + vh::show(k) + ")"); J& x = p.j->at(k); obj(*p.m); same(x, p.m->o[k], "result"); break; }
      case 5: { op("read " + p.at + "[\"a\"]"); J& x = (*p.j)["a"]; obj(*p.m); same(x, p.m->o["a"], "result"); break; }
      case 6: { M v; J x = fresh(v, 2); op(p.at + ".append(fresh value)"); p.j->append(x); arr(*p.m); p.m->a.push_back(v); same(x, v, "argument"); break; }
      case 7: { M a, b, c, d; a.t = 5; a.i = intv(); b.t = 6; b.b = true; c.t = 4; c.f = num(); d.t = 3; d.s = text(); op(p.at + ".append(int, bool, double, string)"); p.j->append(a.i, b.b, c.f, d.s); arr(*p.m); for (const M& x : {a, b, c, d}) p.m->a.push_back(x); break; }
      case 8: { if (count(*q.m) > 40) break; op(p.at + ".append(" + q.at + ")"); M v = *q.m; p.j->append(*q.j); arr(*p.m); p.m->a.push_back(v); break; }
      case 9: case 10: { if (count(*q.m) > 40) break; op(p.at + " = " + q.at); M v = *q.m; *p.j = *q.j; *p.m = v; break; }
      case 11: { op("copy of " + p.at + " is changed"); J c(*p.j); M v = *p.m; same(c, v, "copy"); scalar(c, v, "copy"); c["x"]["y"] = 1; break; }
      case 12: { op("move " + p.at + " away and back"); J c(std::move(*p.j)); M z; same(*p.j, z, "moved-from"); same(c, *p.m, "moved"); *p.j = std::move(c); same(c, z, "moved-from"); break; }
      case 13: { op(p.at + " = itself"); *p.j = *p.j; J& x = *p.j; x = std::move(*p.j); break; }
      case 14: { if (ns.size() < 2) break; P c = ns[vh::rint(1, (long)ns.size() - 1)]; op("r = moved " + c.at); M v = *c.m; r = std::move(*c.j); m = v; break; }
    }
    same(r, m, "r");
    if (count(m) > 120) { op("r = null"); r = nullptr; m = M(); same(r, m, "r"); }
  }
}
int main() {
  vh::init();
  long n = vh::scale(6000, 60000);
  for (long k = 0; k < n; k++) {
    lg.clear(); vh::begin("sequence of operations on r", [] { return vh::seq(lg); });
    long before = live; run((int)vh::rint(1, 14));
    if (live != before) vh::fail("after the destruction of every value, " + vh::str(live - before) + " allocations are still live");
  }
  { vh::begin("integral and floating types", [] { return std::string("char, short, long, unsigned, float"); }); J a((char)'x'), b((short)-3), c(5L), d(7u), e(1.5f); if ((int)a != 'x' || (int)b != -3 || (int)c != 5 || (int)d != 7 || (double)e != 1.5) vh::fail("value of a converted number"); a = 'y'; b = 3L; e = 2.5f; if (a.toInt() != 'y' || b.toInt() != 3 || e.toDouble() != 2.5) vh::fail("value of an assigned number"); }
  return vh::finish();
}
