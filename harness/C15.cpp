#include "vh.h"
#include <set>
#include <algorithm>
#include "/repo/src/string_utils/Trie.cpp"
using namespace cuhksz;
static std::vector<std::string> lg;
static int upChar(char c) { if (c == '\001') return 1; if (c < 'A' || c > 'Z') _exit(98); return c - 'A' + 2; }
static char upInt(int n) { return n == 1 ? '\001' : (char)(n - 2 + 'A'); }
static int twoChar(char c) { if (c == '\001') return 1; if (c != '1' && c != '0') _exit(98); return c - '0' + 2; }
static char twoInt(int n) { return n == 1 ? '\001' : (char)(n - 2 + '0'); }
static int anyChar(char c) { if (c == '\001') return 1; int u = (unsigned char)c; return u == 0 ? 2 : u + 1; }
static char anyInt(int n) { return n == 1 ? '\001' : n == 2 ? '\0' : (char)(n - 1); }
struct W { Trie* t; std::set<std::string> s; int kind; std::string nm; std::vector<std::string> pool; };
static std::string word(W& w) {
  if (w.pool.size() && vh::rint(0, 2)) {
    std::string s = w.pool[vh::rint(0, (long)w.pool.size() - 1)];
    switch (vh::rint(0, 4)) { case 0: return s; case 1: s = s.substr(0, vh::rint(0, (long)s.size())); break; case 2: break; default: if (s.size()) s.resize(vh::rint(0, (long)s.size())); }
    int n = (int)vh::rint(0, 2); while (n--) s += w.kind == 0 ? (char)vh::rint('a', 'z') : w.kind == 1 ? (char)vh::rint('A', 'Z') : w.kind == 2 ? (char)vh::rint('0', '1') : (char)(vh::rint(0, 2) ? vh::rint(250, 256) : vh::rint(2, 256));
    return s;
  }
  std::string s; int n = (int)vh::rint(0, 5), few = vh::rint(0, 2);
  while (n--) s += w.kind == 0 ? (char)vh::rint('a', few ? 'd' : 'z') : w.kind == 1 ? (char)vh::rint('A', few ? 'C' : 'Z') : w.kind == 2 ? (char)vh::rint('0', '1') : (char)(vh::rint(0, 2) ? vh::rint(250, 256) : vh::rint(2, 256));
  return s;
}
static bool less(W& w, const std::string& a, const std::string& b) {
  if (w.kind != 3) return a < b;
  for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return anyChar(a[i]) < anyChar(b[i]);
  return a.size() < b.size();
}
static void all(W& w) {
  if (w.t->size() != (int)w.s.size()) vh::fail(w.nm + ".size() is " + vh::str(w.t->size()) + ", expected " + vh::str(w.s.size()));
  for (auto& s : w.s) if (!w.t->contain(s)) vh::fail(w.nm + ".contain(" + vh::show(s) + ") is false after it was inserted");
  std::vector<std::string> want(w.s.begin(), w.s.end()), got; std::sort(want.begin(), want.end(), [&](const std::string& a, const std::string& b) { return less(w, a, b); });
  for (auto s : *w.t) { got.push_back(s); if (got.size() > want.size() + 1) break; }
  if (got != want) vh::fail("iteration over " + w.nm + " gives " + vh::seq(got) + ", expected " + vh::seq(want));
  // copies of an iterator stay where they are, and advance as the original does
  size_t at = 0;
  for (auto i = w.t->begin(); i != w.t->end() && at < want.size(); at++) {
    cuhksz::Trie::iterator j(i), k(i); ++j;
    if (!(k == i)) vh::fail("a copy of an iterator over " + w.nm + " at " + vh::show(want[at]) + " does not equal it");
    ++i;
    if (*k != want[at]) vh::fail("the copy of an iterator over " + w.nm + " gives " + vh::show(*k) + ", expected " + vh::show(want[at]));
    if (k == i) vh::fail("an iterator over " + w.nm + " advanced from " + vh::show(want[at]) + " still equals its copy");
    if (!(j == i)) vh::fail("an iterator over " + w.nm + " and its copy, both advanced from " + vh::show(want[at]) + ", differ");
  }
}
static void op(const std::string& s) { lg.push_back(s); }
static void run(int steps) {
  lg.clear(); vh::begin("sequence of operations", [] { return vh::seq(lg); });
  std::vector<W> ws; int n = (int)vh::rint(1, 2);
  for (int i = 0; i < n; i++) { W w; w.kind = (int)vh::rint(0, 3); w.nm = i ? "u" : "t"; w.t = w.kind == 0 ? new Trie() : w.kind == 1 ? new Trie(upChar, upInt) : w.kind == 2 ? new Trie(twoChar, twoInt) : new Trie(anyChar, anyInt); op(w.nm + " = Trie(" + (const char*[]){"a-z", "A-Z", "0-1", "all characters"}[w.kind] + ")"); ws.push_back(w); all(ws.back()); }
  while (steps--) {
    W& w = ws[vh::rint(0, n - 1)]; std::string s = word(w);
    switch (vh::rint(0, 5)) {
      case 0: case 1: case 2: op(w.nm + ".insert(" + vh::show(s) + ")"); w.t->insert(s); w.s.insert(s); w.pool.push_back(s); break;
      case 3: op(w.nm + ".remove(" + vh::show(s) + ")"); w.t->remove(s); w.s.erase(s); break;
      default: op(w.nm + ".contain(" + vh::show(s) + ")"); if (w.t->contain(s) != (w.s.count(s) > 0)) vh::fail("answer is " + vh::str(!w.s.count(s)));
    }
    for (auto& x : ws) { if (x.t->size() != (int)x.s.size()) vh::fail(x.nm + ".size() is " + vh::str(x.t->size()) + ", expected " + vh::str(x.s.size())); }
    if (vh::rint(0, 3) == 0) all(w);
  }
  for (auto& w : ws) { all(w); for (auto& s : w.pool) if (w.t->contain(s) != (w.s.count(s) > 0)) vh::fail(w.nm + ".contain(" + vh::show(s) + ") is " + vh::str(!w.s.count(s))); delete w.t; }
}
int main() {
  vh::init();
  long n = vh::scale(40000, 400000);
  for (long k = 0; k < n; k++) run((int)(k % 20 ? vh::rint(1, 25) : vh::rint(40, 150)));
  return vh::finish();
}
