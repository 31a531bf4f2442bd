#include "vh.h"
#include <algorithm>
#include <list>
#include "/repo/src/include/containers/Vector.h"
#include "/repo/src/include/containers/List.h"
#include "/repo/src/include/containers/Stack.h"
#include "/repo/src/include/containers/Queue.h"
using namespace cuhksz;
typedef std::vector<std::string> Log;
static Log* lg;
static void op(const std::string& s) { lg->push_back(s); }
template <class T> T val() { return (T)vh::dint(-9, 9); }
template <> std::string val<std::string>() { std::string s; int n = (int)vh::rint(0, 3); while (n--) s += (char)vh::rint('a', 'd'); return s; }
template <class T> T big() { return vh::rint(0, 3) ? val<T>() : (T)vh::rint(-2147483647L - 1, 2147483647L); }
template <> std::string big<std::string>() { return val<std::string>(); }
template <class T, class C> std::vector<T> all(const C& c) { return std::vector<T>(c.begin(), c.end()); }
template <class T, class C> void same(const C& c, const std::vector<T>& m) {
  std::vector<T> a(c.begin(), c.end());
  if (a != m) vh::fail("contents are " + vh::seq(a) + ", expected " + vh::seq(m));
  if (c.size() != (int)m.size()) vh::fail("size() is " + vh::str(c.size()) + ", expected " + vh::str(m.size()));
  if (c.isEmpty() != m.empty()) vh::fail("isEmpty() is " + vh::str(c.isEmpty()) + " with " + vh::str(m.size()) + " elements");
}
template <class C, class T> void cmp(C& a, C& b, const std::vector<T>& x, const std::vector<T>& y) {
  vh::eq(a == b, x == y, "operator=="); vh::eq(a != b, x != y, "operator!="); vh::eq(a < b, x < y, "operator<");
  vh::eq(a <= b, x <= y, "operator<="); vh::eq(a > b, x > y, "operator>"); vh::eq(a >= b, x >= y, "operator>=");
}
template <class C, class T> void seqops(C& c, std::vector<T>& m, int k) {
  const C& cc = c; long n = (long)m.size();
  switch (k) {
    case 0: { T v = big<T>(); op("push " + vh::str(v)); c.push(v); m.push_back(v); break; }
    case 1: if (n) { op("pop"); T g = c.pop(); vh::eq(g, m.back(), "pop()"); m.pop_back(); } break;
    case 2: { int i = (int)vh::rint(0, n); T v = val<T>(); op("insert " + vh::str(i) + " " + vh::str(v)); c.insert(i, v); m.insert(m.begin() + i, v); break; }
    case 3: if (n) { int i = (int)vh::rint(0, n - 1); op("erase " + vh::str(i)); c.erase(i); m.erase(m.begin() + i); } break;
    case 4: if (n) { int i = (int)vh::rint(0, n - 1); T v = val<T>(); op("[" + vh::str(i) + "] = " + vh::str(v)); c[i] = v; m[i] = v; vh::eq(cc[i], m[i], "const operator[]"); } break;
    case 5: if (n) { T v = val<T>(); op("first() = " + vh::str(v)); c.first() = v; m.front() = v; vh::eq(cc.first(), m.front(), "const first()"); } break;
    case 6: if (n) { T v = val<T>(); op("last() = " + vh::str(v)); c.last() = v; m.back() = v; vh::eq(cc.last(), m.back(), "const last()"); } break;
    case 7: if (vh::rint(0, 4) == 0) { op("clear"); c.clear(); m.clear(); } break;
    case 8: if (n) { int i = (int)vh::rint(0, n - 1), j = (int)vh::rint(0, n); op("insert " + vh::str(j) + " own element " + vh::str(i)); T v = m[i]; c.insert(j, c[i]); m.insert(m.begin() + j, v); } break;
    case 9: if (n) { op("push own first"); T v = m[0]; c.push(c.first()); m.push_back(v); } break;
  }
}
template <class T> void vec_list(long steps) {
  Log log; lg = &log; Log* keep = &log;
  Vector<T> c; List<T> l; std::vector<T> m, x;
  vh::begin("sequence of operations on Vector and List", [keep] { return vh::seq(*keep); });
  if (vh::rint(0, 3) == 0) { int n = (int)vh::rint(0, 4); T v = val<T>(); op("construct with " + vh::str(n) + " copies of " + vh::str(v)); c = Vector<T>(n, v); l = List<T>(n, v); m = x = std::vector<T>(n, v); same(c, m); same(l, x); }
  if (vh::rint(0, 3) == 0) { T a = val<T>(), b = val<T>(); op("construct from {a,b,a}: " + vh::str(a) + " " + vh::str(b)); c = Vector<T>{a, b, a}; l = List<T>{a, b, a}; m = x = {a, b, a}; same(c, m); same(l, x); }
  for (long s = 0; s < steps; s++) {
    if (vh::rint(0, 1)) { op("Vector:"); int k = (int)vh::rint(0, 12);
      if (k < 10) seqops(c, m, k);
      else if (k == 10 && m.size()) { int i = (int)vh::rint(0, (long)m.size() - 1); T v = val<T>(); op("set " + vh::str(i) + " " + vh::str(v)); c.set(i, v); m[i] = v; const Vector<T>& cc = c; vh::eq(cc.get(i), v, "const get"); v = val<T>(); c.get(i) = v; m[i] = v; }
      else if (k == 11) { std::vector<T> t = c.toStlVector(); if (t != m) vh::fail("toStlVector"); std::vector<T> t2 = c; if (t2 != m) vh::fail("conversion to std::vector"); Vector<T> d(t); same(d, m); if (t != m) vh::fail("constructor changed its argument"); d.push(val<T>()); same(c, m); }
      else { Vector<T> d; std::vector<T> y; if (m.size() && vh::rint(0, 1)) { y = m; if (vh::rint(0, 1)) y[vh::rint(0, (long)y.size() - 1)] = val<T>(); if (vh::rint(0, 1)) y.pop_back(); } else { int n = (int)vh::rint(0, 3); while (n--) y.push_back(val<T>()); } for (auto& e : y) d.push(e); op("compare"); cmp(c, d, m, y); }
      same(c, m);
    } else { op("List:"); int k = (int)vh::rint(0, 17); const List<T>& cl = l;
      if (k < 10) seqops(l, x, k);
      else if (k == 10) { T v = val<T>(); op("push_front " + vh::str(v)); l.push_front(v); x.insert(x.begin(), v); }
      else if (k == 11 && x.size()) { op("pop_front"); T g = l.pop_front(); vh::eq(g, x.front(), "pop_front()"); x.erase(x.begin()); }
      else if (k == 12) { op("sort"); l.sort(); std::stable_sort(x.begin(), x.end()); }
      else if (k == 13) { op("reverse"); l.reverse(); std::reverse(x.begin(), x.end()); }
      else if (k == 14) { op("sort both, merge"); List<T> o; std::vector<T> y; int n = (int)vh::rint(0, 4); while (n--) { T v = val<T>(); o.push(v); y.push_back(v); } o.sort(); l.sort(); l.merge(o); if (!o.isEmpty()) vh::fail("merge left elements in its argument"); x.insert(x.end(), y.begin(), y.end()); std::sort(x.begin(), x.end()); }
      else if (k == 15) { std::list<T> t = l.toStlList(); if (all<T>(t) != x) vh::fail("toStlList"); std::list<T> t2 = cl; if (t2 != t) vh::fail("conversion to std::list"); List<T> d(t); same(d, x); if (all<T>(t) != x) vh::fail("constructor changed its argument"); }
      else if (k == 16) { op("assign, self-assign"); List<T> d; d.push(val<T>()); d = l; same(d, x); d.push(val<T>()); l = *&l; }
      else { List<T> d; std::vector<T> y; if (x.size() && vh::rint(0, 1)) { y = x; if (vh::rint(0, 1)) y[vh::rint(0, (long)y.size() - 1)] = val<T>(); if (vh::rint(0, 1)) y.pop_back(); } else { int n = (int)vh::rint(0, 3); while (n--) y.push_back(val<T>()); } for (auto& e : y) d.push(e); op("compare"); cmp(l, d, x, y); }
      same(l, x);
    }
  }
}
template <class T> void st_q(long steps) {
  Log log; lg = &log; Log* keep = &log;
  Stack<T> s, s2; Queue<T> q, q2; std::vector<T> a, a2, b, b2;
  vh::begin("sequence of operations on Stack and Queue", [keep] { return vh::seq(*keep); });
  for (long k = 0; k < steps; k++) {
    const Stack<T>& cs = s; const Queue<T>& cq = q;
    switch (vh::rint(0, 9)) {
      case 0: case 1: { T v = big<T>(); op("push/enqueue " + vh::str(v)); s.push(v); a.push_back(v); q.enqueue(v); b.push_back(v); break; }
      case 2: if (a.size()) { op("Stack.pop"); T g = s.pop(); vh::eq(g, a.back(), "Stack.pop()"); a.pop_back(); } break;
      case 3: if (b.size()) { op("Queue.dequeue"); T g = q.dequeue(); vh::eq(g, b.front(), "dequeue()"); b.erase(b.begin()); } break;
      case 4: if (a.size()) { T v = val<T>(); op("top() = " + vh::str(v)); vh::eq(cs.top(), a.back(), "top()"); s.top() = v; a.back() = v; } break;
      case 5: if (b.size()) { T v = val<T>(), w = val<T>(); op("first() = " + vh::str(v) + ", last() = " + vh::str(w)); vh::eq(cq.first(), b.front(), "first()"); vh::eq(cq.last(), b.back(), "last()"); q.first() = v; b.front() = v; q.last() = w; b.back() = w; } break;
      case 6: if (vh::rint(0, 3) == 0) { op("clear"); s.clear(); q.clear(); a.clear(); b.clear(); } break;
      case 7: { op("assign to the other"); s2 = s; q2 = q; a2 = a; b2 = b; break; }
      case 8: { op("swap roles"); Stack<T> t = s; s = s2; s2 = t; Queue<T> u = q; q = q2; q2 = u; std::swap(a, a2); std::swap(b, b2); break; }
      case 9: { op("compare"); cmp(s, s2, a, a2); cmp(q, q2, b, b2); std::stack<T> t = s.toStlStack(); std::stack<T> t2 = s; if (!(t == t2)) vh::fail("conversion to std::stack"); Stack<T> d(t); if (!(d == s) || t.size() != a.size()) vh::fail("Stack from std::stack");
        std::queue<T> u = q.toStlQueue(); std::queue<T> u2 = q; if (!(u == u2)) vh::fail("conversion to std::queue"); Queue<T> e(u); if (!(e == q) || u.size() != b.size()) vh::fail("Queue from std::queue"); break; }
    }
    vh::eq(s.size(), (int)a.size(), "Stack.size()"); vh::eq(q.size(), (int)b.size(), "Queue.size()"); vh::eq(s.isEmpty(), a.empty(), "Stack.isEmpty()"); vh::eq(q.isEmpty(), b.empty(), "Queue.isEmpty()");
    if (a.size()) vh::eq(s.top(), a.back(), "top()"); if (b.size()) { vh::eq(q.first(), b.front(), "first()"); vh::eq(q.last(), b.back(), "last()"); }
  }
  op("drain");
  while (a.size()) { vh::eq(s.pop(), a.back(), "pop() while draining"); a.pop_back(); } while (b.size()) { vh::eq(q.dequeue(), b.front(), "dequeue() while draining"); b.erase(b.begin()); }
  vh::eq(s.isEmpty(), true, "isEmpty after draining"); vh::eq(q.isEmpty(), true, "isEmpty after draining");
}
template <class C> void ranges(const char* nm) {
  for (int n : {0, 1, 3}) for (int i : {-2147483647 - 1, -1, n, n + 1, 2147483647}) {
    C c(n, 7); const C& k = c; std::string w = std::string(nm) + " of " + vh::str(n) + ", index " + vh::str(i) + ": ";
    vh::must_exit([&] { c[i] = 1; }, (w + "operator[]").c_str()); vh::must_exit([&] { int x = k[i]; (void)x; }, (w + "const operator[]").c_str());
    vh::must_exit([&] { c.erase(i); }, (w + "erase").c_str()); if (i != n) vh::must_exit([&] { c.insert(i, 1); }, (w + "insert").c_str());
  }
  C e; const C& k = e; std::string w = std::string("empty ") + nm + ": ";
  vh::must_exit([&] { e.first(); }, (w + "first").c_str()); vh::must_exit([&] { k.first(); }, (w + "const first").c_str()); vh::must_exit([&] { e.last(); }, (w + "last").c_str());
  vh::must_exit([&] { k.last(); }, (w + "const last").c_str()); vh::must_exit([&] { e.pop(); }, (w + "pop").c_str());
}
int main() {
  vh::init();
  ranges<Vector<int>>("Vector"); ranges<List<int>>("List");
  for (int n : {0, 2}) for (int i : {-1, n, 2147483647}) { Vector<int> c(n, 7); const Vector<int>& k = c; std::string w = "Vector of " + vh::str(n) + ", index " + vh::str(i) + ": ";
    vh::must_exit([&] { c.get(i); }, (w + "get").c_str()); vh::must_exit([&] { k.get(i); }, (w + "const get").c_str()); vh::must_exit([&] { c.set(i, 1); }, (w + "set").c_str()); }
  { List<int> e; vh::must_exit([&] { e.pop_front(); }, "empty List: pop_front"); Stack<int> s; const Stack<int>& cs = s; vh::must_exit([&] { s.top(); }, "empty Stack: top"); vh::must_exit([&] { cs.top(); }, "empty Stack: const top"); vh::must_exit([&] { s.pop(); }, "empty Stack: pop");
    Queue<int> q; const Queue<int>& cq = q; vh::must_exit([&] { q.dequeue(); }, "empty Queue: dequeue"); vh::must_exit([&] { q.first(); }, "empty Queue: first"); vh::must_exit([&] { cq.first(); }, "empty Queue: const first"); vh::must_exit([&] { q.last(); }, "empty Queue: last"); vh::must_exit([&] { cq.last(); }, "empty Queue: const last"); }
  for (long i = 0; i < vh::scale(1500, 20000); i++) { vec_list<int>(vh::rint(1, 40)); vec_list<std::string>(vh::rint(1, 30)); st_q<int>(vh::rint(1, 40)); st_q<std::string>(vh::rint(1, 30)); }
  for (int i = 0; i < 3; i++) { vec_list<int>(600); st_q<int>(600); }
  return vh::finish();
}
