#include "vh.h"
#include "/repo/src/include/graph/SegmentTree.h"
using cuhksz::SegmentTree;
struct Op { int k, l, r; long x; };
template <class T> static void run(const std::vector<long>& init, const std::vector<Op>& ops) {
  vh::begin("SegmentTree", [=] { std::string s = vh::seq(init); for (auto& o : ops) s += std::string(" ") + (o.k == 0 ? "max" : o.k == 1 ? "min" : o.k == 2 ? "sum" : o.k == 3 ? "add" : "mul") + "(" + vh::str(o.l) + "," + vh::str(o.r) + (o.k > 2 ? "," + vh::str(o.x) : "") + ")"; return s; }, init.size() > 1);
  std::vector<T> v(init.begin(), init.end()), w = v; SegmentTree<T> t(v); vh::eq(t.getSize(), (int)v.size(), "getSize"); vh::ok(v == w, "the constructor changed its argument");
  for (auto& o : ops) {
    T mx = w[o.l], mn = w[o.l], sm = 0; for (int i = o.l; i <= o.r; i++) mx = std::max(mx, w[i]), mn = std::min(mn, w[i]), sm += w[i];
    if (o.k == 0) vh::eq(t.queryMax(o.l, o.r), mx, "queryMax"); else if (o.k == 1) vh::eq(t.queryMin(o.l, o.r), mn, "queryMin"); else if (o.k == 2) vh::eq(t.querySum(o.l, o.r), sm, "querySum");
    else if (o.k == 3) { t.addInterval(o.l, o.r, (T)o.x); for (int i = o.l; i <= o.r; i++) w[i] += (T)o.x; }
    else { t.mulInterval(o.l, o.r, (T)o.x); for (int i = o.l; i <= o.r; i++) w[i] *= (T)o.x; }
  }
  for (int i = 0; i < (int)w.size(); i++) { vh::eq(t.querySum(i, i), w[i], "element at the end"); vh::eq(t.queryMax(i, i), w[i], "element at the end"); vh::eq(t.queryMin(i, i), w[i], "element at the end"); }
}
template <class T> static void rnd(int n, int k) {
  std::vector<long> v; for (int i = 0; i < n; i++) v.push_back(vh::rint(-6, 6));
  std::vector<Op> ops; double big = 8; int bias = (int)vh::rint(0, 2);
  for (int i = 0; i < k; i++) {
    Op o; o.k = bias == 0 ? (int)vh::rint(0, 4) : bias == 1 ? (int)vh::rint(2, 4) : (vh::rnd() % 2 ? 3 : (int)vh::rint(0, 4));
    o.l = (int)vh::rint(0, n - 1); o.r = (int)vh::rint(o.l, n - 1); if (vh::rnd() % 4 == 0) o.r = o.l; if (vh::rnd() % 8 == 0) o.l = 0, o.r = n - 1;
    o.x = o.k == 4 ? vh::rint(-3, 3) : vh::rint(-9, 9);
    if (o.k == 4) { if (big * 3 > 5e7 / (sizeof(T) > 4 ? 1 : n)) o.k = 2; else big = std::max(big * std::abs(o.x), big); } else if (o.k == 3) big += 9;
    ops.push_back(o);
  }
  run<T>(v, ops);
}
int main() {
  vh::init(); long N = vh::scale(1200, 30000);
  // every interval operation followed by every query, for small sizes
  for (int n = 1; n <= 7; n++) { std::vector<long> v; for (int i = 0; i < n; i++) v.push_back((i * 5) % 7 - 3); for (int k = 3; k <= 4; k++) for (long x : {-2L, 0L, 3L}) for (int l = 0; l < n; l++) for (int r = l; r < n; r++) for (int q = 0; q < 3; q++) for (int a = 0; a < n; a++) for (int b = a; b < n; b++) run<int>(v, {{k, l, r, x}, {q, a, b, 0}}); }
  for (int n = 1; n <= 5; n++) { std::vector<long> v; for (int i = 0; i < n; i++) v.push_back(i * i - 3); for (int l = 0; l < n; l++) for (int r = l; r < n; r++) for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int k = 0; k < 4; k++) run<long>(v, {{3 + k % 2, l, r, -2}, {3 + k / 2, a, b, 3}, {0, 0, n - 1, 0}, {1, 0, n - 1, 0}, {2, 0, n - 1, 0}, {3, l, b < l ? l : b, 1}}); }
  for (long t = 0; t < N; t++) { rnd<int>((int)vh::rint(1, 20), 12); rnd<long>((int)vh::rint(1, 70), 30); rnd<double>((int)vh::rint(1, 12), 20); }
  for (int n = 1; n <= 260; n++) rnd<long>(n, 40);
  std::vector<int> e; SegmentTree<int> et(e); vh::eq(et.getSize(), 0, "getSize of the empty tree");
  return vh::finish();
}
