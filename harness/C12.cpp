#include "vh.h"
#include "/repo/src/graph/Tree.cpp"
using namespace cuhksz;
// parents p[i] < i; every query is compared with the naive answer
static void run(const std::vector<int>& p, bool allq) {
  int n = (int)p.size(); std::string what = "all pairs";
  vh::begin("Tree", [&] { return "parents " + vh::seq(p) + " " + what; }, n > 2);
  std::vector<Node*> v; for (int i = 0; i < n; i++) v.push_back(new Node(i, i * 7)); std::vector<int> h(n, 0), deg(n, 0);
  Tree t; t.setRoot(v[0]); vh::ok(t.getRoot() == v[0] && v[0]->getFa() == nullptr && v[0]->getHeight() == 0, "root");
  for (int i = 1; i < n; i++) { t.addNode(v[i], v[p[i]]); h[i] = h[p[i]] + 1; deg[p[i]]++; }
  for (int i = 0; i < n; i++) {
    vh::eq(v[i]->getHeight(), h[i], "height"); vh::eq(v[i]->getID(), i, "id"); vh::eq(v[i]->getVal(), i * 7, "value"); vh::eq(v[i]->getDegree(), deg[i], "degree"); vh::ok(v[i]->getFa() == (i ? v[p[i]] : nullptr), "father of node " + vh::str(i));
    int a = i; for (int k = 0; k <= h[i]; k++) { if (k < 40 || k > h[i] - 3 || k % 17 == 0) vh::ok(v[i]->getAncestor(k) == v[a], "getAncestor(" + vh::str(k) + ") of node " + vh::str(i)); a = p[a]; }
  }
  auto q = [&](int x, int y) {
    int a = x, b = y; while (a != b) if (h[a] >= h[b]) a = p[a]; else b = p[b];
    Node* r = t.LCA(v[x], v[y]); vh::ok(r == v[a], "LCA(" + vh::str(x) + ", " + vh::str(y) + ") is not node " + vh::str(a)); vh::eq(t.getDistance(v[x], v[y]), h[x] + h[y] - 2 * h[a], "getDistance");
  };
  if (allq) for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) q(x, y); else for (int k = 0; k < 300; k++) q((int)vh::rint(0, n - 1), (int)vh::rint(0, n - 1));
  for (auto x : v) delete x;
}
int main() {
  vh::init(); long N = vh::scale(400, 8000);
  for (int n = 1; n <= 7; n++) { std::vector<int> p(n, 0); std::function<void(int)> go = [&](int i) { if (i >= n) { run(p, true); return; } for (int f = 0; f < i; f++) { p[i] = f; go(i + 1); } }; go(1); }
  for (long k = 0; k < N; k++) { int n = (int)vh::rint(1, 60), m = (int)vh::rint(0, 3); std::vector<int> p(n, 0); for (int i = 1; i < n; i++) p[i] = m == 0 ? (int)vh::rint(0, i - 1) : m == 1 ? i - 1 : m == 2 ? (int)vh::rint(std::max(0, i - 3), i - 1) : (i < n / 2 ? i - 1 : (int)vh::rint(0, i - 1)); run(p, n < 25); }
  for (int n : {100, 129, 257, 600}) { std::vector<int> p(n, 0); for (int i = 1; i < n; i++) p[i] = i - 1; run(p, false); for (int i = n / 2; i < n; i++) p[i] = i == n / 2 ? n / 8 : i - 1; run(p, false); }
  return vh::finish();
}
