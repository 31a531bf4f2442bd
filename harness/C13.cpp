#include "vh.h"
#include <algorithm>
#include "/repo/src/graph/BST.cpp"
using namespace cuhksz;
// operations on slots 0..n-1 (each a node of fixed rank): 0 insert, 1 erase, 2 pre, 3 suf, 4 find
struct Op { int k, a; };
static const char* NM[] = {"insert", "erase", "pre", "suf", "find"};
static void run(const std::vector<int>& ranks, const std::vector<Op>& ops, bool full) {
  size_t at = 0;
  vh::begin("BST", [&] { std::string s = "ranks " + vh::seq(ranks) + " ops"; for (size_t i = 0; i <= at && i < ops.size(); i++) s += std::string(" ") + NM[ops[i].k] + "(" + vh::str(ops[i].a) + ")"; return s; }, ops.size() > 3);
  int n = (int)ranks.size(); std::vector<BSTNode*> v; std::map<BSTNode*, int> id; for (int i = 0; i < n; i++) { v.push_back(new BSTNode(ranks[i], 100 + i)); id[v[i]] = i; vh::eq(v[i]->getRank(), ranks[i], "getRank"); vh::eq(v[i]->getVal(), 100 + i, "getVal"); }
  std::vector<char> in(n, 0); BST t;
  // neighbours of a node in the order of ranks: the order among equal ranks is the tree's choice, so walk along it
  auto sorted_ranks = [&] { std::vector<int> r; for (int i = 0; i < n; i++) if (in[i]) r.push_back(ranks[i]); std::sort(r.begin(), r.end()); return r; };
  auto walk = [&] {
    std::vector<int> r = sorted_ranks(); if (r.empty()) return;
    int s = -1; for (int i = 0; i < n; i++) if (in[i]) s = i;
    BSTNode* x = v[s]; size_t c = 0; while (BSTNode* y = t.pre(x)) { x = y; vh::ok(++c <= r.size(), "pre() runs in a circle"); }
    std::vector<int> got; std::set<BSTNode*> seen; for (BSTNode* y = x; y; y = t.suf(y)) { vh::ok(id.count(y) && in[id[y]], "suf() returned a node that is not in the tree"); vh::ok(seen.insert(y).second, "suf() returned a node twice"); got.push_back(y->getRank()); BSTNode* nx = t.suf(y); if (nx) vh::ok(t.pre(nx) == y, "pre(suf(x)) is not x"); }
    vh::ok(got == r, "walking with suf() gives " + vh::seq(got) + " instead of " + vh::seq(r));
  };
  for (at = 0; at < ops.size(); at++) {
    Op o = ops[at]; int i = o.a % (n ? n : 1);
    if (o.k == 0) { if (in[i]) continue; t.insert(v[i]); in[i] = 1; }
    else if (o.k == 1) { if (!in[i]) continue; t.erase(v[i]); in[i] = 0; }
    else if (o.k == 2 || o.k == 3) {
      if (!in[i]) continue; BSTNode* r = o.k == 2 ? t.pre(v[i]) : t.suf(v[i]); std::vector<int> s = sorted_ranks();
      if (!r) { vh::ok(o.k == 2 ? s.front() == ranks[i] : s.back() == ranks[i], "no neighbour although one exists"); }
      else { vh::ok(id.count(r) && in[id[r]], "neighbour is not in the tree"); vh::ok(r != v[i], "node is its own neighbour"); int k = r->getRank(); 
        vh::ok(o.k == 2 ? k <= ranks[i] : k >= ranks[i], "neighbour on the wrong side"); for (int q : s) vh::ok(!(o.k == 2 ? (k < q && q < ranks[i]) : (k > q && q > ranks[i])), "neighbour of rank " + vh::str(k) + " although " + vh::str(q) + " is nearer"); }
    } else {
      int k = o.a >= 1000 ? o.a - 1000 : ranks[i]; BSTNode* r = t.find(k); bool any = false; for (int j = 0; j < n; j++) if (in[j] && ranks[j] == k) any = true;
      vh::ok((r != nullptr) == any, any ? "find() missed a node" : "find() returned a node of an absent rank"); if (r) vh::ok(id.count(r) && in[id[r]] && r->getRank() == k, "find() returned a wrong node");
    }
    if (full) walk();
  }
  walk();
  for (int i = 0; i < n; i++) { vh::eq(v[i]->getRank(), ranks[i], "rank changed"); vh::eq(v[i]->getVal(), 100 + i, "value changed"); delete v[i]; }
}
int main() {
  vh::init(); long N = vh::scale(3000, 60000);
  std::vector<int> r{1, 2, 3, 4};
  for (int a = 0; a < 24; a++) { std::vector<int> p{0, 1, 2, 3}; for (int i = 0; i < a; i++) std::next_permutation(p.begin(), p.end()); for (int e = 0; e < 4; e++) for (int f = 0; f < 4; f++) for (int g = 0; g < 4; g++) { std::vector<Op> o; for (int x : p) o.push_back({0, x}); o.push_back({1, e}); o.push_back({2, f}); o.push_back({3, g}); o.push_back({0, e}); o.push_back({1, f}); o.push_back({4, g}); run(r, o, false); o.resize(5); run(r, o, true); } }
  for (long k = 0; k < N; k++) {
    int n = (int)vh::rint(1, 14), m = (int)vh::rint(0, 3); std::vector<int> ranks; for (int i = 0; i < n; i++) ranks.push_back(m == 0 ? (int)vh::rint(-3, 3) : m == 1 ? (int)vh::dint(INT32_MIN, INT32_MAX) : m == 2 ? i : 5);
    std::vector<Op> o; int L = (int)vh::rint(1, 40); for (int i = 0; i < L; i++) { int z = (int)vh::rint(0, 9); o.push_back({z < 5 ? 0 : z < 7 ? 1 : z - 5, z == 9 && vh::rint(0, 1) ? (int)(1000 + vh::rint(-4, 20)) : (int)vh::rint(0, n - 1)}); }
    run(ranks, o, k % 4 == 0);
  }
  { int n = 3000; std::vector<int> ranks; std::vector<Op> o; for (int i = 0; i < n; i++) { ranks.push_back(i); o.push_back({0, i}); } for (int i = 0; i < n; i += 3) o.push_back({1, i}); run(ranks, o, false); }
  return vh::finish();
}
