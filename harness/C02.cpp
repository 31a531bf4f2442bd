#include "vh.h"
#include "/repo/src/algorithm/edit_distance.cpp"
using namespace std;
static int oracle(const string& a, const string& b) {   // memoised recursion on the definition
  map<pair<int,int>, int> memo;
  function<int(int,int)> go = [&](int i, int j) -> int {
    if (!i) return j; if (!j) return i; auto k = make_pair(i, j); auto it = memo.find(k); if (it != memo.end()) return it->second;
    int r = go(i - 1, j - 1) + (a[i-1] != b[j-1]); r = min(r, go(i - 1, j) + 1); r = min(r, go(i, j - 1) + 1); return memo[k] = r; };
  return go(a.size(), b.size());
}
static void one(const string& a, const string& b) {
  vh::begin("editDistance", [=] { return vh::show(a) + ", " + vh::show(b); }, a.size() > 1 && b.size() > 1);
  vh::eq(cuhksz::editDistance(a, b), oracle(a, b), "distance");
}
int main() {
  vh::init();
  vh::all_strings((int)vh::scale(5, 6), 2, [&](const string& a) { vh::all_strings((int)vh::scale(5, 6), 2, [&](const string& b) { one(a, b); }); });
  vh::all_strings(3, 3, [&](const string& a) { vh::all_strings(3, 3, [&](const string& b) { one(a, b); }); });
  for (long k = 0; k < vh::scale(3000, 60000); k++) {
    int al = (int)vh::rint(1, 4); string a = vh::rstr((int)vh::dint(0, 24), al), b;
    if (vh::rnd() & 1) b = vh::rstr((int)vh::dint(0, 24), al);
    else { b = a; for (int e = (int)vh::rint(0, 4); e--;) { if (vh::rnd() % 3 == 0) b.insert(b.begin() + vh::rnd() % (b.size() + 1), (char)vh::rnd()); else if (!b.empty()) { if (vh::rnd() & 1) b.erase(vh::rnd() % b.size(), 1); else b[vh::rnd() % b.size()] = (char)vh::rnd(); } } }
    if (vh::rnd() % 8 == 0) { a = vh::rbytes(a.size()); }
    one(a, b);
  }
  for (int n : {40, 70, 130}) { string a = vh::rstr(n, 3), b = vh::rstr(n / 3, 3); one(a, b); one(b, a); one(a, a); one(a, string()); }
  { string a = vh::rstr(300, 2), b = vh::rstr(290, 2); one(a, b); }
  return vh::finish();
}
