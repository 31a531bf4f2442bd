#include "vh.h"
#include <cmath>
#include <list>
#include <deque>
#include <set>
#include "/repo/src/include/math_utils/math_functions.h"
#include "/repo/src/math_utils/statistics.cpp"
#include "/repo/src/include/containers/Vector.h"
using namespace cuhksz;
typedef long double LD;
static bool near(LD got, LD want, LD scale) { return std::fabs(got - want) <= 1e-9L * (1 + std::fabs(scale)); }
static void chk(double got, LD want, LD scale, const char* what) { if (!near(got, want, scale)) { std::ostringstream o; o.precision(17); o << what << " is " << got << ", expected " << (double)want; vh::fail(o.str()); } }
template <class T> void one(const std::vector<T>& v0, int n) {
  std::vector<T> v = v0;
  vh::begin("statistics", [=] { std::ostringstream o; o.precision(17); for (auto x : v0) o << x << " "; return std::string(sizeof(T) == 4 ? "int" : "double") + " size=" + vh::str(n) + " of [" + o.str() + "]"; });
  LD s = 0, mx = 1; for (int i = 0; i < n; i++) { s += v[i]; mx = std::max(mx, std::fabs((LD)v[i])); }
  LD m = n ? s / n : 0, q = 0; for (int i = 0; i < n; i++) q += (v[i] - m) * (v[i] - m);
  LD sc = mx * std::max(n, 1), sq = q;
  const T* a = v.data();
  chk(sum(a, n), s, sc, "sum(arr, size)");
  auto f = [](T x) { return x / 2.0 + 1; };
  chk(sum(a, n, f), s / 2 + n, sc, "sum(arr, size, fn)");
  int calls = 0; LD last = 0; sum(a, n, [&](T x) { calls++; last = x; return 1; }); vh::eq(calls, std::max(n, 0), "number of calls of fn");
  if (n > 0) {
    chk(mean(a, n), m, mx, "mean(arr, size)");
    chk(variance(a, n), q / n, sq, "variance(arr, size)"); chk(stddev(a, n), std::sqrt(q / n), std::sqrt(sq), "stddev(arr, size)");
    if (n > 1) { chk(sample_variance(a, n), q / (n - 1), sq, "sample_variance(arr, size)"); chk(sample_stddev(a, n), std::sqrt(q / (n - 1)), std::sqrt(sq), "sample_stddev(arr, size)"); }
  }
  for (size_t i = 0; i < v.size(); i++) if (v[i] != v0[i]) vh::fail("the array was changed");
  std::vector<T> c(v0.begin(), v0.begin() + std::max(n, 0)); Vector<T> cv; std::list<T> cl(c.begin(), c.end()); for (T x : c) cv.push(x);
  chk(sum(c), s, sc, "sum(std::vector)"); chk(sum(cv), s, sc, "sum(Vector)"); chk(sum(cl), s, sc, "sum(std::list)");
  chk(sum(c, f), s / 2 + n, sc, "sum(std::vector, fn)"); chk(sum(cv, f), s / 2 + n, sc, "sum(Vector, fn)");
  if (n > 0) {
    chk(mean(c), m, mx, "mean(std::vector)"); chk(mean(cv), m, mx, "mean(Vector)"); chk(variance(c), q / n, sq, "variance(std::vector)"); chk(variance(cv), q / n, sq, "variance(Vector)"); chk(variance(cl), q / n, sq, "variance(std::list)");
    chk(stddev(c), std::sqrt(q / n), std::sqrt(sq), "stddev(std::vector)"); chk(stddev(cv), std::sqrt(q / n), std::sqrt(sq), "stddev(Vector)");
    if (n > 1) { chk(sample_variance(c), q / (n - 1), sq, "sample_variance(std::vector)"); chk(sample_variance(cv), q / (n - 1), sq, "sample_variance(Vector)"); chk(sample_stddev(c), std::sqrt(q / (n - 1)), std::sqrt(sq), "sample_stddev(std::vector)"); chk(sample_stddev(cv), std::sqrt(q / (n - 1)), std::sqrt(sq), "sample_stddev(Vector)"); }
  }
}
int main() {
  vh::init();
  for (int n = 0; n <= 6; n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= 5; for (long k = 0; k < tot; k++) { std::vector<int> v; std::vector<double> d; long z = k; for (int i = 0; i < n; i++) { v.push_back((int)(z % 5) - 2); d.push_back((double)(z % 5) * 0.5 - 1.25); z /= 5; } one(v, n); one(d, n); } }
  for (long k = 0; k < vh::scale(6000, 60000); k++) {
    int len = (int)vh::rint(0, 60), n = (int)vh::rint(0, len); std::vector<int> v; std::vector<double> d; long off = (k % 3 == 0) ? vh::rint(-30000000, 30000000) : 0, w = (long[]){1, 3, 100, 1000000, 4000000}[k % 5];
    for (int i = 0; i < len; i++) { v.push_back((int)(off + vh::rint(-w, w))); d.push_back(off + vh::rint(-w * 8, w * 8) / 8.0); }
    one(v, n); one(v, len); one(d, n); one(d, len);
  }
  for (int c : {0, 1, -1, 7, 46341, 65536, 1000000, -1000000, 100000000}) for (int n : {1, 2, 3, 10, 20}) { one(std::vector<int>(n, c), n); one(std::vector<double>(n, c + 0.25), n); std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(c + (i % 2)); one(v, n); }   // values close together, far from zero
  for (int n : {-1, -2, -1000, -2147483647}) {
    vh::begin("negative size", [=] { return "size=" + vh::str(n); }); int a[3] = {1, 2, 3}; double b[3] = {1, 2, 3};
    vh::eq(sum(a, n), 0, "sum"); vh::eq(sum(b, n), 0.0, "sum"); vh::eq(mean(a, n), 0.0, "mean"); vh::eq(mean(b, n), 0.0, "mean"); vh::eq(variance(a, n), 0.0, "variance"); vh::eq(variance(b, n), 0.0, "variance"); vh::eq(stddev(a, n), 0.0, "stddev"); vh::eq(stddev(b, n), 0.0, "stddev");
    vh::eq(sample_variance(a, n), 0.0, "sample_variance"); vh::eq(sample_variance(b, n), 0.0, "sample_variance"); vh::eq(sample_stddev(a, n), 0.0, "sample_stddev"); vh::eq(sample_stddev(b, n), 0.0, "sample_stddev");
  }
  return vh::finish();
}
