#include "vh.h"
#include "/repo/src/include/math_utils/Fraction.h"
using cuhksz::Fraction;
typedef __int128 L;
static L ab(L x) { return x < 0 ? -x : x; }
static L og(L a, L b) { a = ab(a); b = ab(b); while (b) { L t = a % b; a = b; b = t; } return a; }
struct Q { L n, d; };
static Q red(L n, L d) { if (d < 0) n = -n, d = -d; L g = og(n, d); return Q{n / g, d / g}; }
static bool fit(L x) { return x > -2147483648LL && x <= 2147483647LL; }
static std::string s(Q q) { return vh::str((long)q.n) + "/" + vh::str((long)q.d); }
static void is(Fraction f, Q q, const char* what) {
  if (f.getNumerator() != q.n || f.getDenominator() != q.d) vh::fail(std::string(what) + " is " + vh::str(f.getNumerator()) + "/" + vh::str(f.getDenominator()) + ", expected " + s(q));
}
static Fraction mk(Q q) { return Fraction((int)q.n, (int)q.d); }
static void one(int n, int d) {
  vh::begin("Fraction(n, d)", [=] { return vh::str(n) + ", " + vh::str(d); }, n && d != 1);
  if (d == 0) { vh::must_exit([=] { Fraction f(n, d); }, "Fraction with denominator 0"); return; }
  Q q = red(n, d); Fraction f(n, d); is(f, q, "Fraction(n, d)"); is(Fraction(n), Q{n, 1}, "Fraction(n)"); is(Fraction(), Q{0, 1}, "Fraction()");
  vh::seq_eq(vh::str(f), s(q), "operator<<");
  // self operations
  if (fit(q.n * q.d) && fit(2 * q.n * q.d) && fit(q.d * q.d) && fit(q.n * q.n)) {
    Fraction g = f; g += g; is(g, red(2 * q.n, q.d), "f += f"); g = f; g -= g; is(g, Q{0, 1}, "f -= f"); g = f; g *= g; is(g, red(q.n * q.n, q.d * q.d), "f *= f");
    if (n) { g = f; g /= g; is(g, Q{1, 1}, "f /= f"); }
    vh::ok(f == f && !(f != f) && f <= f && f >= f && !(f < f) && !(f > f), "reflexivity");
  }
}
static void two(int n1, int d1, int n2, int d2) {
  if (!d1 || !d2) return;
  Q a = red(n1, d1), b = red(n2, d2); Fraction x(n1, d1), y(n2, d2), t;
  vh::begin("Fraction arithmetic", [=] { return s(a) + " , " + s(b); }, a.n && b.n);
  L c1 = a.n * b.d, c2 = a.d * b.n, dd = a.d * b.d;
  if (fit(c1) && fit(c2) && fit(dd)) {
    if (fit(c1 + c2)) { is(x + y, red(c1 + c2, dd), "a + b"); t = x; t += y; is(t, red(c1 + c2, dd), "a += b"); }
    if (fit(c1 - c2)) { is(x - y, red(c1 - c2, dd), "a - b"); t = x; t -= y; is(t, red(c1 - c2, dd), "a -= b"); }
  }
  if (fit(a.n * b.n) && fit(dd)) { is(x * y, red(a.n * b.n, dd), "a * b"); t = x; t *= y; is(t, red(a.n * b.n, dd), "a *= b"); }
  if (fit(c1) && fit(c2) && b.n) { is(x / y, red(c1, c2), "a / b"); t = x; t /= y; is(t, red(c1, c2), "a /= b"); }
  vh::ok((x == y) == (c1 == c2), "a == b"); vh::ok((x != y) == (c1 != c2), "a != b");
  if (fit(c1) && fit(c2)) { vh::ok((x < y) == (c1 < c2), "a < b"); vh::ok((x > y) == (c1 > c2), "a > b"); vh::ok((x <= y) == (c1 <= c2), "a <= b"); vh::ok((x >= y) == (c1 >= c2), "a >= b"); }
  is(x, a, "left operand afterwards"); is(y, b, "right operand afterwards");
}
static void mixed(int v, int n, int d) {
  if (!d) return;
  Q b = red(n, d); Fraction y(n, d);
  vh::begin("int op Fraction", [=] { return vh::str(v) + " , " + s(b); }, v && b.n);
  if (fit((L)v * b.d)) {
    if (fit(v * b.d + b.n)) is(v + y, red(v * b.d + b.n, b.d), "v + f"), is(y + v, red(v * b.d + b.n, b.d), "f + v");
    if (fit(v * b.d - b.n)) is(v - y, red(v * b.d - b.n, b.d), "v - f");
    if (fit(b.n - v * b.d)) is(y - v, red(b.n - v * b.d, b.d), "f - v");
    if (b.n) is(v / y, red(v * b.d, b.n), "v / f"); 
    if (v) is(y / v, red(b.n, v * b.d), "f / v");
  }
  if (fit((L)v * b.n)) is(v * y, red(v * b.n, b.d), "v * f"), is(y * v, red(v * b.n, b.d), "f * v");
}
int main() {
  vh::init();
  int N = (int)vh::scale(40, 200), M = (int)vh::scale(9, 14);
  for (int n = -N; n <= N; n++) for (int d = -N; d <= N; d++) if (d || n % 13 == 0) one(n, d);
  for (int a = -M; a <= M; a++) for (int b = -M; b <= M; b++) for (int c = -M; c <= M; c++) { for (int d = 1; d <= M; d++) two(a, b, c, d); mixed(a, b, c); }
  for (long k = 0; k < vh::scale(300000, 4000000); k++) {
    int ba = (int)vh::rint(1, 31), bb = (int)vh::rint(1, 31), bc = (int)vh::rint(1, 31), bd = (int)vh::rint(1, 31);
    auto r = [](int b) { return (int)vh::dint(-(1L << b) + 1, (1L << b) - 1); };
    int a = r(ba), b = r(bb), c = r(bc), d = r(bd);
    if (b) one(a, b); two(a, b, c, d); mixed(a, c, d);
    if (k % 3 == 0) { int e = (int)vh::rint(1, 40); two(a % 1000 * e, b % 1000 * e, c % 1000, d % 1000); }
  }
  for (int z : {0, 1, -1, 5, 2147483647}) vh::must_exit([=] { Fraction f(z, 0); }, "denominator 0");
  vh::begin("division by zero", [] { return std::string("3/4 / 0"); });
  vh::must_exit([] { Fraction f(3, 4); f / Fraction(0); }, "f / 0"); vh::must_exit([] { Fraction f(3, 4); f /= 0; }, "f /= 0"); vh::must_exit([] { Fraction f(0, 4); 3 / f; }, "3 / f");
  return vh::finish();
}
