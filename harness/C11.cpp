#include "vh.h"
#include "/repo/src/include/math_utils/Matrix.h"
using cuhksz::Matrix;
// exact field arithmetic (integers mod 10007) so that reduce() can be judged exactly
struct GF {
  int v; static const int P = 10007;
  GF() = default; GF(int x) : v(((x % P) + P) % P) {} GF(double x) : GF((int)x) {}
  static int inv(int a) { int r = 1, e = P - 2; long b = a; while (e) { if (e & 1) r = (int)(r * b % P); b = b * b % P; e >>= 1; } return r; }
  bool operator==(const GF& o) const { return v == o.v; } bool operator!=(const GF& o) const { return v != o.v; }
  bool operator==(int o) const { return v == GF(o).v; } bool operator!=(int o) const { return v != GF(o).v; }
  GF operator+(const GF& o) const { return GF((v + o.v) % P); } GF operator-(const GF& o) const { return GF((v - o.v + P) % P); }
  GF operator*(const GF& o) const { return GF((int)((long)v * o.v % P)); } GF operator/(const GF& o) const { return *this * GF(inv(o.v)); }
  GF& operator+=(const GF& o) { return *this = *this + o; } GF& operator-=(const GF& o) { return *this = *this - o; } GF& operator*=(const GF& o) { return *this = *this * o; } GF& operator/=(const GF& o) { return *this = *this / o; }
};
std::ostream& operator<<(std::ostream& o, const GF& g) { return o << g.v; }
typedef std::vector<std::vector<int>> VI;
template <class T> struct O { int r, c; std::vector<std::vector<T>> e; O(int a, int b) : r(a), c(b), e(a, std::vector<T>(b, T(0))) {} };
template <class T> static O<T> of(const VI& v) { O<T> o((int)v.size(), (int)v[0].size()); for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) o.e[i][j] = T(v[i][j]); return o; }
template <class T> static O<T> mul(const O<T>& a, const O<T>& b) { O<T> r(a.r, b.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) for (int k = 0; k < a.c; k++) r.e[i][j] = r.e[i][j] + a.e[i][k] * b.e[k][j]; return r; }
template <class T> static O<T> lin(const O<T>& a, const O<T>& b, int s) { O<T> r(a.r, a.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) r.e[i][j] = s > 0 ? a.e[i][j] + b.e[i][j] : a.e[i][j] - b.e[i][j]; return r; }
template <class T> static void is(const Matrix<T>& m, const O<T>& o, const char* w) {
  // the shape is visible through == and multiplication only: compare with a matrix built entry by entry
  Matrix<T> x(o.r, o.c); for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) x[i][j] = o.e[i][j];
  vh::ok(m == x && x == m && !(m != x), std::string(w) + ": shape or entries differ from the expected matrix");
  for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) vh::eq(m[i][j], o.e[i][j], w);
}
static std::string show(const VI& v) { std::string s = "["; for (auto& r : v) s += vh::seq(r); return s + "]"; }
template <class T> static std::string text(const O<T>& a) { std::string s; for (int i = 0; i < a.r; i++) { for (int j = 0; j < a.c; j++) s += (j ? ", " : "") + std::to_string(a.e[i][j]); s += "\n"; } return s; }
template <class T> static void textual(const Matrix<T>& m, const O<T>& a) { vh::seq_eq(m.toString(), text(a), "toString"); vh::seq_eq(vh::str(m), text(a), "<<"); }
template <> void textual<GF>(const Matrix<GF>&, const O<GF>&) {}
template <class T> static void one(const VI& va, const VI& vb) {
  vh::begin("Matrix", [=] { return show(va) + " , " + show(vb); }, va.size() > 1);
  O<T> a = of<T>(va), b = of<T>(vb); Matrix<T> x(va), y(vb); is(x, a, "Matrix(vector)"); is(y, b, "Matrix(vector)"); textual(x, a);
  is(Matrix<T>(a.r, a.c), O<T>(a.r, a.c), "Matrix(n, m)"); is(Matrix<T>(a.r), O<T>(a.r, a.r), "Matrix(n)");
  Matrix<T> c(x); is(c, a, "copy"); c = y; is(c, b, "assignment"); c = x; is(c, a, "assignment"); c = *&c; is(c, a, "a = a");
  c[a.r - 1][a.c - 1] = c[a.r - 1][a.c - 1] + T(1); vh::ok(c != x && !(c == x), "a changed copy equals its original"); is(x, a, "original after a change of its copy");
  bool same = a.r == b.r && a.c == b.c && a.e == b.e; vh::ok((x == y) == same && (x != y) == !same, "== / !=");
  if (a.c == b.r) { is(x * y, mul(a, b), "a * b"); c = x; Matrix<T>& q = (c *= y); is(c, mul(a, b), "a *= b"); vh::ok(&q == &c, "*= returns its left operand"); }
  if (a.r == b.r && a.c == b.c) { is(x + y, lin(a, b, 1), "a + b"); is(x - y, lin(a, b, -1), "a - b"); c = x; c += y; is(c, lin(a, b, 1), "a += b"); c = x; c -= y; is(c, lin(a, b, -1), "a -= b"); }
  c = x; c += c; is(c, lin(a, a, 1), "a += a"); c -= c; is(c, O<T>(a.r, a.c), "a -= a");
  if (a.r == a.c) {
    c = x; c *= c; is(c, mul(a, a), "a *= a");
    O<T> p(a.r, a.r); for (int i = 0; i < a.r; i++) p.e[i][i] = T(1); is(Matrix<T>::idMat(a.r), p, "idMat");
    int top = std::is_same<T, GF>::value ? 70 : 5; for (int n = 0; n <= top; n++) { if (n < 10 || n > 60 || n % 7 == 0) { Matrix<T>& r = pow(x, n); is(r, p, "pow(a, n)"); delete &r; } p = mul(p, a); }
  }
  is(x, a, "left operand afterwards"); is(y, b, "right operand afterwards");
}
static O<GF> rref(O<GF> m) { int r = 0; for (int c = 0; c < m.c && r < m.r; c++) { int p = r; while (p < m.r && m.e[p][c] == 0) p++; if (p == m.r) continue; std::swap(m.e[p], m.e[r]); GF iv = GF(1) / m.e[r][c]; for (auto& z : m.e[r]) z *= iv; for (int i = 0; i < m.r; i++) if (i != r) { GF f = m.e[i][c]; for (int k = 0; k < m.c; k++) m.e[i][k] -= f * m.e[r][k]; } r++; } return m; }
static void red(const VI& v) {
  vh::begin("Matrix::reduce", [=] { return show(v); });
  O<GF> a = of<GF>(v); Matrix<GF> m(v); m.reduce(); O<GF> g(a.r, a.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) g.e[i][j] = m[i][j];
  int last = -1; for (int i = 0; i < a.r; i++) { int l = 0; while (l < a.c && g.e[i][l] == 0) l++; vh::ok(l == a.c || l > last, "reduce: not in row echelon form"); if (l < a.c) vh::ok(g.e[i][l] == 1, "reduce: leading entry is not 1"); last = l == a.c ? a.c : l; if (l == a.c) last = 1 << 20; }
  vh::ok(rref(a).e == rref(g).e, "reduce: the reduced system has other solutions");
}
static VI rmat(int r, int c, int lo, int hi) { VI v(r, std::vector<int>(c)); int z = (int)vh::rint(0, 3); for (auto& x : v) for (auto& y : x) y = z && vh::rint(0, z) ? 0 : (int)vh::rint(lo, hi); return v; }
int main() {
  vh::init(); long N = vh::scale(600, 20000);
  for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) for (int k = 1; k <= 3; k++) for (int t = 0; t < 12; t++) { VI a = rmat(r, c, -3, 3), b = rmat(c, k, -3, 3), d = rmat(r, c, -3, 3); one<int>(a, b); one<GF>(a, b); one<double>(a, b); one<int64_t>(a, d); one<double>(a, d); one<GF>(a, d); one<int>(a, a); }
  for (long t = 0; t < N; t++) { int r = (int)vh::rint(1, 9), c = (int)vh::rint(1, 9), k = (int)vh::rint(1, 9); one<GF>(rmat(r, c, -20, 20), rmat(c, k, -20, 20)); one<double>(rmat(r, r, -4, 4), rmat(r, k, -4, 4)); if (t % 7 == 0) one<GF>(rmat(r, r, -20, 20), rmat(r, r, -20, 20)); }
  { VI v; for (int x = 0; x < 19683; x++) { v.assign(3, std::vector<int>(3)); int y = x; for (int i = 0; i < 9; i++, y /= 3) v[i / 3][i % 3] = y % 3 - 1; red(v); } }
  for (long t = 0; t < 5 * N; t++) { int r = (int)vh::rint(1, 10), c = (int)vh::rint(1, 10); VI v = rmat(r, c, -3, 3); if (r > 1 && vh::rnd() % 3 == 0) { int i = (int)vh::rint(0, r - 1), j = (int)vh::rint(0, r - 1); for (int k = 0; k < c; k++) v[i][k] = 2 * v[j][k] + v[0][k]; } red(v); }
  Matrix<int> e(0, 0); e.reduce(); vh::seq_eq(e.toString(), "", "toString of the empty matrix"); vh::ok(e == Matrix<int>(0, 0) && e != Matrix<int>(1, 1), "empty matrices");
  return vh::finish();
}
