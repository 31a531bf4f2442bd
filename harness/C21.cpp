#include "vh.h"
#include <cmath>
#include <list>
#include "/repo/src/include/geometry/Point.h"
#include "/repo/src/include/geometry/Line.h"
#include "/repo/src/include/geometry/Circle.h"
#include "/repo/src/geometry/Line.cpp"
namespace cuhksz { double disToLine(Point<2> P, Line l); double disToSegment(Point<2> P, Line l); Point<2> getIntersection(const Line& l1, const Line& l2); }
using namespace cuhksz;
extern "C" const char* __asan_default_options() { return "detect_leaks=0"; }   // operator+ and the like return a copy of a heap object
typedef long double LD;
template <int N> std::vector<double> V(const Point<N>& p) { std::vector<double> r; for (int i = 0; i < N; i++) r.push_back(p[i]); return r; }
template <int N> Point<N> P(const std::vector<double>& v) { Point<N> p; for (int i = 0; i < N; i++) p[i] = v[i]; return p; }
static std::string vs(const std::vector<double>& v) { std::ostringstream o; o.precision(17); o << "("; for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << v[i]; return o.str() + ")"; }
static bool near(LD a, LD b, LD sc) { return std::fabs(a - b) <= 1e-9L * (1 + std::fabs(sc)); }
static void chk(double got, LD want, LD sc, const char* w) { if (!near(got, want, sc)) { std::ostringstream o; o.precision(17); o << w << " is " << got << ", expected " << (double)want; vh::fail(o.str()); } }
static void same(const std::vector<double>& g, const std::vector<double>& w, const char* what) { if (g != w) vh::fail(std::string(what) + " is " + vs(g) + ", expected " + vs(w)); }
static void close(const std::vector<double>& g, const std::vector<double>& w, const char* what) { for (size_t i = 0; i < w.size(); i++) if (g.size() != w.size() || !(std::fabs(g[i] - w[i]) <= 1e-12 * std::fabs(w[i]))) vh::fail(std::string(what) + " is " + vs(g) + ", expected " + vs(w)); }
template <int N> void alg(const std::vector<double>& a, const std::vector<double>& b, double k) {
  vh::begin("Point", [=] { std::ostringstream o; o.precision(17); o << "N=" << N << " a=" << vs(a) << " b=" << vs(b) << " k=" << k; return o.str(); });
  Point<N> z; same(V(z), std::vector<double>(N, 0.0), "Point()");
  const Point<N> x = P<N>(a), y = P<N>(b); Point<N> c(x); same(V(c), a, "copy"); c = y; same(V(c), b, "assignment"); c = *&c; same(V(c), b, "self assignment");
  c[N - 1] = 42; b.size(); if (c[N - 1] != 42 || y[N - 1] != b[N - 1]) vh::fail("operator[] does not give access to its own coordinate"); c = x;
  std::vector<double> s, d, m, q; LD dd = 0, ll = 0, sc = 0; bool e = true; for (int i = 0; i < N; i++) { s.push_back(a[i] + b[i]); d.push_back(a[i] - b[i]); m.push_back(a[i] * k); q.push_back(a[i] / k); dd += (LD)a[i] * b[i]; ll += (LD)a[i] * a[i]; sc += std::fabs(a[i] * b[i]); if (std::fabs(a[i] - b[i]) > 1e-6) e = false; }
  same(V(x + y), s, "a + b"); same(V(x - y), d, "a - b"); same(V(x * k), m, "a * k"); same(V(k * x), m, "k * a"); if (k != 0) close(V(x / k), q, "a / k");
  same(V(x), a, "left operand afterwards"); same(V(y), b, "right operand afterwards");
  c = x; Point<N>& r1 = (c += y); same(V(c), s, "a += b"); if (&r1 != &c) vh::fail("+= does not return its object");
  c = x; Point<N>& r2 = (c -= y); same(V(c), d, "a -= b"); if (&r2 != &c) vh::fail("-= does not return its object");
  c = x; Point<N>& r3 = (c *= k); same(V(c), m, "a *= k"); if (&r3 != &c) vh::fail("*= does not return its object");
  if (k != 0) { c = x; Point<N>& r4 = (c /= k); close(V(c), q, "a /= k"); if (&r4 != &c) vh::fail("/= does not return its object"); }
  c = x; c += c; for (int i = 0; i < N; i++) if (c[i] != a[i] + a[i]) vh::fail("a += a"); c -= c; for (int i = 0; i < N; i++) if (c[i] != 0) vh::fail("a -= a");
  for (int j = 0; j < N; j++) { c = x; c *= c[j]; for (int i = 0; i < N; i++) if (c[i] != a[i] * a[j]) vh::fail("a *= a[" + vh::str(j) + "]"); if (a[j] != 0) { c = x; c /= c[j]; for (int i = 0; i < N; i++) if (!(std::fabs(c[i] - a[i] / a[j]) <= 1e-12 * std::fabs(a[i] / a[j]))) vh::fail("a /= a[" + vh::str(j) + "]"); } }
  chk(x * y, dd, sc, "a * b"); chk(dot(x, y), dd, sc, "dot(a, b)");
  vh::eq(x == y, e, "a == b"); vh::eq(x != y, !e, "a != b"); vh::eq(x < y, a < b, "a < b"); vh::eq(x <= y, a <= b, "a <= b"); vh::eq(x > y, a > b, "a > b"); vh::eq(x >= y, a >= b, "a >= b");
  c = x; chk(c.len(), std::sqrt(ll), std::sqrt(ll), "len()"); same(V(c), a, "the point after len()");
  if (ll > 1e-12) { c.normalize(); for (int i = 0; i < N; i++) chk(c[i], a[i] / std::sqrt(ll), 1, "coordinate after normalize()"); }
  std::ostringstream o, w; o << x; w << "(" << a[0]; for (int i = 1; i < N; i++) w << ", " << a[i]; w << ")"; vh::eq(o.str(), w.str(), "operator<<");
}
static LD D(LD x, LD y) { return std::sqrt(x * x + y * y); }
static void plane(double ax, double ay, double vx, double vy, double bx, double by, double ux, double uy) {
  vh::begin("lines", [=] { std::ostringstream o; o.precision(17); o << "line A=(" << ax << "," << ay << ") v=(" << vx << "," << vy << "), point / other line B=(" << bx << "," << by << ") u=(" << ux << "," << uy << ")"; return o.str(); });
  Point<2> A(ax, ay), v(vx, vy), B(bx, by), u(ux, uy); const Line l(A, v), l2(B, u);
  chk(cross(v, u), (LD)vx * uy - (LD)vy * ux, std::fabs(vx * uy) + std::fabs(vy * ux), "cross");
  LD n = D(vx, vy); if (n == 0) return;
  Line c(l); chk(c.len(), n, n, "Line::len"); Line c2(l2); c2 = l; chk(c2.len(), n, n, "Line::len after assignment");
  LD sc = std::fabs(ax) + std::fabs(ay) + std::fabs(bx) + std::fabs(by) + n;
  LD wx = (LD)bx - ax, wy = (LD)by - ay, e = vx * wx + vy * wy, t = e / (n * n);
  auto at = [&](LD t) { return D(wx - t * vx, wy - t * vy); };
  LD dl = at(t), ds = at(t < 0 ? 0 : t > 1 ? 1 : t);
  chk(disToLine(B, l), dl, sc, "disToLine"); chk(disToLine(B, c2), dl, sc, "disToLine of the assigned line");
  double g = disToSegment(B, l); if (!(g <= ds + 1e-9L * (1 + sc)) || !(ds * ds <= (LD)g * g + 1e-12L / (n * n) + 1e-9L * (1 + sc * sc))) { std::ostringstream o; o.precision(17); o << "disToSegment is " << g << ", expected " << (double)ds; vh::fail(o.str()); }
  LD cr = (LD)vx * uy - (LD)vy * ux; LD un = D(ux, uy);
  if (un > 0 && std::fabs(cr) > 1e-3 * n * un) {
    Point<2> p = getIntersection(l, l2); LD m = 1e3 * (1 + sc + un); LD d1 = std::fabs(vx * (p[1] - ay) - vy * (p[0] - ax)) / n, d2 = std::fabs(ux * (p[1] - by) - uy * (p[0] - bx)) / un;
    if (!(d1 <= 1e-9L * m) || !(d2 <= 1e-9L * m)) { std::ostringstream o; o.precision(17); o << "getIntersection gives " << p << ", at distance " << (double)d1 << " and " << (double)d2 << " from the lines"; vh::fail(o.str()); }
  }
}
static void circle(double ox, double oy, double r, double rad) {
  vh::begin("Circle", [=] { std::ostringstream o; o.precision(17); o << "O=(" << ox << "," << oy << ") r=" << r << " rad=" << rad; return o.str(); });
  Point<2> O(ox, oy); Circle a, b(r), c(O), d(O, r);
  struct { Circle* c; double x, y, r; } k[] = {{&a, 0, 0, 1}, {&b, 0, 0, r}, {&c, ox, oy, 1}, {&d, ox, oy, r}};
  for (auto& q : k) {
    LD s = (LD)q.r * q.r; double g = q.c->getArea(); if (!(g >= 3.1415926L * s * (1 - 1e-12L) && g <= 3.1415927L * s * (1 + 1e-12L))) vh::fail("getArea is " + vh::str(g) + " for radius " + vh::str(q.r));
    double h = q.c->getPerimeter(); LD lo = 2 * 3.1415926L * q.r, hi = 2 * 3.1415927L * q.r; if (!(h >= std::min(lo, hi) - 1e-9L * std::fabs(lo) && h <= std::max(lo, hi) + 1e-9L * std::fabs(lo))) vh::fail("getPerimeter is " + vh::str(h) + " for radius " + vh::str(q.r));
    Point<2> p = q.c->getPoint(rad); chk(p[0], q.x + (LD)q.r * std::cos(rad), std::fabs(q.x) + std::fabs(q.r), "x of getPoint"); chk(p[1], q.y + (LD)q.r * std::sin(rad), std::fabs(q.y) + std::fabs(q.r), "y of getPoint");
  }
}
template <int N> void many(long k) {
  double w = (double[]){1, 3, 1000, 1e6}[k % 4], f = k % 2 ? 1 : 8;
  std::vector<double> a, b; for (int i = 0; i < N; i++) { a.push_back(vh::rint(-(long)(w * f), (long)(w * f)) / f); b.push_back(vh::rnd() % 3 ? a[i] : vh::rint(-(long)(w * f), (long)(w * f)) / f); if (vh::rnd() % 6 == 0) b[i] = a[i] + (double[]){1e-7, -1e-7, 2e-6, -2e-6}[vh::rnd() % 4]; }
  alg<N>(a, b, vh::rnd() % 5 ? vh::rint(-24, 24) / 8.0 : (double[]){0, 1e-3, -1, 1e5, 0.1}[vh::rnd() % 5]);
}
int main() {
  vh::init();
  double g[] = {-2, -1, -0.5, 0, 0.5, 1, 3}; for (double a : g) for (double b : g) { alg<1>({a}, {b}, b); for (double c : g) for (double d : g) alg<2>({a, b}, {c, d}, d); }
  vh::begin("constructors", [] { return std::string("Point<1>(1.5), Point<2>(1.5, -2), Point<3>(1.5, -2, 7)"); }); same(V(Point<1>(1.5)), {1.5}, "Point<1>(1.5)"); same(V(Point<2>(1.5, -2)), {1.5, -2}, "Point<2>(1.5, -2)"); same(V(Point<3>(1.5, -2, 7)), {1.5, -2, 7}, "Point<3>(1.5, -2, 7)");
  for (long k = 0; k < vh::scale(3000, 40000); k++) { many<1>(k); many<2>(k); many<3>(k); many<4>(k); many<7>(k); many<17>(k); if (k % 20 == 0) { many<33>(k); many<130>(k); } }
  double h[] = {-2, -1, 0, 1, 2}; for (double vx : h) for (double vy : h) for (double bx : h) for (double by : h) for (double ux : {-1.0, 0.0, 2.0}) for (double uy : h) plane(0.5, -1, vx, vy, bx, by, ux, uy);
  for (long k = 0; k < vh::scale(60000, 900000); k++) { double w = (double[]){1, 10, 100, 1000}[k % 4], z = (double[]){1, 1, 1e-3, 1e-5, 1, 1e3, 1}[k % 7]; auto r = [&] { return vh::rint(-(long)(w * 16), (long)(w * 16)) / 16.0; }; double vx = r() * z, vy = r() * z, ax = r(), ay = r(), bx = r(), by = r(); if (k % 5 == 0) { double t = vh::rint(-16, 32) / 16.0; bx = ax + t * vx; by = ay + t * vy; if (k % 2) { bx -= vy; by += vx; } } double y = k % 2 ? z : 1; plane(ax, ay, vx, vy, bx, by, r() * y, r() * y); }
  for (long k = 0; k < vh::scale(4000, 40000); k++) circle(vh::rint(-800, 800) / 8.0, vh::rint(-800, 800) / 8.0, vh::rint(0, 800) / 8.0, vh::rint(-100, 100) / 8.0);
  return vh::finish();
}
