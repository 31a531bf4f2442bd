#include "vh.h"
#include "/repo/src/include/math_utils/BigNum.h"
using cuhksz::BigNum;
// oracle: schoolbook arithmetic on decimal strings (magnitudes without leading zeros, "" = 0)
typedef std::string S;
static S strip(S a) { size_t i = 0; while (i < a.size() && a[i] == '0') i++; return a.substr(i); }
static int mcmp(const S& a, const S& b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; int c = a.compare(b); return c < 0 ? -1 : c > 0; }
static S madd(const S& a, const S& b) { S r; int c = 0; for (size_t i = 0; i < std::max(a.size(), b.size()) || c; i++) { int d = c + (i < a.size() ? a[a.size() - 1 - i] - '0' : 0) + (i < b.size() ? b[b.size() - 1 - i] - '0' : 0); r.insert(r.begin(), (char)('0' + d % 10)); c = d / 10; } return strip(r); }
static S msub(const S& a, const S& b) { S r; int c = 0; for (size_t i = 0; i < a.size(); i++) { int d = a[a.size() - 1 - i] - '0' - c - (i < b.size() ? b[b.size() - 1 - i] - '0' : 0); c = d < 0; if (d < 0) d += 10; r.insert(r.begin(), (char)('0' + d)); } return strip(r); }
static S mmul(const S& a, const S& b) { std::vector<int> v(a.size() + b.size() + 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) { v[i + j] += (a[a.size() - 1 - i] - '0') * (b[b.size() - 1 - j] - '0'); } int c = 0; S r; for (size_t i = 0; i < v.size(); i++) { c += v[i]; r.insert(r.begin(), (char)('0' + c % 10)); c /= 10; } return strip(r); }
struct Z { bool n; S m; };
static Z zz(S s) { Z z; z.n = s[0] == '-'; z.m = strip(z.n ? s.substr(1) : s); if (z.m.empty()) z.n = false; return z; }
static S out(const Z& z) { return z.m.empty() ? "0" : (z.n ? "-" : "") + z.m; }
static Z neg(Z z) { if (!z.m.empty()) z.n = !z.n; return z; }
static Z add(const Z& a, const Z& b) { if (a.n == b.n) return Z{a.n, madd(a.m, b.m)}; int c = mcmp(a.m, b.m); if (!c) return Z{false, ""}; return c > 0 ? Z{a.n, msub(a.m, b.m)} : Z{b.n, msub(b.m, a.m)}; }
static Z mul(const Z& a, const Z& b) { S m = mmul(a.m, b.m); return Z{!m.empty() && a.n != b.n, m}; }
static int cmp(const Z& a, const Z& b) { Z d = add(a, neg(b)); return d.m.empty() ? 0 : d.n ? -1 : 1; }
static void dirty() { volatile int a[900]; for (int i = 0; i < 900; i++) a[i] = -7 - i; }
template <int M> static void is(const BigNum<M>& x, const Z& z, const char* w) {
  vh::seq_eq(x.toString(), out(z), w); vh::seq_eq(toString(x), out(z), w); vh::seq_eq(vh::str(x), out(z), w);
  for (int i = 0; i < M; i++) vh::eq(x[i], i < (int)z.m.size() ? z.m[z.m.size() - 1 - i] - '0' : 0, w);
}
template <int M> static void pair(const S& sa, const S& sb) {
  Z a = zz(sa), b = zz(sb);
  if ((int)a.m.size() > M || (int)b.m.size() > M || (int)sa.size() - (sa[0] == '-') > M || (int)sb.size() - (sb[0] == '-') > M) return;
  vh::begin("BigNum", [=] { return "MAX_SIZE=" + vh::str(M) + " " + sa + " , " + sb; }, !a.m.empty() && !b.m.empty());
  dirty(); BigNum<M> x(sa), y(sb), t; is(t, Z{false, ""}, "BigNum()"); is(x, a, "BigNum(string)"); is(y, b, "BigNum(string)");
  Z s = add(a, b), d = add(a, neg(b)), p = mul(a, b); int c = cmp(a, b);
  if ((int)s.m.size() <= M) { is(x + y, s, "a + b"); t = x; t += y; is(t, s, "a += b"); }
  if ((int)d.m.size() <= M) { is(x - y, d, "a - b"); t = x; t -= y; is(t, d, "a -= b"); }
  if ((int)p.m.size() <= M) { is(x * y, p, "a * b"); t = x; t *= y; is(t, p, "a *= b"); }
  vh::ok((x < y) == (c < 0) && (x <= y) == (c <= 0) && (x > y) == (c > 0) && (x >= y) == (c >= 0) && (x == y) == (c == 0) && (x != y) == (c != 0), "comparison");
  int ca = mcmp(a.m, b.m), g = cmp(x, y), h = cmp(x, y, true); vh::ok((g < 0) == (c < 0) && (g > 0) == (c > 0), "cmp(a, b)"); vh::ok((h < 0) == (ca < 0) && (h > 0) == (ca > 0), "cmp(a, b, true)");
  is(-x, neg(a), "-a"); is(x.abs(), Z{false, a.m}, "a.abs()"); is(abs(x), Z{false, a.m}, "abs(a)");
  Z one = zz("1"), up = add(a, one), dn = add(a, zz("-1")), a2 = add(a, a), aa = mul(a, a);
  if ((int)up.m.size() <= M) { t = x; is(t++, a, "a++"); is(t, up, "a after a++"); t = x; is(++t, up, "++a"); is(t, up, "a after ++a"); }
  if ((int)dn.m.size() <= M) { t = x; is(t--, a, "a--"); is(t, dn, "a after a--"); t = x; is(--t, dn, "--a"); is(t, dn, "a after --a"); }
  if ((int)a2.m.size() <= M) { t = x; t += t; is(t, a2, "a += a"); is(x + x, a2, "a + a"); }
  t = x; t -= t; is(t, Z{false, ""}, "a -= a"); is(x - x, Z{false, ""}, "a - a"); t = x; t = t; is(t, a, "a = a");
  if ((int)aa.m.size() <= M) { t = x; t *= t; is(t, aa, "a *= a"); }
  BigNum<M> u(x); is(u, a, "copy"); u = y; is(u, b, "assignment"); u = x; is(u, a, "assignment");
  is(x, a, "left operand afterwards"); is(y, b, "right operand afterwards");
}
template <int M> static void small(const S& sa, int64_t k) {
  Z a = zz(sa), b = zz(vh::str(k)); if ((int)a.m.size() > M || (int)b.m.size() > M || (int)sa.size() - (sa[0] == '-') > M) return;
  vh::begin("BigNum with int64_t", [=] { return "MAX_SIZE=" + vh::str(M) + " " + sa + " , " + vh::str(k); }, k != 0);
  dirty(); BigNum<M> x(sa), t; is(BigNum<M>(k), b, "BigNum(int64_t)");
  Z s = add(a, b), d = add(a, neg(b)), p = mul(a, b);
  if ((int)s.m.size() <= M) { is(x + k, s, "a + k"); t = x; t += k; is(t, s, "a += k"); }
  if ((int)d.m.size() <= M) { is(x - k, d, "a - k"); t = x; t -= k; is(t, d, "a -= k"); }
  if ((int)p.m.size() <= M) { is(x * k, p, "a * k"); t = x; t *= k; is(t, p, "a *= k"); }
}
static S rnum(int maxd) {
  int n = (int)vh::rint(1, maxd); S s; int mode = (int)vh::rint(0, 5);
  for (int i = 0; i < n; i++) s += mode == 0 ? '9' : mode == 1 ? '0' : mode == 2 ? (vh::rnd() % 2 ? '9' : '0') : mode == 3 ? (i ? '0' : '1') : (char)('0' + vh::rnd() % 10);
  return (vh::rnd() % 2 ? "-" : "") + s;
}
template <int M> static void many(long k, int maxd) {
  for (long i = 0; i < k; i++) {
    S a = rnum(std::min(M, maxd)), b = vh::rnd() % 8 ? rnum(std::min(M, maxd)) : a; if (vh::rnd() % 16 == 0 && !b.empty()) b.back() = '0' + vh::rnd() % 10;
    pair<M>(a, b); int w = (int)vh::rint(1, 62); small<M>(a, vh::dint(-(1LL << w), (1LL << w) - 1));
  }
}
int main() {
  vh::init();
  for (int i = -130; i <= 130; i++) for (int j = -130; j <= 130; j++) { pair<3>(vh::str(i), vh::str(j)); if (i % 5 == 0) pair<6>(vh::str(i), vh::str(j * 7)), small<4>(vh::str(i), j); }
  for (int i = -99; i <= 99; i++) for (int j = -20; j <= 20; j++) pair<2>(vh::str(i), vh::str(j)), small<2>(vh::str(i), j);
  for (S s : {"0", "-0", "00", "-000", "007", "-0100"}) for (S t : {"0", "5", "-5", "0005"}) pair<8>(s, t);
  for (int64_t k : {INT64_MIN, INT64_MAX, INT64_MIN + 1, (int64_t)1000000000000000000LL, (int64_t)-1, (int64_t)0}) small<40>("123456789012345678901234567890", k), small<19>("0", k), small<20>("-9223372036854775807", k);
  many<4>(vh::scale(4000, 60000), 4); many<12>(vh::scale(4000, 60000), 12); many<40>(vh::scale(3000, 40000), 22); many<300>(vh::scale(150, 3000), 151); many<777>(vh::scale(10, 300), 400);
  return vh::finish();
}
