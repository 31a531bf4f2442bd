#include "vh.h"
#include "/repo/src/math_utils/binary_pow.cpp"
typedef __int128 L;
// b^e if it fits in 64 bits signed
static bool pw(L b, long e, L lim, L& r) { r = 1; if (e == 0) return true; if (b == 0 || b == 1) { r = b; return true; } if (b == -1) { r = e & 1 ? -1 : 1; return true; } for (long i = 0; i < e; i++) { r *= b; if (r > lim || r < -lim - 1) return false; } return true; }
static void bp(int64_t b, int e) {
  L w; if (!pw(b, e, INT64_MAX, w)) return;
  vh::begin("binaryPow", [=] { return vh::str(b) + " ^ " + vh::str(e); }, e > 1 && b > 1);
  vh::eq(cuhksz::binaryPow(b, e), (int64_t)w, "power");
}
template <class T, class I> void gp(T b, I e, const char* ty) {
  L w; if (!pw(b, (long)e, (L)std::numeric_limits<T>::max(), w)) return;
  vh::begin("genericBinaryPow", [=] { return std::string(ty) + " " + vh::str((long)b) + " ^ " + vh::str((long)e); }, e > 1 && b > 1);
  vh::eq((long)cuhksz::genericBinaryPow<T, I>(b, e), (long)w, "power");
}
// non-commutative element: words under concatenation; the result must be the word repeated e times
struct W1 { std::string s; W1(int i) : s(i == 1 ? "" : "?") {} W1(const std::string& t) : s(t) {} W1& operator*=(const W1& o) { s += o.s; return *this; } };
struct W2 { std::string s; W2(const std::string& t) : s(t) {} W2& operator*=(const W2& o) { s += o.s; return *this; } };
// 2x2 integer matrices mod p, 64-bit exponents
struct M2 { uint64_t a[4]; M2(int i) { a[0] = a[3] = i; a[1] = a[2] = 0; } M2& operator*=(const M2& o) { M2 r(0); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { uint64_t s = 0; for (int k = 0; k < 2; k++) s = (s + a[2*i+k] * o.a[2*k+j]) % 1000003; r.a[2*i+j] = s; } *this = r; return *this; } };
int main() {
  vh::init();
  for (int b = -1100; b <= 1100; b++) for (int e = 0; e <= 70; e++) bp(b, e);
  for (int b : {0, 1, -1}) for (int e : {0, 1, 2, 3, 1000, 1001, 2147483647, 2147483646}) bp(b, e);
  for (long k = 0; k < vh::scale(100000, 1000000); k++) { int e = (int)vh::dint(0, 64); int bits = e <= 1 ? 63 : 63 / e + 1; int64_t b = vh::dint(-(int64_t)((1UL << bits) - 1), (int64_t)((1UL << bits) - 1)); bp(b, e); gp<long, int>(b, e, "long,int"); gp<long, long>(b, e, "long,long"); }
  bp(INT64_MIN, 1); bp(-2, 63); bp(2, 62); bp(10, 18); bp(-8, 21);
  for (int b = -300; b <= 300; b++) for (int e = 0; e <= 40; e++) { gp<int, int>(b, e, "int,int"); gp<long, int>(b, e, "long,int"); gp<int, long>(b, e, "int,long"); gp<long, short>(b, e, "long,short"); gp<long, unsigned>(b, e, "long,unsigned"); }
  for (int e = 0; e <= vh::scale(600, 3000); e++) {
    std::string u = e % 3 ? "ab" : "x"; std::string w; for (int i = 0; i < e; i++) w += u;
    vh::begin("genericBinaryPow words", [=] { return "e=" + vh::str(e); });
    vh::seq_eq(cuhksz::genericBinaryPow<W1, int>(W1(u), e).s, w); if (e > 0) { vh::seq_eq(cuhksz::genericBinaryPow<W2, int>(W2(u), e).s, w); vh::seq_eq(cuhksz::genericBinaryPow<W2, long>(W2(u), e).s, w); }
  }
  for (int k = 0; k < vh::scale(2000, 20000); k++) {
    M2 m(1); for (int i = 0; i < 4; i++) m.a[i] = vh::rnd() % 1000003; long e = vh::dint(1, 1L << vh::rint(1, 40));
    M2 r(1), s = m; for (long x = e; x; x >>= 1) { if (x & 1) r *= s; s *= s; }   // left-to-right reference (powers of one matrix commute)
    vh::begin("genericBinaryPow matrix", [=] { return "e=" + vh::str(e); });
    M2 g = cuhksz::genericBinaryPow<M2, long>(m, e); for (int i = 0; i < 4; i++) vh::eq(g.a[i], r.a[i], "entry");
  }
  vh::begin("negative exponent", [] { return std::string("binaryPow(3,-1)"); });
  vh::must_exit([] { cuhksz::binaryPow(3, -1); }, "binaryPow(3,-1)"); vh::must_exit([] { cuhksz::binaryPow(1, -5); }, "binaryPow(1,-5)"); vh::must_exit([] { cuhksz::binaryPow(2, -2147483647); }, "binaryPow(2,-2147483647)");
  vh::must_exit([] { cuhksz::genericBinaryPow<long, int>(3, -1); }, "genericBinaryPow(3,-1)"); vh::must_exit([] { cuhksz::genericBinaryPow<W2, int>(W2("a"), 0); }, "genericBinaryPow(W2,0)"); vh::must_exit([] { cuhksz::genericBinaryPow<W2, int>(W2("a"), -3); }, "genericBinaryPow(W2,-3)");
  return vh::finish();
}
