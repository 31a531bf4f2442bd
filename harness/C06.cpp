#include "vh.h"
#include "/repo/src/include/math_utils/math_functions.h"
typedef __int128 L;
static L ab(L x) { return x < 0 ? -x : x; }
static L og(L a, L b) { a = ab(a); b = ab(b); while (b) { L t = a % b; a = b; b = t; } return a; }
template <class A, class B> void g(A a, B b, const char* ty) {
  vh::begin("gcd", [=] { return std::string("<") + ty + "> a=" + vh::str((long)a) + " b=" + vh::str((long)b); }, a && b);
  auto r = cuhksz::gcd(a, b);
  if (ab((L)r) != og(a, b) || (a >= 0 && b >= 0 && r < 0)) vh::fail("gcd is " + vh::str((long)r) + ", expected " + vh::str((long)og(a, b)));
}
template <class A, class B> void l(A a, B b, const char* ty) {
  typedef typename std::common_type<A, B>::type R; typedef decltype(a * b) P;
  L prod = (L)a * (L)b; if (prod > (L)std::numeric_limits<P>::max() || prod <= (L)std::numeric_limits<P>::min() || (!a && !b)) return;
  vh::begin("lcm", [=] { return std::string("<") + ty + "> a=" + vh::str((long)a) + " b=" + vh::str((long)b); }, a && b);
  R r = cuhksz::lcm(a, b); L w = ab(prod) / og(a, b);
  if (ab((L)r) != w || (a >= 0 && b >= 0 && r < 0)) vh::fail("lcm is " + vh::str((long)r) + ", expected " + vh::str((long)w));
}
template <class A, class B> void both(A a, B b, const char* ty) { if (a == std::numeric_limits<A>::min() || b == std::numeric_limits<B>::min()) return; g(a, b, ty); l(a, b, ty); }
int main() {
  vh::init();
  int n = (int)vh::scale(130, 400);
  for (int a = -n; a <= n; a++) for (int b = -n; b <= n; b++) { both<int, int>(a, b, "int,int"); }
  for (int a = -40; a <= 40; a++) for (int b = -40; b <= 40; b++) { both<long, long>(a, b, "long,long"); both<int, long>(a, b, "int,long"); both<long, int>(a, b, "long,int"); both<short, int>(a, b, "short,int"); }
  for (long k = 0; k < vh::scale(200000, 3000000); k++) {
    int ba = (int)vh::rint(1, 31), bb = (int)vh::rint(1, 31);
    int a = (int)vh::dint(-(1L << ba) + 1, (1L << ba) - 1), b = (int)vh::dint(-(1L << bb) + 1, (1L << bb) - 1), c = (int)vh::rint(1, 1000);
    both<int, int>(a, b, "int,int"); if (std::abs((long)a * c) < (1L << 31) && std::abs((long)b * c) < (1L << 31)) both<int, int>(a * c, b * c, "int,int");
    int ca = (int)vh::rint(1, 62), cb = (int)vh::rint(1, 62);
    long x = vh::dint(-(1L << ca) + 1, (1L << ca) - 1), y = vh::dint(-(1L << cb) + 1, (1L << cb) - 1);
    both<long, long>(x, y, "long,long"); both<int, long>(a, y, "int,long"); both<long, int>(x, b, "long,int");
    both<long, long>((long)a * (c + 1), (long)b * (c + 1), "long,long");
  }
  for (int a : {2147483647, -2147483647, 0, 1, -1, 2147483646}) for (int b : {2147483647, -2147483647, 0, 1, -1, 65536}) both<int, int>(a, b, "int,int");
  return vh::finish();
}
