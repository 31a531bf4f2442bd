#include "vh.h"
#include "/repo/src/include/math_utils/math_functions.h"
typedef __int128 L;
template <class T> void fa(T n, const char* ty) {
  L w = 1; for (T i = 2; i <= n; i++) { w *= i; if (w > (L)std::numeric_limits<T>::max()) return; }
  vh::begin("factorial", [=] { return std::string(ty) + " " + vh::str((long)n); }, n > 2); vh::eq((long)cuhksz::factorial<T>(n), (long)w);
}
template <class T> void pe(T n, T r, const char* ty) {
  L w = 1; for (T i = 0; i < r; i++) { w *= n - i; if (w > (L)std::numeric_limits<T>::max()) return; }
  vh::begin("permutation", [=] { return std::string(ty) + " n=" + vh::str((long)n) + " r=" + vh::str((long)r); }, r > 1); vh::eq((long)cuhksz::permutation<T>(n, r), (long)w);
}
template <class T> void bi(T n, T r, const char* ty) {
  T k = r < n - r ? r : n - r; L w = 1; for (T i = 1; i <= k; i++) { w = w * (n - k + i) / i; if (w > (L)std::numeric_limits<T>::max()) return; }
  vh::begin("binomial", [=] { return std::string(ty) + " n=" + vh::str((long)n) + " r=" + vh::str((long)r); }, r > 1); vh::eq((long)cuhksz::binomial<T>(n, r), (long)w);
}
int main() {
  vh::init();
  for (int n = 0; n <= 13; n++) fa<int>(n, "int"); for (long n = 0; n <= 21; n++) fa<long>(n, "long"); for (short n = 0; n <= 7; n++) fa<short>(n, "short");
  for (int n = 0; n <= 400; n++) for (int r = 0; r <= n && r < 40; r++) { pe<int>(n, r, "int"); pe<long>(n, r, "long"); }
  for (int n = 0; n <= 300; n++) for (int r = 0; r <= n; r++) { bi<int>(n, r, "int"); bi<long>(n, r, "long"); }
  for (long k = 0; k < vh::scale(20000, 200000); k++) { long n = vh::dint(0, 1L << vh::rint(1, 40)); long r = vh::dint(0, n < 8 ? n : 8); pe<long>(n, r, "long"); if (n < 2147483648L) pe<int>((int)n, (int)r, "int"); long m = vh::dint(0, 3000); long q = vh::dint(0, m < 6 ? m : 6); bi<long>(m, q, "long"); bi<long>(m, m - q, "long"); bi<int>((int)m, (int)q, "int"); }
  for (int n : {46340, 65535, 65536, 99999}) { bi<int>(n, 1, "int"); bi<int>(n, n - 1, "int"); bi<int>(n, n, "int"); bi<long>(n, 2, "long"); bi<int>(n, 2, "int"); }
  vh::begin("invalid arguments", [] { return std::string("negative / r > n"); });
  vh::must_exit([] { cuhksz::factorial(-1); }, "factorial(-1)"); vh::must_exit([] { cuhksz::permutation(3, 4); }, "permutation(3,4)"); vh::must_exit([] { cuhksz::permutation(-1, 0); }, "permutation(-1,0)"); vh::must_exit([] { cuhksz::permutation(4, -1); }, "permutation(4,-1)");
  vh::must_exit([] { cuhksz::binomial(3, 4); }, "binomial(3,4)"); vh::must_exit([] { cuhksz::binomial(-2, 0); }, "binomial(-2,0)"); vh::must_exit([] { cuhksz::binomial(5, -1); }, "binomial(5,-1)"); vh::must_exit([] { cuhksz::binomial(-3, -4); }, "binomial(-3,-4)");
  return vh::finish();
}
