#include "vh.h"
#include "/repo/src/algorithm/kmp.cpp"
using namespace std;
static int oracle(const string& b, const string& p, size_t st) {
  for (size_t s = st; s + p.size() <= b.size() && s <= b.size(); s++) if (b.compare(s, p.size(), p) == 0) return (int)s;
  return -1;
}
static void one(const string& b, const string& p, size_t st) {
  vh::begin("kmpSearch", [=] { return "base=" + vh::show(b) + " pattern=" + vh::show(p) + " start=" + vh::str(st); }, p.size() > 1 && b.size() > p.size());
  vh::eq(cuhksz::kmpSearch(b, p, st), oracle(b, p, st), "position");
}
int main() {
  vh::init();
  // exhaustive: all patterns up to 5 over {a,b}, all bases up to 8
  vh::all_strings((int)vh::scale(5, 7), 2, [&](const string& p) { vh::all_strings((int)vh::scale(8, 10), 2, [&](const string& b) { for (size_t st = 0; st <= b.size() + 1; st += 1 + (vh::rnd() % 3)) one(b, p, st); }); });
  vh::all_strings(4, 3, [&](const string& p) { for (int k = 0; k < vh::scale(30, 300); k++) { string b = vh::rstr((int)vh::rint(0, 14), 3); one(b, p, (size_t)vh::rint(0, 15)); } });
  // random, planted occurrences, all byte values (also NUL and > 127), periodic patterns
  for (long k = 0; k < vh::scale(60000, 1000000); k++) {
    int alpha = 1 + (int)vh::rint(1, 3); string p, b;
    switch (vh::rnd() % 4) {
      case 0: { string u = vh::rstr((int)vh::rint(1, 5), alpha); int r = (int)vh::rint(1, 6); for (int i = 0; i < r; i++) p += u; if (vh::rnd() & 1) p.resize(p.size() - vh::rnd() % p.size()); if (vh::rnd() & 1) p[vh::rnd() % p.size()] = 'a'; for (int i = 0, n = (int)vh::rint(0, 14); i < n; i++) { b += u; if (vh::rnd() % 6 == 0) b += 'z'; } break; }
      case 1: p = vh::rstr((int)vh::rint(0, 12), alpha); b = vh::rstr((int)vh::rint(0, 60), alpha); break;
      case 2: p = vh::rbytes((int)vh::dint(0, 6)); b = vh::rbytes((int)vh::rint(0, 10)) + p + vh::rbytes((int)vh::rint(0, 10)); if (vh::rnd() % 3 == 0) b += p; break;
      default: p = vh::rstr((int)vh::dint(1, 70), alpha); b = vh::rstr((int)vh::dint(0, 90), alpha); for (int i = 0; i < 3; i++) b += p.substr(0, vh::rnd() % (p.size() + 1)); if (vh::rnd() & 1) b += p; 
    }
    size_t st = vh::rnd() % 3 ? 0 : (size_t)vh::dint(0, (long)b.size() + 3);
    if (vh::rnd() % 200 == 0) st = (size_t)-1 - vh::rnd() % 3;
    if (vh::rnd() % 200 == 0) st = (size_t)0x80000000u + vh::rnd() % 3;
    one(b, p, st);
  }
  for (int n = 1; n < vh::scale(400, 1500); n += 1 + n / 7) { string p(n, 'x'); p.back() = 'y'; string b(2 * n, 'x'); one(b, p, 0); one(b + 'y', p, 0); one(b + "y" + p, p, n + 2); }
  return vh::finish();
}
