#include "/repo/src/base64/base64_functions.cpp"
#include "vh.h"
using namespace vh;
static std::string ref_enc(const std::string& s) {  // RFC 4648, by 24-bit groups
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned n = (unsigned char)s[i] << 16, k = std::min<size_t>(3, s.size() - i);
    if (k > 1) n |= (unsigned char)s[i + 1] << 8; if (k > 2) n |= (unsigned char)s[i + 2];
    for (unsigned j = 0; j < 4; j++) o += j <= k ? A[n >> (18 - 6 * j) & 63] : '=';
  }
  return o;
}
static void one(const std::string& s) {
  begin("base64", [&] { return show(s); }, s.size() > 0);
  std::string want = ref_enc(s), bare = want.substr(0, want.find('='));
  seq_eq(cuhksz::base64Encode(s), want, "base64Encode(s)");
  seq_eq(cuhksz::base64Encode(s, -1), want, "base64Encode(s, -1)");
  seq_eq(cuhksz::base64Decode(want), s, "base64Decode(encoded)");
  seq_eq(cuhksz::base64Decode(bare), s, "base64Decode(encoded without padding)");
  if (rnd() % 4 == 0 || s.size() < 3) for (int d : {-3, -2, -1, 0, 1, 2, 3, 5, 17}) {
    int len = (int)bare.size() + d; if (len < 0 && d != -3) continue;
    label = "base64 with length " + str(len);
    std::string e = cuhksz::base64Encode(s, len == -1 ? -2 : len);
    seq_eq(e, len < (int)bare.size() ? "" : bare + std::string(len - bare.size(), '='), "base64Encode(s, length)");
    if (len >= (int)bare.size()) seq_eq(cuhksz::base64Decode(e), s, "base64Decode(padded)");
  }
}
int main() {
  init();
  one("");
  for (int a = 0; a < 256; a++) one(std::string(1, (char)a));
  for (int a = 0; a < 256; a += 1) for (int b = 0; b < 256; b += 5) { std::string s; s += (char)a; s += (char)b; one(s); }
  for (int n = 0; n < 70; n++) for (int k = 0; k < scale(40, 2000); k++) { one(rbytes(n)); }
  for (int n : {0, 1, 2, 3, 64, 255, 256, 257}) { one(std::string(n, '\0')); one(std::string(n, '\xff')); }
  for (int k = 0; k < scale(300, 5000); k++) { std::string s; int n = rint(0, 12); for (int i = 0; i < n; i++) s += (char)dint(-128, 255); one(s); }
  for (int n : {1000, 4095, 5000}) one(rbytes(n));
  // padding characters in any place and of any number are ignored
  for (int k = 0; k < scale(2000, 50000); k++) { std::string s = rbytes(rint(0, 20)), e = ref_enc(s); begin("base64Decode with extra padding", [&] { return show(e); });
    e.insert(rint(0, e.size()), std::string(rint(0, 5), '=')); seq_eq(cuhksz::base64Decode(e), s, "base64Decode"); }
  return finish();
}
