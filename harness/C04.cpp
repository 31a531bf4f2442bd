#include "/repo/src/network/network_functions.cpp"
#include "vh.h"
using namespace vh;
static bool unres(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || strchr("-_.~", c) && c; }
static std::string ref_enc(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) if (unres(c)) o += (char)c; else { snprintf(b, 4, "%%%02X", c); o += b; } return o; }
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool ref_dec(const std::string& s, std::string& o) {  // false: not well-formed
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '+') o += ' ';
    else if (s[i] == '%') { if (i + 2 >= s.size() || hv(s[i + 1]) < 0 || hv(s[i + 2]) < 0) return false; o += (char)(hv(s[i + 1]) * 16 + hv(s[i + 2])); i += 2; }
    else o += s[i];
  return true;
}
static void enc(const std::string& s) {
  begin("urlEncode/urlDecode", [&] { return show(s); }, s.size() > 0);
  std::string e = cuhksz::urlEncode(s); seq_eq(e, ref_enc(s), "urlEncode"); seq_eq(cuhksz::urlDecode(e), s, "urlDecode(urlEncode(s))");
}
static void dec(const std::string& s) {
  std::string w; bool wf = ref_dec(s, w);
  begin(wf ? "urlDecode" : "urlDecode of a malformed escape (memory safety)", [&] { return show(s); }, s.size() > 0);
  std::string h(s.c_str(), s.size()); h.shrink_to_fit();
  std::string* p = new std::string(h); std::string r = cuhksz::urlDecode(*p); delete p;
  if (wf) seq_eq(r, w, "urlDecode");
}
int main() {
  init(); enc("");
  for (int a = 0; a < 256; a++) { enc(std::string(1, (char)a)); dec(std::string(1, (char)a)); for (int b = 0; b < 256; b += 3) { std::string s; s += (char)a; s += (char)b; enc(s); } }
  for (int n = 0; n < 60; n++) for (int k = 0; k < scale(60, 3000); k++) { enc(rbytes(n)); std::string s; for (int i = 0; i < n; i++) s += (char)(rnd() % 96 + 32); enc(s); }
  // decoding: all strings over a small alphabet, long enough to leave the small-string buffer
  static const char al[] = "%+a0F\x80";
  for (int pre : {0, 13, 14, 15, 16, 30}) for (int n = 0; n <= (pre ? 4 : 5); n++) { long t = 1; for (int i = 0; i < n; i++) t *= 6; for (long k = 0; k < t; k++) { std::string s(pre, 'x'); long v = k; for (int i = 0; i < n; i++) { s += al[v % 6]; v /= 6; } dec(s); } }
  for (int h = 0; h < 256; h++) { char b[8]; for (const char* f : {"%%%02x", "%%%02X"}) { snprintf(b, 8, f, h); dec(b); dec(std::string("x") + b + "y"); } }
  for (int k = 0; k < scale(20000, 500000); k++) { std::string s; int n = rint(0, 40); for (int i = 0; i < n; i++) { int c = rnd() % 8; if (c == 0) s += '%'; else if (c == 1) s += '+'; else if (c < 6) s += "0123456789abcdefABCDEF"[rnd() % 22]; else s += (char)dint(-128, 255); } dec(s); }
  return finish();
}
