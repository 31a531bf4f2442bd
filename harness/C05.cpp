#include "vh.h"
#include <cmath>
#include "/repo/src/json/Json.cpp"
#include "/repo/src/json/json_functions.cpp"
using namespace cuhksz;
typedef JSONObject J;
struct M { int t = 0; bool b = false; int i = 0; double f = 0; std::string s; std::vector<M> a; std::map<std::string, M> o; };
static std::string esc(const std::string& s) { std::string r; for (char c : s) { const char* p = strchr("\"\\\b\f\n\r\t", c); if (c && p) { r += '\\'; r += "\"\\bfnrt"[p - "\"\\\b\f\n\r\t"]; } else r += c; } return r; }
static std::string rep(const std::string& t, int n) { std::string r; while (n-- > 0) r += t; return r; }
static std::string dump(const M& m, int d, const std::string& tab) {
  switch (m.t) {
    case 0: return "null";
    case 1: { std::string p = rep(tab, d), r = "{\n"; bool f = true; for (auto& e : m.o) { if (!f) r += ",\n"; f = false; r += p + "\"" + esc(e.first) + "\" : " + dump(e.second, d + 1, tab); } return r + "\n" + (p.size() < 2 ? std::string() : p.substr(2)) + "}"; }
    case 2: { std::string r = "["; for (size_t k = 0; k < m.a.size(); k++) { if (k) r += ", "; r += dump(m.a[k], d + 1, tab); } return r + "]"; }
    case 3: return "\"" + esc(m.s) + "\"";
    case 4: { char b[400]; snprintf(b, 400, "%f", m.f); return b; }
    case 5: return std::to_string(m.i);
    default: return m.b ? "true" : "false";
  }
}
static bool near(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
  return a == b || std::fabs(a - b) <= 5.1e-7 + 1e-12 * std::fabs(b);
}
static void same(const J& j, const M& m, const std::string& at) {
  auto no = [&](const std::string& w) { vh::fail("at " + at + ": " + w); };
  if ((int)j.getType() != m.t) no("type is " + vh::str((int)j.getType()) + ", expected " + vh::str(m.t));
  if (m.t == 3 && j.toString() != esc(m.s)) no("text is " + vh::show(j.toString()) + " (escaped), expected " + vh::show(esc(m.s)));
  if (m.t == 4 && !near(j.toDouble(), m.f)) no("number is " + vh::str(j.toDouble()) + ", expected " + vh::str(m.f));
  if (m.t == 5 && j.toInt() != m.i) no("number is " + vh::str(j.toInt()) + ", expected " + vh::str(m.i));
  if (m.t == 6 && j.toBool() != m.b) no("wrong bool");
  if (m.t == 2) { if (j.length() != (int)m.a.size()) no("length is " + vh::str(j.length()) + ", expected " + vh::str(m.a.size())); for (size_t k = 0; k < m.a.size(); k++) same(j.at((unsigned)k), m.a[k], at + "[" + vh::str(k) + "]"); }
  if (m.t == 1) { if (j.size() != (int)m.o.size()) no("size is " + vh::str(j.size()) + ", expected " + vh::str(m.o.size())); for (auto& e : m.o) { if (!j.hasKey(e.first)) no("key " + vh::show(e.first) + " is missing"); same(j.at(e.first), e.second, at + "[" + vh::show(e.first) + "]"); } }
}
static J build(const M& m) {
  switch (m.t) {
    case 0: return J(); case 3: return J(m.s); case 4: return J(m.f); case 5: return J(m.i); case 6: return J(m.b);
    case 2: { J r = J::Array(); for (auto& x : m.a) r.append(build(x)); return r; }
    default: { J r = J::Object(); for (auto& e : m.o) r[e.first] = build(e.second); return r; }
  }
}
// reference reader of the accepted texts; false: the text is to be rejected
struct R {
  const std::string& s; size_t i; R(const std::string& t) : s(t), i(0) {}
  char at(size_t k) { return k < s.size() ? s[k] : '\0'; }
  static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  void ws() { while (i < s.size() && sp(s[i])) i++; }
  static bool delim(char c) { return sp(c) || c == ',' || c == ']' || c == '}' || c == 0; }
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  bool str(std::string& out) {
    out.clear(); i++;
    for (;;) {
      if (i >= s.size()) return false;
      char c = s[i++];
      if (c == '"') return true;
      if (c != '\\') { out += c; continue; }
      if (i >= s.size()) return false;
      char e = s[i++];
      const char* p = e ? strchr("\"\\/bfnrt", e) : nullptr;
      if (p) out += "\"\\/\b\f\n\r\t"[p - "\"\\/bfnrt"];
      else if (e == 'u') { out += "\\u"; for (int k = 0; k < 4; k++) { char h = at(i); if (!(dig(h) || (h >= 'a' && h <= 'f') || (h >= 'A' && h <= 'F'))) return false; out += h; i++; } }
      else out += '\\';
    }
  }
  bool number(M& m) {
    std::string v, x; bool d = false;
    while (i < s.size() && (s[i] == '-' || s[i] == '.' || dig(s[i]))) { if (s[i] == '.') d = true; v += s[i++]; }
    char c = at(i);
    if (c == 'e' || c == 'E') {
      i++; if (i >= s.size()) return false;
      if (s[i] == '-') x += '-';
      if (s[i] == '-' || s[i] == '+') i++;
      size_t n = 0; while (i < s.size() && dig(s[i])) { x += s[i++]; n++; }
      if (!delim(at(i)) || !n) return false;
      m.t = 4; double f = 0; std::istringstream(v) >> f; int e = 0; std::istringstream(x) >> e; m.f = f * std::pow(10, e); return true;
    }
    if (!delim(c)) return false;
    if (d) { m.t = 4; double f = 0; std::istringstream(v) >> f; m.f = f; } else { m.t = 5; int k = 0; std::istringstream(v) >> k; m.i = k; }
    return true;
  }
  bool next(M& m, int depth = 0) {
    ws(); if (i >= s.size()) return false;
    char c = s[i];
    if (c == '"') { m.t = 3; return str(m.s); }
    if (s.compare(i, 4, "true") == 0) { m.t = 6; m.b = true; i += 4; return true; }
    if (s.compare(i, 5, "false") == 0) { m.t = 6; m.b = false; i += 5; return true; }
    if (s.compare(i, 4, "null") == 0) { i += 4; return true; }
    if (dig(c) || c == '-') return number(m);
    if (c == '[') {
      m.t = 2; i++; ws(); if (at(i) == ']' && i < s.size()) { i++; return true; }
      for (;;) { M x; if (!next(x, depth + 1)) return false; m.a.push_back(x); ws(); char d = at(i); i++; if (d == ']') return true; if (d != ',') return false; }
    }
    if (c == '{') {
      m.t = 1; i++; ws(); if (at(i) == '}') { i++; return true; }
      for (;;) {
        std::string k; ws(); if (at(i) == '"') { if (!str(k)) return false; } else { M x; if (!next(x, depth + 1)) return false; }
        ws(); if (at(i) != ':') return false; i++; M v; if (!next(v, depth + 1)) return false; m.o[k] = v;
        ws(); char d = at(i); i++; if (d == '}') return true; if (d != ',') return false;
      }
    }
    return false;
  }
};
static std::string text() { int n = (int)vh::rint(0, 5); std::string s; while (n--) { s += vh::rint(0, 2) ? (char)vh::rint('a', 'z') : "\"\\\b\f\n\r\t/\0\x7f\x80u:,{}[]"[vh::rint(0, 17)]; } return s; }
static void gen(M& m, int d) {
  m.t = (int)vh::rint(0, 6); if (d <= 0 && (m.t == 1 || m.t == 2)) m.t = 5;
  switch (m.t) {
    case 1: { int n = (int)vh::rint(0, 3); while (n--) { M x; gen(x, d - 1); m.o[text()] = x; } break; }
    case 2: { int n = (int)vh::rint(0, 3); while (n--) { M x; gen(x, d - 1); m.a.push_back(x); } break; }
    case 3: m.s = text(); break;
    case 4: m.f = vh::rint(0, 2) ? vh::rint(-1000000, 1000000) / 4096.0 : vh::rint(0, 1) ? vh::rint(-9, 9) / 1e7 : (double)vh::rint(-1000000000000L, 1000000000000L) * 1e9; break;
    case 5: m.i = (int)vh::dint(-2147483647L - 1, 2147483647L); break;
    case 6: m.b = vh::rint(0, 1); break;
  }
}
static std::string sp() { std::string s; int n = (int)vh::rint(0, 2); while (n--) s += " \n\t\r\v\f"[vh::rint(0, 5)]; return s; }
// a text with free white space, escapes and number formats
static std::string spell(int d) {
  switch (vh::rint(0, d > 0 ? 9 : 6)) {
    case 0: return "null"; case 1: return "true"; case 2: return "false";
    case 3: { std::string r = "\""; int n = (int)vh::rint(0, 4); while (n--) { switch (vh::rint(0, 4)) { case 0: r += std::string("\\") + "\"\\/bfnrt"[vh::rint(0, 7)]; break; case 1: { r += "\\u"; for (int k = 0; k < 4; k++) r += "0123456789abcdefABCDEF"[vh::rint(0, 21)]; break; } case 2: r += std::string("\\") + (char)vh::rint('a', 'z'); break; default: { char c = (char)vh::rint(32, 126); if (c != '"' && c != '\\') r += c; } } } return r + "\""; }
    case 4: return vh::str(vh::rint(-3000000000L, 3000000000L));
    case 5: return vh::str(vh::rint(-99, 99)) + "." + vh::str(vh::rint(0, 999));
    case 6: return vh::str(vh::rint(-99, 99)) + (vh::rint(0, 1) ? "." + vh::str(vh::rint(0, 99)) : "") + (vh::rint(0, 1) ? "e" : "E") + (vh::rint(0, 2) ? vh::rint(0, 1) ? "-" : "+" : "") + vh::str(vh::rint(0, 12));
    case 7: case 8: { std::string r = "[" + sp(); int n = (int)vh::rint(0, 3); for (int k = 0; k < n; k++) { if (k) r += "," + sp(); r += spell(d - 1) + sp(); } return r + "]"; }
    default: { std::string r = "{" + sp(); int n = (int)vh::rint(0, 3); for (int k = 0; k < n; k++) { if (k) r += "," + sp(); std::string key = "\"" + esc(text()) + "\""; if (vh::rint(0, 9) == 0) key = spell(0); r += key + sp() + ":" + sp() + spell(d - 1) + sp(); } return r + "}"; }
  }
}
static void one(const std::string& s) {
  vh::begin("loadJSON of", [&] { return vh::show(s); });
  R r(s); M m; bool ok = r.next(m);
  // the text is placed at the end of its own allocation, so that the sanitizer sees a read behind it
  if (ok) { std::string* t = new std::string(s.data(), s.size()); t->shrink_to_fit(); J j = loadJSON(*t); same(j, m, "value"); delete t; }
  else vh::must_exit([&] { std::string* t = new std::string(s.data(), s.size()); t->shrink_to_fit(); loadJSON(*t); }, "text that is not JSON");
}
int main() {
  vh::init();
  for (const char* s : {"1", "-", "[1", "[", "{", "\"", "\"\\", "\"\\u00", "tru", "nul", "fals", "true", "1e", "1e+", "1e5", "-0", "[1,]", "{\"a\"}", "{\"a\":}", "{\"a\":1", "{\"a\":1,}", "[1 2]", "", " ", "1.5e-3 ", "1x", "{1:2}", "[]", "{}", "[[[]]]", "\"abc", "2147483648", "-2147483649", "12-3"}) one(s);
  long n = vh::scale(4000, 60000);
  for (long k = 0; k < n; k++) {
    M m; gen(m, 3); int d = (int)vh::rint(0, 3); std::string tab = vh::rint(0, 2) ? "  " : vh::rint(0, 1) ? "\t" : std::string((size_t)vh::rint(0, 4), ' ');
    std::string want = dump(m, d, tab);
    vh::begin("dump and reload of", [&] { return vh::show(want) + " depth " + vh::str(d); });
    J j = build(m); std::string got = j.dump(d, tab); vh::seq_eq(got, want, "dump()");
    { std::ostringstream o; o << j; vh::seq_eq(o.str(), dump(m, 1, "  "), "operator<<"); }
    same(loadJSON(got), m, "reloaded value"); same(j, m, "dumped value");
  }
  n = vh::scale(6000, 80000);
  for (long k = 0; k < n; k++) {
    std::string s = sp() + spell(3) + (vh::rint(0, 3) ? "" : sp()); one(s);
  }
  n = vh::scale(1500, 15000);
  for (long k = 0; k < n; k++) {
    std::string s = sp() + spell(3); int e = (int)vh::rint(1, 2);
    while (e--) switch (vh::rint(0, 3)) {
      case 0: s = s.substr(0, (size_t)vh::rint(0, (long)s.size())); break;
      case 1: if (s.size()) s.erase((size_t)vh::rint(0, (long)s.size() - 1), 1); break;
      case 2: s.insert((size_t)vh::rint(0, (long)s.size()), 1, "\"\\[]{},:-+.eEu019 tfn\0\xe9"[vh::rint(0, 23)]); break;
      default: if (s.size()) s[(size_t)vh::rint(0, (long)s.size() - 1)] = "\"\\[]{},:-+.eEu019 tfn\0\xe9"[vh::rint(0, 23)];
    }
    one(s);
  }
  for (long k = 0; k < vh::scale(3000, 30000); k++) { std::string s = vh::rbytes((int)vh::rint(0, 6)); vh::begin("jsonEscape of", [&] { return vh::show(s); }); vh::seq_eq(jsonEscape(s), esc(s), "jsonEscape"); }
  return vh::finish();
}
