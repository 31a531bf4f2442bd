// Common part of the refuters: they run the real code of /repo against a naive
// oracle, to turn a failed proof obligation into a concrete failing input (and as the
// labelled bounded stand-in where a function is outside the verifier's reach).
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#endif
namespace vh {
static long cases = 0, nontrivial = 0;
static std::vector<std::string> samples;
static std::function<std::string()> cur;
static std::string label;
static uint64_t rs = 88172645463325252ULL;
inline uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
inline long rint(long lo, long hi) { uint64_t w = (uint64_t)hi - (uint64_t)lo + 1; return (long)((uint64_t)lo + (w ? rnd() % w : rnd())); }
// integers occurring in the code under test (+-1): given by check.py, so that
// behaviour that depends on a particular constant is exercised as well
static std::vector<long> dict;
inline void load_dict() { const char* d = getenv("VH_DICT"); if (!d) return; std::istringstream i(d); long x; while (i >> x) dict.push_back(x); }
inline long dint(long lo, long hi) {  // a value in [lo,hi], with a bias to the dictionary and the ends
  if (!dict.empty() && rnd() % 3 == 0) for (int t = 0; t < 8; t++) { long x = dict[rnd() % dict.size()]; if (lo <= x && x <= hi) return x; }
  switch (rnd() % 8) { case 0: return lo; case 1: return hi; case 2: return rint(lo, (uint64_t)hi - (uint64_t)lo < 3 ? hi : lo + 3); }
  return rint(lo, hi);
}
inline std::string show(const std::string& s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') r += c; else { snprintf(b, 8, "\\x%02x", c); r += b; } }
  return r + "\"";
}
template <class T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }
template <class C> std::string seq(const C& c) { std::ostringstream o; o << "["; bool f = true; for (const auto& x : c) { if (!f) o << ", "; f = false; o << x; } o << "]"; return o.str(); }
inline void report(const char* why) {
  static bool done = false; if (done) return; done = true;
  fprintf(stdout, "FAIL %s: %s\n  input: %s\n", label.c_str(), why, cur ? cur().c_str() : "(none)");
  fflush(stdout);
}
inline void on_alarm(int) { report("does not terminate within the time limit"); _exit(1); }
inline void on_segv(int s) { report(s == SIGFPE ? "arithmetic trap (SIGFPE)" : s == SIGABRT ? "abort" : "invalid memory access"); _exit(1); }
inline void on_death() { report("undefined behaviour caught by the sanitizer (see stderr)"); }
static bool expect_exit = false;
inline void on_exit_() { if (!expect_exit) { report("the library called exit() on a valid input"); _exit(1); } }
inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
inline long scale(long quick, long thor) { return thorough() ? thor : quick; }
inline void init() {
  const char* s = getenv("VERIF_SEED"); uint64_t v = s ? strtoull(s, 0, 10) : 1;
  rs ^= v * 0x9E3779B97F4A7C15ULL; for (int i = 0; i < 20; i++) rnd();
  load_dict(); signal(SIGALRM, on_alarm); signal(SIGFPE, on_segv);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(on_death);
#else
  signal(SIGSEGV, on_segv); signal(SIGABRT, on_segv);
#endif
  atexit(on_exit_);
}
// start of one case: remember how to print it
inline void begin(const char* lab, std::function<std::string()> f, bool nontriv = true, int limit = 60) {
  label = lab; cur = f; cases++; if (nontriv) nontrivial++;
  if (limit && (cases & 255) == 1) alarm(limit);
  if (samples.size() < 5 && (cases == 1 || rnd() % 997 == 0)) samples.push_back(label + " " + f());
}
inline void fail(const std::string& why) { report(why.c_str()); fflush(stdout); expect_exit = true; _exit(1); }
template <class A, class B> void eq(const A& got, const B& want, const char* what = "result") {
  if (!(got == want)) fail(std::string(what) + " is " + str(got) + ", expected " + str(want));
}
inline void seq_eq(const std::string& got, const std::string& want, const char* what = "result") { if (got != want) fail(std::string(what) + " is " + show(got) + ", expected " + show(want)); }
inline void ok(bool b, const std::string& what) { if (!b) fail(what); }
// f must end in the library's error exit (EXIT_FAILURE), not return and not crash
inline bool exits(std::function<void()> f, std::string* err = nullptr) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) { expect_exit = true; if (!freopen("/dev/null", "w", stderr)) _exit(77); 
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback([]() { _exit(99); });
#endif
    alarm(10); signal(SIGALRM, SIG_DFL); f(); _exit(42); }
  int st = 0; waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 1;
}
inline void must_exit(std::function<void()> f, const char* what) { if (!exits(f)) fail(std::string(what) + ": expected the library's error exit (status 1)"); }
inline int finish() {
  alarm(0); expect_exit = true;
  printf("REFUTER-OK cases=%ld nontrivial=%ld\n", cases, nontrivial);
  for (auto& s : samples) printf("SAMPLE %s\n", s.substr(0, 300).c_str());
  return 0;
}
inline std::string rstr(int n, int alpha) { std::string s; for (int i = 0; i < n; i++) s += (char)('a' + rnd() % alpha); return s; }
inline std::string rbytes(int n) { std::string s; for (int i = 0; i < n; i++) s += (char)(rnd() & 255); return s; }
// all strings over the first k letters, length <= n
inline void all_strings(int n, int k, std::function<void(const std::string&)> f) {
  std::string s; std::function<void()> go = [&]() { f(s); if ((int)s.size() == n) return; for (int c = 0; c < k; c++) { s.push_back((char)('a' + c)); go(); s.pop_back(); } }; go();
}
}  // namespace vh
#endif
