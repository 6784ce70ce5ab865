// Shared by the layer harnesses: one JSON record per case.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>
static FILE* g_out;
static uint64_t g_s;
static inline uint32_t Rnd() { g_s = g_s * 6364136223846793005ull + 1442695040888963407ull; uint64_t x = g_s; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return (uint32_t)(x >> 32); }
static inline uint32_t Below(uint32_t n) { return n ? Rnd() % n : 0; }
static inline bool Chance(double p) { return Rnd() < p * 4294967295.0; }
struct J {
  std::string s = "{";
  void K(const char* k) { if (s.size() > 1) s += ","; s += "\""; s += k; s += "\":"; }
  J& I(const char* k, int64_t v) { K(k); s += std::to_string(v); return *this; }
  J& B(const char* k, bool v) { K(k); s += v ? "true" : "false"; return *this; }
  J& S(const char* k, const std::string& v) { K(k); s += "\"" + v + "\""; return *this; }
  template <class V> J& A(const char* k, const V& v) {
    K(k); s += "["; bool f = true;
    for (auto x : v) { if (!f) s += ","; f = false; s += std::to_string((int64_t)x); }
    s += "]"; return *this;
  }
  template <class V> J& AA(const char* k, const V& v) {
    K(k); s += "["; bool f = true;
    for (auto& x : v) { if (!f) s += ","; f = false; s += "["; bool g = true; for (auto y : x) { if (!g) s += ","; g = false; s += std::to_string((int64_t)y); } s += "]"; }
    s += "]"; return *this;
  }
  void Out() { s += "}\n"; fputs(s.c_str(), g_out); fflush(g_out); }
};
static int g_case;
static void Begin(const char* what, int n) { fprintf(g_out, "{\"start\":\"%s-%d\"}\n", what, n); fflush(g_out); g_s = g_s * 31 + n * 7919 + 17; Rnd(); }
void Run(int n);
int main(int argc, char** argv) {
  int n = atoi(argv[2]);
  g_out = fopen(argv[3], "w");
  for (int i = 0; i < n; ++i) { g_s = strtoull(argv[1], 0, 10) * 1000003 + i; g_case = i; Run(i); }
  fputs("{\"start\":\"done\"}\n", g_out);
  fclose(g_out);
  return 0;
}
