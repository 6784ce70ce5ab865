// Heap accounting for bdrv (BDRV_EXTRA): requested bytes, current and peak.
#include <dlfcn.h>
#include <errno.h>
#include <atomic>
#include "c/include/brunsli/jpeg_data_writer.h"
static std::atomic<long> g_cur(0), g_peak(0);
// turning points of the amount allocated, while recording
static bool g_rec = false; static long g_pts[1 << 16]; static int g_np = 0; static long g_base = 0;
static void Track(long d) { long c = g_cur += d;
  if (g_rec && d) { long v = c - g_base; if (g_np >= 2 && (g_pts[g_np - 1] > g_pts[g_np - 2]) == (d > 0)) g_pts[g_np - 1] = v; else if (g_np < (1 << 16)) g_pts[g_np++] = v; } if (d > 0) { long p = g_peak; while (c > p && !g_peak.compare_exchange_weak(p, c)) {} } }
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t);
// every block: [size][offset to the real start] in the 16 bytes before it
static void* Put(char* raw, size_t head, size_t n) { char* p = raw + head; ((size_t*)p)[-2] = n; ((size_t*)p)[-1] = head; Track((long)n); return p; }
void* malloc(size_t n) { char* r = n > (size_t)1 << 40 ? 0 : (char*)__libc_malloc(n + 16); if (!r) { errno = ENOMEM; return 0; } return Put(r, 16, n); }
void free(void* p) { if (!p) return; Track(-(long)((size_t*)p)[-2]); __libc_free((char*)p - ((size_t*)p)[-1]); }
void* calloc(size_t a, size_t b) { if (b && a > ((size_t)1 << 40) / b) { errno = ENOMEM; return 0; } void* p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); void* q = malloc(n); if (!q) return 0; size_t o = ((size_t*)p)[-2]; memcpy(q, p, o < n ? o : n); free(p); return q; }
void* memalign(size_t a, size_t n) { size_t h = a < 16 ? 16 : a; char* r = (char*)__libc_memalign(h, n + h); if (!r) { errno = ENOMEM; return 0; } return Put(r, h, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
void* valloc(size_t n) { return memalign(4096, n); }
}
static void ExtraOp(World& w, const std::vector<std::string>& t) {
  const std::string& op = t[0];
  if (op == "peak") {  // peak S [what] : estimate and what decoding S takes
    Heap h(w.b[t[1]]); size_t m = BrunsliEstimateDecoderPeakMemoryUsage(h.p, h.n);
    long base = g_cur; g_peak = base; BrunsliStatus st; g_base = base; g_pts[0] = 0; g_np = 1; g_rec = true; size_t blocks = 0, meta = 0;
    { JPEGData* j = new JPEGData; st = BrunsliDecodeJpeg(h.p, h.n, j); for (auto& c : j->components) blocks += c.num_blocks; for (auto& x : j->app_data) meta += x.size(); for (auto& x : j->com_data) meta += x.size(); delete j; }
    g_rec = false;
    long pk = g_peak - base;
    Ev e(w.id, "peak"); e.S("in", Hash(w.b[t[1]])); e.I("len", h.n); e.I("est", (long long)std::min<size_t>(m, 2000000000)); e.I("peak", std::min<long>(pk, 2000000000)); e.I("st", st); e.I("blocks", blocks); e.I("meta", meta); std::string pts = "["; for (int i = 1; i < g_np; ++i) pts += (i > 1 ? "," : "") + std::to_string(std::min<long>(g_pts[i], 2000000000)); e.R("pts", pts + "]"); Emit(e); return; }
}
