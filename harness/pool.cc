// Runs /repo's ParallelExecutor under a scheduler of its own: exactly one
// thread runs at a time and every mutex, condition variable, thread and
// (through the compiler's -fsanitize=thread callbacks, provided here) memory
// access of groups.cc is a point where another thread may be chosen.
//
//   pool MODE SEED COUNT WORKERS B1,B2,.. [bound]      MODE = dfs | pct | rnd | real
// Prints one JSON line per distinct history of (start, begin, end, return,
// close, gone, stuck) events.
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <condition_variable>
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "c/experimental/groups.h"

// ------------------------------------------------------------------ scheduler
namespace {
enum St { READY, MUTEX, COND, JOIN, DONE };
struct Thr {
  int go = 0;             // futex
  St st = READY; void* obj = nullptr; pthread_t pt; bool timed = false; int prio = 0;
  void* (*fn)(void*) = nullptr; void* arg = nullptr;
};
bool g_on = false;
std::vector<Thr*> g_t;
int g_cur = 0;
std::map<void*, int> g_owner;
thread_local int t_id = -1;
std::string g_mode;
uint64_t g_rng = 1;
long g_steps = 0, g_spurious = 0;
std::vector<int> g_prefix;                 // dfs: choices to replay
struct Point { int chosen, n, cost, cur; };  // cur: index of the running thread among the choices, or -1
std::vector<Point> g_points;
int g_preempt = 0, g_bound = 2;
std::vector<long> g_change;                // pct: priority change points
std::vector<std::string> g_ev;
std::set<std::string> g_seen;

uint64_t Rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng * 0x2545F4914F6CDD1DULL >> 16; }
void Wake(int* p) { __atomic_store_n(p, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
void Sleep(int* p) { while (!__atomic_exchange_n(p, 0, __ATOMIC_SEQ_CST)) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); }

void Report() {
  std::string s; for (auto& e : g_ev) { if (s.size()) s += ","; s += e; }
  if (g_seen.insert(s).second) { printf("{\"ev\":[%s]}\n", s.c_str()); }
}
void Say(const char* k, long i) { char b[64]; snprintf(b, sizeof b, "[\"%s\",%ld]", k, i); g_ev.push_back(b); }
void Stuck(const char* what) { Say(what, 0); Report(); fflush(stdout); _exit(0); }

bool Runnable(Thr* t) {
  if (t->st == READY) return true;
  if (t->st == MUTEX) return !g_owner.count(t->obj);
  if (t->st == JOIN) { for (Thr* q : g_t) if (pthread_equal(q->pt, *(pthread_t*)t->obj)) return q->st == DONE; return true; }
  if (t->st == COND && t->timed) return true;
  return false;
}
// Picks who goes on.  The caller's state is already set.
void Reschedule() {
  if (++g_steps > 200000) Stuck("livelock");
  std::vector<int> c; int cur = -1;
  for (size_t i = 0; i < g_t.size(); ++i) if (Runnable(g_t[i])) { if ((int)i == t_id) cur = c.size(); c.push_back(i); }
  // A wakeup nobody asked for is legal.
  int sp = -1;
  if (g_spurious > 0 && g_mode != "dfs" && Rnd() % 16 == 0) { std::vector<int> w; for (size_t i = 0; i < g_t.size(); ++i) if (g_t[i]->st == COND && !g_owner.count(nullptr)) w.push_back(i); if (w.size()) sp = w[Rnd() % w.size()]; }
  if (sp >= 0) { --g_spurious; g_t[sp]->st = READY; g_t[sp]->timed = false; c.push_back(sp); if (sp == t_id) cur = c.size() - 1; }
  if (c.empty()) Stuck("stuck");
  size_t k = 0;
  if (g_mode == "dfs") {
    size_t at = g_points.size();
    // alternatives are numbered so that 0 means "go on with the same thread"
    if (cur > 0) { std::swap(c[0], c[cur]); cur = 0; }
    if (at < g_prefix.size()) k = std::min<size_t>(g_prefix[at], c.size() - 1); else k = 0;
    int cost = (cur == 0 && k != 0) ? 1 : 0; g_preempt += cost;
    g_points.push_back({(int)k, (int)c.size(), g_preempt - cost, cur});
  } else if (g_mode == "pct") {
    for (size_t i = 0; i < g_change.size(); ++i) if (g_change[i] == g_steps) g_t[t_id]->prio = -(int)i - 1;
    for (size_t i = 1; i < c.size(); ++i) if (g_t[c[i]]->prio > g_t[c[k]]->prio) k = i;
  } else k = (cur >= 0 && Rnd() % 3) ? cur : Rnd() % c.size();
  int next = c[k]; g_cur = next; g_t[next]->st = READY; g_t[next]->timed = false;
  if (next != t_id) { int me = t_id; Wake(&g_t[next]->go); if (g_t[me]->st == DONE) return; Sleep(&g_t[me]->go); }
}
void Yield() { if (g_on && t_id >= 0) Reschedule(); }
bool Mine() { return g_on && t_id >= 0; }

template <class F> F Real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
void MLock(void* m) {
  Yield();
  while (g_owner.count(m)) { g_t[t_id]->st = MUTEX; g_t[t_id]->obj = m; Reschedule(); }
  g_owner[m] = t_id;
}
void MUnlock(void* m) { g_owner.erase(m); Yield(); }
int CWait(void* c, void* m, bool timed) {
  g_owner.erase(m); Thr* t = g_t[t_id]; t->st = COND; t->obj = c; t->timed = timed; Reschedule();
  while (g_owner.count(m)) { t->st = MUTEX; t->obj = m; Reschedule(); }
  g_owner[m] = t_id; return 0;
}
void Signal(void* c, bool all) {
  std::vector<Thr*> w; for (Thr* t : g_t) if (t->st == COND && t->obj == c) w.push_back(t);
  if (w.empty()) { Yield(); return; }
  if (all) { for (Thr* t : w) t->st = READY; } else { w[g_mode == "dfs" ? 0 : Rnd() % w.size()]->st = READY; }
  Yield();
}
void* Entry(void* p) {
  Thr* t = (Thr*)p; for (size_t i = 0; i < g_t.size(); ++i) if (g_t[i] == t) t_id = i;
  Sleep(&t->go);
  void* r = t->fn(t->arg);
  t->st = DONE; Reschedule(); return r;
}
}  // namespace

extern "C" {
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!Mine()) return real(p, a, f, arg);
  Thr* t = new Thr(); t->fn = f; t->arg = arg; t->prio = Rnd() % 1000 + 1; g_t.push_back(t);
  int r = real(&t->pt, a, Entry, t); *p = t->pt; Yield(); return r;
}
int pthread_join(pthread_t p, void** r) {
  static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
  if (Mine()) { Thr* t = g_t[t_id]; pthread_t q = p; t->st = JOIN; t->obj = &q; Reschedule(); }
  return real(p, r);
}
int pthread_mutex_lock(pthread_mutex_t* m) { static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); if (!Mine()) return real(m); MLock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); if (!Mine()) return real(m); Yield(); if (g_owner.count(m)) return EBUSY; g_owner[m] = t_id; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); if (!Mine()) return real(m); MUnlock(m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); if (!Mine()) return real(c, m); return CWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* a) { static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); if (!Mine()) return real(c, m, a); CWait(c, m, true); return 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* a) { static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait"); if (!Mine()) return real(c, m, k, a); CWait(c, m, true); return 0; }
int pthread_cond_signal(pthread_cond_t* c) { static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); if (!Mine()) return real(c); Signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); if (!Mine()) return real(c); Signal(c, true); return 0; }
int sched_yield(void) { Yield(); return 0; }

// The compiler's instrumentation of groups.cc.
static bool g_mem = true;
static inline void Mem() { if (g_mem) Yield(); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void*, void*) {}
void __tsan_vptr_read(void*) {}
void __tsan_read_range(void*, size_t) {}
void __tsan_write_range(void*, size_t) {}
#define RW(n) void __tsan_read##n(void*) { Mem(); } void __tsan_write##n(void*) { Mem(); } void __tsan_unaligned_read##n(void*) {} void __tsan_unaligned_write##n(void*) {} \
  void __tsan_volatile_read##n(void*) { Mem(); } void __tsan_volatile_write##n(void*) { Mem(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_atomic_thread_fence(int) { Yield(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* p, int) { Yield(); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##n##_store(volatile T* p, T v, int) { Yield(); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { Yield(); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { Yield(); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { Yield(); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { Yield(); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { Yield(); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { Yield(); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { Yield(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { Yield(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) { Yield(); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
}

// ------------------------------------------------------------------- scenario
static void Once(size_t workers, const std::vector<size_t>& batches) {
  bool real = g_mode == "real";
  static pthread_mutex_t logm = PTHREAD_MUTEX_INITIALIZER;
  auto say = [&](const char* k, long i) { if (real) pthread_mutex_lock(&logm); Say(k, i); if (real) pthread_mutex_unlock(&logm); };
  auto pause = [&]() { if (real) { uint64_t r; if (real) pthread_mutex_lock(&logm); r = Rnd(); pthread_mutex_unlock(&logm); if (r % 3 == 0) { struct timespec t = {0, (long)(r % 90000)}; nanosleep(&t, 0); } } else Yield(); };
  // (the tasks outlive their batches, so that a late call is seen as one)
  std::vector<brunsli::Runnable> fns;
  for (size_t b = 0; b < batches.size(); ++b) fns.push_back([&, b](size_t i) { say("begin", b * 100 + i); pause(); say("end", b * 100 + i); });
  {
    brunsli::ParallelExecutor pool(workers);
    brunsli::Executor ex = pool.getExecutor();
    for (size_t b = 0; b < batches.size(); ++b) {
      say("start", batches[b]);
      ex(fns[b], batches[b]);
      say("return", batches[b]);
    }
    say("close", 0);
  }
  say("gone", 0);
}

static void Dead(int sig) { Say(sig == SIGALRM ? "timeout" : "crash", sig); Report(); fflush(stdout); _exit(0); }
int main(int argc, char** argv) {
  for (int q : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(q, Dead);
  if (argc < 6) return 99;
  setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
  std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long count = atol(argv[3]); size_t workers = atoi(argv[4]);
  std::vector<size_t> batches; { std::string s = argv[5]; size_t p = 0; while (p < s.size()) { batches.push_back(strtoul(s.c_str() + p, 0, 10)); p = s.find(',', p); if (p == std::string::npos) break; ++p; } }
  if (argc > 6) g_bound = atoi(argv[6]);
  g_mode = mode; long runs = 0; bool complete = false;
  for (; runs < count; ++runs) {
    g_rng = (seed * 1000003 + runs) * 0x9E3779B97F4A7C15ULL | 1; for (int i = 0; i < 8; ++i) Rnd();
    g_ev.clear(); g_owner.clear(); for (size_t i = 1; i < g_t.size(); ++i) delete g_t[i];
    if (g_t.empty()) g_t.push_back(new Thr()); g_t.resize(1); g_t[0]->st = READY; g_t[0]->pt = pthread_self(); g_t[0]->prio = Rnd() % 1000 + 1; t_id = 0;
    g_steps = 0; g_points.clear(); g_preempt = 0; g_spurious = mode == "rnd" ? Rnd() % 4 : 0; g_mem = mode == "dfs" ? false : Rnd() % 2;
    g_change.clear(); for (int i = 0; i < g_bound; ++i) g_change.push_back(1 + Rnd() % 250);
    g_on = mode != "real";
    alarm(20);
    Once(workers, batches);
    g_on = false; alarm(0);
    Report();
    if (mode == "dfs") {   // the next choice sequence within the bound
      long i = (long)g_points.size() - 1;
      for (; i >= 0; --i) { Point& p = g_points[i]; int extra = (p.cur == 0 && p.chosen == 0) ? 1 : 0;
        if (p.chosen + 1 < p.n && p.cost + ((p.cur == 0) ? 1 : 0) <= g_bound) { (void)extra; break; } }
      if (i < 0) { complete = true; ++runs; break; }
      g_prefix.clear(); for (long k = 0; k < i; ++k) g_prefix.push_back(g_points[k].chosen); g_prefix.push_back(g_points[i].chosen + 1);
    }
  }
  printf("{\"runs\":%ld,\"complete\":%s}\n", runs, complete ? "true" : "false");
  return 0;
}
