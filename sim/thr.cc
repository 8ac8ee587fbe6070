// Controlled scheduling of real threads and a happens-before race detector
// behind the compiler's thread-sanitizer callbacks.
#include "thr.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <new>
#include <string>

#include "os.h"
#include "sim.h"

extern "C" char* __cxa_demangle(const char*, char*, size_t*, int*);
namespace {
constexpr int kT = 7;  // main + 6
typedef uint32_t VC[kT];
enum State : int { kFree = 0, kRunnable, kBlocked, kTimed, kDone };
struct Thread {
  State st = kFree;
  const void* on = nullptr;      // what it is blocked on
  std::atomic<int> leave{0};
  std::atomic<int> go{0};
  VC vc{};
  bool timed_out = false, signalled = false;
  uintptr_t stack[64];
  int depth = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  pthread_t pt{};
  bool joined = false;
  const char* what = "";
  VC fence{};
  bool has_fence = false;
};
Thread T[kT];
int g_nt = 1;            // threads created in this region, including main
int g_cur = 0;
bool g_active = false;
uint32_t g_gen = 1;
int64_t g_countdown = INT64_MAX;
uint32_t g_gran = 0;
uint64_t g_spin = 0;
thr::Stats g_stats;
thread_local int t_self = 0;
thread_local int t_in = 0;  // inside the runtime or ignored code

void futex_wait(std::atomic<int>* a, int v) { syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futex_wake(std::atomic<int>* a) { syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
struct In { In() { ++t_in; } ~In() { --t_in; } };

// ------------------------------------------------------------------ sync objects
struct Sync { const void* addr; VC vc; int owner; int count; int readers; uint32_t gen; };
constexpr uint32_t kSyncTab = 1u << 16;
Sync* g_sync = nullptr;
Sync& sync_of(const void* a) {
  if (!g_sync) g_sync = static_cast<Sync*>(mmap(nullptr, kSyncTab * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  uint32_t i = static_cast<uint32_t>(sim::mix64(reinterpret_cast<uintptr_t>(a))) & (kSyncTab - 1);
  for (;; i = (i + 1) & (kSyncTab - 1)) {
    if (!g_sync[i].addr) g_sync[i].addr = a;
    if (g_sync[i].addr == a) {
      if (g_sync[i].gen != g_gen) { memset(g_sync[i].vc, 0, sizeof(VC)); g_sync[i].gen = g_gen; }
      return g_sync[i];
    }
  }
}
void acquire(const VC& v) { Thread& t = T[t_self]; for (int i = 0; i < kT; ++i) if (v[i] > t.vc[i]) t.vc[i] = v[i]; }
void release_into(VC& v) { Thread& t = T[t_self]; for (int i = 0; i < kT; ++i) if (t.vc[i] > v[i]) v[i] = t.vc[i]; t.vc[t_self]++; }
void release_set(VC& v) { Thread& t = T[t_self]; memcpy(v, t.vc, sizeof(VC)); t.vc[t_self]++; }

// ------------------------------------------------------------------ scheduling
void new_countdown() {
  if (!g_gran) { g_countdown = INT64_MAX; return; }
  uint32_t v = sim::choose(sim::kSched, 2 * g_gran);
  g_countdown = v ? v : INT64_MAX;
}
[[noreturn]] void deadlock() {
  std::string s;
  for (int i = 0; i < g_nt; ++i) if (T[i].st == kBlocked) { char b[64]; snprintf(b, sizeof b, " thread %d in %s;", i, T[i].what); s += b; }
  sim::violation("deadlock", "no thread can run:%s", s.c_str());
}
// hands the processor to thread n and waits until it comes back
void switch_to(int n) {
  if (n == t_self) return;
  g_stats.switches++;
  g_stats.order_hash = sim::mix64(g_stats.order_hash ^ (g_stats.accesses * 31 + g_stats.sync_ops * 7 + n));
  g_cur = n;
  g_spin = 0;
  Thread& me = T[t_self];
  T[n].go.store(1);
  futex_wake(&T[n].go);
  while (me.go.load() == 0) futex_wait(&me.go, 0);
  me.go.store(0);
}
int runnable(int* out, bool self_first) {
  int k = 0;
  if (self_first && T[t_self].st == kRunnable) out[k++] = t_self;
  for (int i = 0; i < g_nt; ++i) if (T[i].st == kRunnable && !(self_first && i == t_self)) out[k++] = i;
  return k;
}
void preempt() {
  int c[kT];
  int n = runnable(c, true);
  if (n < 2) return;
  int w = c[sim::choose(sim::kSched, n)];
  if (w == t_self) return;
  static int kind = sim::fault_kind("thread preempted");
  sim::fault_hit(kind);
  switch_to(w);
}
void sync_point() {
  if (!g_active) return;
  g_stats.sync_ops++;
  if (sim::choose(sim::kSched, 4) == 3) preempt();
}
void access_point() {
  if (--g_countdown > 0) return;
  preempt();
  new_countdown();
}
// the current thread cannot go on
void block(const void* on, const char* what, State st = kBlocked) {
  Thread& me = T[t_self];
  me.on = on; me.what = what; me.st = st;
  g_stats.contended++;
  int c[kT];
  int n = runnable(c, false);
  if (!n) {
    // let a timed wait expire
    for (int i = 0; i < g_nt; ++i) if (T[i].st == kTimed) c[n++] = i;
    if (!n) deadlock();
    int w = c[sim::choose(sim::kSched, n)];
    T[w].st = kRunnable; T[w].timed_out = true;
    c[0] = w; n = 1;
  }
  int w = n == 1 ? c[0] : c[sim::choose(sim::kSched, n)];
  if (w == t_self) return;
  switch_to(w);
}
void wake(const void* on) { for (int i = 0; i < g_nt; ++i) if ((T[i].st == kBlocked || T[i].st == kTimed) && T[i].on == on) { T[i].st = kRunnable; T[i].on = nullptr; } }

// ------------------------------------------------------------------ shadow memory
struct Rec { uint32_t w, r; uint8_t wm, rm, wa, ra; };
struct Cell { uint32_t gen; uint32_t pad; uintptr_t wpc, rpc; Rec r[kT]; };
struct Page { Cell c[512]; };
constexpr uint32_t kPages = 1u << 20;
struct Dir { uintptr_t key; Page* page; };
Dir* g_dir = nullptr;
uintptr_t g_lastkey = ~0ul;
Page* g_lastpage = nullptr;
Page* page_of(uintptr_t a, bool create) {
  uintptr_t key = (a >> 12) + 1;
  if (key == g_lastkey) return g_lastpage;
  if (!g_dir) g_dir = static_cast<Dir*>(mmap(nullptr, kPages * sizeof(Dir), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  uint32_t i = static_cast<uint32_t>(sim::mix64(key)) & (kPages - 1);
  for (;; i = (i + 1) & (kPages - 1)) {
    if (g_dir[i].key == key) break;
    if (!g_dir[i].key) {
      if (!create) return nullptr;
      g_dir[i].key = key;
      g_dir[i].page = static_cast<Page*>(mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      break;
    }
  }
  g_lastkey = key; g_lastpage = g_dir[i].page;
  return g_lastpage;
}
std::string sym(uintptr_t pc) {
  Dl_info d;
  if (!pc || !dladdr(reinterpret_cast<void*>(pc), &d)) return "?";
  if (!d.dli_sname) {  // a local function: the next exported symbol is unknown, give the offset in the module
    char b[160];
    const char* f = d.dli_fname ? strrchr(d.dli_fname, '/') : nullptr;
    snprintf(b, sizeof b, "%s+0x%lx", f ? f + 1 : "?", static_cast<unsigned long>(pc - reinterpret_cast<uintptr_t>(d.dli_fbase)));
    return b;
  }
  int st;
  char* n = __cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
  std::string s = st == 0 ? n : d.dli_sname;
  free(n);
  if (s.size() > 160) s = s.substr(0, 157) + "...";
  return s;
}
[[noreturn]] void race(const char* what, uintptr_t pc, uintptr_t other, int u) {
  Thread& t = T[t_self];
  std::string s;
  for (int i = 0; i < 6 && i < t.depth && i < 64; ++i) { int k = t.depth - 1 - i; if (k < 64) s += " < " + sym(t.stack[k]); }
  sim::violation("data-race", "%s by thread %d in %s%s; conflicting access by thread %d in %s", what, t_self, sym(pc).c_str(), s.c_str(), u, sym(other).c_str());
}
inline void cell_access(uintptr_t a8, uint8_t mask, bool write, bool atomic, uintptr_t pc) {
  Cell& c = page_of(a8, true)->c[(a8 >> 3) & 511];
  if (c.gen != g_gen) { memset(&c, 0, sizeof c); c.gen = g_gen; }
  Thread& t = T[t_self];
  for (int u = 0; u < g_nt; ++u) {
    if (u == t_self) continue;
    Rec& r = c.r[u];
    if ((r.wm & mask) && r.w > t.vc[u] && !(atomic && r.wa)) race(write ? "write" : "read", pc, c.wpc, u);
    if (write && (r.rm & mask) && r.r > t.vc[u] && !(atomic && r.ra)) race("write", pc, c.rpc, u);
  }
  Rec& r = c.r[t_self];
  uint32_t k = t.vc[t_self];
  if (write) {
    if (r.w == k && r.wa == atomic) r.wm |= mask; else { r.w = k; r.wm = mask; r.wa = atomic; }
    c.wpc = pc;
  } else {
    if (r.r == k && r.ra == atomic) r.rm |= mask; else { r.r = k; r.rm = mask; r.ra = atomic; }
    c.rpc = pc;
  }
}
void range_access(uintptr_t a, size_t n, bool write, uintptr_t pc, bool atomic = false) {
  while (n) {
    uintptr_t b = a & ~7ul;
    size_t off = a - b, k = 8 - off < n ? 8 - off : n;
    cell_access(b, static_cast<uint8_t>(((1u << k) - 1) << off), write, atomic, pc);
    a += k; n -= k;
  }
}
void range_clear(uintptr_t a, size_t n) {
  uintptr_t e = a + n;
  a &= ~7ul;
  while (a < e) {
    Page* p = page_of(a, false);
    if (!p) { a = (a & ~4095ul) + 4096; continue; }
    uintptr_t end = (a & ~4095ul) + 4096;
    for (; a < e && a < end; a += 8) p->c[(a >> 3) & 511].gen = 0;
  }
}
inline void access(void* p, size_t n, bool write, void* pc) {
  if (!g_active || t_in) return;
  In in;
  g_stats.accesses++;
  access_point();
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if ((a & 7) + n <= 8) cell_access(a & ~7ul, static_cast<uint8_t>(((1u << n) - 1) << (a & 7)), write, false, reinterpret_cast<uintptr_t>(pc));
  else range_access(a, n, write, reinterpret_cast<uintptr_t>(pc));
}
// atomics; mo: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
void atomic_pre(void* pc, const void* p, size_t n, bool write) {
  g_stats.atomics++;
  g_stats.accesses++;
  if (++g_spin > 3000) { g_spin = 0; int c[kT]; int k = runnable(c, true); if (k > 1) switch_to(c[1 + g_stats.atomics % (k - 1)]); }
  access_point();
  range_access(reinterpret_cast<uintptr_t>(p), n, write, reinterpret_cast<uintptr_t>(pc), true);
}
void on_load(const void* p, int mo) {
  Sync& s = sync_of(p);
  if (mo == 1 || mo == 2 || mo == 4 || mo == 5) acquire(s.vc);
  else { Thread& t = T[t_self]; for (int i = 0; i < kT; ++i) if (s.vc[i] > t.fence[i]) t.fence[i] = s.vc[i]; }
}
void on_store(const void* p, int mo) {
  Sync& s = sync_of(p);
  if (mo == 3 || mo == 4 || mo == 5) release_set(s.vc);
  else if (T[t_self].has_fence) release_into(s.vc);
  else memset(s.vc, 0, sizeof(VC));
}
void on_rmw(const void* p, int mo) {
  Sync& s = sync_of(p);
  if (mo == 1 || mo == 2 || mo == 4 || mo == 5) acquire(s.vc);
  if (mo == 3 || mo == 4 || mo == 5 || T[t_self].has_fence) release_into(s.vc);
}
// ------------------------------------------------------------------ threads
void start_thread(int id, int parent) {
  Thread& t = T[id];
  memcpy(t.vc, T[parent].vc, sizeof(VC));
  t.vc[id]++;
  T[parent].vc[parent]++;
  t.st = kRunnable;
  t.joined = false;
  t.depth = 0;
  t.go.store(0);
  t.leave.store(0);
  t.has_fence = false;
  memset(t.fence, 0, sizeof(VC));
}
void* trampoline(void* p) {
  int id = static_cast<int>(reinterpret_cast<intptr_t>(p));
  t_in = 1;
  t_self = id;
  Thread& t = T[id];
  while (t.go.load() == 0) futex_wait(&t.go, 0);
  t.go.store(0);
  {
    pthread_attr_t at;
    void* base; size_t sz;
    if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &base, &sz); range_clear(reinterpret_cast<uintptr_t>(base), sz); pthread_attr_destroy(&at); }
  }
  t_in = 0;
  t.ret = t.fn(t.arg);
  t_in = 1;
  t.vc[id]++;
  t.st = kDone;
  wake(&t);
  int c[kT];
  int n = runnable(c, false);
  if (!n) { for (int i = 0; i < g_nt; ++i) if (T[i].st == kTimed) { T[i].st = kRunnable; T[i].timed_out = true; c[n++] = i; break; } }
  if (!n) deadlock();
  int w = n == 1 ? c[0] : c[sim::choose(sim::kSched, n)];
  g_cur = w;
  g_stats.switches++;
  T[w].go.store(1);
  futex_wake(&T[w].go);
  // really end only when joined: glibc's view of "other threads exist" must not
  // depend on how fast finished threads disappear
  while (t.leave.load() == 0) futex_wait(&t.leave, 0);
  return t.ret;
}
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*join_t)(pthread_t, void**);
template <class F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
int spawn(void* (*fn)(void*), void* arg, const pthread_attr_t* at, pthread_t* out) {
  if (g_nt >= kT) sim::violation("too-many-threads", "more than %d threads", kT - 1);
  int id = g_nt++;
  T[id].fn = fn; T[id].arg = arg;
  start_thread(id, t_self);
  static create_t rc = real<create_t>("pthread_create");
  int e = rc(&T[id].pt, at, trampoline, reinterpret_cast<void*>(static_cast<intptr_t>(id)));
  if (e) { g_nt--; return e; }
  if (out) *out = T[id].pt;
  return 0;
}
void let_go(int id) { T[id].leave.store(1); futex_wake(&T[id].leave); }
void wait_for(int id) {
  while (T[id].st != kDone) block(&T[id], "join");
  acquire(T[id].vc);
  T[id].joined = true;
}
}  // namespace

namespace thr {
int self() { return t_self; }
Stats stats() { return g_stats; }
void point() { if (!g_active || t_in) return; In in; sync_point(); }
Ignore::Ignore() { ++t_in; }
Ignore::~Ignore() { --t_in; }
static void* body(void* p) { (*static_cast<const std::function<void()>*>(p))(); return nullptr; }
void parallel(const std::vector<std::function<void()>>& bodies) {
  In in;
  static bool once = [] { mallopt(M_ARENA_MAX, 1); return true; }();
  (void)once;
  ++g_gen;
  for (auto& t : T) { t.st = kFree; memset(t.vc, 0, sizeof t.vc); }
  g_nt = 1;
  T[0].st = kRunnable;
  T[0].vc[0] = 1;
  g_cur = 0;
  static const uint32_t kG[6] = {0, 5000, 1000, 200, 40, 8};
  g_gran = kG[sim::choose(sim::kSched, 6)];
  new_countdown();
  g_active = true;
  for (auto& b : bodies) spawn(body, const_cast<void*>(static_cast<const void*>(&b)), nullptr, nullptr);
  for (int i = 1; i < g_nt; ++i) wait_for(i);
  g_active = false;
  static join_t rj = real<join_t>("pthread_join");
  for (int i = 1; i < g_nt; ++i) let_go(i);
  for (int i = 1; i <= static_cast<int>(bodies.size()); ++i) rj(T[i].pt, nullptr);
  sim::mix(g_stats.order_hash);
  sim::eventf("threads done: %llu accesses, %llu synchronisation operations, %llu switches", (unsigned long long)g_stats.accesses, (unsigned long long)g_stats.sync_ops, (unsigned long long)g_stats.switches);
}
}  // namespace thr

// ------------------------------------------------------------------ instrumentation callbacks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (g_active) { Thread& t = T[t_self]; if (t.depth < 64) t.stack[t.depth] = reinterpret_cast<uintptr_t>(pc); t.depth++; } }
void __tsan_func_exit(void*) { if (g_active) { Thread& t = T[t_self]; if (t.depth > 0) t.depth--; } }
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_read##n##_pc(void* p, void* pc) { access(p, n, false, pc); } \
  void __tsan_write##n##_pc(void* p, void* pc) { access(p, n, true, pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
}
#define ATOMIC(N, U) \
  extern "C" U __tsan_atomic##N##_load(const volatile U* p, int mo) { if (!g_active || t_in) return __atomic_load_n(p, __ATOMIC_SEQ_CST); In in; atomic_pre(PC, (const void*)p, N / 8, false); U v = __atomic_load_n(p, __ATOMIC_SEQ_CST); on_load((const void*)p, mo); return v; } \
  extern "C" void __tsan_atomic##N##_store(volatile U* p, U v, int mo) { if (!g_active || t_in) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } In in; atomic_pre(PC, (const void*)p, N / 8, true); on_store((const void*)p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  extern "C" U __tsan_atomic##N##_exchange(volatile U* p, U v, int mo) { if (!g_active || t_in) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); In in; atomic_pre(PC, (const void*)p, N / 8, true); on_rmw((const void*)p, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  AOP(N, U, add) AOP(N, U, sub) AOP(N, U, and) AOP(N, U, or) AOP(N, U, xor) AOP(N, U, nand) \
  static bool cas##N(void* pc, volatile U* p, U* e, U v, int mo, int fmo) { \
    if (!g_active || t_in) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    In in; bool same = __atomic_load_n(p, __ATOMIC_SEQ_CST) == *e; (void)same; atomic_pre(pc, (const void*)p, N / 8, true); \
    bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) on_rmw((const void*)p, mo); else on_load((const void*)p, fmo); return ok; } \
  extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile U* p, U* e, U v, int mo, int fmo) { return cas##N(PC, p, e, v, mo, fmo); } \
  extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile U* p, U* e, U v, int mo, int fmo) { return cas##N(PC, p, e, v, mo, fmo); } \
  extern "C" U __tsan_atomic##N##_compare_exchange_val(volatile U* p, U e, U v, int mo, int fmo) { cas##N(PC, p, &e, v, mo, fmo); return e; }
#define AOP(N, U, op) \
  extern "C" U __tsan_atomic##N##_fetch_##op(volatile U* p, U v, int mo) { if (!g_active || t_in) return __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST); In in; atomic_pre(PC, (const void*)p, N / 8, true); on_rmw((const void*)p, mo); return __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int mo) {
  if (!g_active || t_in) return;
  In in;
  Thread& t = T[t_self];
  if (mo != 3) acquire(t.fence);
  if (mo >= 3) t.has_fence = true;
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ synchronisation
static int mtx_lock(pthread_mutex_t* m, bool tr) {
  Sync& s0 = sync_of(m);
  int me = t_self + 1;
  if (!g_active) { s0.owner = me; s0.count++; return 0; }
  In in;
  sync_point();
  for (;;) {
    Sync& s = sync_of(m);
    if (!s.owner) { s.owner = me; s.count = 1; acquire(s.vc); return 0; }
    if (s.owner == me) {
      if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { s.count++; return 0; }
      if (tr) return EBUSY;
      if (m->__data.__kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
      sim::violation("deadlock", "thread %d locks a mutex it already holds", t_self);
    }
    if (tr) return EBUSY;
    block(m, "mutex lock");
  }
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { return mtx_lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mtx_lock(m, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return mtx_lock(m, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  Sync& s = sync_of(m);
  if (!g_active) { if (s.count > 0 && --s.count == 0) s.owner = 0; return 0; }
  In in;
  if (s.owner != t_self + 1) sim::violation("bad-unlock", "thread %d unlocks a mutex it does not hold", t_self);
  if (--s.count > 0) return 0;
  s.owner = 0;
  release_into(s.vc);
  wake(m);
  sync_point();
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof *m);
  if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
  Sync& s = sync_of(m); s.owner = s.count = 0; memset(s.vc, 0, sizeof(VC));
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { Sync& s = sync_of(m); s.owner = s.count = 0; return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!g_active) { sync_of(m).readers++; return 0; }
  In in; sync_point();
  while (sync_of(m).owner) block(m, "shared lock");
  Sync& s = sync_of(m); s.readers++; acquire(s.vc); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!g_active) { sync_of(m).owner = t_self + 1; return 0; }
  In in; sync_point();
  while (sync_of(m).owner || sync_of(m).readers) block(m, "exclusive lock");
  Sync& s = sync_of(m); s.owner = t_self + 1; acquire(s.vc); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  Sync& s = sync_of(m);
  if (!g_active) { if (s.owner) s.owner = 0; else if (s.readers) s.readers--; return 0; }
  In in;
  if (s.owner) s.owner = 0; else s.readers--;
  release_into(s.vc);
  wake(m); sync_point(); return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  if (!g_active) return timed ? ETIMEDOUT : 0;
  T[t_self].timed_out = false;
  { In in; Sync& s = sync_of(m); s.owner = 0; s.count = 0; release_into(s.vc); wake(m); block(c, "condition wait", timed ? kTimed : kBlocked); acquire(sync_of(c).vc); }
  bool to = T[t_self].timed_out;
  mtx_lock(m, false);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec*) { return cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!g_active) return 0;
  In in; release_into(sync_of(c).vc);
  int w[kT], n = 0;
  for (int i = 0; i < g_nt; ++i) if ((T[i].st == kBlocked || T[i].st == kTimed) && T[i].on == c) w[n++] = i;
  if (n) { int k = w[sim::choose(sim::kSched, n)]; T[k].st = kRunnable; T[k].on = nullptr; }
  sync_point(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) { if (!g_active) return 0; In in; release_into(sync_of(c).vc); wake(c); sync_point(); return 0; }
int sched_yield() { if (!g_active || t_in) return 0; In in; preempt(); return 0; }
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!g_active) { static create_t rc = real<create_t>("pthread_create"); return rc(t, a, fn, arg); }
  In in;
  int e = spawn(fn, arg, a, t);
  sync_point();
  return e;
}
int pthread_join(pthread_t t, void** r) {
  static join_t rj = real<join_t>("pthread_join");
  if (!g_active) return rj(t, r);
  In in;
  for (int i = 1; i < g_nt; ++i) if (pthread_equal(T[i].pt, t) && !T[i].joined) { wait_for(i); if (r) *r = T[i].ret; let_go(i); return rj(t, nullptr); }
  return ESRCH;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  Sync* s = &sync_of(o);
  if (*o == 2) { if (g_active) { In in; acquire(s->vc); } return 0; }
  if (g_active) {
    In in; sync_point();
    while (sync_of(o).owner) { if (sync_of(o).owner == t_self + 1) sim::violation("deadlock", "recursive one-time initialisation"); block(o, "one-time initialisation"); }
    s = &sync_of(o);
    if (*o == 2) { acquire(s->vc); return 0; }
  }
  s->owner = t_self + 1;
  try { fn(); } catch (...) { In in; Sync& q = sync_of(o); q.owner = 0; if (g_active) { release_into(q.vc); wake(o); } throw; }
  In in;
  *o = 2;
  Sync& q = sync_of(o);
  q.owner = 0;
  if (g_active) { release_into(q.vc); wake(o); sync_point(); }
  return 0;
}
// one-time initialisation of local statics
int vsim_guard_acquire(int64_t* g) asm("__cxa_guard_acquire");
int vsim_guard_acquire(int64_t* g) {
  char* b = reinterpret_cast<char*>(g);
  Sync* s = &sync_of(g);
  g_stats.guards++;
  if (g_active) {
    In in;
    sync_point();
    for (;;) {
      s = &sync_of(g);
      if (*b) { acquire(s->vc); return 0; }
      if (!s->owner) break;
      if (s->owner == t_self + 1) sim::violation("deadlock", "recursive initialisation of a local static");
      block(g, "initialisation of a local static");
    }
    acquire(s->vc);
  } else if (*b) return 0;
  s->owner = t_self + 1;
  return 1;
}
void vsim_guard_release(int64_t* g) asm("__cxa_guard_release");
void vsim_guard_release(int64_t* g) {
  In in;
  Sync& s = sync_of(g);
  s.owner = 0;
  if (g_active) release_into(s.vc);
  *reinterpret_cast<char*>(g) = 1;
  if (g_active) { wake(g); sync_point(); }
}
void vsim_guard_abort(int64_t* g) asm("__cxa_guard_abort");
void vsim_guard_abort(int64_t* g) {
  In in;
  Sync& s = sync_of(g);
  s.owner = 0;
  if (g_active) { release_into(s.vc); wake(g); sync_point(); }
}
}
// ------------------------------------------------------------------ memory
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
static void fresh(void* p) { if (g_active && p) { In in; range_clear(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p)); } }
static void gone(void* p, void* pc) { if (g_active && p && !t_in) { In in; range_access(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p), true, reinterpret_cast<uintptr_t>(pc)); } }
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); fresh(p); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); fresh(p); return p; }
void* __wrap_realloc(void* o, size_t n) { gone(o, PC); void* p = __real_realloc(o, n); fresh(p); return p; }
void __wrap_free(void* p) { gone(p, PC); __real_free(p); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access(const_cast<void*>(s), n, false, PC); access(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access(const_cast<void*>(s), n, false, PC); access(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) access(d, n, true, PC); return __real_memset(d, c, n); }
}
static void* op_new(size_t n, size_t al) {
  void* p = nullptr;
  if (al <= 16) p = __real_malloc(n ? n : 1); else if (posix_memalign(&p, al, n ? n : 1)) p = nullptr;
  if (!p) throw std::bad_alloc();
  fresh(p);
  return p;
}
static void op_del(void* p, void* pc) noexcept { if (p) { gone(p, pc); __real_free(p); } }
void* operator new(size_t n) { return op_new(n, 0); }
void* operator new[](size_t n) { return op_new(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { op_del(p, PC); }
void operator delete[](void* p) noexcept { op_del(p, PC); }
void operator delete(void* p, size_t) noexcept { op_del(p, PC); }
void operator delete[](void* p, size_t) noexcept { op_del(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { op_del(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { op_del(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_del(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_del(p, PC); }

// heap interface of the other variants: nothing is injected here
namespace sim {
Quiet::Quiet() { ++t_in; }
Quiet::~Quiet() { --t_in; }
Heap heap() { return {}; }
void heap_track(bool) {}
void heap_arm(uint64_t, uint64_t) {}
uint64_t heap_disarm() { return 0; }
uint64_t heap_seq() { return 0; }
}  // namespace sim
