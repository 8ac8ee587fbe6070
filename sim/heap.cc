// Simulated heap front end: failure injection and live-block accounting on top
// of the (ASan) allocator.
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <new>

#include "os.h"

extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
#define REAL_MALLOC __real_malloc
#define REAL_FREE __real_free

namespace sim {
namespace {
thread_local int t_quiet = 0;
bool g_track = false;
uint64_t g_seq = 0;
bool g_armed = false;
uint64_t g_at = 0, g_cnt = 0;
uint64_t g_injected = 0;
Heap g_heap;
constexpr size_t kTab = 1u << 21;
constexpr size_t kBig = size_t{1} << 30;
struct Ent { void* p; size_t n; };
Ent* g_tab = nullptr;
void* const kTomb = reinterpret_cast<void*>(1);

size_t slot(void* p) { return mix64(reinterpret_cast<uintptr_t>(p)) & (kTab - 1); }
void note(void* p, size_t n) {
  if (!g_tab) g_tab = static_cast<Ent*>(mmap(nullptr, kTab * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for (size_t i = slot(p);; i = (i + 1) & (kTab - 1))
    if (!g_tab[i].p || g_tab[i].p == kTomb || g_tab[i].p == p) { g_tab[i] = {p, n}; break; }
  g_heap.live_blocks++;
  g_heap.live_bytes += n;
  g_heap.total++;
}
void unnote(void* p) {
  if (!g_tab) return;
  for (size_t i = slot(p); g_tab[i].p; i = (i + 1) & (kTab - 1))
    if (g_tab[i].p == p) {
      g_heap.live_blocks--;
      g_heap.live_bytes -= g_tab[i].n;
      g_tab[i] = {kTomb, 0};
      return;
    }
}
bool should_fail(size_t n) {
  if (n > kBig) return true;  // the simulated machine has no such block
  if (t_quiet) return false;
  uint64_t k = g_seq++;
  if (!g_armed || k < g_at) return false;
  if (g_cnt && k >= g_at + g_cnt) return false;
  g_injected++;
  g_heap.failed++;
  t_quiet++;
  fault_hit("allocation-fails");
  eventf("allocation %llu of %zu bytes fails", static_cast<unsigned long long>(k - g_at), n);
  t_quiet--;
  return true;
}
}  // namespace
Quiet::Quiet() { t_quiet++; }
Quiet::~Quiet() { t_quiet--; }
Heap heap() { return g_heap; }
void heap_track(bool on) { g_track = on; }
void heap_arm(uint64_t k, uint64_t count) { g_armed = true; g_at = g_seq + k; g_cnt = count; g_injected = 0; }
uint64_t heap_disarm() { g_armed = false; return g_injected; }
uint64_t heap_seq() { return g_seq; }

static inline void* alloc(size_t n, size_t al, bool* failed) {
  *failed = false;
  if (should_fail(n)) { *failed = true; return nullptr; }
  void* p = nullptr;
  if (al <= 16) p = REAL_MALLOC(n ? n : 1);
  else if (posix_memalign(&p, al, n ? n : 1)) p = nullptr;
  if (p && g_track && !t_quiet) note(p, n);
  return p;
}
}  // namespace sim
using namespace sim;

static void* op_new(size_t n, size_t al) {
  bool failed;
  void* p = alloc(n, al, &failed);
  if (!p) throw std::bad_alloc();
  return p;
}
static void* op_new_nt(size_t n, size_t al) noexcept { bool f; return alloc(n, al, &f); }
static void op_del(void* p) noexcept {
  if (!p) return;
  if (g_tab) unnote(p);
  REAL_FREE(p);
}
void* operator new(size_t n) { return op_new(n, 0); }
void* operator new[](size_t n) { return op_new(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 0); }
void operator delete(void* p) noexcept { op_del(p); }
void operator delete[](void* p) noexcept { op_del(p); }
void operator delete(void* p, size_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t) noexcept { op_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_del(p); }

// -Wl,--wrap for objects linked statically (library under test + harness)
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) {
  bool f;
  void* p = alloc(n, 0, &f);
  if (!p) errno = ENOMEM;
  return p;
}
void* __wrap_calloc(size_t a, size_t b) {
  if (a && b > SIZE_MAX / a) return nullptr;
  void* p = __wrap_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void __wrap_free(void* p) { op_del(p); }
void* __wrap_realloc(void* o, size_t n) {
  if (!o) return __wrap_malloc(n);
  if (should_fail(n)) { errno = ENOMEM; return nullptr; }
  unnote(o);
  void* p = __real_realloc(o, n);
  if (p && g_track && !t_quiet) note(p, n);
  return p;
}
const char* __asan_default_options() {
  return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:handle_abort=0:handle_segv=1:allow_user_segv_handler=0:detect_odr_violation=0:quarantine_size_mb=32:malloc_context_size=12:symbolize=0";
}
}
