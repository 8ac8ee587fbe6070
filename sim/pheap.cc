// Simulated heap with a seeded placement, recycling and contents policy: the
// same program can be run under many memory layouts.
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <new>

#include "os.h"
#include "pheap.h"

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_realloc(void*, size_t);
}
namespace sim {
namespace {
constexpr size_t kArena = size_t{4} << 30;
constexpr size_t kBig = size_t{1} << 30;
constexpr uint32_t kClasses = 128;
struct Head { uint32_t cls, magic; uint64_t size; };   // 16 bytes in front of every block
struct Free { Free* next; };
char* g_base = nullptr;
char* g_brk = nullptr;
char* g_end = nullptr;
Free* g_free[kClasses];
MemPolicy g_pol;
uint64_t g_rng = 1;
MemStats g_stats;
uint64_t rnd() { g_rng += 0x9e3779b97f4a7c15ULL; return mix64(g_rng); }
uint32_t cls_of(size_t n) {
  if (n <= 1024) return static_cast<uint32_t>((n + 15) / 16);          // 1..64
  uint32_t lg = 63 - static_cast<uint32_t>(__builtin_clzll(n - 1));      // 10..
  return 65 + 2 * (lg - 10) + ((n - 1) >> (lg - 1) & 1);                 // two classes per power of two
}
size_t cls_size(uint32_t c) {
  if (c <= 64) return c * 16ul;
  uint32_t k = c - 65;
  size_t p = size_t{1} << (10 + k / 2);
  return k & 1 ? 2 * p : p + p / 2;
}
void fill(void* p, size_t n, unsigned how) {
  switch (how) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: { auto* c = static_cast<unsigned char*>(p); uint64_t v = rnd(); for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) v = mix64(v + i); c[i] = static_cast<unsigned char>(v >> (8 * (i % 8))); } break; }
    case 3: break;  // stale
    case 4: { auto* c = static_cast<unsigned char*>(p); for (size_t i = 0; i < n; ++i) c[i] = i % 4 == 0 ? 1 : 0; break; }  // small integers
    case 5: { double v = 1.5; auto* c = static_cast<char*>(p); for (size_t i = 0; i + 8 <= n; i += 8) memcpy(c + i, &v, 8); break; }
    default: memset(p, 0x01, n); break;
  }
}
void init() {
  g_base = static_cast<char*>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (g_base == MAP_FAILED) abort();
  g_brk = g_base;
  g_end = g_base + kArena;
}
void* carve(size_t bytes) {
  if (!g_base) init();
  bytes = (bytes + 15) & ~size_t{15};
  if (g_brk + bytes > g_end) abort();
  void* p = g_brk;
  g_brk += bytes;
  return p;
}
void* get(size_t n) {
  if (n > kBig) return nullptr;
  uint32_t c = cls_of(n ? n : 1);
  size_t sz = cls_size(c) + 16;
  if (!g_free[c]) {
    // fetch a batch of blocks and queue them ascending, descending or shuffled
    unsigned cnt = 1;
    if (g_pol.on && sz <= 4096) cnt = 1 + static_cast<unsigned>(rnd() % 24);
    if (g_pol.on && g_pol.gaps) carve(16 * (rnd() % 64));
    char* b = static_cast<char*>(carve(sz * cnt));
    unsigned idx[32];
    for (unsigned i = 0; i < cnt; ++i) idx[i] = i;
    if (g_pol.order == 1) for (unsigned i = 0; i < cnt; ++i) idx[i] = cnt - 1 - i;
    if (g_pol.order == 2) for (unsigned i = cnt; i > 1; --i) { unsigned j = static_cast<unsigned>(rnd() % i); unsigned t = idx[i - 1]; idx[i - 1] = idx[j]; idx[j] = t; }
    for (unsigned i = cnt; i-- > 0;) { Free* f = reinterpret_cast<Free*>(b + sz * idx[i] + 16); f->next = g_free[c]; g_free[c] = f; }
  }
  Free** at = &g_free[c];
  if (g_pol.on && g_pol.reuse) {  // take one further down the list
    unsigned k = static_cast<unsigned>(rnd() % 8);
    while (k-- && (*at)->next) at = &(*at)->next;
  }
  Free* f = *at;
  *at = f->next;
  auto* h = reinterpret_cast<Head*>(reinterpret_cast<char*>(f) - 16);
  h->cls = c;
  h->magic = 0x5a5a1234;
  h->size = n;
  g_stats.allocs++;
  if (g_pol.on) fill(f, cls_size(c), g_pol.fresh);
  return f;
}
bool ours(void* p) { return p >= g_base && p < g_end && g_base; }
void put(void* p) {
  if (!p) return;
  if (!ours(p)) { __real_free(p); return; }
  auto* h = reinterpret_cast<Head*>(static_cast<char*>(p) - 16);
  if (h->magic == 0x41419999) { put(*reinterpret_cast<void**>(&h->size)); return; }  // over-aligned
  if (h->magic != 0x5a5a1234) abort();
  h->magic = 0xdead;
  if (g_pol.on) fill(p, cls_size(h->cls), g_pol.freed);
  Free* f = static_cast<Free*>(p);
  if (g_pol.on && g_pol.reuse && g_free[h->cls] && rnd() % 2) { f->next = g_free[h->cls]->next; g_free[h->cls]->next = f; }
  else { f->next = g_free[h->cls]; g_free[h->cls] = f; }
}
void* get_al(size_t n, size_t al) {
  if (al <= 16) return get(n);
  char* p = static_cast<char*>(get(n + al + 16));
  if (!p) return nullptr;
  char* q = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(p) + 16 + al - 1) & ~(al - 1));
  auto* h = reinterpret_cast<Head*>(q - 16);
  h->magic = 0x41419999;
  *reinterpret_cast<void**>(&h->size) = p;
  return q;
}
__attribute__((noinline)) void scribble(size_t n, unsigned how) {
  volatile char buf[4096];
  fill(const_cast<char*>(buf), sizeof buf, how);
  if (n > sizeof buf) scribble(n - sizeof buf, how);
  asm volatile("" ::"r"(buf) : "memory");
}
}  // namespace
Quiet::Quiet() {}
Quiet::~Quiet() {}
void mem_policy(const MemPolicy& p) { g_pol = p; g_rng = p.seed * 2 + 1; }
MemStats mem_stats() { return g_stats; }
void scribble_stack(unsigned how) { scribble(96 << 10, how); }
}  // namespace sim
using namespace sim;
static void* op_new(size_t n, size_t al) { void* p = get_al(n, al); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return op_new(n, 0); }
void* operator new[](size_t n) { return op_new(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get_al(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get_al(n, 0); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
extern "C" {
void* __wrap_malloc(size_t n) { void* p = get(n); if (!p) errno = ENOMEM; return p; }
void* __wrap_calloc(size_t a, size_t b) {
  if (a && b > SIZE_MAX / a) return nullptr;
  void* p = __wrap_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void __wrap_free(void* p) { put(p); }
void* __wrap_realloc(void* o, size_t n) {
  if (!o) return __wrap_malloc(n);
  if (!ours(o)) return __real_realloc(o, n);
  void* p = get(n);
  if (!p) { errno = ENOMEM; return nullptr; }
  size_t old = reinterpret_cast<Head*>(static_cast<char*>(o) - 16)->size;
  memcpy(p, o, old < n ? old : n);
  put(o);
  return p;
}
}
