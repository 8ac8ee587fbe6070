// Deterministic simulator core: choice streams, event log, fault counters,
// fork-per-run execution. See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

// Independent choice streams of one run; all derived from the run's seed.
enum Stream : int { kWork = 0, kFault = 1, kSched = 2, kMem = 3, kNumStreams = 4 };

// ---- choices -------------------------------------------------------------
// value in [0,n); 0 is always the simplest alternative (no fault, no switch).
uint32_t choose(Stream s, uint32_t n);
inline uint32_t pick(uint32_t n) { return choose(kWork, n); }
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(kWork, hi - lo + 1); }
// true with probability permille/1000 (simplest: false)
inline bool chance(Stream s, uint32_t permille) { return choose(s, 1000) >= 1000 - permille; }
inline bool coin(uint32_t permille = 500) { return chance(kWork, permille); }
// deterministic value in [-1,1] on a 1/1024 grid
inline double unit() {
  uint32_t k = choose(kWork, 2049);
  double m = static_cast<double>((k + 1) / 2) / 1024.0;
  return (k & 1u) ? m : -m;
}

// ---- event log -------------------------------------------------------------
void event(std::string_view text);
void eventf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(uint64_t v);           // adds a number to the event hash only
uint64_t event_hash();
bool tracing();

// ---- verdicts ---------------------------------------------------------------
// Terminates the run with a violation. `cls` is a short stable class name.
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Terminates the run as uninteresting (precondition not met).
[[noreturn]] void discard(const char* why);
// Terminates the run successfully right now (e.g. after a loud failure).
[[noreturn]] void finish();
// While true a SIGABRT (failed LF_VERIFY etc.) is a legitimate loud failure.
void allow_abort(bool on, const char* why = "");
bool abort_allowed();

// ---- counters ------------------------------------------------------------------
int fault_kind(const char* name);      // registers (idempotent), returns id
void fault_hit(int kind);
inline void fault_hit(const char* name) { fault_hit(fault_kind(name)); }
void probe(const char* name);          // "rare condition reached"
void feature(uint64_t h);              // coverage feature (state/interleaving)
void add_sim_time(double seconds);
uint64_t seed();                       // of this run
double param(const char* name, double dflt);

// ---- hashing ----------------------------------------------------------------------
inline uint64_t mix64(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL);

// ---- harness interface ---------------------------------------------------------------
struct Harness {
  const char* name;
  void (*warmup)();  // in the parent, before any fork (may be null)
  void (*run)();     // one simulated run; returns normally if the property held
};
extern const Harness kHarness;  // defined by the harness

// capture of stdout/stderr of the run (memfd); text written so far
std::string captured_output();

// Runs fn in a forked copy of the current process; the bytes it returns are
// handed back.  Returns false if the copy died.
bool in_copy(const std::function<std::string()>& fn, std::string* out, int* status);

}  // namespace sim
