// Small helpers shared by the harnesses.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>

#include "sim/os.h"
#include "sim/sim.h"

namespace hs {
enum Outcome { kDone = 0, kThrew = 1, kBadAlloc = 2 };
// Runs fn, reports what left it.
template <class F> Outcome attempt(F&& fn, std::string* what = nullptr) {
  try {
    fn();
    return kDone;
  } catch (const std::bad_alloc&) {
    sim::Quiet q;
    if (what) *what = "std::bad_alloc";
    return kBadAlloc;
  } catch (const std::exception& e) {
    sim::Quiet q;
    if (what) *what = e.what();
    return kThrew;
  } catch (...) {
    sim::Quiet q;
    if (what) *what = "unknown exception";
    return kThrew;
  }
}
// deterministic Fisher-Yates from the work stream
template <class V> void shuffle(V& v) {
  for (size_t i = v.size(); i > 1; --i) {
    size_t j = i - 1 - sim::pick(static_cast<uint32_t>(i));
    std::swap(v[i - 1], v[j]);
  }
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
struct Digest {
  uint64_t h = 0x9876;
  void u(uint64_t v) { h = sim::mix64(h ^ v) + 0x9e3779b97f4a7c15ULL; }
  void d(double v) { uint64_t w; if (v == 0) v = 0; std::memcpy(&w, &v, 8); u(w); }
  void s(const std::string& v) { u(v.size()); u(sim::hash_bytes(v.data(), v.size())); }
  template <class M> void m(const M& x) { u(x.rows()); u(x.cols()); for (long j = 0; j < x.cols(); ++j) for (long i = 0; i < x.rows(); ++i) d(x(i, j)); }
};
}  // namespace hs
