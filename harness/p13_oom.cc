// P13: allocations fail in every operation of the tour.
#include <new>
#include "tour.h"
using namespace sim;
namespace {
struct Task { const tour::Step* s; tour::Params p; uint64_t want = 0, allocs = 0; };
enum Outcome { kFine, kOom, kOther };
struct Res { Outcome o; uint64_t h = 0; std::string what; };
Res attempt(const Task& t, const tour::World& w, uint64_t k, uint64_t count, bool arm, uint64_t* injected) {
  Res r{kFine};
  if (arm) heap_arm(k, count);
  try { r.h = t.s->fn(w, t.p); }
  catch (const std::bad_alloc&) { r.o = kOom; }
  catch (const std::exception& e) { r.o = kOther; *injected = heap_disarm(); Quiet q; r.what = e.what(); return r; }
  *injected = heap_disarm();
  return r;
}
void run() {
  disk_reset();
  tour::Spec spec = tour::draw_spec(true, true);
  const auto& all = tour::steps();
  std::vector<Task> todo;
  unsigned n = 1 + pick(2), needs = 0;
  for (unsigned i = 0; i < n; ++i) {
    Task t;
    do t.s = &all[pick(static_cast<uint32_t>(all.size()))]; while (((t.s->needs & tour::kPlanar) && spec.am.world == 3) || (t.s->flags & tour::kNoOom));
    t.p = tour::draw_params();
    t.p.a[7] = i;
    needs |= t.s->needs;
    todo.push_back(t);
  }
  bool warm = coin(300);
  auto w = tour::make_world(spec, needs);
  uint64_t wd = tour::world_digest(*w);
  std::string names;
  for (auto& t : todo) { names += t.s->name; names += ' '; }
  event(names);
  // result and number of allocations of each step when memory suffices, in a copy
  std::string ref;
  int status = 0;
  auto normal = [&] {
    std::string o;
    for (auto& t : todo) {
      uint64_t a = heap_seq();
      uint64_t h = t.s->fn(*w, t.p);
      a = heap_seq() - a;
      Quiet q;
      o.append(reinterpret_cast<char*>(&h), 8);
      o.append(reinterpret_cast<char*>(&a), 8);
    }
    return o;
  };
  if (!in_copy(normal, &ref, &status)) { std::string o = captured_output(); violation("dies", "steps [%s] die although memory suffices, status %d: %s", names.c_str(), status, o.substr(0, 600).c_str()); }
  if (warm) normal();
  for (size_t i = 0; i < todo.size(); ++i) { std::memcpy(&todo[i].want, &ref[16 * i], 8); std::memcpy(&todo[i].allocs, &ref[16 * i + 8], 8); }
  heap_track(true);
  unsigned rounds = 1 + pick(3);
  for (unsigned r = 0; r < rounds; ++r) {
    Task& t = todo[pick(static_cast<uint32_t>(todo.size()))];
    if (!t.allocs) continue;
    uint64_t k = choose(kFault, static_cast<uint32_t>(t.allocs + t.allocs / 8 + 1));
    static const unsigned counts[] = {1, 0, 1, 2, 5};
    uint64_t cnt = counts[choose(kFault, 5)];
    uint64_t live[4] = {};
    eventf("step %s: allocation %llu of %llu fails (count %llu)", t.s->name, (unsigned long long)k, (unsigned long long)t.allocs, (unsigned long long)cnt);
    for (int rep = 0; rep < 4; ++rep) {
      uint64_t inj = 0;
      {
        Res x = attempt(t, *w, k, cnt, true, &inj);
        if (x.o == kOther && inj) { if (!t.s->reports || !*t.s->reports || x.what.find(t.s->reports) == std::string::npos) violation("other-exception", "step %s: after a failed allocation the exception is '%s'", t.s->name, x.what.c_str()); probe("reported as another error"); }
        else if (x.o == kOther) violation("unexpected-exception", "step %s threw '%s' although no allocation failed", t.s->name, x.what.c_str());
        if (x.o == kOom && !inj) violation("spurious-oom", "step %s reported memory exhaustion although no allocation failed", t.s->name);
        if (x.o == kFine && x.h != t.want) violation("wrong-result", "step %s returned a wrong result after %llu failed allocations", t.s->name, (unsigned long long)inj);
        if (inj) probe(x.o == kOom ? "failure reported" : x.o == kFine ? "failure survived" : "other");
        eventf("outcome %d", x.o);
      }
      for (auto& f : disk_list()) disk_remove(f);
      live[rep] = heap().live_blocks;
      if (tour::world_digest(*w) != wd) violation("shared-object-changed", "after step %s ran out of memory the objects it read answer differently", t.s->name);
      if (!inj) break;
      if (rep == 3 && live[3] > live[2] && live[2] > live[1]) violation("leak", "step %s leaks when allocation %llu fails: %llu, %llu, %llu live blocks", t.s->name, (unsigned long long)k, (unsigned long long)live[1], (unsigned long long)live[2], (unsigned long long)live[3]);
    }
    uint64_t inj;
    Res y = attempt(t, *w, 0, 0, false, &inj);
    if (y.o != kFine) violation("retry-fails", "step %s does not succeed once memory is available again: %s", t.s->name, y.what.c_str());
    if (y.h != t.want) violation("retry-differs", "step %s gives another result after an attempt that ran out of memory", t.s->name);
    feature(hash_bytes(t.s->name, std::strlen(t.s->name), k * 8 + cnt));
  }
  heap_track(false);
}
}  // namespace
const sim::Harness sim::kHarness{"p13_oom", nullptr, run};
