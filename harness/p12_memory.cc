// P12: the same operations under different memory layouts and contents.
#include <spdlog/spdlog.h>
#include "sim/pheap.h"
#include "tour.h"
using namespace sim;
namespace {
struct Task { const tour::Step* s; tour::Params p; };
MemPolicy draw() {
  MemPolicy p;
  p.on = true;
  p.seed = choose(kMem, 1u << 30);
  p.order = choose(kMem, 3);
  p.gaps = chance(kMem, 700);
  p.reuse = chance(kMem, 700);
  p.fresh = choose(kMem, 7);
  p.freed = choose(kMem, 7);
  return p;
}
void run() {
  disk_reset();
  clocks().on = true;
  tour::Spec spec = tour::draw_spec(true, true);
  const auto& all = tour::steps();
  std::vector<Task> todo;
  unsigned n = 1 + pick(5), needs = 0;
  for (unsigned i = 0; i < n; ++i) {
    Task t;
    do t.s = &all[pick(static_cast<uint32_t>(all.size()))]; while ((t.s->needs & tour::kPlanar) && spec.am.world == 3);
    t.p = i && coin(200) ? todo.back().p : tour::draw_params();
    t.p.a[7] = i;
    needs |= t.s->needs;
    todo.push_back(t);
  }
  bool logs = coin(250);
  std::string names;
  for (auto& t : todo) { names += t.s->name; names += ' '; }
  event(names);
  MemPolicy pol[3] = {draw(), draw(), draw()};
  if (chance(kMem, 300)) { pol[1] = pol[0]; pol[1].fresh = choose(kMem, 7); pol[1].freed = choose(kMem, 7); }
  unsigned stack[3];
  for (auto& x : stack) x = choose(kMem, 7);
  std::string out[3];
  for (int v = 0; v < 3; ++v) {
    eventf("memory %d: order %u gaps %d reuse %d fresh %u freed %u stack %u", v, pol[v].order, pol[v].gaps, pol[v].reuse, pol[v].fresh, pol[v].freed, stack[v]);
    int status = 0;
    size_t before = captured_output().size();
    bool alive = in_copy([&] {
      std::string o;
      auto num = [&](uint64_t h) { o.append(reinterpret_cast<char*>(&h), 8); };
      if (logs) spdlog::set_level(spdlog::level::trace);
      mem_policy(pol[v]);
      scribble_stack(stack[v]);
      auto w = tour::make_world(spec, needs);
      for (auto& t : todo) {
        scribble_stack(stack[v]);
        num(t.s->fn(*w, t.p));
        scribble_stack((stack[v] + 3) % 7);
        num(t.s->fn(*w, t.p));  // once more, in memory that has been used before
      }
      scribble_stack(stack[v]);
      num(tour::world_digest(*w));
      w.reset();
      std::string text = captured_output().substr(before);
      o += text;
      return o;
    }, &out[v], &status);
    if (!alive) { std::string o = captured_output(); violation("dies", "steps [%s] die under memory policy %d, status %d: %s", names.c_str(), v, status, o.substr(before, 600).c_str()); }
    for (size_t i = 0; i < todo.size(); ++i)
      if (std::memcmp(&out[v][16 * i], &out[v][16 * i + 8], 8) != 0) violation("repeat-differs", "step %s repeated on the same objects gives another result", todo[i].s->name);
    if (v == 0) continue;
    for (size_t i = 0; i < todo.size(); ++i)
      if (std::memcmp(&out[v][16 * i], &out[0][16 * i], 16) != 0) violation("depends-on-memory", "step %s gives different results under memory policies 0 and %d", todo[i].s->name, v);
    size_t q = 16 * todo.size();
    if (std::memcmp(&out[v][q], &out[0][q], 8) != 0) violation("depends-on-memory", "the objects answer differently under memory policies 0 and %d", v);
    if (out[v].size() != out[0].size() || out[v] != out[0]) {
      size_t k = q + 8;
      while (k < out[v].size() && k < out[0].size() && out[v][k] == out[0][k]) ++k;
      size_t a = k < 100 + q ? q + 8 : k - 100;
      violation("text-depends-on-memory", "steps [%s] print different texts under memory policies 0 and %d: '%s' vs '%s'", names.c_str(), v, out[0].substr(a, 250).c_str(), out[v].substr(a, 250).c_str());
    }
  }
  if (out[0].size() > 16 * todo.size() + 8) probe("log text compared");
  static const int kinds[3] = {fault_kind("block placement changed"), fault_kind("stale or garbage contents of new blocks"), fault_kind("stack overwritten")};
  for (int k : kinds) fault_hit(k);
  uint64_t h = hash_bytes(out[0].data(), out[0].size());
  mix(h);
  feature(hash_bytes(names.data(), names.size(), pol[1].order * 49 + pol[1].fresh * 7 + pol[1].freed));
}
}  // namespace
const sim::Harness sim::kHarness{"p12_memory", nullptr, run};
