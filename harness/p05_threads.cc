// P05: threads use shared objects read-only and objects of their own.
#include "sim/thr.h"
#include "tour.h"
using namespace sim;
namespace {
struct Task { const tour::Step* s; tour::Params p; uint64_t want = 0, got = 0; bool threw = false; std::string what; };
void run() {
  disk_reset();
  tour::Spec spec = tour::draw_spec(true, true);
  const auto& all = tour::steps();
  unsigned nt = 2 + pick(3);
  std::vector<std::vector<Task>> th(nt);
  // a theme makes threads meet in the same code
  unsigned theme = pick(3);  // 0: anything, 1: all threads the same step first, 2: few steps
  std::vector<const tour::Step*> pool;
  auto ok = [&](const tour::Step& s) { return !((s.needs & tour::kPlanar) && spec.am.world == 3); };
  auto draw = [&]() -> const tour::Step* { for (;;) { const auto& s = all[pick(static_cast<uint32_t>(all.size()))]; if (ok(s)) return &s; } };
  const tour::Step* first = draw();
  for (int i = 0; i < 2; ++i) pool.push_back(draw());
  uint32_t slot = 0;
  unsigned needs = 0;
  bool same_params = coin(500);
  tour::Params fp = tour::draw_params();
  for (auto& t : th) {
    unsigned n = 1 + pick(2);
    for (unsigned i = 0; i < n; ++i) {
      Task k;
      k.s = theme == 1 && i == 0 ? first : theme == 2 ? pool[pick(2)] : draw();
      k.p = same_params ? fp : tour::draw_params();
      k.p.a[7] = slot++;
      needs |= k.s->needs;
      t.push_back(k);
    }
  }
  auto w = tour::make_world(spec, needs);
  std::string log;
  for (auto& t : th) { log += "|"; for (auto& k : t) { log += k.s->name; log += ' '; } }
  event(log);
  // what each step yields alone: computed in a copy, so that nothing in this process is warmed up
  std::string ref;
  int status = 0;
  bool alive = in_copy([&] {
    std::string o;
    for (auto& t : th) for (auto& k : t) { uint64_t h = k.s->fn(*w, k.p); o.append(reinterpret_cast<char*>(&h), 8); }
    uint64_t h = tour::world_digest(*w);
    o.append(reinterpret_cast<char*>(&h), 8);
    return o;
  }, &ref, &status);
  if (!alive) { std::string o = captured_output(); violation("sequential-crash", "steps [%s] fail sequentially, status %d: %s", log.c_str(), status, o.substr(0, 700).c_str()); }
  size_t q = 0;
  for (auto& t : th) for (auto& k : t) { std::memcpy(&k.want, ref.data() + q, 8); q += 8; }
  uint64_t wd;
  std::memcpy(&wd, ref.data() + q, 8);
  std::vector<std::function<void()>> bodies;
  for (auto& t : th)
    bodies.push_back([&t, &w] {
      for (auto& k : t) {
        try { k.got = k.s->fn(*w, k.p); }
        catch (const std::exception& e) { thr::Ignore ig; k.threw = true; k.what = e.what(); }
      }
    });
  thr::parallel(bodies);
  for (auto& t : th)
    for (auto& k : t) {
      if (k.threw) violation("unexpected-exception", "step %s threw '%s' in a thread", k.s->name, k.what.c_str());
      if (k.got != k.want) violation("result-differs", "step %s yields another result in a thread than alone", k.s->name);
    }
  if (tour::world_digest(*w) != wd) violation("shared-object-changed", "the shared objects answer differently after concurrent read-only use");
  auto st = thr::stats();
  if (tracing()) eventf("accesses %llu sync %llu switches %llu atomics %llu guards %llu contended %llu", (unsigned long long)st.accesses, (unsigned long long)st.sync_ops, (unsigned long long)st.switches, (unsigned long long)st.atomics, (unsigned long long)st.guards, (unsigned long long)st.contended);
  feature(st.order_hash);
  mix(st.order_hash);
  add_sim_time(0);
}
}  // namespace
const sim::Harness sim::kHarness{"p05_threads", nullptr, run};
