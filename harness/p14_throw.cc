// P14: user-supplied functions throw in every operation of the tour.
#include "tour.h"
using namespace sim;
namespace {
struct Task { const tour::Step* s; tour::Params p; uint64_t want = 0; std::vector<uint64_t> calls; };
struct Mine : std::runtime_error { uint64_t id; explicit Mine(uint64_t i) : std::runtime_error("mine"), id(i) {} };
struct Bare { uint64_t id; };  // not derived from std::exception
std::vector<uint64_t> g_calls;
int64_t g_throw_at = -1;
unsigned g_how = 0;
uint64_t g_id = 0;
void hook(const lf::mesh::Entity* e) {
  Quiet q;
  uint64_t h = 1;
  if (e) {
    hs::Digest d;
    d.u(e->RefEl().Id());
    Eigen::MatrixXd c = e->RefEl().NodeCoords();
    d.m(e->Geometry()->Global(e->Codim() == 2 ? Eigen::MatrixXd(0, 1) : Eigen::MatrixXd(c.rowwise().mean())));
    h = d.h;
  }
  g_calls.push_back(h);
  if (static_cast<int64_t>(g_calls.size()) - 1 != g_throw_at) return;
  static const int kind = fault_kind("callback throws");
  fault_hit(kind);
  switch (g_how) {
    case 0: throw Mine(g_id);
    case 1: throw Bare{g_id};
    case 2: throw static_cast<long>(g_id);
    default: throw lf::base::LfException("user " + std::to_string(g_id));
  }
}
uint64_t call(const Task& t, const tour::World& w, int64_t at) {
  { Quiet q; g_calls.clear(); }
  g_throw_at = at;
  tour::user_hook = hook;
  struct Off { ~Off() { tour::user_hook = nullptr; g_throw_at = -1; } } off;
  return t.s->fn(w, t.p);
}
void run() {
  disk_reset();
  tour::Spec spec = tour::draw_spec(true, true);
  const auto& all = tour::steps();
  std::vector<Task> todo;
  unsigned n = 1 + pick(2), needs = 0;
  for (unsigned i = 0; i < n; ++i) {
    Task t;
    do t.s = &all[pick(static_cast<uint32_t>(all.size()))]; while (((t.s->needs & tour::kPlanar) && spec.am.world == 3) || !(t.s->flags & tour::kUser));
    t.p = tour::draw_params();
    t.p.a[7] = i;
    needs |= t.s->needs;
    todo.push_back(t);
  }
  bool warm = coin(300);
  auto w = tour::make_world(spec, needs);
  uint64_t wd = tour::world_digest(*w);
  std::string names;
  for (auto& t : todo) { names += t.s->name; names += ' '; }
  event(names);
  for (auto& t : todo) {
    std::string ref;
    int status = 0;
    auto normal = [&] {
      uint64_t h = call(t, *w, -1);
      Quiet q;
      std::string o(reinterpret_cast<char*>(&h), 8);
      o.append(reinterpret_cast<char*>(g_calls.data()), 8 * g_calls.size());
      return o;
    };
    if (!in_copy(normal, &ref, &status)) { std::string o = captured_output(); violation("dies", "step %s dies although no callback throws, status %d: %s", t.s->name, status, o.substr(0, 600).c_str()); }
    std::memcpy(&t.want, ref.data(), 8);
    t.calls.resize(ref.size() / 8 - 1);
    std::memcpy(t.calls.data(), ref.data() + 8, ref.size() - 8);
    if (warm) normal();
    for (auto& f : disk_list()) disk_remove(f);
  }
  heap_track(true);
  unsigned rounds = 1 + pick(3);
  for (unsigned r = 0; r < rounds; ++r) {
    Task& t = todo[pick(static_cast<uint32_t>(todo.size()))];
    if (t.calls.empty()) continue;
    uint64_t k = choose(kFault, static_cast<uint32_t>(t.calls.size()));
    g_how = choose(kFault, 4);
    uint64_t live[4] = {};
    eventf("step %s: callback call %llu of %zu throws (kind %u)", t.s->name, (unsigned long long)k, t.calls.size(), g_how);
    for (int rep = 0; rep < 4; ++rep) {
      g_id = 1000 * r + 10 * rep + 7;
      int got = 0;  // 1: the user's exception, 2: another
      std::string what;
      try { call(t, *w, static_cast<int64_t>(k)); }
      catch (const Mine& e) { got = g_how == 0 && e.id == g_id ? 1 : 2; }
      catch (const Bare& e) { got = g_how == 1 && e.id == g_id ? 1 : 2; }
      catch (long e) { got = g_how == 2 && e == static_cast<long>(g_id) ? 1 : 2; }
      catch (const lf::base::LfException& e) { Quiet q; got = g_how == 3 && e.what() == "user " + std::to_string(g_id) ? 1 : 2; what = e.what(); }
      catch (const std::exception& e) { Quiet q; got = 2; what = e.what(); }
      catch (...) { got = 2; }
      {
        Quiet q;
        if (got == 0) violation("swallowed", "step %s returned normally although callback call %llu threw", t.s->name, (unsigned long long)k);
        if (got == 2) violation("other-exception", "step %s: another exception arrives than the callback threw: %s", t.s->name, what.c_str());
        if (g_calls.size() > k + 1) violation("called-again", "step %s called callbacks %zu more times after one had thrown", t.s->name, g_calls.size() - k - 1);
        if (!std::equal(g_calls.begin(), g_calls.end(), t.calls.begin())) violation("other-entities", "step %s calls callbacks for other entities than normally", t.s->name);
        for (auto& f : disk_list()) disk_remove(f);
        what.clear();
        what.shrink_to_fit();
      }
      live[rep] = heap().live_blocks;
      if (tour::world_digest(*w) != wd) violation("shared-object-changed", "after a callback threw in step %s the objects it read answer differently", t.s->name);
      if (rep == 3 && live[3] > live[2] && live[2] > live[1]) violation("leak", "step %s leaks when callback call %llu throws: %llu, %llu, %llu live blocks", t.s->name, (unsigned long long)k, (unsigned long long)live[1], (unsigned long long)live[2], (unsigned long long)live[3]);
    }
    uint64_t h = 0;
    try { h = call(t, *w, -1); }
    catch (const std::exception& e) { violation("retry-fails", "step %s does not succeed after an attempt in which a callback threw: %s", t.s->name, e.what()); }
    if (h != t.want) violation("retry-differs", "step %s gives another result after an attempt in which a callback threw", t.s->name);
    if (g_calls != t.calls) violation("other-calls", "step %s calls callbacks differently after an attempt in which one threw", t.s->name);
    feature(hash_bytes(t.s->name, std::strlen(t.s->name), k * 8 + g_how));
  }
  heap_track(false);
}
}  // namespace
const sim::Harness sim::kHarness{"p14_throw", nullptr, run};
