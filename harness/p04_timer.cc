// P04: timers on simulated clocks.
#include <fmt/format.h>
#include <lf/base/base.h>
#include <lf/base/timer.h>
#include <spdlog/sinks/base_sink.h>

#include <iostream>
#include <mutex>

#include "common.h"
using namespace sim;
using lf::base::AutoTimer;
using lf::base::Timer;
namespace {
struct Now { int64_t w, u, s; };
Now now() {
  Clocks& k = clocks();
  return {k.mono_ns, k.user_ticks + k.child_user, k.sys_ticks + k.child_sys};
}
long g_hz = 100;
struct Model {
  bool running = false;
  Now acc{0, 0, 0}, since{0, 0, 0};
  void start() { running = true; acc = {0, 0, 0}; since = now(); }
  void stop() { if (!running) return; acc = get(); running = false; }
  void resume() { if (!running) { running = true; since = now(); } }
  Now get() const {
    if (!running) return acc;
    Now n = now();
    return {acc.w + n.w - since.w, acc.u + n.u - since.u, acc.s + n.s - since.s};
  }
};
bool exact_hz() { return 1000000000L % g_hz == 0; }
bool g_cpu_ok = true;  // times() works throughout
bool ticks_match(int64_t ns, int64_t ticks) {
  if (!g_cpu_ok) return true;
  long double w = static_cast<long double>(ticks) * 1e9L / g_hz;
  if (exact_hz()) return static_cast<int64_t>(w) == ns;
  return std::abs(static_cast<long double>(ns) - w) <= 1e-6L * std::abs(w) + 2;
}
void check(const char* what, const Timer::cpu_times& t, const Model& m) {
  Now n = m.get();
  if (t.wall.count() != n.w) violation("wrong-wall-time", "%s reports wall %lld ns, %lld ns passed while running", what, static_cast<long long>(t.wall.count()), static_cast<long long>(n.w));
  if (!ticks_match(t.user.count(), n.u)) violation("wrong-user-time", "%s reports user %lld ns for %lld ticks at %ld Hz", what, static_cast<long long>(t.user.count()), static_cast<long long>(n.u), g_hz);
  if (!ticks_match(t.system.count(), n.s)) violation("wrong-system-time", "%s reports system %lld ns for %lld ticks at %ld Hz", what, static_cast<long long>(t.system.count()), static_cast<long long>(n.s), g_hz);
}
// format strings are sequences of segments
struct Seg { std::string f; char arg; };
using Fmt = std::vector<Seg>;
std::string str(const Fmt& f) { std::string r; for (auto& s : f) r += s.f; return r; }
Fmt gen_fmt() {
  static const char* spec[] = {"", ":.6", ":.3", ":.2f", ":>14.4f", ":e", ":.0f", ":<12.3", ":+.3e", ":012.5f", ":.15", ":^20"};
  static const char* text[] = {"", "s wall, ", "{{}}", " (", "%)", "time: ", "\ttab "};
  Fmt f;
  for (uint32_t n = 1 + pick(5); n > 0; --n) {
    f.push_back({text[pick(7)], 0});
    char c = "wustp"[pick(g_cpu_ok && exact_hz() ? 5 : 1)];
    f.push_back({std::string("{") + c + spec[pick(12)] + "}", c});
    f.push_back({text[pick(7)], 0});
  }
  return f;
}
Fmt default_fmt() { return {{"{w:.6}", 'w'}, {"s wall, ", 0}, {"{u:.6}", 'u'}, {"s user + ", 0}, {"{s:.6}", 's'}, {"s system = ", 0}, {"{t:.6}", 't'}, {"s CPU (", 0}, {"{p:.3}", 'p'}, {"%)", 0}}; }
// does out equal the format applied to the model (allowing one ulp-ish rounding per number)?
bool fmt_ok(const std::string& out, const Fmt& f, const Model& m) {
  Now n = m.get();
  double w = static_cast<double>(n.w) / 1e9, u = static_cast<double>(n.u) / g_hz, s = static_cast<double>(n.s) / g_hz;
  std::function<bool(size_t, size_t)> go = [&](size_t seg, size_t at) -> bool {
    if (seg == f.size()) return at == out.size();
    double v = 0;
    switch (f[seg].arg) { case 'w': v = w; break; case 'u': v = u; break; case 's': v = s; break; case 't': v = (n.u + n.s) / static_cast<double>(g_hz); break; case 'p': v = (n.u + n.s) / static_cast<double>(g_hz) / w * 100.0; break; default: break; }
    if (f[seg].arg == 'p' && n.w == 0) {  // 0/0 and x/0: any rendering of a non-finite number
      for (size_t e = at; e <= out.size(); ++e) if (go(seg + 1, e)) return true;
      return false;
    }
    std::set<std::string> tried;
    double c[] = {v, std::nextafter(v, 1e300), std::nextafter(v, -1e300), std::nextafter(std::nextafter(v, 1e300), 1e300), std::nextafter(std::nextafter(v, -1e300), -1e300)};
    for (double x : c) {
      const char name[2] = {f[seg].arg ? f[seg].arg : 'w', 0};
      std::string r = fmt::format(fmt::runtime(f[seg].f), fmt::arg(name, x));
      if (!tried.insert(r).second) continue;
      if (out.compare(at, r.size(), r) == 0 && go(seg + 1, at + r.size())) return true;
    }
    return false;
  };
  return go(0, 0);
}
struct Sink : spdlog::sinks::base_sink<std::mutex> {
  std::vector<std::pair<int, std::string>> got;
  void sink_it_(const spdlog::details::log_msg& m) override { got.push_back({m.level, std::string(m.payload.data(), m.payload.size())}); }
  void flush_() override {}
};
struct Auto {
  std::unique_ptr<AutoTimer> t;
  Model m;
  int where = 0;  // 0 cout 1 stream 2 logger
  int lvl = 2;
  Fmt f;
  bool dead = false;  // moved from
};

struct CoutGuard {
  std::streambuf* old;
  explicit CoutGuard(std::streambuf* b) : old(std::cout.rdbuf(b)) {}
  ~CoutGuard() { std::cout.rdbuf(old); }
};

void run() {
  Clocks& k = clocks();
  static const long hz[] = {100, 1000, 250, 1000000, 1024, 1};
  k.ticks_per_second = g_hz = hz[choose(kFault, 6)];
  k.mono_ns = static_cast<int64_t>(range(1, 1000000)) * 1000003 + pick(1000000000);
  k.real_ns = 1600000000LL * 1000000000 + pick(1000000000);
  k.user_ticks = pick(1000000); k.sys_ticks = pick(1000000); k.child_user = pick(1000); k.child_sys = pick(1000);
  if (choose(kFault, 20) == 19) { k.times_fails = true; g_cpu_ok = false; }
  k.on = true;
  std::stringstream cout_buf, stream;
  CoutGuard guard(cout_buf.rdbuf());
  auto sink = std::make_shared<Sink>();
  auto logger = std::make_shared<spdlog::logger>("x", sink);
  logger->set_level(spdlog::level::debug);
  size_t cout_seen = 0, stream_seen = 0, sink_seen = 0;
  std::vector<std::pair<Timer, Model>> ts;
  std::vector<Auto> as;
  // expects exactly `n` new reports, the last one of timer a
  auto reported = [&](const char* what, const Auto* a) {
    std::string c = cout_buf.str().substr(cout_seen), s = stream.str().substr(stream_seen);
    cout_seen += c.size(); stream_seen += s.size();
    std::vector<std::pair<int, std::string>> l(sink->got.begin() + sink_seen, sink->got.end());
    sink_seen = sink->got.size();
    bool want_log = a && a->where == 2 && a->lvl >= 1;
    bool want_c = a && a->where == 0, want_s = a && a->where == 1;
    if (!c.empty() && !want_c) violation("unexpected-report", "%s: unexpected output on std::cout: %s", what, c.c_str());
    if (!s.empty() && !want_s) violation("unexpected-report", "%s: unexpected output on the stream: %s", what, s.c_str());
    if (!l.empty() && !want_log) violation("unexpected-report", "%s: unexpected log message: %s", what, l[0].second.c_str());
    if (!a) return;
    std::string txt;
    if (want_log) {
      if (l.size() != 1) violation("report-count", "%s: %zu log messages", what, l.size());
      if (l[0].first != a->lvl) violation("report-level", "%s: level %d instead of %d", what, l[0].first, a->lvl);
      txt = l[0].second;
    } else if (a->where == 2) return;
    else {
      txt = want_c ? c : s;
      if (txt.empty()) violation("report-count", "%s: no report", what);
      if (txt.back() != '\n') violation("report-count", "%s: no newline after the report", what);
      txt.pop_back();
    }
    if (!fmt_ok(txt, a->f, a->m)) violation("wrong-report", "%s: '%s' for format '%s' after %lld ns wall", what, txt.c_str(), str(a->f).c_str(), static_cast<long long>(a->m.get().w));
  };
  auto mkauto = [&] {
    Auto a;
    a.where = static_cast<int>(pick(3));
    a.lvl = static_cast<int>(pick(6));
    bool deflt = coin(300) && g_cpu_ok && exact_hz();
    a.f = deflt ? default_fmt() : gen_fmt();
    std::string f = str(a.f);
    if (a.where == 0) a.t = deflt ? std::make_unique<AutoTimer>() : std::make_unique<AutoTimer>(f);
    else if (a.where == 1) a.t = deflt ? std::make_unique<AutoTimer>(stream) : std::make_unique<AutoTimer>(stream, f);
    else if (deflt) { a.lvl = coin() ? 2 : a.lvl; a.t = a.lvl == 2 && coin() ? std::make_unique<AutoTimer>(logger) : std::make_unique<AutoTimer>(logger, static_cast<spdlog::level::level_enum>(a.lvl)); }
    else a.t = std::make_unique<AutoTimer>(logger, static_cast<spdlog::level::level_enum>(a.lvl), f);
    a.m.start();
    as.push_back(std::move(a));
  };
  uint32_t nops = 4 + pick(28);
  uint64_t shape = 0;
  for (uint32_t step = 0; step < nops; ++step) {
    uint32_t op = pick(20);
    shape = mix64(shape ^ op);
    switch (op) {
      case 0: case 1: case 2: {  // time passes
        int64_t d = coin(100) ? static_cast<int64_t>(pick(1u << 30)) * 1000003 : coin(300) ? 0 : pick(2000000000);
        k.mono_ns += d; k.real_ns += d;
        add_sim_time(static_cast<double>(d) * 1e-9);
        k.user_ticks += pick(1000); k.sys_ticks += pick(1000);
        if (coin(300)) { k.child_user += pick(500); k.child_sys += pick(500); }
        eventf("%lld ns pass", static_cast<long long>(d));
        break;
      }
      case 3: {  // calendar clock adjusted
        int64_t j = (static_cast<int64_t>(choose(kFault, 2000)) - 1000) * 1000000007LL * (choose(kFault, 2) ? 1 : 3600);
        k.real_ns += j;
        if (j) fault_hit(j < 0 ? "calendar-clock-back" : "calendar-clock-forward");
        eventf("calendar clock adjusted by %lld", static_cast<long long>(j));
        break;
      }
      case 4: if (ts.size() < 4) { bool st = coin(600); bool df = st && coin(); ts.push_back({df ? Timer() : Timer(st), Model()}); if (st) ts.back().second.start(); eventf("new timer %d", st); } break;
      case 5: if (as.size() < 4) { mkauto(); event("new auto timer"); } break;
      case 6: case 7: case 8: case 9: case 10: case 11: case 12: {
        if (ts.empty()) break;
        uint32_t i = pick(static_cast<uint32_t>(ts.size()));
        auto& [t, m] = ts[i];
        eventf("timer %u op %u", i, op);
        switch (op) {
          case 6: t.Start(); m.start(); break;
          case 7: case 8: t.Stop(); m.stop(); break;
          case 9: t.Resume(); m.resume(); break;
          case 10: { if (t.IsStopped() == m.running) violation("wrong-state", "IsStopped() is %d", t.IsStopped()); uint64_t reads = coin(200) ? 1 : 0; if (reads) heap_arm(0, 0); auto e = t.Elapsed(); heap_disarm(); check("Elapsed", e, m); break; }
          case 11: { Fmt f = gen_fmt(); std::string o = t.Format(str(f)); if (!fmt_ok(o, f, m)) violation("wrong-format", "Format('%s') gives '%s' after %lld ns wall, running %d", str(f).c_str(), o.c_str(), static_cast<long long>(m.get().w), m.running); break; }
          default: if (ts.size() < 4) { auto c = ts[i]; ts.push_back(c); check("copy", ts.back().first.Elapsed(), c.second); } else { uint32_t j = pick(static_cast<uint32_t>(ts.size())); ts[j] = ts[i]; }
        }
        if (ts[i].second.running == ts[i].first.IsStopped()) violation("wrong-state", "IsStopped() is %d after op %u", ts[i].first.IsStopped(), op);
        break;
      }
      default: {
        if (as.empty()) break;
        uint32_t i = pick(static_cast<uint32_t>(as.size()));
        Auto& a = as[i];
        eventf("auto timer %u op %u", i, op);
        if (op == 19 || op == 18) { a.t.reset(); Auto b = std::move(as[i]); as.erase(as.begin() + i); reported("destruction", b.dead ? nullptr : &b); break; }
        if (a.dead) break;
        switch (op) {
          case 13: check("AutoTimer::Elapsed", a.t->Elapsed(), a.m); break;
          case 14: { Fmt f = gen_fmt(); std::string o = a.t->Format(str(f)); if (!fmt_ok(o, f, a.m)) violation("wrong-format", "AutoTimer::Format gives '%s' for '%s'", o.c_str(), str(f).c_str()); break; }
          case 15: a.t->Report(); reported("Report()", &a); break;
          case 16: {
            if (a.t->FormatString() != str(a.f)) violation("wrong-accessor", "FormatString");
            bool thrown = false;
            try { if (&a.t->ostream() != (a.where == 0 ? static_cast<std::ostream*>(&std::cout) : &stream)) violation("wrong-accessor", "ostream()"); } catch (const std::bad_variant_access&) { thrown = true; }
            if (thrown != (a.where == 2)) violation("wrong-accessor", "ostream() %d", thrown);
            thrown = false;
            try { if (a.t->logger() != logger) violation("wrong-accessor", "logger()"); } catch (const std::bad_variant_access&) { thrown = true; }
            if (thrown != (a.where != 2)) violation("wrong-accessor", "logger() %d", thrown);
            break;
          }
          default: {  // move / copy
            if (as.size() >= 4) break;
            Auto b;
            b.m = a.m; b.where = a.where; b.lvl = a.lvl; b.f = a.f;
            uint32_t how = pick(4);
            if (how == 0) { b.t = std::make_unique<AutoTimer>(*a.t); }
            else if (how == 1) { b.t = std::make_unique<AutoTimer>(std::move(*a.t)); a.dead = true; }
            else { b.t = std::make_unique<AutoTimer>("unused"); if (how == 2) *b.t = *a.t; else { *b.t = std::move(*a.t); a.dead = true; } }
            reported("copy or move", nullptr);
            as.push_back(std::move(b));
          }
        }
      }
    }
    reported("no report due", nullptr);
  }
  for (auto& t : ts) { check("Elapsed at the end", t.first.Elapsed(), t.second); }
  while (!as.empty()) { Auto b = std::move(as.back()); as.pop_back(); b.t.reset(); reported("destruction", b.dead ? nullptr : &b); }
  feature(mix64(shape ^ static_cast<uint64_t>(g_hz)));
}
}  // namespace
const sim::Harness sim::kHarness{"p04_timer", nullptr, run};
