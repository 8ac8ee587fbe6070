// P10: log output under concurrent use.  Real spdlog, real loggers of the
// library, simulated threads and calendar clock.
#include <lf/assemble/assembler.h>
#include <lf/base/base.h>
#include <lf/fe/loc_comp_ellbvp.h>
#include <lf/mesh/hybrid2d/hybrid2d.h>
#include <lf/mesh/utils/utils.h>
#include <lf/refinement/refinement.h>
#include <lf/uscalfe/uscalfe.h>
#include <spdlog/pattern_formatter.h>
#include <spdlog/sinks/ostream_sink.h>
#include <spdlog/sinks/stdout_color_sinks.h>
#include <spdlog/spdlog.h>

#include <map>

#include "common.h"
#include "sim/thr.h"

#define sf hs::fmt
namespace {
typedef std::shared_ptr<spdlog::logger>& (*Accessor)();
struct Acc { const char* what; Accessor fn; };
const Acc kAcc[] = {
    {"Mesh", &lf::mesh::hybrid2d::Mesh::Logger},
    {"MeshFactory", &lf::mesh::hybrid2d::MeshFactory::Logger},
    {"TorusMeshBuilder", &lf::mesh::utils::TorusMeshBuilder::Logger},
    {"TPQuadMeshBuilder", &lf::mesh::utils::TPQuadMeshBuilder::Logger},
    {"TPTriagMeshBuilder", &lf::mesh::utils::TPTriagMeshBuilder::Logger},
    {"MeshHierarchy", &lf::refinement::MeshHierarchy::Logger},
    {"AssembleMatrix", &lf::assemble::AssembleMatrixLogger},
    {"LinearFELaplace", &lf::uscalfe::LinearFELaplaceElementMatrix::Logger},
    {"LinearFeLocalLoadVector", &lf::uscalfe::LinearFeLocalLoadVectorLogger},
    {"uscalfe::ReactionDiffusion", &lf::uscalfe::ReactionDiffusionElementMatrixProviderLogger},
    {"uscalfe::MassEdge", &lf::uscalfe::MassEdgeMatrixProviderLogger},
    {"uscalfe::ScalarLoadElement", &lf::uscalfe::ScalarLoadElementVectorProviderLogger},
    {"uscalfe::ScalarLoadEdge", &lf::uscalfe::ScalarLoadEdgeVectorProviderLogger},
    {"fe::Diffusion", &lf::fe::DiffusionElementMatrixProviderLogger},
    {"fe::MassElement", &lf::fe::MassElementMatrixProviderLogger},
    {"fe::MassEdge", &lf::fe::MassEdgeMatrixProviderLogger},
    {"fe::ScalarLoadElement", &lf::fe::ScalarLoadElementVectorProviderLogger},
    {"fe::ScalarLoadEdge", &lf::fe::ScalarLoadEdgeVectorProviderLogger},
};
constexpr int kNAcc = sizeof(kAcc) / sizeof(kAcc[0]);
// loggers made by the run itself through InitLogger
std::shared_ptr<spdlog::logger>& own0() { static auto l = lf::base::InitLogger("sim::own0"); return l; }
std::shared_ptr<spdlog::logger>& own1() { static auto l = lf::base::InitLogger("own one"); return l; }

struct Msg {
  int target = 0;   // index of logger
  int level = 2;
  std::vector<std::string> lines;
  bool must = true;
  int seen = 0;
  std::string text() const { std::string s; for (size_t i = 0; i < lines.size(); ++i) { if (i) s += '\n'; s += lines[i]; } return s; }
};
// A layout of the text around the payload; kDigit stands for a digit ('#' in the table).
constexpr char kDigit = '\2';
struct Layout { std::string pattern, before, after, eol; };
Layout gen_layout(bool single_char_eol) {
  Layout l;
  static const char* P[][2] = {{"[%n] ", "[NAME] "}, {"[%l] ", "[LEVEL] "}, {"%Y-%m-%d ", "####-##-## "}, {"%H:%M:%S.%e ", "##:##:##.### "}, {"%L ", "L "}, {"%^%l%$: ", "LEVEL: "}, {"-> ", "-> "}, {"%%", "%"}, {"[%8l] ", "[LEVEL8] "}, {"T ", "T "}};
  int n = sim::range(0, 4);
  for (int i = 0; i < n; ++i) { int k = sim::pick(10); l.pattern += P[k][0]; l.before += P[k][1]; }
  l.pattern += "%v";
  if (sim::pick(3) == 0) {
    int m = sim::range(1, 2);
    for (int i = 0; i < m; ++i) { int k = sim::pick(10); l.pattern += std::string(" ") + P[k][0]; l.after += std::string(" ") + P[k][1]; }
  }
  for (auto* q : {&l.before, &l.after}) for (char& c : *q) if (c == '#') c = kDigit;
  l.eol = single_char_eol || sim::pick(3) ? "\n" : "\r\n";
  return l;
}
void replace(std::string& s, const std::string& a, const std::string& b) { for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b); }
std::string expand(std::string s, const std::string& name, int level) {
  static const char* N[] = {"trace", "debug", "info", "warning", "error", "critical"};
  static const char* S[] = {"T", "D", "I", "W", "E", "C"};
  std::string pad(8 - std::min<size_t>(8, strlen(N[level])), ' ');
  replace(s, "LEVEL8", pad + N[level]);
  replace(s, "LEVEL", N[level]);
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) r += (s[i] == 'L' && (i + 1 == s.size() || s[i + 1] == ' ') && (i == 0 || s[i - 1] == ' ' || s[i - 1] == '%')) ? std::string(S[level]) : std::string(1, s[i]);
  replace(r, "NAME", name);
  return r;
}
bool match(const std::string& mask, std::string_view text) {
  if (mask.size() != text.size()) return false;
  for (size_t i = 0; i < mask.size(); ++i) if (mask[i] == kDigit ? !(text[i] >= '0' && text[i] <= '9') : mask[i] != text[i]) return false;
  return true;
}
// the exact lines a message must occupy (with digit masks), without eol
std::vector<std::string> expected(const Layout& l, const std::string& name, int level, const std::vector<std::string>& lines) {
  std::string b = expand(l.before, name, level), a = expand(l.after, name, level);
  std::vector<std::string> r;
  for (size_t i = 0; i < lines.size(); ++i) r.push_back((i ? std::string(b.size(), ' ') : b) + lines[i] + a);
  return r;
}
std::vector<std::string> split(const std::string& s, const std::string& eol, const char* where) {
  std::vector<std::string> r;
  size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find(eol, p);
    if (e == std::string::npos) sim::violation("torn-line", "%s: the last line is not terminated: '%s'", where, s.substr(p).c_str());
    r.push_back(s.substr(p, e - p));
    p = e + eol.size();
  }
  return r;
}
std::vector<std::string> gen_lines(int t, int m) {
  int n = sim::pick(3) ? 1 : sim::range(2, 5);
  std::vector<std::string> r;
  for (int i = 0; i < n; ++i) {
    if (n > 1 && sim::pick(6) == 0) { r.push_back(""); continue; }
    std::string s = sf("<%d.%d.%d>", t, m, i);
    static const char* X[] = {"", " x", "   indented", " {} %v %n", " a b c ", " \ttab", " [info]", "#"};
    if (sim::pick(3) == 0) s = std::string(sim::range(0, 12), ' ') + s;
    s += X[sim::pick(8)];
    if (sim::pick(12) == 0) s += std::string(sim::range(1, 600), 'z');
    r.push_back(s);
  }
  bool any = false;
  for (auto& s : r) any = any || !s.empty();
  if (!any) r.back() = sf("<%d.%d.%d>", t, m, n - 1);
  return r;
}
struct Sink { std::string name; Layout lay; std::string bytes; };
typedef std::map<std::pair<int, int>, Msg> Msgs;
// Splits the bytes of one output into messages and accounts for each of them.
void account(const char* where, const std::string& bytes, const Layout& lay, Msgs& msgs, const std::vector<std::string>& names, const std::vector<bool>& here) {
  auto lines = split(bytes, lay.eol, where);
  std::map<int, int> last;
  size_t p = 0;
  while (p < lines.size()) {
    int t = -1, m = -1, i = -1;
    for (size_t q = p; q < lines.size() && q < p + 6; ++q) {
      size_t at = 0;
      bool found = false;
      while ((at = lines[q].find('<', at)) != std::string::npos) { if (sscanf(lines[q].c_str() + at, "<%d.%d.%d>", &t, &m, &i) == 3) { found = true; break; } ++at; }
      if (found) break;
    }
    auto it = msgs.find({t, m});
    if (it == msgs.end() || !here[it->second.target]) sim::violation("foreign-output", "%s: line %zu is not part of any message logged there: '%s'", where, p, lines[p].c_str());
    Msg& g = it->second;
    auto e = expected(lay, names[g.target], g.level, g.lines);
    for (size_t k = 0; k < e.size(); ++k) {
      if (p + k >= lines.size()) sim::violation("torn-message", "%s: message %d.%d ends after %zu of %zu lines", where, t, m, k, e.size());
      if (!match(e[k], lines[p + k])) sim::violation("bad-line", "%s: message %d.%d, line %zu of %zu: '%s' instead of '%s'", where, t, m, k, e.size(), lines[p + k].c_str(), e[k].c_str());
    }
    if (++g.seen > 1) sim::violation("duplicate", "%s: message %d.%d appears twice", where, t, m);
    if (last.count(t) && last[t] > m) sim::violation("reordered", "%s: message %d.%d of one thread appears after %d.%d", where, t, m, t, last[t]);
    last[t] = m;
    p += e.size();
  }
}
void formatter_copies() {
  // a formatter, its copies and moved ones agree with the expected text
  Layout lay = gen_layout(false);
  std::vector<std::unique_ptr<spdlog::formatter>> f;
  f.push_back(std::make_unique<lf::base::LineFeedFormatter>(std::make_unique<spdlog::pattern_formatter>(lay.pattern, spdlog::pattern_time_type::utc, lay.eol)));
  int steps = sim::range(1, 6);
  for (int s = 0; s < steps; ++s) {
    switch (sim::pick(4)) {
      case 0: f.push_back(f[sim::pick(f.size())]->clone()); sim::event("clone"); break;
      case 1: if (f.size() > 1) { f.erase(f.begin() + sim::pick(f.size())); sim::event("drop"); } break;
      case 2: {
        auto* a = dynamic_cast<lf::base::LineFeedFormatter*>(f[sim::pick(f.size())].get());
        if (!a) sim::violation("copy-type", "the copy of a line feed formatter is not one");
        auto n = std::make_unique<lf::base::LineFeedFormatter>(std::move(*a));
        for (auto& x : f) if (x.get() == a) x = std::move(n);
        sim::event("move");
        break;
      }
      default: {
        auto lines = gen_lines(9, s);
        int level = sim::pick(6);
        std::string name = sim::pick(2) ? "n" : "a::b c", text;
        for (size_t i = 0; i < lines.size(); ++i) { if (i) text += '\n'; text += lines[i]; }
        spdlog::details::log_msg msg(spdlog::log_clock::time_point(std::chrono::milliseconds(1234567890123ll + sim::pick(1000))), spdlog::source_loc{}, name, static_cast<spdlog::level::level_enum>(level), text);
        auto e = expected(lay, name, level, lines);
        for (auto& x : f) {
          spdlog::memory_buf_t dest;
          std::string pre = sim::pick(2) ? "" : "earlier ";
          dest.append(pre.data(), pre.data() + pre.size());
          x->format(msg, dest);
          std::string got(dest.data(), dest.size());
          if (got.substr(0, pre.size()) != pre) sim::violation("format-clobbers", "text already in the buffer was changed: '%s'", got.c_str());
          auto g = split(got.substr(pre.size()), lay.eol, "formatter");
          bool ok = g.size() == e.size();
          for (size_t i = 0; ok && i < g.size(); ++i) ok = match(e[i], g[i]);
          if (!ok) { std::string w; for (auto& q : e) w += q + "|"; sim::violation("bad-format", "pattern '%s': '%s' instead of '%s'", lay.pattern.c_str(), got.c_str(), w.c_str()); }
        }
      }
    }
  }
}

void run() {
  sim::Clocks& ck = sim::clocks();
  ck.on = true;
  ck.real_ns = 1600000000000000000ll + static_cast<int64_t>(sim::pick(1000)) * 1000003ll;
  ck.step_ns = sim::pick(2) ? 0 : 700000000ll;
  if (sim::pick(4) == 0) { formatter_copies(); return; }
  int nt = sim::range(2, 4);
  // loggers: library loggers and two from InitLogger, all on standard output; plus private ones on strings
  std::vector<Accessor> acc;
  std::vector<std::string> names;
  int nacc = sim::range(1, 4);
  for (int i = 0; i < nacc; ++i) { uint32_t k = sim::pick(kNAcc + 2); acc.push_back(k < kNAcc ? kAcc[k].fn : k == kNAcc ? &own0 : &own1); }
  Layout stdl;  // what InitLogger sets up: default pattern
  stdl.before = "[####-##-## ##:##:##.###] [NAME] [LEVEL] ";
  for (char& c : stdl.before) if (c == '#') c = kDigit;
  stdl.eol = "\n";
  Layout ol = gen_layout(false);
  std::ostringstream os;
  auto osink = std::make_shared<spdlog::sinks::ostream_sink_mt>(os);
  std::vector<std::shared_ptr<spdlog::logger>> priv;
  int npriv = sim::range(0, 2);
  for (int i = 0; i < npriv; ++i) priv.push_back(std::make_shared<spdlog::logger>(sf("priv%d", i), osink));
  if (npriv) priv[0]->set_formatter(std::make_unique<lf::base::LineFeedFormatter>(std::make_unique<spdlog::pattern_formatter>(ol.pattern, spdlog::pattern_time_type::utc, ol.eol)));
  bool early = sim::pick(3) == 0;  // first use before the threads start
  if (early) for (auto a : acc) a();
  Msgs msgs;
  struct Op { int kind, target, t, m; };
  std::vector<std::vector<Op>> ops(nt);
  for (int t = 0; t < nt; ++t) {
    int n = sim::range(1, 6);
    for (int k = 0; k < n; ++k) {
      Op o{static_cast<int>(sim::pick(8)), static_cast<int>(sim::pick(nacc + npriv)), t, k};
      if (o.kind < 6) {
        o.kind = 0;
        Msg g;
        g.target = o.target;
        g.level = sim::pick(4) == 0 ? sim::pick(2) : sim::range(2, 5);
        g.must = g.level >= 2;
        g.lines = gen_lines(t, k);
        msgs[{t, k}] = g;
      }
      if (o.kind == 0) sim::eventf("thread %d logs %zu line(s) at level %d to %d", t, msgs[{t, k}].lines.size(), msgs[{t, k}].level, o.target); else sim::eventf("thread %d %s", t, o.kind == 6 ? "sets a level" : "flushes");
      ops[t].push_back(o);
    }
  }
  std::vector<std::vector<spdlog::logger*>> got(nt, std::vector<spdlog::logger*>(nacc, nullptr));
  std::vector<std::string> threw(nt);
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < nt; ++t) bodies.push_back([&, t] {
    auto r = hs::attempt([&] {
      for (auto& o : ops[t]) {
        spdlog::logger* l;
        if (o.target < nacc) {
          l = acc[o.target]().get();
          thr::Ignore ig;
          if (got[t][o.target] && got[t][o.target] != l) sim::violation("logger-changed", "the same request yields another logger");
          got[t][o.target] = l;
        } else l = priv[o.target - nacc].get();
        if (!l) sim::violation("no-logger", "request for a logger yields nothing");
        if (o.kind == 0) {
          std::string text;
          int lv;
          { thr::Ignore ig; Msg& g = msgs[{o.t, o.m}]; text = g.text(); lv = g.level; }
          l->log(spdlog::source_loc{}, static_cast<spdlog::level::level_enum>(lv), spdlog::string_view_t(text));
        } else if (o.kind == 6) l->set_level(o.m % 2 ? spdlog::level::info : spdlog::level::trace);
        else {
          l->flush();
          thr::Ignore ig;
          if (o.m & 1) { ck.real_ns += (o.m & 2) ? 3600000000000ll : -7200000000000ll; sim::fault_hit("calendar clock jumps"); }
        }
      }
    }, &threw[t]);
    if (r != hs::kDone && threw[t].empty()) threw[t] = "?";
  });
  thr::parallel(bodies);
  sim::feature(thr::stats().order_hash);
  sim::add_sim_time(ck.reads * ck.step_ns * 1e-9);
  if (thr::stats().contended) sim::probe("lock contention");
  if (!early && nt > 1) sim::probe("first use in several threads");
  for (int t = 0; t < nt; ++t) if (!threw[t].empty()) sim::violation("threw", "thread %d: %s", t, threw[t].c_str());
  for (int a = 0; a < nacc; ++a) {
    spdlog::logger* l = acc[a]().get();
    for (int t = 0; t < nt; ++t) if (got[t][a] && got[t][a] != l) sim::violation("logger-changed", "threads got different loggers for the same request");
    names.push_back(l->name());
    auto reg = spdlog::get(l->name());
    if (reg.get() != l) sim::violation("not-registered", "logger '%s' is not the one registered under its name", l->name().c_str());
    l->flush();
  }
  for (int i = 0; i < npriv; ++i) { names.push_back(sf("priv%d", i)); priv[i]->flush(); }
  fflush(stdout);
  std::vector<bool> on_std, on_os;
  for (int i = 0; i < nacc + npriv; ++i) { on_std.push_back(i < nacc); on_os.push_back(i >= nacc); }
  account("standard output", sim::captured_output(), stdl, msgs, names, on_std);
  account("stream sink", os.str(), ol, msgs, names, on_os);
  for (auto& [k, g] : msgs) if (g.must && !g.seen) sim::violation("lost-message", "message %d.%d at level %d to logger '%s' is missing", k.first, k.second, g.level, names[g.target].c_str());
  // all other loggers can still be obtained, each distinct
  if (sim::pick(8) == 0) {
    std::set<spdlog::logger*> seen;
    std::set<std::string> nm;
    std::string what;
    for (auto& a : kAcc) {
      std::shared_ptr<spdlog::logger> l;
      if (hs::attempt([&] { l = a.fn(); }, &what) != hs::kDone || !l) sim::violation("no-logger", "logger of %s: %s", a.what, what.c_str());
      if (!seen.insert(l.get()).second || !nm.insert(l->name()).second) sim::violation("shared-logger", "logger of %s ('%s') is also another facility's", a.what, l->name().c_str());
    }
  }
}
}  // namespace
namespace sim { const Harness kHarness = {"p10_log", nullptr, run}; }
