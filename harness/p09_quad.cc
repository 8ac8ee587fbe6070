// P09: request histories on quadrature rule caches, with moves of the cache and
// allocation failures; every rule handed out is compared with a rule built
// without a cache and with exact integrals of monomials.
#include "common.h"
#include <lf/quad/quad.h>
#include <lf/quad/quad_rule_cache.h>
#include <map>

using sim::coin;
using sim::pick;
using lf::base::RefEl;
using lf::quad::QuadRule;
using lf::quad::QuadRuleCache;

namespace {
const unsigned kMax = 64;
const RefEl kEls[3] = {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
struct Ref { uint64_t dig; unsigned degree; long n; };
std::map<std::pair<unsigned, unsigned>, Ref> g_ref;  // filled by warm()

uint64_t dig(const QuadRule& q) {
  hs::Digest d;
  d.u(q.RefEl().Id()); d.u(q.Degree()); d.u(q.Order()); d.u(q.NumPoints());
  d.m(q.Points()); d.m(q.Weights());
  return d.h;
}
Ref reference(const RefEl& r, unsigned deg) {
  auto it = g_ref.find({r.Id(), deg});
  if (it != g_ref.end()) return it->second;
  auto q = lf::quad::make_QuadRule(r, deg);
  return {dig(q), static_cast<unsigned>(q.Degree()), static_cast<long>(q.NumPoints())};
}
double fact(unsigned n) { return std::tgamma(n + 1.0); }
void exact(const QuadRule& q, unsigned deg, unsigned a, unsigned b) {
  // integral of x^a y^b
  double want, got = 0;
  bool seg = q.RefEl() == RefEl::kSegment();
  if (seg) { a = std::min(a + b, deg); b = 0; want = 1.0 / (a + 1); }
  else if (q.RefEl() == RefEl::kTria()) want = fact(a) * fact(b) / fact(a + b + 2);
  else want = 1.0 / ((a + 1.0) * (b + 1.0));
  for (long i = 0; i < q.Points().cols(); ++i) got += q.Weights()(i) * std::pow(q.Points()(0, i), a) * (seg ? 1.0 : std::pow(q.Points()(1, i), b));
  if (!(std::abs(got - want) <= 1e-11)) sim::violation("inexact-rule", "rule of degree %u on %s integrates x^%u y^%u to %.15g, not %.15g", deg, q.RefEl().ToString().c_str(), a, b, got, want);
}
struct Held { const QuadRule* p; unsigned el, deg; int cache; };
void check_rule(const QuadRule& q, unsigned el, unsigned deg, const char* when) {
  Ref r = reference(kEls[el], deg);
  if (q.RefEl() != kEls[el]) sim::violation("wrong-rule", "rule for %s is for %s %s", kEls[el].ToString().c_str(), q.RefEl().ToString().c_str(), when);
  if (q.Degree() < deg) sim::violation("wrong-rule", "requested degree %u, got %u %s", deg, unsigned(q.Degree()), when);
  if (dig(q) != r.dig) sim::violation("wrong-rule", "rule of degree %u for %s differs from the one built without a cache %s", deg, kEls[el].ToString().c_str(), when);
}
void run() {
  std::vector<std::unique_ptr<QuadRuleCache>> caches;
  uint32_t nc = 1 + pick(2);
  for (uint32_t i = 0; i < nc; ++i) caches.push_back(std::make_unique<QuadRuleCache>());
  std::vector<Held> held;
  auto recheck = [&](const char* when) { for (auto& h : held) check_rule(*h.p, h.el, h.deg, when); };
  uint32_t steps = 1 + pick(12);
  bool small = coin(700);
  for (uint32_t s = 0; s < steps; ++s) {
    uint32_t op = pick(10);
    if (op < 8) {
      int c = static_cast<int>(pick(nc));
      unsigned el = pick(3), deg = small ? pick(12) : pick(kMax + 1);
      if (!small && coin(20)) deg = 65 + pick(40);
      int fault = sim::chance(sim::kFault, 250);
      if (fault) sim::heap_arm(sim::choose(sim::kFault, sim::choose(sim::kFault, 2) ? 12 : 40), sim::choose(sim::kFault, 2));
      const QuadRule* q = nullptr;
      std::string w;
      auto r = hs::attempt([&] { q = &caches[c]->Get(kEls[el], deg); }, &w);
      uint64_t hits = fault ? sim::heap_disarm() : 0;
      if (hits) sim::fault_hit("allocation failure");
      sim::eventf("cache %d: get(%s, %u): %s", c, kEls[el].ToString().c_str(), deg, r == hs::kDone ? "ok" : w.c_str());
      if (r != hs::kDone) {
        if (!hits || r != hs::kBadAlloc) sim::violation("unexpected-exception", "request failed: %s", w.c_str());
        recheck("after a failed request");
        if (coin(700)) { const QuadRule& again = caches[c]->Get(kEls[el], deg); check_rule(again, el, deg, "when requested again after a failure"); held.push_back({&again, el, deg, c}); }
      } else {
        for (auto& h : held) if (h.cache == c && h.el == el && h.deg == deg && h.p != q) sim::violation("unstable-reference", "a second request for degree %u returned another object", deg);
        check_rule(*q, el, deg, "when requested");
        unsigned a = pick(deg + 1), b = pick(deg - a + 1);
        exact(*q, deg, a, b);
        exact(*q, deg, deg - b, b);
        held.push_back({q, el, deg, c});
      }
      sim::feature(sim::mix64(el * 1000 + deg + 100000 * (r != hs::kDone)));
    } else if (op == 8) {
      int c = static_cast<int>(pick(nc));
      auto n = std::make_unique<QuadRuleCache>(std::move(*caches[c]));
      caches[c] = std::move(n);
      sim::eventf("cache %d move-constructed", c);
      sim::probe("cache moved");
    } else {
      int c = static_cast<int>(pick(nc));
      // the target's own rules are gone
      auto n = std::make_unique<QuadRuleCache>();
      if (coin()) (void)n->Get(kEls[pick(3)], pick(10));
      *n = std::move(*caches[c]);
      caches[c] = std::move(n);
      sim::eventf("cache %d move-assigned", c);
    }
    recheck("later on");
  }
  sim::mix(held.size());
}
void warm() {
  for (auto& r : kEls) for (unsigned d = 0; d <= kMax; ++d) {
    auto q = lf::quad::make_QuadRule(r, d);
    g_ref[{r.Id(), d}] = {dig(q), static_cast<unsigned>(q.Degree()), static_cast<long>(q.NumPoints())};
  }
}
}  // namespace
const sim::Harness sim::kHarness{"p09_quad", warm, run};
