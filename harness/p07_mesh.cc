// P07: mesh construction histories against the abstract mesh, with allocation
// failures during insertion and building.
#include "meshcheck.h"
#include <lf/base/spdlog_utils.h>
#include <spdlog/spdlog.h>

using sim::coin;
using sim::pick;
using sim::range;
using lf::base::RefEl;
using lf::mesh::hybrid2d::MeshFactory;
using st = lf::mesh::Mesh::size_type;
using mg::AMesh;

namespace {
struct Built { std::shared_ptr<const lf::mesh::Mesh> m; AMesh a; uint64_t dig; int id; };
std::vector<Built> g_meshes;
int g_next = 0;

void recheck_all(const char* when) {
  sim::Quiet q;
  for (auto& b : g_meshes)
    if (mg::digest(*b.m) != b.dig) sim::violation("earlier-mesh-changed", "mesh %d answers differently %s", b.id, when);
}
void foreign_check() {
  for (auto& a : g_meshes) for (auto& b : g_meshes) if (&a != &b)
    for (unsigned c = 0; c <= 2; ++c) if (b.m->NumEntities(c) && a.m->Contains(*b.m->EntityByIndex(c, pick(b.m->NumEntities(c))))) sim::violation("entity-contains", "mesh %d claims to contain an entity of mesh %d", a.id, b.id);
}
struct Slot {
  std::unique_ptr<MeshFactory> f;
  AMesh a;
  bool complete = true, open = false;
  size_t ip = 0, ie = 0, ic = 0;
};
void begin(Slot& s, int world, bool complete) {
  mg::Opt o;
  o.max_n = range(1, 4); o.allow_curved = true; o.allow_clockwise = true; o.allow_geo = true; o.allow_isolated = !complete;
  // the factory fixes the world dimension
  o.allow_world3 = world == 3;
  s.a = mg::gen(o);
  if (world == 3 && s.a.world == 2) {
    for (auto& p : s.a.pts) { Eigen::VectorXd q(3); q << p(0), p(1), 0.25 * p(0); p = q; }
    for (auto& b : s.a.bend) { Eigen::VectorXd q(3); q << b.second(0), b.second(1), 0; b.second = q; }
    s.a.world = 3;
  }
  if (!complete && coin(300)) {  // edges outside of all cells
    auto ps = s.a.pairs();
    for (int k = 0; k < 3; ++k) {
      unsigned a = pick(s.a.pts.size()), b = pick(s.a.pts.size());
      if (a == b || ps.count({std::min(a, b), std::max(a, b)})) continue;
      ps.insert({std::min(a, b), std::max(a, b)});
      mg::AEdge e{a, b}; e.geo = coin();
      s.a.edges.insert(s.a.edges.begin() + pick(s.a.edges.size() + 1), e);
      sim::probe("edge outside of all cells");
    }
  }
  s.ip = s.ie = s.ic = 0;
  s.open = true;
  sim::eventf("describe: world %d, %zu points, %zu cells, %zu edges", world, s.a.pts.size(), s.a.cells.size(), s.a.edges.size());
}
// false if memory ran out: the slot's factory is gone then
bool guarded(Slot& s, const char* what, uint32_t maxk, const std::function<void()>& fn) {
  bool arm = sim::chance(sim::kFault, std::strcmp(what, "Build") ? 12 : 250);
  uint64_t k = 0, c = 1;
  if (arm) { k = sim::choose(sim::kFault, maxk); c = sim::choose(sim::kFault, 3) == 0 ? 0 : 1 + sim::choose(sim::kFault, 3); sim::heap_arm(k, c); }
  std::string w;
  auto o = hs::attempt(fn, &w);
  uint64_t hit = arm ? sim::heap_disarm() : 0;
  if (hit) sim::fault_hit("allocation failure");
  if (o == hs::kDone) return true;
  if (o == hs::kThrew) sim::violation("unexpected-exception", "%s threw: %s", what, w.c_str());
  if (!hit) sim::violation("unexpected-exception", "%s reported memory exhaustion without any", what);
  sim::eventf("%s: allocation %llu fails, reported", what, (unsigned long long)k);
  sim::feature(sim::mix64(k * 31 + what[0] * 7 + what[3]));
  s.f.reset();
  s.open = false;
  recheck_all("after memory ran out in the construction of another one");
  return false;
}
void step(Slot& s) {
  // one insertion, chosen among those possible now
  for (int tries = 0; tries < 50; ++tries) {
    uint32_t k = pick(3);
    if (k == 0 && s.ip < s.a.pts.size()) {
      st r = 0;
      bool geo = coin(300);
      unsigned n = 1 + pick(4);
      for (; n && s.ip < s.a.pts.size(); --n) {
        const Eigen::VectorXd& p = s.a.pts[s.ip];
        if (!guarded(s, "AddPoint", 4, [&] { r = geo ? s.f->AddPoint(std::make_unique<lf::geometry::Point>(p)) : s.f->AddPoint(p); })) return;
        if (r != s.ip) sim::violation("wrong-returned-index", "AddPoint returned %u for point %zu", r, s.ip);
        ++s.ip;
      }
      return;
    }
    if (k == 1 && s.ie < s.a.edges.size()) {
      auto& e = s.a.edges[s.ie];
      if (std::max(e.a, e.b) >= s.ip) continue;
      st r = 0;
      const std::array<st, 2> n{e.a, e.b};
      if (!guarded(s, "AddEntity", 8, [&] { r = s.f->AddEntity(RefEl::kSegment(), n, mg::edge_geo(s.a, e)); })) return;
      if (r != s.ie) sim::violation("wrong-returned-index", "AddEntity returned %u for edge %zu", r, s.ie);
      ++s.ie;
      return;
    }
    if (k == 2 && s.ic < s.a.cells.size()) {
      auto& c = s.a.cells[s.ic];
      if (*std::max_element(c.v.begin(), c.v.end()) >= s.ip) continue;
      st r = 0;
      std::vector<st> n(c.v.begin(), c.v.end());
      if (!guarded(s, "AddEntity", 12, [&] { r = s.f->AddEntity(mg::ref(c), n, mg::cell_geo(s.a, c)); })) return;
      if (r != s.ic) sim::violation("wrong-returned-index", "AddEntity returned %u for cell %zu", r, s.ic);
      ++s.ic;
      return;
    }
  }
  while (s.ip < s.a.pts.size()) {  // nothing possible so far: more points
    st r = s.f->AddPoint(s.a.pts[s.ip]);
    if (r != s.ip) sim::violation("wrong-returned-index", "AddPoint returned %u for point %zu", r, s.ip);
    ++s.ip;
  }
}
bool fed(const Slot& s) { return s.ip == s.a.pts.size() && s.ie == s.a.edges.size() && s.ic == s.a.cells.size(); }

void finish_mesh(Slot& s) {
  std::shared_ptr<lf::mesh::Mesh> m;
  uint32_t est = 40 + 30 * static_cast<uint32_t>(s.a.cells.size()) + 10 * static_cast<uint32_t>(s.a.pts.size());
  if (!guarded(s, "Build", est, [&] { m = s.f->Build(); })) return;
  s.open = false;
  Built b{m, s.a, 0, g_next++};
  sim::eventf("build mesh %d", b.id);
  { sim::Quiet q; mg::check_mesh(*m, s.a, "mesh"); b.dig = mg::digest(*m); }
  sim::mix(b.dig);
  g_meshes.push_back(b);
  hs::Digest f; f.u(s.a.cells.size()); f.u(s.a.edges.size()); f.u(s.a.world); f.u(s.a.curved); f.u(s.complete); f.u(g_meshes.size());
  sim::feature(f.h);
}
void history() {
  uint32_t nf = 1 + pick(2);
  std::vector<Slot> sl(nf);
  std::vector<int> world(nf, 2);
  for (auto& w : world) w = coin(300) ? 3 : 2;
  uint32_t builds = 1 + pick(4);
  for (uint32_t steps = 0; steps < 1500 && (g_next < static_cast<int>(builds)); ++steps) {
    uint32_t i = pick(nf);
    Slot& s = sl[i];
    if (!s.f) {
      s.complete = coin(700);
      if (!s.complete) s.f = std::make_unique<MeshFactory>(world[i], false);
      else s.f = coin() ? std::make_unique<MeshFactory>(world[i]) : std::make_unique<MeshFactory>(world[i], true);
      if (s.f->DimWorld() != static_cast<unsigned>(world[i]) || s.f->DimMesh() != 2) sim::violation("wrong-dimension", "factory dimensions");
    }
    if (!s.open) { begin(s, world[i], s.complete); continue; }
    if (!fed(s)) { step(s); continue; }
    finish_mesh(s);
    if (s.f && coin(300)) { s.f.reset(); sim::event("factory destroyed"); }
    if (g_meshes.size() > 1 && coin(200)) { uint32_t k = pick(g_meshes.size()); sim::eventf("mesh %d released", g_meshes[k].id); g_meshes.erase(g_meshes.begin() + k); }
    recheck_all("after another one was built");
  }
  bool gone = coin();
  if (gone) for (auto& s : sl) s.f.reset();
  foreign_check();
  for (auto& b : g_meshes) { mg::check_mesh(*b.m, b.a, "mesh after further use of the factory"); }
  recheck_all("at the end");
  if (!gone && coin(100)) {
    // an incomplete mesh must be refused if completeness is asked for
    MeshFactory f(2);
    AMesh a; mg::Opt o; o.allow_geo = false; a = mg::gen(o);
    for (auto& p : a.pts) f.AddPoint(Eigen::VectorXd(p.head(2)));
    f.AddPoint(Eigen::Vector2d(7, 7));
    bool dangling = coin();
    if (dangling) { f.AddPoint(Eigen::Vector2d(8, 8)); const std::array<st, 2> n{static_cast<st>(a.pts.size()), static_cast<st>(a.pts.size() + 1)}; f.AddEntity(RefEl::kSegment(), n, nullptr); }
    for (auto& c : a.cells) { std::vector<st> n(c.v.begin(), c.v.end()); f.AddEntity(mg::ref(c), n, nullptr); }
    sim::allow_abort(true, "incomplete mesh refused");
    std::string w;
    if (hs::attempt([&] { f.Build(); }, &w) == hs::kDone) sim::violation("incomplete-mesh-accepted", "%s accepted although completeness is checked", dangling ? "edge without cell" : "isolated node");
    sim::allow_abort(false);
  }
}
// ------------------------------------------------------------- structured builders
struct LatticeCase { int kind; unsigned nx, ny; double x0, y0, x1, y1; };
void check_structured(const lf::mesh::Mesh& m, const LatticeCase& c) {
  const double hx = (c.x1 - c.x0) / c.nx, hy = (c.y1 - c.y0) / c.ny, pi = 3.14159265358979323846;
  bool torus = c.kind == 2;
  unsigned px = torus ? c.nx : c.nx + 1, py = torus ? c.ny : c.ny + 1;
  auto where = [&](unsigned i, unsigned j) -> Eigen::VectorXd {
    if (!torus) return Eigen::Vector2d(c.x0 + i * hx, c.y0 + j * hy);
    double r = (c.x1 - c.x0) / (2 * pi), R = (c.y1 - c.y0) / (2 * pi), t = 2 * pi * i / c.nx, f = 2 * pi * j / c.ny;
    return Eigen::Vector3d((R + r * std::cos(t)) * std::cos(f), (R + r * std::cos(t)) * std::sin(f), r * std::sin(t));
  };
  if (m.NumEntities(2) != px * py) sim::violation("structured-mesh", "%u nodes, not %u", m.NumEntities(2), px * py);
  AMesh A;
  A.world = torus ? 3 : 2;
  std::vector<std::pair<unsigned, unsigned>> at(px * py, {~0u, 0});
  std::set<std::pair<unsigned, unsigned>> used;
  for (unsigned k = 0; k < px * py; ++k) {
    Eigen::VectorXd p = m.EntityByIndex(2, k)->Geometry()->Global(Eigen::MatrixXd(0, 1));
    A.pts.push_back(p);
    for (unsigned j = 0; j < py && at[k].first == ~0u; ++j) for (unsigned i = 0; i < px; ++i)
      if ((where(i, j) - p).norm() < 1e-9 * (1 + p.norm())) { at[k] = {i, j}; break; }
    if (at[k].first == ~0u || !used.insert(at[k]).second) sim::violation("structured-mesh", "node %u is not a (new) lattice point", k);
    if (c.kind == 0 && (at[k].first + at[k].second * px != k)) sim::violation("structured-mesh", "node %u is lattice point (%u,%u), numbering is not lexicographic", k, at[k].first, at[k].second);
  }
  std::map<std::pair<unsigned, unsigned>, unsigned> rect;
  for (unsigned k = 0; k < m.NumEntities(0); ++k) {
    const auto* e = m.EntityByIndex(0, k);
    mg::ACell C;
    for (const auto* v : e->SubEntities(2)) C.v.push_back(m.Index(*v));
    if (C.v.size() != (c.kind == 0 ? 3u : 4u)) sim::violation("structured-mesh", "cell %u has %zu corners", k, C.v.size());
    // smallest lattice rectangle: by (cyclic) differences
    std::set<unsigned> is, js;
    for (unsigned v : C.v) { is.insert(at[v].first); js.insert(at[v].second); }
    auto low = [](const std::set<unsigned>& s, unsigned n, bool cyc) -> int {
      if (s.size() != 2) return -1;
      unsigned a = *s.begin(), b = *s.rbegin();
      if (b == a + 1) return static_cast<int>(a);
      return cyc && a == 0 && b == n - 1 ? static_cast<int>(b) : -1;
    };
    int i = low(is, px, torus), j = low(js, py, torus);
    if (i < 0 || j < 0) sim::violation("structured-mesh", "cell %u does not lie in a lattice rectangle", k);
    unsigned n = ++rect[{i, j}];
    if (n > (c.kind == 0 ? 2u : 1u)) sim::violation("structured-mesh", "lattice rectangle (%d,%d) has too many cells", i, j);
    A.cells.push_back(C);
  }
  if (A.cells.size() != c.nx * c.ny * (c.kind == 0 ? 2 : 1)) sim::violation("structured-mesh", "%zu cells", A.cells.size());
  if (rect.size() != c.nx * c.ny) sim::violation("structured-mesh", "cells cover %zu of %u rectangles", rect.size(), c.nx * c.ny);
  if (!torus) {
    double area = 0;
    for (auto& C : A.cells) {
      double s = 0;
      for (size_t i = 0; i < C.v.size(); ++i) { auto& p = A.pts[C.v[i]]; auto& q = A.pts[C.v[(i + 1) % C.v.size()]]; s += p(0) * q(1) - p(1) * q(0); }
      if (s <= 0) sim::violation("structured-mesh", "cell with non-positive area");
      area += s / 2;
    }
    double want = (c.x1 - c.x0) * (c.y1 - c.y0);
    if (std::abs(area - want) > 1e-9 * want) sim::violation("structured-mesh", "cells cover area %g of %g", area, want);
  }
  if (c.kind == 0) {
    // documented: horizontal edges first, then vertical ones
    unsigned nh = c.nx * (c.ny + 1), nv = (c.nx + 1) * c.ny;
    for (unsigned k = 0; k < m.NumEntities(1); ++k) {
      auto n = m.EntityByIndex(1, k)->SubEntities(1);
      auto a = at[m.Index(*n[0])], b = at[m.Index(*n[1])];
      int kind = a.second == b.second ? 0 : (a.first == b.first ? 1 : 2);
      int want = k < nh ? 0 : (k < nh + nv ? 1 : 2);
      if (kind != want) sim::violation("structured-mesh", "edge %u is of kind %d, expected %d", k, kind, want);
    }
  }
  mg::check_mesh(m, A, "structured mesh");
}
void structured() {
  LatticeCase c;
  c.kind = static_cast<int>(pick(3));
  std::unique_ptr<lf::mesh::utils::StructuredMeshBuilder> b;
  if (c.kind == 0) b = std::make_unique<lf::mesh::utils::TPTriagMeshBuilder>(std::make_unique<MeshFactory>(2));
  else if (c.kind == 1) b = std::make_unique<lf::mesh::utils::TPQuadMeshBuilder>(std::make_unique<MeshFactory>(2));
  else b = std::make_unique<lf::mesh::utils::TorusMeshBuilder>(std::make_unique<MeshFactory>(3));
  c.nx = c.ny = 0;
  c.x0 = c.y0 = 0; c.x1 = 1; c.y1 = 2;
  std::map<std::string, uint64_t> memo;
  uint32_t n = 1 + pick(4);
  for (uint32_t t = 0; t < n; ++t) {
    uint32_t lo = c.kind == 2 ? 3 : 1;
    if (t == 0 || coin(500)) { c.nx = lo + pick(5); c.ny = lo + pick(5); }
    if (t == 0 || coin(300)) {
      c.x0 = std::round(sim::unit() * 64) / 16; c.y0 = std::round(sim::unit() * 64) / 16;
      double w = 0.25 * range(1, 16);
      c.x1 = c.x0 + w; c.y1 = c.y0 + (c.kind == 2 ? 2 * w : 0.25 * range(1, 16));
    }
    LatticeCase q = c;
    bool none = coin(100);
    if (none) switch (pick(4)) { case 0: q.nx = 0; break; case 1: q.ny = 0; break; case 2: q.x1 = q.x0; break; default: q.y1 = q.y0 - 1; }
    b->setNumXCells(q.nx).setNumYCells(q.ny);
    if (coin()) b->setBottomLeftCorner(q.x0, q.y0).setTopRightCorner(q.x1, q.y1);
    else { b->setBottomLeftCorner(Eigen::Vector2d(q.x0, q.y0)); b->setTopRightCorner(Eigen::Vector2d(q.x1, q.y1)); }
    bool arm = !none && sim::chance(sim::kFault, 200);
    uint64_t k = 0;
    if (arm) { k = sim::choose(sim::kFault, 40 + 40 * q.nx * q.ny); sim::heap_arm(k, sim::choose(sim::kFault, 3)); }
    std::shared_ptr<lf::mesh::Mesh> m;
    std::string w;
    auto o = hs::attempt([&] { m = b->Build(); }, &w);
    uint64_t hit = arm ? sim::heap_disarm() : 0;
    if (hit) sim::fault_hit("allocation failure");
    sim::eventf("builder %d %ux%u on [%g,%g]x[%g,%g]: %d%s", q.kind, q.nx, q.ny, q.x0, q.x1, q.y0, q.y1, int(o), none ? " (empty)" : "");
    if (o == hs::kThrew || (o == hs::kBadAlloc && !hit)) sim::violation("unexpected-exception", "builder threw: %s", w.c_str());
    if (o == hs::kBadAlloc) { recheck_all("after memory ran out in a builder"); break; }  // the builder's factory may hold a part of the mesh now
    if (none) { if (m) sim::violation("structured-mesh", "mesh built for an empty description"); continue; }
    if (!m) sim::violation("structured-mesh", "no mesh built");
    check_structured(*m, q);
    uint64_t d = mg::digest(*m);
    sim::mix(d);
    auto key = hs::fmt("%u %u %a %a %a %a", q.nx, q.ny, q.x0, q.y0, q.x1, q.y1);
    auto it = memo.find(key);
    if (it != memo.end() && it->second != d) sim::violation("structured-mesh", "repeating the same description gives another mesh");
    memo[key] = d;
    Built bb{m, AMesh(), d, g_next++};
    g_meshes.push_back(bb);
    recheck_all("after the builder was used again");
    sim::feature(sim::mix64(q.kind * 1000 + q.nx * 10 + q.ny));
  }
  if (coin()) { b.reset(); recheck_all("after the builder was destroyed"); }
}
void run() {
  if (coin(150)) lf::mesh::hybrid2d::MeshFactory::Logger()->set_level(spdlog::level::trace);
  if (pick(5) == 4) structured(); else history();
  g_meshes.clear();
}
void warm() {
  mg::digest(*mg::build([] { AMesh a; a.pts = {Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(0, 1)}; a.cells.push_back({{0, 1, 2}}); return a; }()));
}
}  // namespace
const sim::Harness sim::kHarness{"p07_mesh", warm, run};
