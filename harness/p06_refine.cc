// P06: refinement histories; every level is checked against the one above it and
// all older levels must stay as they were, also when a step fails.
#include "meshcheck.h"
#include <lf/refinement/refinement.h>
#include <lf/refinement/mesh_function_transfer.h>

using sim::coin;
using sim::pick;
using sim::range;
using lf::base::RefEl;
using lf::mesh::Entity;
using lf::mesh::Mesh;
using lf::mesh::MeshFactory;
using lf::refinement::MeshHierarchy;
using lf::refinement::RefPat;
using st = Mesh::size_type;
const unsigned kNil = lf::base::kIdxNil;

namespace {
struct Injected : std::exception { const char* what() const noexcept override { return "injected failure"; } };
// A user's mesh factory which may fail.
struct ShakyFactory : MeshFactory {
  lf::mesh::hybrid2d::MeshFactory f;
  long left = -1;        // calls until failure, -1: never
  uint64_t calls = 0, failed = 0;
  explicit ShakyFactory(int w) : f(w) {}
  void tick() { ++calls; if (left >= 0 && left-- == 0) { ++failed; throw Injected(); } }
  lf::base::dim_t DimWorld() const override { return f.DimWorld(); }
  lf::base::dim_t DimMesh() const override { return f.DimMesh(); }
  size_type AddPoint(coord_t c) override { tick(); return f.AddPoint(c); }
  size_type AddPoint(std::unique_ptr<lf::geometry::Geometry>&& g) override { tick(); return f.AddPoint(std::move(g)); }
  size_type AddEntity(RefEl r, const std::span<const size_type>& n, std::unique_ptr<lf::geometry::Geometry>&& g) override { tick(); return f.AddEntity(r, n, std::move(g)); }
  std::shared_ptr<Mesh> Build() override { tick(); return f.Build(); }
};
#define BAD(cls, ...) sim::violation(cls, "level %u: %s", lvl, hs::fmt(__VA_ARGS__).c_str())

// ------------------------------------------------------------------ digests
uint64_t dig_parent(const MeshHierarchy& h, unsigned l) {
  hs::Digest d;
  for (unsigned c = 0; c <= 2; ++c) {
    auto& v = h.ParentInfos(l, c);
    d.u(v.size());
    for (auto& p : v) {
      d.u(p.parent_index); d.u(p.child_number); d.u(p.parent_ptr ? h.getMesh(l - 1)->Index(*p.parent_ptr) : 77); d.u(p.parent_ptr ? p.parent_ptr->Codim() : 7);
      d.u(p.rel_ref_geo_ != nullptr);
      if (p.rel_ref_geo_) d.m(p.rel_ref_geo_->Global(p.rel_ref_geo_->RefEl().NodeCoords()));
    }
  }
  for (auto e : h.RefinementEdges(l)) d.u(e);
  return d.h;
}
uint64_t dig_child(const MeshHierarchy& h, unsigned l) {
  hs::Digest d;
  for (auto& p : h.PointChildInfos(l)) { d.u(p.ref_pat); d.u(p.child_point_idx); }
  for (auto& p : h.EdgeChildInfos(l)) { d.u(p.ref_pat_); for (auto i : p.child_edge_idx) d.u(i); d.u(1); for (auto i : p.child_point_idx) d.u(i); }
  for (auto& p : h.CellChildInfos(l)) { d.u(p.ref_pat_); d.u(p.anchor_); for (auto i : p.child_cell_idx) d.u(i); d.u(1); for (auto i : p.child_edge_idx) d.u(i); d.u(2); for (auto i : p.child_point_idx) d.u(i); }
  return d.h;
}
struct Snap { std::vector<std::shared_ptr<const Mesh>> m; std::vector<uint64_t> mesh, par, chi; };
Snap snap(const MeshHierarchy& h) {
  Snap s;
  for (unsigned l = 0; l < h.NumLevels(); ++l) {
    s.m.push_back(h.getMesh(l));
    s.mesh.push_back(mg::digest(*h.getMesh(l)));
    s.par.push_back(dig_parent(h, l));
    s.chi.push_back(dig_child(h, l));
  }
  return s;
}
// n: number of levels which must be unchanged; the finest of them may have got children if `refined`
void compare(const Snap& s, const MeshHierarchy& h, bool refined, const char* when) {
  unsigned n = s.m.size();
  if (h.NumLevels() != n + (refined ? 1 : 0)) sim::violation("wrong-level-count", "%u levels %s, %u before", h.NumLevels(), when, n);
  if (h.getMeshes().size() != h.NumLevels()) sim::violation("wrong-level-count", "getMeshes() returns %zu of %u", h.getMeshes().size(), h.NumLevels());
  for (unsigned l = 0; l < n; ++l) {
    if (h.getMesh(l) != s.m[l] || h.getMeshes()[l] != s.m[l]) sim::violation("older-level-changed", "mesh %u of %u replaced %s", l, n, when);
    if (mg::digest(*s.m[l]) != s.mesh[l]) sim::violation("older-level-changed", "mesh %u of %u changed %s", l, n, when);
    if (dig_parent(h, l) != s.par[l]) sim::violation("older-level-changed", "parent or refinement edge information of level %u of %u changed %s", l, n, when);
    if (!(refined && l + 1 == n) && dig_child(h, l) != s.chi[l]) sim::violation("older-level-changed", "child information of level %u of %u changed %s", l, n, when);
  }
}
// ------------------------------------------------------------------ geometry helpers
Eigen::VectorXd at(const Entity& e, double t) { Eigen::MatrixXd x(1, 1); x << t; return e.Geometry()->Global(x); }
Eigen::VectorXd pos(const Entity& e) { return e.Geometry()->Global(Eigen::MatrixXd(0, 1)); }
// signed area from the boundary curve (quadratic edges), 2D only
double area(const Entity& cell) {
  double s = 0;
  auto es = cell.SubEntities(1);
  auto os = cell.RelativeOrientations();
  for (size_t j = 0; j < es.size(); ++j) {
    Eigen::VectorXd a = at(*es[j], 0), m = at(*es[j], 0.5), b = at(*es[j], 1);
    if (lf::mesh::to_sign(os[j]) < 0) std::swap(a, b);
    // x(t) = a + (4m-3a-b) t + (2a+2b-4m) t^2
    Eigen::VectorXd p = 4 * m - 3 * a - b, q = 2 * a + 2 * b - 4 * m;
    auto cr = [](const Eigen::VectorXd& u, const Eigen::VectorXd& v) { return u(0) * v(1) - u(1) * v(0); };
    // 1/2 int x cross x'
    s += 0.5 * (cr(a, p) + cr(a, q) + cr(p, q) / 3.0);
  }
  return s;
}
bool near(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { return mg::close(a, b, 1e-10); }

// description of a mesh by its own points/cells/edge midpoints: feeds check_mesh for mutual consistency
mg::AMesh describe(const Mesh& m) {
  mg::AMesh A;
  A.world = m.DimWorld();
  for (unsigned i = 0; i < m.NumEntities(2); ++i) A.pts.push_back(pos(*m.EntityByIndex(2, i)));
  for (unsigned i = 0; i < m.NumEntities(1); ++i) {
    const auto* e = m.EntityByIndex(1, i);
    unsigned a = m.Index(*e->SubEntities(1)[0]), b = m.Index(*e->SubEntities(1)[1]);
    A.edges.push_back({a, b, true, true});
    A.bend[{std::min(a, b), std::max(a, b)}] = at(*e, 0.5) - 0.5 * (A.pts[a] + A.pts[b]);
  }
  for (unsigned i = 0; i < m.NumEntities(0); ++i) {
    mg::ACell c;
    for (const auto* v : m.EntityByIndex(0, i)->SubEntities(2)) c.v.push_back(m.Index(*v));
    A.cells.push_back(c);
  }
  return A;
}
double ref_area(const Eigen::MatrixXd& x) {
  double s = 0;
  for (long i = 0; i < x.cols(); ++i) { long j = (i + 1) % x.cols(); s += x(0, i) * x(1, j) - x(1, i) * x(0, j); }
  return s / 2;
}
// ------------------------------------------------------------------ one refinement step
void check_step(const MeshHierarchy& h, unsigned lvl, const std::vector<bool>& marked, int global, bool curved) {
  // lvl: the new level; parent level lvl-1
  const Mesh &F = *h.getMesh(lvl), &C = *h.getMesh(lvl - 1);
  auto& pci = h.PointChildInfos(lvl - 1);
  auto& eci = h.EdgeChildInfos(lvl - 1);
  auto& cci = h.CellChildInfos(lvl - 1);
  if (pci.size() != C.NumEntities(2) || eci.size() != C.NumEntities(1) || cci.size() != C.NumEntities(0)) BAD("child-info", "child information has the wrong length");
  for (unsigned c = 0; c <= 2; ++c) if (h.ParentInfos(lvl, c).size() != F.NumEntities(c)) BAD("parent-info", "parent information has the wrong length");
  mg::check_mesh(F, describe(F), "refined mesh");
  // every fine entity is the child of exactly one coarse one
  std::array<std::vector<int>, 3> owner;
  for (unsigned c = 0; c <= 2; ++c) owner[c].assign(F.NumEntities(c), 0);
  auto child = [&](const Entity* parent, unsigned pidx, unsigned codim, unsigned idx, unsigned num) {
    if (idx >= F.NumEntities(codim)) BAD("child-info", "child index %u of codim %u out of range", idx, codim);
    if (owner[codim][idx]++) BAD("child-info", "entity %u of codim %u has two parents", idx, codim);
    auto& p = h.ParentInfos(lvl, codim)[idx];
    const auto* e = F.EntityByIndex(codim, idx);
    if (p.parent_ptr != parent || p.parent_index != pidx) BAD("parent-info", "parent of entity %u of codim %u is recorded as %u (codim %u), it is %u (codim %u)", idx, codim, p.parent_index, p.parent_ptr ? p.parent_ptr->Codim() : 9, pidx, parent->Codim());
    if (p.child_number != num) BAD("parent-info", "entity %u of codim %u is child %u of its parent, recorded as %u", idx, codim, num, p.child_number);
    if (h.ParentEntity(lvl, *e) != parent) BAD("parent-info", "ParentEntity of entity %u of codim %u", idx, codim);
    const auto* g = h.GeometryInParent(lvl, *e);
    if (!g || g != p.rel_ref_geo_.get()) BAD("relative-geometry", "no relative geometry for entity %u of codim %u", idx, codim);
    if (g->RefEl() != e->RefEl() || g->DimGlobal() != parent->RefEl().Dimension()) BAD("relative-geometry", "type of the relative geometry of entity %u of codim %u", idx, codim);
    Eigen::MatrixXd rel = g->Global(e->RefEl().NodeCoords()), got = parent->Geometry()->Global(rel), want = e->Geometry()->Global(e->RefEl().NodeCoords());
    if (!near(got, want)) BAD("relative-geometry", "corners of entity %u of codim %u, child %u of %s %u, do not lie where its relative geometry says (error %g)", idx, codim, num, parent->RefEl().ToString().c_str(), pidx, (got - want).cwiseAbs().maxCoeff());
    if (rel.size() && (rel.minCoeff() < -1e-12 || rel.maxCoeff() > 1 + 1e-12)) BAD("relative-geometry", "entity %u of codim %u outside of its parent", idx, codim);
  };
  std::vector<char> split(C.NumEntities(1), 0);
  for (unsigned i = 0; i < C.NumEntities(2); ++i) {
    if (pci[i].ref_pat != RefPat::rp_copy) BAD("child-info", "point %u not copied", i);
    child(C.EntityByIndex(2, i), i, 2, pci[i].child_point_idx, 0);
    if (!near(pos(*F.EntityByIndex(2, pci[i].child_point_idx)), pos(*C.EntityByIndex(2, i)))) BAD("moved-point", "point %u moved", i);
  }
  auto vert = [&](unsigned fe, unsigned k) { return F.Index(*F.EntityByIndex(1, fe)->SubEntities(1)[k]); };
  for (unsigned i = 0; i < C.NumEntities(1); ++i) {
    const auto* e = C.EntityByIndex(1, i);
    auto& x = eci[i];
    unsigned p0 = pci[C.Index(*e->SubEntities(1)[0])].child_point_idx, p1 = pci[C.Index(*e->SubEntities(1)[1])].child_point_idx;
    bool want = global || marked[i];
    if (want && x.ref_pat_ != RefPat::rp_split) BAD("marked-edge-not-split", "edge %u was marked", i);
    if (x.ref_pat_ == RefPat::rp_split) {
      split[i] = 1;
      if (x.child_edge_idx.size() != 2 || x.child_point_idx.size() != 1) BAD("child-info", "split edge %u has %zu/%zu children", i, x.child_edge_idx.size(), x.child_point_idx.size());
      child(e, i, 1, x.child_edge_idx[0], 0);
      child(e, i, 1, x.child_edge_idx[1], 1);
      child(e, i, 2, x.child_point_idx[0], 0);
      unsigned m = x.child_point_idx[0];
      if (!near(pos(*F.EntityByIndex(2, m)), at(*e, 0.5))) BAD("wrong-midpoint", "midpoint of edge %u", i);
      if (vert(x.child_edge_idx[0], 0) != p0 || vert(x.child_edge_idx[0], 1) != m || vert(x.child_edge_idx[1], 0) != m || vert(x.child_edge_idx[1], 1) != p1) BAD("child-info", "endpoints of the children of edge %u", i);
      for (double t : {0.25, 0.5, 0.875})
        if (!near(at(*F.EntityByIndex(1, x.child_edge_idx[0]), t), at(*e, t / 2)) || !near(at(*F.EntityByIndex(1, x.child_edge_idx[1]), t), at(*e, 0.5 + t / 2))) BAD("domain-changed", "children of edge %u leave the edge", i);
    } else if (x.ref_pat_ == RefPat::rp_copy) {
      if (x.child_edge_idx.size() != 1 || !x.child_point_idx.empty()) BAD("child-info", "copied edge %u has %zu/%zu children", i, x.child_edge_idx.size(), x.child_point_idx.size());
      child(e, i, 1, x.child_edge_idx[0], 0);
      if (vert(x.child_edge_idx[0], 0) != p0 || vert(x.child_edge_idx[0], 1) != p1) BAD("child-info", "endpoints of the copy of edge %u", i);
      for (double t : {0.25, 0.5, 0.875}) if (!near(at(*F.EntityByIndex(1, x.child_edge_idx[0]), t), at(*e, t))) BAD("domain-changed", "copy of edge %u leaves the edge", i);
    } else BAD("child-info", "edge %u has pattern %d", i, int(x.ref_pat_));
  }
  double ca = 0, fa = 0;
  for (unsigned i = 0; i < C.NumEntities(0); ++i) {
    const auto* e = C.EntityByIndex(0, i);
    auto& x = cci[i];
    lf::refinement::Hybrid2DRefinementPattern rp(e->RefEl(), x.ref_pat_, x.anchor_);
    auto es = e->SubEntities(1);
    unsigned ns = 0;
    for (const auto* s : es) ns += split[C.Index(*s)];
    bool tri = e->RefEl() == RefEl::kTria();
    bool okpat = false;
    switch (x.ref_pat_) {
      case RefPat::rp_copy: okpat = ns == 0; break;
      case RefPat::rp_bisect: okpat = ns == (tri ? 1u : 2u); break;
      case RefPat::rp_trisect: okpat = ns == (tri ? 2u : 1u); break;
      case RefPat::rp_trisect_left: okpat = tri && ns == 2; break;
      case RefPat::rp_quadsect: okpat = ns == (tri ? 3u : 2u); break;
      case RefPat::rp_threeedge: okpat = !tri && ns == 3; break;
      case RefPat::rp_regular: case RefPat::rp_barycentric: okpat = ns == es.size(); break;
      default: break;
    }
    if (!okpat) BAD("wrong-pattern", "cell %u (%s) with %u split edges got pattern %d", i, e->RefEl().ToString().c_str(), ns, int(x.ref_pat_));
    if (global && x.ref_pat_ != (global == 1 ? RefPat::rp_regular : RefPat::rp_barycentric)) BAD("wrong-pattern", "cell %u got pattern %d in global refinement", i, int(x.ref_pat_));
    if (x.child_cell_idx.size() != rp.NumChildren(0) || x.child_edge_idx.size() != rp.NumChildren(1) || x.child_point_idx.size() != rp.NumChildren(2))
      BAD("child-info", "cell %u with pattern %d has %zu/%zu/%zu children", i, int(x.ref_pat_), x.child_cell_idx.size(), x.child_edge_idx.size(), x.child_point_idx.size());
    double ra = 0;
    for (unsigned k = 0; k < x.child_cell_idx.size(); ++k) {
      child(e, i, 0, x.child_cell_idx[k], k);
      const auto* f = F.EntityByIndex(0, x.child_cell_idx[k]);
      double r = std::abs(ref_area(h.GeometryInParent(lvl, *f)->Global(f->RefEl().NodeCoords())));
      if (r < 1e-9) BAD("degenerate-cell", "child %u of cell %u", k, i);
      ra += r;
    }
    if (std::abs(ra - (tri ? 0.5 : 1.0)) > 1e-9) BAD("domain-changed", "children of cell %u cover %g of their parent's reference element", i, ra);
    for (unsigned k = 0; k < x.child_edge_idx.size(); ++k) child(e, i, 1, x.child_edge_idx[k], k);
    for (unsigned k = 0; k < x.child_point_idx.size(); ++k) child(e, i, 2, x.child_point_idx[k], k);
    if (F.DimWorld() == 2) {
      double a = area(*e), b = 0;
      for (unsigned k : x.child_cell_idx) {
        const auto* f = F.EntityByIndex(0, k);
        double q = area(*f);
        if (ref_area(h.GeometryInParent(lvl, *f)->Global(f->RefEl().NodeCoords())) < 0) q = -q;  // child listed the other way round
        if (!curved && q * a <= 1e-12 * a * a) BAD("degenerate-cell", "child of cell %u (area %g) has area %g", i, a, q);
        b += q;
      }
      if (std::abs(a - b) > 1e-9 * (1 + std::abs(a))) BAD("domain-changed", "children of cell %u cover area %.12g of %.12g", i, b, a);
      ca += a; fa += b;
    }
    // refinement edges
    auto &pre = h.RefinementEdges(lvl - 1), &fre = h.RefinementEdges(lvl);
    for (unsigned k = 0; k < x.child_cell_idx.size(); ++k) {
      unsigned fi = x.child_cell_idx[k];
      const auto* f = F.EntityByIndex(0, fi);
      if (f->RefEl() != RefEl::kTria()) { if (fre[fi] != kNil) BAD("refinement-edge", "quadrilateral %u has refinement edge %u", fi, fre[fi]); continue; }
      if (fre[fi] >= 3) BAD("refinement-edge", "triangle %u has no refinement edge", fi);
      if (!tri) continue;
      if (x.ref_pat_ == RefPat::rp_copy) { if (fre[fi] != pre[i]) BAD("refinement-edge", "copied triangle %u has refinement edge %u, parent had %u", fi, fre[fi], pre[i]); continue; }
      if (x.ref_pat_ != RefPat::rp_barycentric && !split[C.Index(*es[pre[i]])]) BAD("refinement-edge", "refinement edge of divided triangle %u not split", i);
      Eigen::MatrixXd rel = h.GeometryInParent(lvl, *f)->Global(f->RefEl().NodeCoords()), par = e->RefEl().NodeCoords();
      auto side = [](const Eigen::MatrixXd& c, unsigned k) -> Eigen::Vector2d { return c.col((k + 1) % 3) - c.col(k); };
      if (x.ref_pat_ == RefPat::rp_regular) {
        // inherited: parallel to the parent's
        Eigen::Vector2d u = side(rel, fre[fi]), v = side(par, pre[i]);
        if (std::abs(u(0) * v(1) - u(1) * v(0)) > 1e-12) BAD("refinement-edge", "child %u of regularly refined triangle %u: refinement edge %u is not parallel to the parent's (%u)", k, i, fre[fi], pre[i]);
      } else if (x.ref_pat_ == RefPat::rp_bisect) {
        // opposite the new vertex: an edge of the parent
        Eigen::Vector2d m = rel.col((fre[fi] + 2) % 3), want = 0.5 * (par.col(pre[i]) + par.col((pre[i] + 1) % 3));
        if ((m - want).norm() > 1e-12) BAD("refinement-edge", "child %u of bisected triangle %u: refinement edge %u is not opposite the new vertex", k, i, fre[fi]);
      }
    }
  }
  for (unsigned c = 0; c <= 2; ++c) for (unsigned i = 0; i < owner[c].size(); ++i) if (!owner[c][i]) BAD("child-info", "entity %u of codim %u has no parent", i, c);
  if (F.DimWorld() == 2 && std::abs(ca - fa) > 1e-8) BAD("domain-changed", "area %g became %g", ca, fa);
  // conformity: edges with one cell are exactly the children of such edges
  std::vector<unsigned> fc(F.NumEntities(1), 0), cc(C.NumEntities(1), 0);
  for (const auto* e : F.Entities(0)) for (const auto* s : e->SubEntities(1)) fc[F.Index(*s)]++;
  for (const auto* e : C.Entities(0)) for (const auto* s : e->SubEntities(1)) cc[C.Index(*s)]++;
  for (unsigned i = 0; i < fc.size(); ++i) {
    auto& p = h.ParentInfos(lvl, 1)[i];
    unsigned want = p.parent_ptr->Codim() == 1 ? cc[p.parent_index] : 2;
    if (fc[i] != want) BAD("not-conforming", "edge %u belongs to %u cells, %u expected", i, fc[i], want);
  }
  std::map<std::vector<long>, unsigned> where;
  for (const auto* p : F.Entities(2)) {
    Eigen::VectorXd x = pos(*p);
    std::vector<long> key;
    for (long k = 0; k < x.size(); ++k) key.push_back(std::lround(x(k) * 1e9));
    if (!where.insert({key, F.Index(*p)}).second) BAD("not-conforming", "two nodes at the same place");
  }
  // transfer of a function to the new level
  if (!curved) {
    auto f = [](const Eigen::VectorXd& x) { return 1.25 * x(0) - 0.5 * x(1) + 0.125; };
    lf::mesh::utils::MeshFunctionGlobal mf(f);
    unsigned from = pick(lvl);
    lf::refinement::MeshFunctionTransfer t(h, mf, from, lvl);
    if (t.getMesh() != h.getMesh(lvl)) BAD("wrong-transfer", "function transferred from level %u to %u claims to live on another mesh", from, lvl);
    for (const auto* e : F.Entities(0)) {
      // a child of a non-affine quadrilateral covers its part of the parent only approximately
      bool exact = true;
      const Entity* a = e;
      for (unsigned l = lvl; l > from; --l) {
        a = h.ParentEntity(l, *a);
        if (l - 1 > from) {
          const Entity* pa = h.ParentEntity(l - 1, *a);
          Eigen::MatrixXd c = pa->Geometry()->Global(pa->RefEl().NodeCoords());
          if (c.cols() == 4 && (c.col(0) - c.col(1) + c.col(2) - c.col(3)).norm() > 1e-13) exact = false;
        }
      }
      if (!exact) continue;
      Eigen::MatrixXd loc = e->RefEl().NodeCoords();
      auto v = t(*e, loc);
      auto x = e->Geometry()->Global(loc);
      for (size_t k = 0; k < v.size(); ++k) if (std::abs(v[k] - f(x.col(k))) > 1e-9) BAD("wrong-transfer", "function transferred from level %u has value %g at a corner of cell %u, not %g", from, v[k], F.Index(*e), f(x.col(k)));
    }
  }
}
void check_base(const MeshHierarchy& h, const std::shared_ptr<Mesh>& base) {
  unsigned lvl = 0;
  if (h.NumLevels() != 1 || h.getMesh(0) != base) BAD("wrong-level-count", "new hierarchy has %u levels", h.NumLevels());
  for (unsigned c = 0; c <= 2; ++c) for (auto& p : h.ParentInfos(0, c)) if (p.parent_ptr) BAD("parent-info", "coarsest level has parents");
  for (const auto* e : base->Entities(0)) {
    unsigned r = h.RefinementEdges(0)[base->Index(*e)];
    if (e->RefEl() != RefEl::kTria()) { if (r != kNil) BAD("refinement-edge", "quadrilateral has refinement edge"); continue; }
    if (r > 2) BAD("refinement-edge", "triangle has refinement edge %u", r);
    double len[3];
    for (int j = 0; j < 3; ++j) { auto x = e->Geometry()->Global(e->RefEl().NodeCoords()); len[j] = (x.col(j) - x.col((j + 1) % 3)).norm(); }
    for (double l : len) if (l > len[r] * (1 + 1e-9)) BAD("refinement-edge", "triangle %u: edge %u is not the longest", base->Index(*e), r);
  }
}
// ------------------------------------------------------------------ a history
struct Step { int kind; std::vector<uint32_t> marks; };  // 0 marked, 1 regular, 2 barycentric
void apply(MeshHierarchy& h, const Step& s, std::vector<bool>* marked) {
  unsigned n = h.getMesh(h.NumLevels() - 1)->NumEntities(1);
  marked->assign(n, s.kind != 0);
  if (s.kind == 0) {
    for (uint32_t m : s.marks) (*marked)[m % n] = true;
    h.MarkEdges([&](const Mesh& mesh, const Entity& e) { return bool((*marked)[mesh.Index(e)]); });
    h.RefineMarked();
  } else h.RefineRegular(s.kind == 1 ? RefPat::rp_regular : RefPat::rp_barycentric);
}
void run() {
  mg::Opt o;
  o.max_n = range(1, 3); o.allow_curved = true; o.allow_clockwise = coin(200); o.allow_world3 = coin(150);
  auto A = mg::gen(o);
  auto base = mg::build(A);
  ShakyFactory* fac;
  auto mk = [&] { auto f = std::make_unique<ShakyFactory>(A.world); fac = f.get(); return f; };
  std::shared_ptr<MeshHierarchy> h;
  h = std::make_shared<MeshHierarchy>(base, mk());
  check_base(*h, base);
  std::vector<Step> done;
  uint32_t steps = 1 + pick(5);
  sim::eventf("base mesh: %zu cells, %zu points, curved %d, world %d", A.cells.size(), A.pts.size(), int(A.curved), A.world);
  for (uint32_t t = 0; t < steps; ++t) {
    unsigned ne = h->getMesh(h->NumLevels() - 1)->NumEntities(1), nc = h->getMesh(h->NumLevels() - 1)->NumEntities(0);
    if (nc > 300) break;
    Step s;
    s.kind = nc > 60 ? 0 : static_cast<int>(pick(5) >= 3 ? pick(3) : 0);
    if (s.kind == 0) { uint32_t k = coin(150) ? ne : (coin(100) ? 0 : 1 + pick(4)); for (uint32_t i = 0; i < k; ++i) s.marks.push_back(pick(ne)); }
    Snap before = snap(*h);
    std::vector<bool> marked;
    if (s.kind == 0 && sim::chance(sim::kFault, 100)) {
      // the marker throws: nothing happened, marking may be repeated
      uint32_t at = sim::choose(sim::kFault, ne), n = 0;
      std::string w;
      auto r = hs::attempt([&] { h->MarkEdges([&](const Mesh&, const Entity&) -> bool { if (n++ == at) throw Injected(); return n % 3 == 0; }); }, &w);
      sim::fault_hit("marker throws");
      if (r != hs::kThrew || w != "injected failure") sim::violation("exception-lost", "exception of the marker did not reach the caller");
      compare(before, *h, false, "after the marker threw");
      sim::eventf("marker throws at edge %u", at);
    }
    int fault = 0;
    if (sim::chance(sim::kFault, 150)) {
      fault = 1 + static_cast<int>(sim::choose(sim::kFault, 2));
      if (fault == 1) fac->left = sim::choose(sim::kFault, 2) ? sim::choose(sim::kFault, 4 * nc + 4 * ne + 10) : (sim::choose(sim::kFault, 8));
      else sim::heap_arm(sim::choose(sim::kFault, sim::choose(sim::kFault, 3) ? 400 * nc + 200 : 60), sim::choose(sim::kFault, 2));
    }
    std::string w;
    auto r = hs::attempt([&] { apply(*h, s, &marked); }, &w);
    uint64_t hits = fault == 2 ? sim::heap_disarm() : (fault == 1 ? fac->failed : 0);
    fac->left = -1; fac->failed = 0;
    sim::eventf("step %u: kind %d, %zu marks: %s", t, s.kind, s.marks.size(), r == hs::kDone ? "done" : w.c_str());
    if (hits) sim::fault_hit(fault == 1 ? "mesh factory fails" : "allocation failure");
    if (r != hs::kDone) {
      if (!hits) sim::violation("unexpected-exception", "refinement threw: %s", w.c_str());
      if (fault == 1 && w != "injected failure") sim::violation("exception-lost", "factory failure reported as: %s", w.c_str());
      if (fault == 2 && r != hs::kBadAlloc) sim::violation("exception-lost", "memory exhaustion reported as: %s", w.c_str());
      compare(before, *h, false, "after a failed refinement step");
      sim::eventf("hierarchy intact after failure");
      if (coin(200)) {
        // a further attempt either is refused or gives a correct level
        sim::allow_abort(true, "refinement after a failure refused");
        std::vector<bool> mk2;
        r = hs::attempt([&] { apply(*h, s, &mk2); }, &w);
        if (r == hs::kDone) { compare(before, *h, true, "by refinement after a failure"); check_step(*h, h->NumLevels() - 1, mk2, s.kind, A.curved || A.world == 3); }
        else compare(before, *h, false, "after a refused refinement step");
        return;
      }
      if (coin()) { auto m = h->getMesh(h->NumLevels() - 1); h.reset(); if (mg::digest(*m) != before.mesh.back()) sim::violation("older-level-changed", "mesh changed by destroying the hierarchy"); }
      // a new hierarchy on the same base mesh repeats the history
      h = std::make_shared<MeshHierarchy>(base, mk());
      for (auto& d : done) { std::vector<bool> x; apply(*h, d, &x); }
      Snap again = snap(*h);
      for (unsigned l = 0; l < before.m.size(); ++l) if (again.mesh[l] != before.mesh[l] || again.par[l] != before.par[l] || again.chi[l] != before.chi[l]) sim::violation("history-not-repeatable", "level %u of a new hierarchy with the same history differs", l);
      sim::feature(sim::mix64(fault * 100 + before.m.size() * 10 + s.kind));
      continue;
    }
    compare(before, *h, true, "by refinement");
    check_step(*h, h->NumLevels() - 1, marked, s.kind, A.curved || A.world == 3);
    done.push_back(s);
    hs::Digest f;
    for (auto& c : h->CellChildInfos(h->NumLevels() - 2)) { f.u(c.ref_pat_); f.u(c.anchor_); sim::feature(sim::mix64(c.ref_pat_ * 64 + (c.anchor_ & 7) * 8 + 100000 * h->getMesh(h->NumLevels() - 2)->EntityByIndex(0, 0)->RefEl().Id())); }
    sim::feature(f.h);
    sim::mix(dig_child(*h, h->NumLevels() - 2));
    sim::mix(mg::digest(*h->getMesh(h->NumLevels() - 1)));
  }
  if (coin(200)) {
    auto m = h->getMeshes();
    std::vector<uint64_t> d;
    for (auto& x : m) d.push_back(mg::digest(*x));
    h.reset();
    for (size_t i = 0; i < m.size(); ++i) if (mg::digest(*m[i]) != d[i]) sim::violation("older-level-changed", "mesh %zu changed when the hierarchy was destroyed", i);
  }
}
void warm() {
  auto m = mg::build([] { mg::AMesh a; a.pts = {Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(0, 1)}; a.cells.push_back({{0, 1, 2}}); return a; }());
  MeshHierarchy h(m, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2));
  h.RefineRegular();
}
}  // namespace
const sim::Harness sim::kHarness{"p06_refine", warm, run};
