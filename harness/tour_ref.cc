// refinement
#include "tour.h"
namespace tour {
namespace {
using lf::base::RefEl;
using hs::Digest;
void dhier(Digest& d, const lf::refinement::MeshHierarchy& h, uint32_t salt) {
  d.u(h.NumLevels());
  for (unsigned l = 0; l < h.NumLevels(); ++l) {
    auto m = h.getMesh(l);
    d.u(mg::digest(*m));
    for (const auto& p : h.PointChildInfos(l)) d.u(p.child_point_idx);
    for (const auto& e : h.EdgeChildInfos(l)) { d.u(e.ref_pat_); for (auto k : e.child_edge_idx) d.u(k); for (auto k : e.child_point_idx) d.u(k); }
    for (const auto& c : h.CellChildInfos(l)) { d.u(c.ref_pat_); d.u(c.anchor_); for (auto k : c.child_cell_idx) d.u(k); for (auto k : c.child_edge_idx) d.u(k); for (auto k : c.child_point_idx) d.u(k); }
    for (auto e : h.RefinementEdges(l)) d.u(e);
    if (l > 0)
      for (unsigned c = 0; c < 3; ++c) {
        for (const auto& p : h.ParentInfos(l, c)) { d.u(p.child_number); d.u(p.parent_index); d.u(p.parent_ptr->RefEl().Id()); }
        for (const auto* e : m->Entities(c)) { dgeo(d, *h.GeometryInParent(l, *e), salt); d.u(h.getMesh(l - 1)->Index(*h.ParentEntity(l, *e))); }
      }
  }
}
uint64_t hier_read(const World& w, const Params& p) { Digest d; dhier(d, *w.hier, p.a[0]); return d.h; }
uint64_t hier_print(const World& w, const Params& p) {
  Out o;
  w.hier->PrintInfo(o, p.a[0] % 100);
  Digest d; d.s(o.str());
  return d.h;
}
uint64_t hier_own(const World& w, const Params& p) {
  lf::refinement::MeshHierarchy h(w.mesh, factory(w.spec->am.world));
  for (unsigned i = 0; i <= p.a[0] % 2; ++i) refine(h, p.a[1 + i] % 6, p.a[3]);
  Digest d; dhier(d, h, p.a[4]);
  return d.h;
}
uint64_t hier_uniform(const World& w, const Params& p) {
  auto h = lf::refinement::GenerateMeshHierarchyByUniformRefinemnt(w.mesh, 1, p.a[0] % 2 ? lf::refinement::RefPat::rp_regular : lf::refinement::RefPat::rp_barycentric);
  Digest d; dhier(d, *h, p.a[1]);
  return d.h;
}
uint64_t transfer(const World& w, const Params& p) {
  Digest d;
  unsigned n = w.hier->NumLevels();
  if (n < 2) return d.h;
  MFG g(Wave{1.0 + p.a[0] % 3, 0.5});
  lf::refinement::MeshFunctionTransfer t(*w.hier, g, 0, 1 + p.a[1] % (n - 1));
  auto m = t.getMesh();
  for (unsigned c = 0; c < 2; ++c) for (const auto* e : m->Entities(c)) dvals(d, t(*e, points(e->RefEl(), p.a[2])));
  return d.h;
}
uint64_t patterns(const World&, const Params& p) {
  using namespace lf::refinement;
  Digest d;
  Out o;
  for (unsigned a = 0; a < 3; ++a)
    for (RefPat q : {rp_copy, rp_bisect, rp_trisect, rp_trisect_left, rp_quadsect, rp_regular, rp_barycentric}) {
      Hybrid2DRefinementPattern t(RefEl::kTria(), q, a);
      o << q;
      for (unsigned c = 0; c < 3; ++c) { d.u(t.NumChildren(c)); for (const auto& m : t.ChildPolygons(c)) d.m(m); }
    }
  for (unsigned a = 0; a < 4; ++a)
    for (RefPat q : {rp_copy, rp_bisect, rp_trisect, rp_quadsect, rp_regular, rp_barycentric, rp_threeedge}) {
      Hybrid2DRefinementPattern t(RefEl::kQuad(), q, a);
      d.u(t.LatticeConst());
      for (unsigned c = 0; c < 3; ++c) { d.u(t.NumChildren(c)); for (const auto& m : t.ChildPolygons(c)) d.m(m); }
    }
  (void)p;
  d.s(o.str());
  return d.h;
}
uint64_t selector(const World& w, const Params& p) {
  Digest d;
  double t = (p.a[0] % 8) / 8.0;
  lf::refinement::EntityCenterPositionSelector sel([t](const Eigen::VectorXd& x) { user(); return x(0) < t; });
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : w.mesh->Entities(c)) d.u(sel(*e));
  return d.h;
}
const Reg reg{{"hierarchy-read", hier_read, kHier, 0}, {"hierarchy-print", hier_print, kHier, 0}, {"hierarchy-own", hier_own, kMesh, kUser | kHeavy},
              {"hierarchy-uniform", hier_uniform, kMesh, kHeavy}, {"transfer", transfer, kHier, kUser}, {"patterns", patterns, 0, 0}, {"selector", selector, kMesh, kUser}};
}  // namespace
}  // namespace tour
