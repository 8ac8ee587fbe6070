// base, geometry, quad, mesh, mesh/utils
#include <lf/geometry/print_info.h>
#include <lf/mesh/utils/utils.h>
#include <lf/quad/gauss_quadrature.h>
#include "tour.h"
namespace tour {
namespace {
using lf::base::RefEl;
using hs::Digest;
uint64_t refel(const World&, const Params& p) {
  Digest d;
  for (RefEl r : {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) {
    d.u(r.Id()); d.u(r.Dimension()); d.u(r.NumNodes()); d.s(r.ToString()); d.m(r.NodeCoords());
    for (unsigned c = 0; c <= r.Dimension(); ++c)
      for (unsigned i = 0; i < r.NumSubEntities(c); ++i) {
        RefEl q = r.SubType(c, i);
        d.u(q.Id());
        for (unsigned k = 0; k <= q.Dimension(); ++k) for (unsigned j = 0; j < q.NumSubEntities(k); ++j) d.u(r.SubSubEntity2SubEntity(c, i, k, j));
      }
  }
  Out o;
  lf::base::PrintInfo(o, RefEl::kQuad(), p.a[0] % 100);
  d.s(o.str());
  return d.h;
}
uint64_t geom(const World& w, const Params& p) {
  Digest d;
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : w.mesh->Entities(c)) {
    const auto& g = *e->Geometry();
    dgeo(d, g, p.a[0]);
    d.d(lf::geometry::Volume(g));
    d.m(lf::geometry::Corners(g));
  }
  return d.h;
}
uint64_t subgeom(const World& w, const Params& p) {
  Digest d;
  for (unsigned c = 0; c < 2; ++c) for (const auto* e : w.mesh->Entities(c)) {
    const auto& g = *e->Geometry();
    for (unsigned k = 0; k <= g.DimLocal(); ++k) for (unsigned i = 0; i < e->RefEl().NumSubEntities(k); ++i) dgeo(d, *g.SubGeometry(k, i), p.a[1]);
  }
  return d.h;
}
uint64_t childgeom(const World& w, const Params& p) {
  using namespace lf::refinement;
  Digest d;
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : w.mesh->Entities(c)) {
    RefEl r = e->RefEl();
    std::vector<RefPat> ok;
    if (r == RefEl::kPoint()) ok = {rp_copy};
    else if (r == RefEl::kSegment()) ok = {rp_copy, rp_split};
    else if (r == RefEl::kTria()) ok = {rp_copy, rp_bisect, rp_trisect, rp_trisect_left, rp_quadsect, rp_regular, rp_barycentric};
    else ok = {rp_copy, rp_bisect, rp_trisect, rp_quadsect, rp_regular, rp_barycentric, rp_threeedge};
    RefPat q = ok[p.a[0] % ok.size()];
    Hybrid2DRefinementPattern pat = r == RefEl::kPoint() ? Hybrid2DRefinementPattern(r, q) : Hybrid2DRefinementPattern(r, q, p.a[1] % r.NumSubEntities(1));
    for (unsigned k = 0; k <= r.Dimension(); ++k) {
      d.u(pat.NumChildren(k));
      for (const auto& g : e->Geometry()->ChildGeometry(pat, k)) dgeo(d, *g, p.a[2]);
    }
  }
  return d.h;
}
uint64_t iterate(const World& w, const Params&) { return mg::digest(*w.mesh); }
uint64_t boundary(const World& w, const Params& p) {
  using namespace lf::mesh::utils;
  Digest d;
  auto all = flagEntitiesOnBoundary(w.mesh);
  auto one = flagEntitiesOnBoundary(w.mesh, 1 + p.a[0] % 2);
  auto num = CountNumSuperEntities(w.mesh, 1 + p.a[1] % 2, 1);
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : w.mesh->Entities(c)) { d.u(all(*e)); if (one.DefinedOn(*e)) d.u(one(*e)); if (num.DefinedOn(*e)) d.u(num(*e)); }
  return d.h;
}
uint64_t print(const World& w, const Params& p) {
  Out o;
  lf::mesh::utils::PrintInfo(o, *w.mesh, p.a[0] % 100);
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : w.mesh->Entities(c)) { o << *e; lf::mesh::utils::PrintInfo(o, *e, p.a[1] % 100); lf::geometry::PrintInfo(o, *e->Geometry(), p.a[2] % 100); }
  Digest d;
  d.s(o.str());
  return d.h;
}
uint64_t dataset(const World& w, const Params& p) {
  using namespace lf::mesh::utils;
  Digest d;
  auto own = make_CodimMeshDataSet<std::vector<int>>(w.mesh, p.a[0] % 3);
  auto flags = make_AllCodimMeshDataSet<bool>(w.mesh, false);
  AllCodimMeshDataSet<double> zero(w.mesh);
  CodimMeshDataSet<int> izero(w.mesh, p.a[0] % 3);
  CodimMeshDataSet<bool> bzero(w.mesh, p.a[0] % 3);
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : w.mesh->Entities(c)) {
    if (own->DefinedOn(*e)) (*own)(*e).push_back(static_cast<int>(w.mesh->Index(*e)));
    (*flags)(*e) = (*w.bd)(*e);
    d.u((*w.ads)(*e)); d.u(w.ads->DefinedOn(*e)); d.u((*w.bd)(*e));
    d.u(w.cds->DefinedOn(*e));
    if (w.cds->DefinedOn(*e)) d.d((*w.cds)(*e));
    if (izero.DefinedOn(*e)) { d.u(izero(*e)); d.u(bzero(*e)); }
    d.d(zero(*e));
  }
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : w.mesh->Entities(c)) { if (own->DefinedOn(*e)) d.u((*own)(*e).size()); d.u((*flags)(*e)); }
  return d.h;
}
uint64_t builders(const World&, const Params& p) {
  using namespace lf::mesh::utils;
  auto set = [&](auto& b) { b.setBottomLeftCorner(-1.0, 0.5); b.setTopRightCorner(1.0 + p.a[1] % 3, p.a[0] % 3 == 2 ? 7.0 : 2.0); b.setNumXCells(1 + p.a[2] % 3 + (p.a[0] % 3 == 2 ? 2 : 0)); b.setNumYCells(1 + p.a[3] % 3 + (p.a[0] % 3 == 2 ? 2 : 0)); return mg::digest(*b.Build()); };
  if (p.a[0] % 3 == 0) { TPTriagMeshBuilder b(factory(2)); return set(b); }
  if (p.a[0] % 3 == 1) { TPQuadMeshBuilder b(factory(2)); return set(b); }
  TorusMeshBuilder b(factory(3));
  return set(b);
}
uint64_t rebuild(const World& w, const Params& p) {
  lf::mesh::hybrid2d::MeshFactory f(w.spec->am.world);
  Digest d;
  std::shared_ptr<lf::mesh::Mesh> first;
  for (unsigned i = 0; i <= p.a[0] % 2; ++i) { mg::feed(f, w.spec->am); auto m = f.Build(); if (!first) first = m; d.u(mg::digest(*m)); }
  d.u(mg::digest(*first));
  return d.h;
}
uint64_t quadrules(const World&, const Params& p) {
  using namespace lf::quad;
  Digest d;
  for (RefEl r : {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) { dqr(d, make_QuadRule(r, p.a[0] % 12)); }
  dqr(d, make_QuadRule(RefEl::kTria(), 1 + p.a[0] % 60));
  for (RefEl r : {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) dqr(d, make_QuadRuleNodal(r));
  dqr(d, make_TriaQR_MidpointRule()); dqr(d, make_TriaQR_EdgeMidpointRule()); dqr(d, make_TriaQR_P7O6()); dqr(d, make_TriaQR_P6O4());
  dqr(d, make_QuadQR_MidpointRule()); dqr(d, make_QuadQR_EdgeMidpointRule()); dqr(d, make_QuadQR_P4O4());
  auto [x, y] = GaussLegendre(1 + p.a[1] % 9);
  d.m(x); d.m(y);
  Out o;
  o << make_QuadRule(RefEl::kTria(), p.a[2] % 5);
  d.s(o.str());
  return d.h;
}
uint64_t jacobi(const World&, const Params& p) {
  auto [x, y] = lf::quad::GaussJacobi(1 + p.a[0] % 4, 1.0, 0.0);
  Digest d;
  d.m(x); d.m(y);
  return d.h;
}
uint64_t qrcache(const World&, const Params& p) {
  Digest d;
  lf::quad::QuadRuleCache c;
  const RefEl r[3] = {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  for (int i = 0; i < 5; ++i) dqr(d, c.Get(r[p.a[i] % 3], p.a[i + 1] % 14));
  return d.h;
}
uint64_t rules(const World& w, const Params&) {
  Digest d;
  for (const auto& q : w.rules) { dqr(d, q); auto c = q; dqr(d, c); Out o; o << q; d.s(o.str()); }
  return d.h;
}
uint64_t mf_ops(const World& w, const Params& p) {
  using namespace lf::mesh::utils;
  Digest d;
  MFG g(Wave{double(p.a[0] % 5), double(p.a[1] % 3)});
  MeshFunctionConstant<double> c(0.5 + p.a[2] % 4);
  MeshFunctionGlobal v([](const Eigen::VectorXd& x) { user(); return Eigen::Vector2d(x(0), x(1) + 1); });
  auto s = g * c + c - g;
  auto n = -s;
  auto q = squaredNorm(v);
  auto t = transpose(v) * v;
  auto z = v * c;
  for (unsigned k = 0; k < 2; ++k) for (const auto* e : w.mesh->Entities(k)) {
    Eigen::MatrixXd x = points(e->RefEl(), p.a[3]);
    dvals(d, s(*e, x)); dvals(d, n(*e, x)); dvals(d, q(*e, x)); dvals(d, t(*e, x)); dvals(d, z(*e, x)); dvals(d, adjoint(v)(*e, x));
  }
  return d.h;
}
const Reg reg{
    {"refel", refel, 0, 0}, {"geometry", geom, kMesh, 0}, {"subgeometry", subgeom, kMesh, 0}, {"childgeometry", childgeom, kMesh, 0},
    {"iterate", iterate, kMesh, 0}, {"boundary", boundary, kMesh, 0}, {"print", print, kMesh, 0}, {"dataset", dataset, kMesh | kData, 0},
    {"builders", builders, 0, kUser}, {"rebuild", rebuild, kMesh, 0}, {"quadrules", quadrules, 0, 0}, {"gaussjacobi", jacobi, 0, kHeavy}, {"quadcache", qrcache, 0, 0},
    {"rules", rules, kData, 0}, {"meshfunctions", mf_ops, kMesh, kUser}};
}  // namespace
}  // namespace tour
