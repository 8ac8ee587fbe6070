#include "tour.h"

namespace tour {
void (*user_hook)(const lf::mesh::Entity* e) = nullptr;
using lf::base::RefEl;
Params draw_params() { Params p; for (auto& x : p.a) x = sim::pick(1u << 16); return p; }

Spec draw_spec(bool allow3d, bool allow_curved) {
  Spec s;
  mg::Opt o;
  o.max_n = 2;
  o.allow_curved = allow_curved;
  o.allow_world3 = allow3d;
  s.am = mg::gen(o);
  s.kind = sim::pick(5);
  s.ukind = sim::pick(3);
  s.degree = 1 + sim::pick(4);
  s.levels = 1 + sim::pick(3);
  for (unsigned i = 1; i < s.levels; ++i) s.pattern.push_back(sim::pick(6));
  for (int i = 0; i < 8; ++i) s.coeff.push_back(static_cast<int>(sim::pick(17)) - 8);
  return s;
}
Eigen::MatrixXd points(const RefEl& r, uint32_t salt) {
  unsigned n = 1 + salt % 3, d = r.Dimension();
  if (d == 0) n = 1;
  Eigen::MatrixXd p(d, n);
  for (unsigned j = 0; j < n; ++j)
    for (unsigned i = 0; i < d; ++i) p(i, j) = (1 + (salt >> (3 * i + j)) % 7) / 16.0;
  return p;
}
std::shared_ptr<const UFes> make_ufes(const std::shared_ptr<const lf::mesh::Mesh>& m, unsigned kind) {
  if (kind == 0) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
  if (kind == 1) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<double>>(m);
  return std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<double>>(m);
}
std::shared_ptr<const Fes> make_fes(const std::shared_ptr<const lf::mesh::Mesh>& m, unsigned kind, unsigned degree, bool quiet) {
  if (kind < 3) return make_ufes(m, kind);
  if (kind == 3) return std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, degree);
  return std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, [degree, quiet, mp = m.get()](const lf::mesh::Entity& e) -> unsigned {
    if (!quiet) user(&e);
    return 1 + (mp->Index(e) * 7 + degree + e.Codim()) % 4;
  });
}
void refine(lf::refinement::MeshHierarchy& h, unsigned how, uint32_t salt) {
  if (how < 2) { h.RefineRegular(how == 0 ? lf::refinement::RefPat::rp_regular : lf::refinement::RefPat::rp_barycentric); return; }
  h.MarkEdges([&](const lf::mesh::Mesh& m, const lf::mesh::Entity& e) { user(&e); return sim::mix64(m.Index(e) * 31 + salt) % 5 < how - 1; });
  h.RefineMarked();
}
std::shared_ptr<World> make_world(const Spec& s, unsigned needs) {
  auto w = std::make_shared<World>();
  w->spec = &s;
  w->mesh = mg::build(s.am);
  if (needs & kHier) {
    w->hier = std::make_shared<lf::refinement::MeshHierarchy>(w->mesh, factory(s.am.world));
    for (size_t i = 0; i < s.pattern.size(); ++i) refine(*w->hier, s.pattern[i], static_cast<uint32_t>(17 * i + 3));
  }
  auto fill = [&](Eigen::VectorXd& v, const Fes& f) { v.resize(f.LocGlobMap().NumDofs()); for (long i = 0; i < v.size(); ++i) v(i) = (s.coeff[i % s.coeff.size()] + (i % 5)) / 4.0; };
  if (needs & kFes) {
    w->fes = make_fes(w->mesh, s.kind, s.degree);
    w->ufes = make_ufes(w->mesh, s.ukind);
    fill(w->coeff, *w->fes);
    fill(w->ucoeff, *w->ufes);
    w->mf = std::make_shared<lf::fe::MeshFunctionFE<double, double>>(w->fes, w->coeff);
    w->gmf = std::make_shared<lf::fe::MeshFunctionGradFE<double, double>>(w->fes, w->coeff);
    if ((needs & kHier) && w->hier->NumLevels() > 1) w->fine = make_fes(w->hier->getMesh(1), s.kind, s.degree);
  }
  if (needs & kData) {
    w->cds = lf::mesh::utils::make_CodimMeshDataSet<double>(w->mesh, s.degree % 3, 0.25);
    for (const auto* e : w->mesh->Entities(s.degree % 3)) (*w->cds)(*e) = 0.5 * w->mesh->Index(*e) + 1;
    w->ads = std::make_shared<lf::mesh::utils::AllCodimMeshDataSet<int>>(w->mesh, -1);
    for (unsigned c = 0; c < 3; ++c) for (const auto* e : w->mesh->Entities(c)) (*w->ads)(*e) = static_cast<int>(100 * c + w->mesh->Index(*e));
    w->bd = std::make_shared<lf::mesh::utils::AllCodimMeshDataSet<bool>>(lf::mesh::utils::flagEntitiesOnBoundary(w->mesh));
    w->rules.push_back(lf::quad::make_QuadRule(RefEl::kSegment(), s.degree));
    w->rules.push_back(lf::quad::make_QuadRule(RefEl::kTria(), s.degree + 2));
    w->rules.push_back(lf::quad::make_QuadRule(RefEl::kQuad(), s.degree + 1));
  }
  return w;
}
uint64_t world_digest(const World& w) {
  hs::Digest d;
  d.u(mg::digest(*w.mesh));
  if (w.hier) for (unsigned l = 0; l < w.hier->NumLevels(); ++l) {
    d.u(mg::digest(*w.hier->getMesh(l)));
    for (const auto& p : w.hier->PointChildInfos(l)) d.u(p.child_point_idx);
    for (const auto& c : w.hier->CellChildInfos(l)) { d.u(c.ref_pat_); d.u(c.anchor_); for (auto k : c.child_cell_idx) d.u(k); }
    for (auto e : w.hier->RefinementEdges(l)) d.u(e);
  }
  auto fes = [&](const Fes& f) {
    d.u(f.LocGlobMap().NumDofs());
    for (unsigned c = 0; c < 3; ++c) for (const auto* e : w.mesh->Entities(c)) {
      for (auto g : f.LocGlobMap().GlobalDofIndices(*e)) d.u(g);
      d.m(f.ShapeFunctionLayout(*e)->EvalReferenceShapeFunctions(points(e->RefEl(), 5)));
    }
  };
  if (w.fes) { fes(*w.fes); fes(*w.ufes); d.m(w.coeff); }
  if (w.mf) for (const auto* e : w.mesh->Entities(0)) { Eigen::MatrixXd p = points(e->RefEl(), 9); dvals(d, (*w.mf)(*e, p)); dvals(d, (*w.gmf)(*e, p)); }
  if (w.ads) for (unsigned c = 0; c < 3; ++c) for (const auto* e : w.mesh->Entities(c)) { d.u((*w.ads)(*e)); d.u((*w.bd)(*e)); if (w.cds->DefinedOn(*e)) d.d((*w.cds)(*e)); }
  for (const auto& q : w.rules) dqr(d, q);
  return d.h;
}
static std::vector<Step>& table() { static std::vector<Step> t; return t; }
Reg::Reg(std::initializer_list<Step> s) { for (auto& x : s) table().push_back(x); }
const std::vector<Step>& steps() {
  static bool sorted = false;
  if (!sorted) { sorted = true; std::sort(table().begin(), table().end(), [](const Step& a, const Step& b) { return strcmp(a.name, b.name) < 0; }); }
  return table();
}
}  // namespace tour
