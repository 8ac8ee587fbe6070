// assemble, uscalfe
#include "tour.h"
namespace tour {
namespace {
using lf::base::RefEl;
using hs::Digest;
using lf::assemble::COOMatrix;
using lf::assemble::DofHandler;
namespace us = lf::uscalfe;
void ddofh(Digest& d, const DofHandler& h, const lf::mesh::Mesh& m) {
  d.u(h.NumDofs());
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : m.Entities(c)) {
    d.u(h.NumLocalDofs(*e)); d.u(h.NumInteriorDofs(*e));
    for (auto g : h.GlobalDofIndices(*e)) d.u(g);
    for (auto g : h.InteriorGlobalDofIndices(*e)) d.u(g);
  }
  for (unsigned i = 0; i < h.NumDofs(); ++i) { const auto& e = h.Entity(i); d.u(e.RefEl().Id()); d.u(m.Index(e)); }
}
uint64_t dofh_read(const World& w, const Params&) {
  Digest d;
  ddofh(d, w.fes->LocGlobMap(), *w.mesh);
  ddofh(d, w.ufes->LocGlobMap(), *w.mesh);
  Out o;
  o << w.fes->LocGlobMap();
  d.s(o.str());
  return d.h;
}
uint64_t dofh_own(const World& w, const Params& p) {
  Digest d;
  lf::assemble::UniformFEDofHandler::dof_map_t m{{RefEl::kPoint(), p.a[0] % 3}, {RefEl::kSegment(), p.a[1] % 3}, {RefEl::kTria(), p.a[2] % 2}, {RefEl::kQuad(), p.a[3] % 3}};
  lf::assemble::UniformFEDofHandler u(w.mesh, m, p.a[5] % 2 == 0);
  ddofh(d, u, *w.mesh);
  lf::assemble::DynamicFEDofHandler y(w.mesh, [&](const lf::mesh::Entity& e) -> unsigned { user(&e); return (w.mesh->Index(e) + p.a[4]) % 3; });
  ddofh(d, y, *w.mesh);
  Out o;
  lf::assemble::PrintInfo(o, u, p.a[5] % 40);
  lf::assemble::PrintInfo(o, y, p.a[6] % 40);
  d.s(o.str());
  return d.h;
}
struct MatP {
  const DofHandler& r; const DofHandler& c; uint32_t salt;
  bool isActive(const lf::mesh::Entity& e) { user(&e); return (salt + r.Mesh()->Index(e)) % 3 != 0; }
  Eigen::MatrixXd Eval(const lf::mesh::Entity& e) {
    user(&e);
    Eigen::MatrixXd m(r.NumLocalDofs(e), c.NumLocalDofs(e));
    for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) m(i, j) = double((i * 7 + j * 3 + salt) % 11) + r.Mesh()->Index(e);
    return m;
  }
};
struct VecP {
  const DofHandler& r; uint32_t salt;
  bool isActive(const lf::mesh::Entity& e) { user(&e); return (salt + r.Mesh()->Index(e)) % 4 != 0; }
  Eigen::VectorXd Eval(const lf::mesh::Entity& e) { user(&e); Eigen::VectorXd v(r.NumLocalDofs(e)); for (long i = 0; i < v.size(); ++i) v(i) = double((i + salt) % 5) + 1; return v; }
};
uint64_t assemble(const World& w, const Params& p) {
  const auto& r = w.fes->LocGlobMap();
  const auto& c = w.ufes->LocGlobMap();
  unsigned co = p.a[0] % 3;
  MatP mp{r, c, p.a[1]};
  Digest d;
  auto A = lf::assemble::AssembleMatrixLocally<COOMatrix<double>>(co, c, r, mp);
  lf::assemble::AssembleMatrixLocally((co + 1) % 3, c, r, mp, A);
  A.setZero([&](lf::assemble::gdof_idx_t i, lf::assemble::gdof_idx_t j) { user(); return (i * 3 + j) % 7 == 0; });
  dmat(d, A.makeSparse());
  Eigen::VectorXd x = Eigen::VectorXd::LinSpaced(A.cols(), 0, 1), y = Eigen::VectorXd::Zero(A.rows());
  d.m(A.MatVecMult(2.0, x));
  A.MatVecMult(0.5, x, y);
  d.m(y);
  d.m(A.makeDense());
  VecP vp{r, p.a[2]};
  auto v = lf::assemble::AssembleVectorLocally<Eigen::VectorXd>(co, r, vp);
  lf::assemble::AssembleVectorLocally((co + 2) % 3, r, vp, v);
  d.m(v);
  Out o;
  A.PrintInfo(o);
  o << A;
  d.s(o.str());
  return d.h;
}
uint64_t fixdofs(const World& w, const Params& p) {
  const auto& r = w.ufes->LocGlobMap();
  MatP mp{r, r, p.a[1]};
  VecP vp{r, p.a[2]};
  auto A = lf::assemble::AssembleMatrixLocally<COOMatrix<double>>(0, r, mp);
  auto b = lf::assemble::AssembleVectorLocally<Eigen::VectorXd>(0, r, vp);
  auto sel = [&](lf::assemble::gdof_idx_t i) { user(); return std::pair<bool, double>((i + p.a[3]) % 3 == 0, i * 0.5); };
  if (p.a[0] % 2) lf::assemble::FixFlaggedSolutionComponents<double>(sel, A, b);
  else lf::assemble::FixFlaggedSolutionCompAlt<double>(sel, A, b);
  Digest d;
  dmat(d, A.makeSparse()); d.m(b);
  return d.h;
}
struct Sel { uint32_t salt; const lf::mesh::Mesh* m; bool operator()(const lf::mesh::Entity& e) const { user(&e); return (m->Index(e) + salt) % 3 != 1; } };
template <class P> uint64_t asm_mat(unsigned co, const DofHandler& h, P& prov) { auto A = lf::assemble::AssembleMatrixLocally<COOMatrix<double>>(co, h, prov); Digest d; dmat(d, A.makeSparse()); return d.h; }
template <class P> uint64_t asm_vec(unsigned co, const DofHandler& h, P& prov) { Digest d; d.m(lf::assemble::AssembleVectorLocally<Eigen::VectorXd>(co, h, prov)); return d.h; }
us::quad_rule_collection_t custom(const Params& p) { return {{RefEl::kTria(), lf::quad::make_QuadRule(RefEl::kTria(), 2 + p.a[5] % 4)}, {RefEl::kQuad(), lf::quad::make_QuadRule(RefEl::kQuad(), 2 + p.a[6] % 4)}}; }
uint64_t u_react(const World& w, const Params& p) {
  MFG a(Wave{1, 0.5});
  lf::mesh::utils::MeshFunctionConstant<double> g(0.5 + p.a[0] % 3);
  if (p.a[1] % 2) { us::ReactionDiffusionElementMatrixProvider q(w.ufes, a, g); return asm_mat(0, w.ufes->LocGlobMap(), q); }
  us::ReactionDiffusionElementMatrixProvider q(w.ufes, a, g, custom(p));
  return asm_mat(0, w.ufes->LocGlobMap(), q);
}
uint64_t u_massedge(const World& w, const Params& p) {
  MFG a(Wave{double(p.a[0] % 3), 1});
  Sel s{p.a[1], w.mesh.get()};
  if (p.a[2] % 2) { us::MassEdgeMatrixProvider q(w.ufes, a, s); return asm_mat(1, w.ufes->LocGlobMap(), q); }
  us::MassEdgeMatrixProvider q(w.ufes, a, lf::quad::make_QuadRule(RefEl::kSegment(), p.a[3] % 6), s);
  return asm_mat(1, w.ufes->LocGlobMap(), q);
}
uint64_t u_load(const World& w, const Params& p) {
  MFG a(Wave{double(p.a[0] % 3), 1});
  if (p.a[2] % 2) { us::ScalarLoadElementVectorProvider q(w.ufes, a); return asm_vec(0, w.ufes->LocGlobMap(), q); }
  us::ScalarLoadElementVectorProvider<double, MFG> q(w.ufes, a, custom(p));
  return asm_vec(0, w.ufes->LocGlobMap(), q);
}
uint64_t u_loadedge(const World& w, const Params& p) {
  MFG a(Wave{double(p.a[0] % 3), 1});
  us::ScalarLoadEdgeVectorProvider q(w.ufes, a, Sel{p.a[1], w.mesh.get()});
  return asm_vec(1, w.ufes->LocGlobMap(), q);
}
uint64_t u_lin(const World& w, const Params& p) {
  Digest d;
  us::LinearFELaplaceElementMatrix L;
  MFG a(Wave{double(p.a[0] % 3), 1});
  us::LinearFELocalLoadVector<double, MFG> v(a);
  for (const auto* e : w.mesh->Entities(0)) { d.m(L.Eval(*e)); d.m(v.Eval(*e)); }
  return d.h;
}
uint64_t u_space(const World& w, const Params& p) {
  Digest d;
  auto f = make_ufes(w.mesh, p.a[0] % 3);
  ddofh(d, f->LocGlobMap(), *w.mesh);
  for (RefEl r : {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) {
    auto* s = f->ShapeFunctionLayout(r);
    auto* t = w.ufes->ShapeFunctionLayout(r);
    for (auto* l : {s, t}) if (l) { d.u(l->NumRefShapeFunctions()); d.m(l->EvaluationNodes()); d.m(l->EvalReferenceShapeFunctions(points(r, p.a[1]))); if (r.Dimension()) d.m(l->GradientsReferenceShapeFunctions(points(r, p.a[1]))); }
    d.u(w.ufes->NumRefShapeFunctions(r));
  }
  return d.h;
}
const Reg reg{{"dofh-read", dofh_read, kFes, 0}, {"dofh-own", dofh_own, kMesh, kUser}, {"assemble", assemble, kFes, kUser}, {"fixdofs", fixdofs, kFes, kUser},
              {"u-reactiondiffusion", u_react, kFes | kPlanar, kUser}, {"u-massedge", u_massedge, kFes, kUser}, {"u-load", u_load, kFes | kPlanar, kUser},
              {"u-loadedge", u_loadedge, kFes, kUser}, {"u-linear", u_lin, kMesh | kPlanar, kUser}, {"u-space", u_space, kFes, 0}};
}  // namespace
}  // namespace tour
