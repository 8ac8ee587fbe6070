// fe
#include "tour.h"
namespace tour {
namespace {
using lf::base::RefEl;
using hs::Digest;
using lf::assemble::COOMatrix;
namespace fe = lf::fe;
struct Sel { uint32_t salt; const lf::mesh::Mesh* m; bool operator()(const lf::mesh::Entity& e) const { user(&e); return (m->Index(e) + salt) % 3 != 1; } };
template <class P> uint64_t asm_mat(unsigned co, const World& w, P& prov) { auto A = lf::assemble::AssembleMatrixLocally<COOMatrix<double>>(co, w.fes->LocGlobMap(), prov); Digest d; dmat(d, A.makeSparse()); return d.h; }
template <class P> uint64_t asm_vec(unsigned co, const World& w, P& prov) { Digest d; d.m(lf::assemble::AssembleVectorLocally<Eigen::VectorXd>(co, w.fes->LocGlobMap(), prov)); return d.h; }
void dlayout(Digest& d, const fe::ScalarReferenceFiniteElement<double>& s, uint32_t salt) {
  RefEl r = s.RefEl();
  Eigen::MatrixXd x = points(r, salt);
  d.u(s.Degree()); d.u(s.NumRefShapeFunctions()); d.u(s.NumEvaluationNodes());
  for (unsigned c = 0; c <= r.Dimension(); ++c) for (unsigned i = 0; i < r.NumSubEntities(c); ++i) d.u(s.NumRefShapeFunctions(c, i));
  d.m(s.EvalReferenceShapeFunctions(x));
  if (r.Dimension()) d.m(s.GradientsReferenceShapeFunctions(x));
  Eigen::MatrixXd n = s.EvaluationNodes();
  d.m(n);
  Eigen::RowVectorXd v(n.cols());
  for (long i = 0; i < v.size(); ++i) v(i) = double((i * 5 + salt) % 7);
  d.m(s.NodalValuesToDofs(v));
  Out o;
  fe::PrintInfo(o, s, salt % 2);
  d.s(o.str());
}
uint64_t layout(const World& w, const Params& p) {
  Digest d;
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : w.mesh->Entities(c)) { d.u(w.fes->NumRefShapeFunctions(*e)); dlayout(d, *w.fes->ShapeFunctionLayout(*e), p.a[0]); }
  return d.h;
}
uint64_t fes_own(const World& w, const Params& p) {
  Digest d;
  auto f = make_fes(w.mesh, 3 + p.a[0] % 2, 1 + p.a[1] % 4);
  d.u(f->LocGlobMap().NumDofs());
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : w.mesh->Entities(c)) { dlayout(d, *f->ShapeFunctionLayout(*e), p.a[2]); for (auto g : f->LocGlobMap().GlobalDofIndices(*e)) d.u(g); }
  return d.h;
}
uint64_t diffusion(const World& w, const Params& p) { fe::DiffusionElementMatrixProvider q(w.fes, MFG(Wave{1.0 + p.a[0] % 3, 0.5})); return asm_mat(0, w, q); }
uint64_t mass(const World& w, const Params& p) { fe::MassElementMatrixProvider q(w.fes, MFG(Wave{1.0 + p.a[0] % 3, 0.5})); return asm_mat(0, w, q); }
uint64_t massedge(const World& w, const Params& p) { fe::MassEdgeMatrixProvider q(w.fes, MFG(Wave{1.0 + p.a[0] % 3, 0.5}), Sel{p.a[1], w.mesh.get()}); return asm_mat(1, w, q); }
uint64_t load(const World& w, const Params& p) { fe::ScalarLoadElementVectorProvider q(w.fes, MFG(Wave{1.0 + p.a[0] % 3, 0.5})); return asm_vec(0, w, q); }
uint64_t loadedge(const World& w, const Params& p) { fe::ScalarLoadEdgeVectorProvider q(w.fes, MFG(Wave{1.0 + p.a[0] % 3, 0.5}), Sel{p.a[1], w.mesh.get()}); return asm_vec(1, w, q); }
uint64_t integrate(const World& w, const Params& p) {
  Digest d;
  MFG g(Wave{1.0 + p.a[0] % 3, 0.5});
  d.d(fe::IntegrateMeshFunction(*w.mesh, g, static_cast<int>(p.a[1] % 7)));
  d.d(fe::IntegrateMeshFunction(*w.mesh, *w.mf * g, static_cast<int>(p.a[1] % 7), Sel{p.a[2], w.mesh.get()}));
  d.d(fe::IntegrateMeshFunction(*w.mesh, g, 3, Sel{p.a[3], w.mesh.get()}, 1));
  d.m(fe::IntegrateMeshFunction(*w.mesh, *w.gmf, [&](const lf::mesh::Entity& e) { user(&e); return lf::quad::make_QuadRule(e.RefEl(), 4); }));
  return d.h;
}
uint64_t project(const World& w, const Params& p) {
  Digest d;
  MFG g(Wave{1.0 + p.a[0] % 3, 0.5});
  d.m(fe::NodalProjection(*w.fes, g));
  d.m(fe::NodalProjection(*w.ufes, *w.mf + g, Sel{p.a[1], w.mesh.get()}));
  return d.h;
}
uint64_t essential(const World& w, const Params& p) {
  Digest d;
  MFG g(Wave{1.0 + p.a[0] % 3, 0.5});
  for (const auto& x : fe::InitEssentialConditionFromFunction(*w.fes, Sel{p.a[1], w.mesh.get()}, g)) { d.u(x.first); d.d(x.second); }
  return d.h;
}
uint64_t evaluate(const World& w, const Params& p) {
  Digest d;
  auto s = *w.mf * *w.mf - lf::mesh::utils::MeshFunctionConstant<double>(0.25);
  auto t = lf::mesh::utils::transpose(*w.gmf) * *w.gmf;
  for (const auto* e : w.mesh->Entities(0)) {
    Eigen::MatrixXd x = points(e->RefEl(), p.a[0]);
    dvals(d, (*w.mf)(*e, x)); dvals(d, (*w.gmf)(*e, x)); dvals(d, s(*e, x)); dvals(d, t(*e, x));
  }
  for (const auto* e : w.mesh->Entities(1)) dvals(d, (*w.mf)(*e, points(e->RefEl(), p.a[1])));
  for (const auto* e : w.mesh->Entities(2)) dvals(d, (*w.mf)(*e, points(e->RefEl(), p.a[1])));
  return d.h;
}
uint64_t prolong(const World& w, const Params&) {
  Digest d;
  if (w.fine) d.m(fe::prolongate(*w.hier, w.fes, w.fine, w.coeff, 0));
  return d.h;
}
uint64_t polynomials(const World&, const Params& p) {
  Digest d;
  unsigned n = p.a[0] % 8;
  double x = (p.a[1] % 17) / 16.0, t = 0.5 + (p.a[2] % 9) / 16.0;
  d.d(fe::Legendre(n, x, t)); d.d(fe::ILegendre(n + 1, x, t)); d.d(fe::ILegendreDx(n + 1, x, t)); d.d(fe::ILegendreDt(n + 1, x, t)); d.d(fe::LegendreDx(n, x, t));
  d.d(fe::Jacobi(n, 1 + p.a[3] % 3, 0, x)); d.d(fe::Jacobi(n, 1 + p.a[3] % 3, x)); d.d(fe::IJacobi(n + 1, 1 + p.a[3] % 3, x)); d.d(fe::IJacobiDx(n + 1, 1 + p.a[3] % 3, x)); d.d(fe::JacobiDx(n, 1 + p.a[3] % 3, x));
  return d.h;
}
const Reg reg{{"layout", layout, kFes, 0}, {"fespace-own", fes_own, kMesh, kUser}, {"diffusion", diffusion, kFes, kUser}, {"mass", mass, kFes, kUser}, {"massedge", massedge, kFes, kUser},
              {"load", load, kFes, kUser}, {"loadedge", loadedge, kFes, kUser}, {"integrate", integrate, kFes, kUser}, {"project", project, kFes, kUser}, {"essential", essential, kFes, kUser},
              {"evaluate", evaluate, kFes, 0}, {"prolongate", prolong, kFes | kHier, 0}, {"polynomials", polynomials, 0, 0}};
}  // namespace
}  // namespace tour
