// A tour through the library: named operations ("steps") on a shared, read-only
// world of objects and on objects of their own, each returning a digest of
// everything it computed.  Used by the checks on threads, memory layout, memory
// exhaustion and throwing callbacks.
#pragma once
#include <lf/assemble/assemble.h>
#include <lf/fe/fe.h>
#include <lf/mesh/utils/utils.h>
#include <lf/quad/quad.h>
#include <lf/refinement/refinement.h>
#include <lf/uscalfe/uscalfe.h>

#include "meshgen.h"

namespace tour {
struct Params { uint32_t a[8]; };
Params draw_params();

// called by every user-supplied function of a step
extern void (*user_hook)(const lf::mesh::Entity* e);
inline void user(const lf::mesh::Entity* e = nullptr) { if (user_hook) user_hook(e); }

enum Needs : unsigned { kMesh = 1, kFes = 2, kHier = 4, kData = 8, kPlanar = 16 };
enum Flags : unsigned { kUser = 1, kDisk = 2, kNoOom = 4, kHeavy = 8 };

struct Spec {            // what the world consists of; drawn once, can be built repeatedly
  mg::AMesh am;
  unsigned kind = 0;     // finite element space: O1 O2 O3, hierarchic uniform, hierarchic variable
  unsigned ukind = 0;
  unsigned degree = 1;
  unsigned levels = 1;
  std::vector<unsigned> pattern;  // refinement steps of the hierarchy: 0 regular, 1 barycentric, 2.. marked
  std::vector<int> coeff;
};
Spec draw_spec(bool allow3d, bool allow_curved);

struct Wave {            // a user-supplied scalar function of position
  double p, q;
  double operator()(const Eigen::VectorXd& x) const { user(); return p * x(0) + q * x(1) * x(1) + 0.5; }
};
using MFG = lf::mesh::utils::MeshFunctionGlobal<Wave>;
using Fes = lf::fe::ScalarFESpace<double>;
using UFes = lf::uscalfe::UniformScalarFESpace<double>;

struct World {
  const Spec* spec = nullptr;
  std::shared_ptr<lf::mesh::Mesh> mesh;
  std::shared_ptr<lf::refinement::MeshHierarchy> hier;
  std::shared_ptr<const Fes> fes;
  std::shared_ptr<const UFes> ufes;
  std::shared_ptr<const Fes> fine;  // on level 1 of the hierarchy, if that has two levels
  Eigen::VectorXd coeff, ucoeff;
  std::shared_ptr<lf::fe::MeshFunctionFE<double, double>> mf;
  std::shared_ptr<lf::fe::MeshFunctionGradFE<double, double>> gmf;
  std::shared_ptr<lf::mesh::utils::CodimMeshDataSet<double>> cds;
  std::shared_ptr<lf::mesh::utils::AllCodimMeshDataSet<int>> ads;
  std::shared_ptr<lf::mesh::utils::AllCodimMeshDataSet<bool>> bd;
  std::vector<lf::quad::QuadRule> rules;
};
std::shared_ptr<World> make_world(const Spec& s, unsigned needs);
uint64_t world_digest(const World& w);   // what the shared objects answer

std::shared_ptr<const UFes> make_ufes(const std::shared_ptr<const lf::mesh::Mesh>& m, unsigned kind);
std::shared_ptr<const Fes> make_fes(const std::shared_ptr<const lf::mesh::Mesh>& m, unsigned kind, unsigned degree, bool quiet = false);
void refine(lf::refinement::MeshHierarchy& h, unsigned how, uint32_t salt);

struct Step { const char* name; uint64_t (*fn)(const World&, const Params&); unsigned needs, flags; const char* reports = ""; };
const std::vector<Step>& steps();        // all steps linked in
struct Reg { Reg(std::initializer_list<Step> s); };

// helpers
struct Out : std::ostringstream { Out() { exceptions(std::ios::badbit); } };  // hands exceptions on instead of swallowing them
Eigen::MatrixXd points(const lf::base::RefEl& r, uint32_t salt);
// a mesh factory supplied by the user
class Factory : public lf::mesh::MeshFactory {
 public:
  explicit Factory(unsigned world) : f_(world) {}
  [[nodiscard]] lf::base::dim_t DimWorld() const override { return f_.DimWorld(); }
  [[nodiscard]] lf::base::dim_t DimMesh() const override { return f_.DimMesh(); }
  size_type AddPoint(coord_t c) override { user(); return f_.AddPoint(std::move(c)); }
  size_type AddPoint(std::unique_ptr<lf::geometry::Geometry>&& g) override { user(); return f_.AddPoint(std::move(g)); }
  size_type AddEntity(lf::base::RefEl r, const std::span<const size_type>& n, std::unique_ptr<lf::geometry::Geometry>&& g) override { user(); return f_.AddEntity(r, n, std::move(g)); }
  [[nodiscard]] std::shared_ptr<lf::mesh::Mesh> Build() override { user(); return f_.Build(); }
 private:
  lf::mesh::hybrid2d::MeshFactory f_;
};
inline std::unique_ptr<lf::mesh::MeshFactory> factory(unsigned world) { return std::make_unique<Factory>(world); }
template <class M> void dm(hs::Digest& d, const M& x) { d.m(x); }
inline void dgeo(hs::Digest& d, const lf::geometry::Geometry& g, uint32_t salt) {
  Eigen::MatrixXd p = points(g.RefEl(), salt);
  d.u(g.RefEl().Id()); d.u(g.DimLocal()); d.u(g.DimGlobal()); d.u(g.isAffine());
  d.m(g.Global(p));
  if (g.DimLocal() > 0) { d.m(g.Jacobian(p)); d.m(g.JacobianInverseGramian(p)); d.m(g.IntegrationElement(p)); }
}
inline void dqr(hs::Digest& d, const lf::quad::QuadRule& q) { d.u(q.RefEl().Id()); d.u(q.Degree()); d.u(q.NumPoints()); d.m(q.Points()); d.m(q.Weights()); }
inline void dmat(hs::Digest& d, const Eigen::SparseMatrix<double>& a) {
  d.u(a.rows()); d.u(a.cols()); d.u(a.nonZeros());
  for (int k = 0; k < a.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(a, k); it; ++it) { d.u(it.row()); d.u(it.col()); d.d(it.value()); }
}
template <class T> void dvals(hs::Digest& d, const std::vector<T>& v) { d.u(v.size()); for (const auto& x : v) { if constexpr (std::is_arithmetic_v<T>) d.d(double(x)); else d.m(x); } }
}  // namespace tour
