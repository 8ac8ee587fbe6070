// P11: random histories of creating, copying, moving, assigning and releasing
// objects that share ownership; every live object must keep its answers.
#include <lf/io/io.h>
#include "tour.h"
using namespace sim;
namespace {
using lf::base::RefEl;
using lf::mesh::Mesh;
using MeshP = std::shared_ptr<const Mesh>;
using FesP = std::shared_ptr<const tour::Fes>;
using UFesP = std::shared_ptr<const tour::UFes>;
using HierP = std::shared_ptr<lf::refinement::MeshHierarchy>;
using hs::Digest;
using tour::dvals;
using tour::points;

struct Obj {
  const char* kind = "";
  uint64_t want = 0;
  virtual ~Obj() = default;
  virtual uint64_t query() = 0;
  virtual std::unique_ptr<Obj> copy() { return nullptr; }
  virtual std::unique_ptr<Obj> move() { return nullptr; }
  virtual bool assign(Obj&, bool) { return false; }
};
template <class T> struct Holds : Obj { T v; template <class... A> explicit Holds(A&&... a) : v(std::forward<A>(a)...) {} };
template <class T, class Q> struct Val : Holds<T> {
  Q q;
  template <class... A> explicit Val(Q qq, A&&... a) : Holds<T>(std::forward<A>(a)...), q(qq) {}
  uint64_t query() override { return q(this->v); }
  std::unique_ptr<Obj> copy() override {
    if constexpr (std::is_copy_constructible_v<T>) { auto o = std::make_unique<Val>(q, static_cast<const T&>(this->v)); o->kind = this->kind; o->want = this->want; return o; }
    return nullptr;
  }
  std::unique_ptr<Obj> move() override {
    if constexpr (std::is_move_constructible_v<T>) { auto o = std::make_unique<Val>(q, std::move(this->v)); o->kind = this->kind; o->want = this->want; return o; }
    return nullptr;
  }
  // *this = o  (by move or copy)
  bool assign(Obj& o, bool by_move) override {
    auto* p = dynamic_cast<Val*>(&o);
    if (!p || p == this) return false;
    if (by_move) { if constexpr (std::is_move_assignable_v<T>) { this->v = std::move(p->v); this->want = p->want; return true; } }
    else if constexpr (std::is_copy_assignable_v<T>) { this->v = p->v; this->want = p->want; return true; }
    return false;
  }
};
using Pool = std::vector<std::unique_ptr<Obj>>;
template <class T, class Q, class... A> void put(Pool& pool, const char* kind, Q q, A&&... a) {
  auto o = std::make_unique<Val<T, Q>>(q, std::forward<A>(a)...);
  o->kind = kind;
  o->want = o->query();
  pool.push_back(std::move(o));
}
// a live object holding a T, chosen by r
template <class T> const T* some(Pool& pool, uint32_t r) {
  std::vector<const T*> c;
  for (auto& o : pool) if (auto* h = dynamic_cast<Holds<T>*>(o.get())) c.push_back(&h->v);
  return c.empty() ? nullptr : c[r % c.size()];
}
uint64_t q_mesh(const MeshP& m) { return mg::digest(*m); }
void d_dofh(Digest& d, const lf::assemble::DofHandler& h) {
  d.u(h.NumDofs());
  const auto m = h.Mesh();
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : m->Entities(c)) for (auto g : h.GlobalDofIndices(*e)) d.u(g);
  for (unsigned i = 0; i < h.NumDofs(); ++i) d.u(m->Index(h.Entity(i)));
}
template <class F> uint64_t q_fes(const F& f) {
  Digest d;
  auto m = f.Mesh();
  d_dofh(d, f.LocGlobMap());
  for (unsigned c = 0; c < 3; ++c) for (const auto* e : m->Entities(c)) {
    const auto* l = f.ShapeFunctionLayout(*e);
    auto x = points(e->RefEl(), 77);
    d.u(l->NumRefShapeFunctions());
    d.m(l->EvalReferenceShapeFunctions(x));
    if (c < 2) d.m(l->GradientsReferenceShapeFunctions(x));
    Eigen::RowVectorXd n = Eigen::RowVectorXd::LinSpaced(l->NumEvaluationNodes(), 0, 1);
    d.m(l->NodalValuesToDofs(n));
  }
  return d.h;
}
template <class F> uint64_t q_mf_on(const F& f, const Mesh& m) { Digest d; for (const auto* e : m.Entities(0)) dvals(d, f(*e, points(e->RefEl(), 41))); return d.h; }
uint64_t q_hier(const HierP& h) {
  Digest d;
  for (unsigned l = 0; l < h->NumLevels(); ++l) {
    auto m = h->getMesh(l);
    d.u(mg::digest(*m));
    if (l) for (unsigned c = 0; c < 3; ++c) for (const auto* e : m->Entities(c)) { d.u(h->getMesh(l - 1)->Index(*h->ParentEntity(l, *e))); tour::dgeo(d, *h->GeometryInParent(l, *e), 5); }
  }
  return d.h;
}
template <class P> uint64_t q_prov(P& p, const Mesh& m, unsigned co) { Digest d; for (const auto* e : m.Entities(co)) { d.u(p.isActive(*e)); d.m(p.Eval(*e)); } return d.h; }
// an element provider together with a mesh to ask it about
template <class P> struct Prov { P p; MeshP m; };
struct Lin { double a, b; double operator()(const Eigen::VectorXd& x) const { return a + b * x(0); } };
using G = lf::mesh::utils::MeshFunctionGlobal<Lin>;
using C = lf::mesh::utils::MeshFunctionConstant<double>;
using MF = lf::fe::MeshFunctionFE<double, double>;
using GF = lf::fe::MeshFunctionGradFE<double, double>;

struct Op { uint32_t k, r[5]; };

Eigen::VectorXd coeffs(const tour::Fes& f, uint32_t r) { Eigen::VectorXd v(f.LocGlobMap().NumDofs()); for (long i = 0; i < v.size(); ++i) v(i) = double((i * 3 + r) % 7); return v; }
struct EdgeSel { MeshP m; uint32_t r; bool operator()(const lf::mesh::Entity& e) const { return (m->Index(e) + r) % 3 != 0; } };

void create(Pool& pool, const tour::Spec& spec, const Op& op) {
  const uint32_t* r = op.r;
  const MeshP* mp = some<MeshP>(pool, r[0]);
  const FesP* fp = some<FesP>(pool, r[1]);
  const UFesP* up = some<UFesP>(pool, r[1]);
  const HierP* hp = some<HierP>(pool, r[2]);
  static const uint32_t kNeedMesh = 1, kNeedFes = 2, kNeedUfes = 4, kNeedHier = 8;
  struct K { uint32_t need; };
  static const uint32_t need[] = {0, 0, 0, kNeedMesh, kNeedMesh, kNeedMesh, kNeedMesh, kNeedMesh, kNeedMesh, kNeedMesh, kNeedFes, kNeedFes, kNeedFes, kNeedFes, kNeedUfes, kNeedUfes, kNeedUfes, kNeedFes,
                                  0, kNeedHier, kNeedMesh, kNeedMesh, 0, 0, kNeedMesh, kNeedMesh, kNeedUfes, kNeedFes, kNeedHier};
  constexpr uint32_t n = sizeof need / sizeof *need;
  uint32_t k = r[3] % n;
  if (((need[k] & kNeedMesh) && !mp) || ((need[k] & kNeedHier) && !hp)) k = 0;
  if ((need[k] & kNeedFes) && !fp) k = mp ? 4 : 0;
  if ((need[k] & kNeedUfes) && !up) k = mp ? 3 : 0;
  uint32_t z = r[4];
  switch (k) {
    case 0: put<MeshP>(pool, "mesh", q_mesh, MeshP(mg::build(spec.am))); break;
    case 1: {
      if (z & 1) { lf::mesh::utils::TPTriagMeshBuilder b(tour::factory(2)); b.setBottomLeftCorner(0.0, 0.0); b.setTopRightCorner(1.0, 1.0); b.setNumXCells(1 + z % 3); b.setNumYCells(2); put<MeshP>(pool, "mesh/triag-builder", q_mesh, MeshP(b.Build())); }
      else { lf::mesh::utils::TPQuadMeshBuilder b(tour::factory(2)); b.setBottomLeftCorner(0.0, 0.0); b.setTopRightCorner(1.0, 1.0); b.setNumXCells(1 + z % 3); b.setNumYCells(2); put<MeshP>(pool, "mesh/quad-builder", q_mesh, MeshP(b.Build())); }
      break;
    }
    case 2: {  // a reader and its mesh
      std::string f = "/simfs/l.msh";
      std::ostringstream o;
      o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n1\n2 1 \"dom\"\n$EndPhysicalNames\n$Nodes\n4\n1 0 0 0\n2 1 0 0\n3 1 1 0\n4 0 1 0\n$EndNodes\n$Elements\n2\n1 2 2 1 5 1 2 3\n2 2 2 1 5 1 3 4\n$EndElements\n";
      { Quiet q; disk_put(f, o.str()); }
      if (z & 1) { auto v = lf::io::ReadGmshFile(f); put<lf::io::GmshReader>(pool, "reader", [](lf::io::GmshReader& x) { Digest d; d.u(mg::digest(*x.mesh())); for (const auto* e : x.mesh()->Entities(0)) for (auto t : x.PhysicalEntityNr(*e)) d.u(t); d.s(x.PhysicalEntityNr2Name(1)); return d.h; }, tour::factory(2), v); }
      else {
        put<lf::io::GmshReader>(pool, "reader", [](lf::io::GmshReader& x) { Digest d; d.u(mg::digest(*x.mesh())); for (const auto* e : x.mesh()->Entities(0)) for (auto t : x.PhysicalEntityNr(*e)) d.u(t); d.s(x.PhysicalEntityNr2Name(1)); return d.h; }, tour::factory(2), f);
      }
      auto* rd = static_cast<Holds<lf::io::GmshReader>*>(pool.back().get());
      put<MeshP>(pool, "mesh/gmsh", q_mesh, MeshP(rd->v.mesh()));
      break;
    }
    case 3: put<UFesP>(pool, "ufespace", [](const UFesP& f) { return q_fes(*f); }, tour::make_ufes(*mp, z % 3)); break;
    case 4: put<FesP>(pool, "fespace", [](const FesP& f) { return q_fes(*f); }, tour::make_fes(*mp, z % 5, 1 + z / 5 % 4, true)); break;
    case 5: put<lf::fe::HierarchicScalarFESpace<double>>(pool, "hierarchic space by value", [](const auto& f) { return q_fes(f); }, *mp, 1 + z % 4); break;
    case 6:
      if (z % 3 == 0) put<lf::uscalfe::FeSpaceLagrangeO1<double>>(pool, "O1 space by value", [](const auto& f) { return q_fes(f); }, *mp);
      else if (z % 3 == 1) put<lf::uscalfe::FeSpaceLagrangeO2<double>>(pool, "O2 space by value", [](const auto& f) { return q_fes(f); }, *mp);
      else put<lf::uscalfe::FeSpaceLagrangeO3<double>>(pool, "O3 space by value", [](const auto& f) { return q_fes(f); }, *mp);
      break;
    case 7: put<lf::assemble::UniformFEDofHandler>(pool, "uniform dof handler", [](const auto& h) { Digest d; d_dofh(d, h); return d.h; }, *mp, lf::assemble::UniformFEDofHandler::dof_map_t{{RefEl::kPoint(), 1}, {RefEl::kSegment(), z % 3}, {RefEl::kTria(), z % 2}, {RefEl::kQuad(), z % 4}}); break;
    case 8: put<lf::assemble::DynamicFEDofHandler>(pool, "dynamic dof handler", [](const auto& h) { Digest d; d_dofh(d, h); return d.h; }, *mp, [&](const lf::mesh::Entity& e) { return ((*mp)->Index(e) + z) % 3; }); break;
    case 9: {
      auto m = *mp;
      if (z & 1) {
        lf::mesh::utils::CodimMeshDataSet<double> ds(m, z % 3, 0.5);
        for (const auto* e : m->Entities(z % 3)) ds(*e) = m->Index(*e);
        using T = std::pair<lf::mesh::utils::CodimMeshDataSet<double>, MeshP>;
        put<T>(pool, "codim data set", [](const T& t) { Digest d; for (unsigned c = 0; c < 3; ++c) for (const auto* e : t.second->Entities(c)) { d.u(t.first.DefinedOn(*e)); if (t.first.DefinedOn(*e)) d.d(t.first(*e)); } return d.h; }, ds, m);
      } else {
        auto bd = std::make_shared<lf::mesh::utils::AllCodimMeshDataSet<bool>>(lf::mesh::utils::flagEntitiesOnBoundary(m));
        using T = std::pair<std::shared_ptr<lf::mesh::utils::AllCodimMeshDataSet<bool>>, MeshP>;
        put<T>(pool, "boundary flags", [](const T& t) { Digest d; for (unsigned c = 0; c < 3; ++c) for (const auto* e : t.second->Entities(c)) d.u((*t.first)(*e)); return d.h; }, bd, m);
      }
      break;
    }
    case 10: put<MF>(pool, "mesh function FE", [](const MF& f) { return q_mf_on(f, *f.getMesh()); }, *fp, coeffs(**fp, z)); break;
    case 11: put<GF>(pool, "mesh function GradFE", [](const GF& f) { return q_mf_on(f, *f.getMesh()); }, *fp, coeffs(**fp, z)); break;
    case 12: {
      auto e = MF(*fp, coeffs(**fp, z)) * G(Lin{1, 2}) + C(double(z % 5));
      using T = std::pair<decltype(e), MeshP>;
      put<T>(pool, "combined mesh function", [](const T& t) { return q_mf_on(t.first, *t.second); }, e, (*fp)->Mesh());
      break;
    }
    case 13: {
      auto e = lf::mesh::utils::transpose(GF(*fp, coeffs(**fp, z))) * GF(*fp, coeffs(**fp, z + 1));
      using T = std::pair<decltype(e), MeshP>;
      put<T>(pool, "combined gradient", [](const T& t) { return q_mf_on(t.first, *t.second); }, e, (*fp)->Mesh());
      break;
    }
    case 14: {
      using P = lf::uscalfe::ReactionDiffusionElementMatrixProvider<double, C, MF>;
      MF g(*up, coeffs(**up, z));
      if (z & 1) put<Prov<P>>(pool, "reaction-diffusion provider", [](Prov<P>& p) { return q_prov(p.p, *p.m, 0); }, Prov<P>{P(*up, C(1.5), g), (*up)->Mesh()});
      else {
        std::map<RefEl, lf::quad::QuadRule> qr{{RefEl::kTria(), lf::quad::make_QuadRule(RefEl::kTria(), 3)}, {RefEl::kQuad(), lf::quad::make_QuadRule(RefEl::kQuad(), 3)}};
        put<Prov<P>>(pool, "reaction-diffusion provider", [](Prov<P>& p) { return q_prov(p.p, *p.m, 0); }, Prov<P>{P(*up, C(1.5), g, qr), (*up)->Mesh()});
      }
      break;
    }
    case 15: {
      if (z & 1) {
        using P = lf::uscalfe::MassEdgeMatrixProvider<double, C, EdgeSel>;
        put<Prov<P>>(pool, "u mass edge provider", [](Prov<P>& p) { return q_prov(p.p, *p.m, 1); }, Prov<P>{P(*up, C(1.5), EdgeSel{(*up)->Mesh(), z}), (*up)->Mesh()});
      } else {
        using P = lf::uscalfe::ScalarLoadEdgeVectorProvider<double, C, EdgeSel>;
        put<Prov<P>>(pool, "u load edge provider", [](Prov<P>& p) { return q_prov(p.p, *p.m, 1); }, Prov<P>{P(*up, C(1.5), EdgeSel{(*up)->Mesh(), z}), (*up)->Mesh()});
      }
      break;
    }
    case 16: {
      using P = lf::uscalfe::ScalarLoadElementVectorProvider<double, MF>;
      put<Prov<P>>(pool, "u load provider", [](Prov<P>& p) { return q_prov(p.p, *p.m, 0); }, Prov<P>{P(*up, MF(*up, coeffs(**up, z))), (*up)->Mesh()});
      break;
    }
    case 17: {
      MF f(*fp, coeffs(**fp, z));
      switch (z % 4) {
        case 0: { using P = lf::fe::DiffusionElementMatrixProvider<double, MF>; put<Prov<P>>(pool, "diffusion provider", [](Prov<P>& p) { return q_prov(p.p, *p.m, 0); }, Prov<P>{P(*fp, f), (*fp)->Mesh()}); break; }
        case 1: { using P = lf::fe::MassElementMatrixProvider<double, MF>; put<Prov<P>>(pool, "mass provider", [](Prov<P>& p) { return q_prov(p.p, *p.m, 0); }, Prov<P>{P(*fp, f), (*fp)->Mesh()}); break; }
        case 2: { using P = lf::fe::MassEdgeMatrixProvider<double, MF, EdgeSel>; put<Prov<P>>(pool, "mass edge provider", [](Prov<P>& p) { return q_prov(p.p, *p.m, 1); }, Prov<P>{P(*fp, f, EdgeSel{(*fp)->Mesh(), z}), (*fp)->Mesh()}); break; }
        default: { using P = lf::fe::ScalarLoadElementVectorProvider<double, MF>; put<Prov<P>>(pool, "load provider", [](Prov<P>& p) { return q_prov(p.p, *p.m, 0); }, Prov<P>{P(*fp, f), (*fp)->Mesh()}); break; }
      }
      break;
    }
    case 18: {
      auto m = mg::build(spec.am);
      auto h = std::make_shared<lf::refinement::MeshHierarchy>(m, tour::factory(spec.am.world));
      if (m->NumEntities(0) < 9) for (unsigned i = 0; i <= z % 2; ++i) tour::refine(*h, (z >> 3) % 6, z);
      put<HierP>(pool, "hierarchy", q_hier, h);
      break;
    }
    case 19: put<MeshP>(pool, "mesh of hierarchy", q_mesh, MeshP((*hp)->getMesh(z % (*hp)->NumLevels()))); break;
    case 20: {
      const auto* e = (*mp)->EntityByIndex(z % 2, z % (*mp)->NumEntities(z % 2));
      auto g = std::shared_ptr<lf::geometry::Geometry>(e->Geometry()->SubGeometry(z / 2 % 2, 0));
      put<std::shared_ptr<lf::geometry::Geometry>>(pool, "sub-geometry", [](const auto& p) { Digest d; tour::dgeo(d, *p, 3); return d.h; }, g);
      break;
    }
    case 21: {
      const auto* e = (*mp)->EntityByIndex(0, z % (*mp)->NumEntities(0));
      lf::refinement::Hybrid2DRefinementPattern pat(e->RefEl(), z & 1 ? lf::refinement::rp_regular : lf::refinement::rp_barycentric);
      auto ch = e->Geometry()->ChildGeometry(pat, z / 2 % 3);
      struct T {
        std::vector<std::unique_ptr<lf::geometry::Geometry>> v;
        explicit T(std::vector<std::unique_ptr<lf::geometry::Geometry>>&& x) : v(std::move(x)) {}
        T(const T&) = delete;
        T(T&&) = default;
        T& operator=(const T&) = delete;
        T& operator=(T&&) = default;
      };
      put<T>(pool, "child geometries", [](const T& t) { Digest d; for (auto& g : t.v) tour::dgeo(d, *g, 3); return d.h; }, T(std::move(ch)));
      break;
    }
    case 22: put<lf::quad::QuadRule>(pool, "quadrature rule", [](const auto& q) { Digest d; tour::dqr(d, q); return d.h; }, lf::quad::make_QuadRule(z & 1 ? RefEl::kTria() : RefEl::kSegment(), z % 9)); break;
    case 23: put<lf::quad::QuadRuleCache>(pool, "quadrature cache", [](const auto& c) { Digest d; tour::dqr(d, c.Get(RefEl::kTria(), 3)); tour::dqr(d, c.Get(RefEl::kQuad(), 2)); return d.h; }); break;
    case 24: {
      lf::assemble::COOMatrix<double> a(5, 4);
      for (unsigned i = 0; i < z % 9; ++i) a.AddToEntry(i % 5, i % 4, i + 1.0);
      put<lf::assemble::COOMatrix<double>>(pool, "COO matrix", [](const auto& x) { Digest d; tour::dmat(d, x.makeSparse()); return d.h; }, a);
      break;
    }
    case 25: {
      using S = lf::mesh::utils::AllCodimMeshDataSet<std::vector<int>>;
      auto s = std::make_shared<S>(*mp, std::vector<int>{1, 2, int(z)});
      using T = std::pair<S, MeshP>;
      put<T>(pool, "all-codim data set", [](T& t) { Digest d; for (unsigned c = 0; c < 3; ++c) for (const auto* e : t.second->Entities(c)) for (int v : t.first(*e)) d.u(v); return d.h; }, std::move(*s), *mp);
      break;
    }
    case 26: put<FesP>(pool, "fespace", [](const FesP& f) { return q_fes(*f); }, FesP(*up)); break;
    case 27: put<MeshP>(pool, "mesh of a space", q_mesh, (*fp)->Mesh()); break;
    default: {
      G g(Lin{1, 2});
      if ((*hp)->NumLevels() < 2) { put<MeshP>(pool, "mesh of hierarchy", q_mesh, MeshP((*hp)->getMesh(0))); break; }
      auto m0 = (*hp)->getMesh(0);
      auto f0 = tour::make_fes(m0, z % 5, 2, true), f1 = tour::make_fes((*hp)->getMesh(1), z % 5, 2, true);
      Eigen::VectorXd v = lf::fe::prolongate(**hp, f0, f1, coeffs(*f0, z), 0);
      put<MF>(pool, "prolongated function", [](const MF& f) { return q_mf_on(f, *f.getMesh()); }, f1, v);
    }
  }
}
void check(Obj& o, const char* when) {
  uint64_t h = o.query();
  if (h != o.want) violation("answer-changed", "%s gives another answer %s", o.kind, when);
}
void exec(const tour::Spec& spec, const std::vector<Op>& ops, bool log) {
  Pool pool;
  for (const Op& op : ops) {
    uint32_t n = static_cast<uint32_t>(pool.size());
    uint32_t k = n == 0 ? 0 : op.k % 16;
    uint32_t i = n ? op.r[0] % n : 0;
    std::string what;
    if (k < 8 || n == 0) { create(pool, spec, op); if (log) event(std::string("create ") + pool.back()->kind); }
    else if (k < 10) { auto c = pool[i]->copy(); if (log) event(std::string("copy ") + pool[i]->kind); if (c) { check(*c, "after being copied"); pool.push_back(std::move(c)); } }
    else if (k == 10) { auto m = pool[i]->move(); if (log) event(std::string("move ") + pool[i]->kind); if (m) { pool[i] = std::move(m); check(*pool[i], "after being moved"); } }
    else if (k == 11) {
      uint32_t j = op.r[1] % n;
      bool mv = op.r[2] & 1;
      for (uint32_t t = 0; t < n; ++t, j = (j + 1) % n)
        if (j != i && pool[i]->assign(*pool[j], mv)) {
          if (log) event(std::string(mv ? "move-assign " : "copy-assign ") + pool[i]->kind);
          check(*pool[i], "after being assigned to");
          if (mv) pool.erase(pool.begin() + j); else check(*pool[j], "after being assigned from");
          break;
        }
    }
    else if (k < 14) { if (log) event(std::string("release ") + pool[i]->kind); pool.erase(pool.begin() + i); }
    else if (n) { check(*pool[i], "when asked again"); }
    if (pool.size() > 14) pool.erase(pool.begin());
  }
  for (auto& o : pool) check(*o, "at the end");
  // release the rest in a scripted order, asking the others in between
  for (size_t j = 0; !pool.empty(); ++j) {
    pool.erase(pool.begin() + ops[j % ops.size()].r[4] % pool.size());
    if (!pool.empty()) check(*pool[ops[j % ops.size()].r[3] % pool.size()], "after others were released");
  }
}
void run() {
  disk_reset();
  tour::Spec spec = tour::draw_spec(false, true);
  std::vector<Op> ops(4 + pick(25));
  for (auto& o : ops) { o.k = pick(16); for (auto& x : o.r) x = pick(1u << 16); }
  exec(spec, ops, true);
  heap_track(true);
  auto before = heap();
  exec(spec, ops, false);
  auto after = heap();
  heap_track(false);
  if (after.live_blocks != before.live_blocks) violation("leak", "%lld blocks (%lld bytes) still allocated after the last handle is gone", static_cast<long long>(after.live_blocks - before.live_blocks), static_cast<long long>(after.live_bytes - before.live_bytes));
  feature(event_hash());
}
}  // namespace
const sim::Harness sim::kHarness{"p11_lifetime", nullptr, run};
