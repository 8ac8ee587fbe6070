// P08: histories of assembly operations against exact integer bookkeeping, with
// throwing providers and allocation failures; degree-of-freedom numbering;
// elimination of fixed components; integration over selected entities.
#include "meshgen.h"
#include <lf/assemble/assemble.h>
#include <lf/fe/fe_tools.h>
#include <lf/mesh/utils/utils.h>
#include <Eigen/LU>
#include <complex>

using sim::coin;
using sim::pick;
using sim::range;
using lf::assemble::COOMatrix;
using lf::assemble::DofHandler;
using lf::base::RefEl;
using lf::mesh::Entity;
using lf::mesh::Mesh;
using Cplx = std::complex<double>;
using MeshP = std::shared_ptr<const Mesh>;

namespace {
struct Injected : std::exception { const char* what() const noexcept override { return "injected failure"; } };

// ------------------------------------------------------------------ numbering
struct Layout { bool dynamic = false, orient = true; unsigned pt = 0, seg = 0, tri = 0, quad = 0; uint64_t salt = 0; unsigned maxd = 0; };
unsigned want_dofs(const Layout& l, const Mesh& m, const Entity& e) {
  if (l.dynamic) return static_cast<unsigned>(sim::mix64(l.salt + m.Index(e) * 31 + e.Codim() * 7) % (l.maxd + 1));
  switch (e.RefEl()) {
    case RefEl::kPoint(): return l.pt;
    case RefEl::kSegment(): return l.seg;
    case RefEl::kTria(): return l.tri;
    default: return l.quad;
  }
}
std::unique_ptr<DofHandler> make(const MeshP& m, const Layout& l, long throw_at = -1) {
  if (l.dynamic) {
    long n = 0;
    return std::make_unique<lf::assemble::DynamicFEDofHandler>(m, [&](const Entity& e) -> lf::base::size_type {
      if (n++ == throw_at) throw Injected();
      return want_dofs(l, *m, e);
    });
  }
  lf::assemble::UniformFEDofHandler::dof_map_t d;
  // zero entries may be left out
  if (l.pt || l.salt % 2) d[RefEl::kPoint()] = l.pt;
  if (l.seg || l.salt % 3) d[RefEl::kSegment()] = l.seg;
  if (l.tri || l.salt % 5) d[RefEl::kTria()] = l.tri;
  if (l.quad || l.salt % 7) d[RefEl::kQuad()] = l.quad;
  return std::make_unique<lf::assemble::UniformFEDofHandler>(m, d, l.orient);
}
Layout gen_layout() {
  Layout l;
  l.dynamic = coin(400);
  l.salt = pick(100000);
  if (l.dynamic) l.maxd = 1 + pick(3);
  else { l.pt = pick(3); l.seg = pick(4); l.tri = pick(3); l.quad = pick(4); l.orient = coin(750); if (l.pt + l.seg + l.tri + l.quad == 0) l.pt = 1; }
  return l;
}
// The numbering the documentation prescribes, as nested lists.
struct Numbering { std::vector<std::vector<unsigned>> own[3], all[3]; std::vector<const Entity*> ent; };
Numbering number(const Mesh& m, const Layout& l) {
  Numbering n;
  unsigned next = 0;
  for (int c = 2; c >= 0; --c) {
    n.own[c].resize(m.NumEntities(c));
    n.all[c].resize(m.NumEntities(c));
    for (unsigned i = 0; i < m.NumEntities(c); ++i) {
      const Entity* e = m.EntityByIndex(c, i);
      for (unsigned k = want_dofs(l, m, *e); k > 0; --k) { n.own[c][i].push_back(next++); n.ent.push_back(e); }
      for (int s = 2; s > c; --s) {
        auto sub = e->SubEntities(s - c);
        auto ori = e->RelativeOrientations();
        for (size_t j = 0; j < sub.size(); ++j) {
          auto v = n.own[s][m.Index(*sub[j])];
          if (s == 1 && c == 0 && ori[j] == lf::mesh::Orientation::negative && (l.dynamic || l.orient)) std::reverse(v.begin(), v.end());
          n.all[c][i].insert(n.all[c][i].end(), v.begin(), v.end());
        }
      }
      n.all[c][i].insert(n.all[c][i].end(), n.own[c][i].begin(), n.own[c][i].end());
    }
  }
  return n;
}
void check_handler(const DofHandler& d, const MeshP& m, const Numbering& n, const char* when) {
  if (d.Mesh() != m) sim::violation("wrong-numbering", "degree-of-freedom handler refers to another mesh %s", when);
  if (d.NumDofs() != n.ent.size()) sim::violation("wrong-numbering", "%u global dofs %s, expected %zu", d.NumDofs(), when, n.ent.size());
  for (unsigned k = 0; k < d.NumDofs(); ++k) if (&d.Entity(k) != n.ent[k]) sim::violation("wrong-numbering", "dof %u belongs to a different entity %s", k, when);
  for (int c = 0; c <= 2; ++c)
    for (unsigned i = 0; i < m->NumEntities(c); ++i) {
      const Entity& e = *m->EntityByIndex(c, i);
      auto a = d.GlobalDofIndices(e), o = d.InteriorGlobalDofIndices(e);
      if (d.NumLocalDofs(e) != n.all[c][i].size() || !std::equal(a.begin(), a.end(), n.all[c][i].begin(), n.all[c][i].end())) sim::violation("wrong-numbering", "dofs of entity %u of codim %d %s", i, c, when);
      if (d.NumInteriorDofs(e) != n.own[c][i].size() || !std::equal(o.begin(), o.end(), n.own[c][i].begin(), n.own[c][i].end())) sim::violation("wrong-numbering", "interior dofs of entity %u of codim %d %s", i, c, when);
    }
}
// ------------------------------------------------------------------ values
double g_scale = 1;  // power of two, so that all sums stay exact
template <class S> S val0(uint64_t salt, unsigned e, unsigned i, unsigned j) {
  uint64_t h = sim::mix64(salt * 1000003 + e * 1009 + i * 37 + j);
  double a = static_cast<int>(h % 15) - 7, b = static_cast<int>((h >> 20) % 15) - 7;
  if constexpr (std::is_same_v<S, double>) return a; else return S(a, b);
}
template <class S> S val(uint64_t salt, unsigned e, unsigned i, unsigned j) { return val0<S>(salt, e, i, j) * g_scale; }
const double kNaN = std::numeric_limits<double>::quiet_NaN();
struct Plan { uint64_t salt; unsigned active_permille, over; long throw_eval = -1, throw_active = -1; std::set<unsigned> skip; };
bool active(const Plan& p, unsigned e) { return sim::mix64(p.salt ^ (e * 77 + 5)) % 1000 < p.active_permille && !p.skip.count(e); }
struct Seen { std::vector<unsigned> evals; uint64_t asked = 0; };
template <class S> struct MatProvider {
  const Mesh& m; const DofHandler &test, &trial; Plan p; Seen* s;
  bool isActive(const Entity& e) { if (static_cast<long>(s->asked++) == p.throw_active) throw Injected(); return active(p, m.Index(e)); }
  Eigen::Matrix<S, -1, -1> Eval(const Entity& e) {
    unsigned r = test.NumLocalDofs(e), c = trial.NumLocalDofs(e), i = m.Index(e);
    if (static_cast<long>(s->evals.size()) == p.throw_eval) throw Injected();
    Eigen::Matrix<S, -1, -1> x(r + p.over, c + p.over);
    x.setConstant(kNaN);
    for (unsigned a = 0; a < r; ++a) for (unsigned b = 0; b < c; ++b) x(a, b) = val<S>(p.salt, i, a, b);
    { sim::Quiet q; s->evals.push_back(i); }
    return x;
  }
};
template <class S> struct VecProvider {
  const Mesh& m; const DofHandler& d; Plan p; Seen* s;
  bool isActive(const Entity& e) { if (static_cast<long>(s->asked++) == p.throw_active) throw Injected(); return active(p, m.Index(e)); }
  Eigen::Matrix<S, -1, 1> Eval(const Entity& e) {
    unsigned r = d.NumLocalDofs(e), i = m.Index(e);
    if (static_cast<long>(s->evals.size()) == p.throw_eval) throw Injected();
    Eigen::Matrix<S, -1, 1> x(r + p.over);
    x.setConstant(kNaN);
    for (unsigned a = 0; a < r; ++a) x(a) = val<S>(p.salt, i, a, 0);
    { sim::Quiet q; s->evals.push_back(i); }
    return x;
  }
};
template <class M> bool same(const M& a, const M& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.array() == b.array()).all(); }

template <class S> struct World {
  using Mat = Eigen::Matrix<S, -1, -1>;
  using Vec = Eigen::Matrix<S, -1, 1>;
  MeshP mesh;
  std::unique_ptr<DofHandler> trial, test;
  Numbering ntrial, ntest;
  COOMatrix<S> A{1, 1};
  Mat model;
  Vec v, vmodel;

  void add_mat(int codim, const Plan& p, unsigned e) {
    auto &r = ntest.all[codim][e], &c = ntrial.all[codim][e];
    for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) model(r[i], c[j]) += val<S>(p.salt, e, i, j);
  }
  void add_vec(int codim, const Plan& p, unsigned e) {
    auto& r = ntest.all[codim][e];
    for (size_t i = 0; i < r.size(); ++i) vmodel(r[i]) += val<S>(p.salt, e, i, 0);
  }
  void grow(unsigned r, unsigned c) {
    Mat x = Mat::Zero(std::max<long>(r, model.rows()), std::max<long>(c, model.cols()));
    x.topLeftCorner(model.rows(), model.cols()) = model;
    model = x;
  }
  void check(const char* when) {
    sim::Quiet q;
    if (A.rows() != model.rows() || A.cols() != model.cols()) sim::violation("wrong-matrix", "matrix is %ldx%ld %s, expected %ldx%ld", long(A.rows()), long(A.cols()), when, long(model.rows()), long(model.cols()));
    Mat d = A.makeDense();
    for (long i = 0; i < d.rows(); ++i) for (long j = 0; j < d.cols(); ++j)
      if (d(i, j) != model(i, j)) sim::violation("wrong-matrix", "entry (%ld,%ld) is %g %s, expected %g", i, j, std::abs(d(i, j)), when, std::abs(model(i, j)));
    Mat s(A.makeSparse());
    if (!same(s, model)) sim::violation("wrong-matrix", "sparse matrix differs %s", when);
    for (long i = 0; i < v.size(); ++i) if (v(i) != vmodel(i)) sim::violation("wrong-vector", "component %ld is %g %s, expected %g", i, std::abs(v(i)), when, std::abs(vmodel(i)));
  }
  std::vector<unsigned> actives(int codim, const Plan& p) { std::vector<unsigned> r; for (unsigned e = 0; e < mesh->NumEntities(codim); ++e) if (active(p, e)) r.push_back(e); return r; }
  void check_seen(Seen s, int codim, const Plan& p) {
    auto want = actives(codim, p);
    std::sort(s.evals.begin(), s.evals.end());
    if (s.evals != want) sim::violation("wrong-visits", "provider evaluated for %zu entities of codim %d, %zu are active", s.evals.size(), codim, want.size());
  }
  // assembles into A or v; returns normally when complete
  void assemble(bool matrix) {
    int codim = static_cast<int>(pick(3));
    Plan p{pick(1u << 20), coin(500) ? 1000u : 100 + pick(900), coin(300) ? 1 + pick(2) : 0};
    unsigned n = mesh->NumEntities(codim);
    int fault = sim::chance(sim::kFault, 250) ? 1 + static_cast<int>(sim::choose(sim::kFault, 3)) : 0;
    if (fault == 1) p.throw_eval = sim::choose(sim::kFault, n + 1);
    if (fault == 2) p.throw_active = sim::choose(sim::kFault, n + 1);
    Seen s;
    Mat before = model; Vec vbefore = vmodel;
    size_t t0 = A.triplets().size();
    if (fault == 3) sim::heap_arm(sim::choose(sim::kFault, sim::choose(sim::kFault, 2) ? 8 * n + 10 : 8), sim::choose(sim::kFault, 2));
    std::string w;
    auto r = hs::attempt([&] {
      if (matrix) { MatProvider<S> mp{*mesh, *test, *trial, p, &s}; lf::assemble::AssembleMatrixLocally(static_cast<unsigned>(codim), *trial, *test, mp, A); }
      else { VecProvider<S> vp{*mesh, *test, p, &s}; lf::assemble::AssembleVectorLocally(static_cast<unsigned>(codim), *test, vp, v); }
    }, &w);
    uint64_t hits = fault == 3 ? sim::heap_disarm() : 0;
    if (hits) sim::fault_hit("allocation failure");
    if (r == hs::kThrew && fault) sim::fault_hit(fault == 1 ? "provider throws" : "isActive throws");
    sim::eventf("assemble %s codim %d over %u entities: %s", matrix ? "matrix" : "vector", codim, n, r == hs::kDone ? "done" : w.c_str());
    if (r == hs::kDone) {
      if (fault == 3 && hits == 0) {}
      check_seen(s, codim, p);
      for (unsigned e : actives(codim, p)) matrix ? add_mat(codim, p, e) : add_vec(codim, p, e);
      check("after assembly");
      return;
    }
    if (r == hs::kThrew && (fault == 0 || fault == 3 || w != "injected failure")) sim::violation("unexpected-exception", "assembly threw: %s", w.c_str());
    if (r == hs::kBadAlloc) {
      if (!hits) sim::violation("unexpected-exception", "assembly threw bad_alloc");
      // whole or part contributions of visited entities, none twice
      if (matrix) {
        std::multiset<std::array<double, 4>> want;
        for (unsigned e : s.evals) { auto &ri = ntest.all[codim][e], &ci = ntrial.all[codim][e]; for (size_t i = 0; i < ri.size(); ++i) for (size_t j = 0; j < ci.size(); ++j) { Cplx x = val<S>(p.salt, e, i, j); want.insert({double(ri[i]), double(ci[j]), x.real(), x.imag()}); } }
        for (size_t k = t0; k < A.triplets().size(); ++k) {
          auto& t = A.triplets()[k]; Cplx x = t.value();
          auto it = want.find({double(t.row()), double(t.col()), x.real(), x.imag()});
          if (it == want.end()) sim::violation("wrong-matrix", "unexpected contribution to (%d,%d) after memory ran out", int(t.row()), int(t.col()));
          want.erase(it);
        }
        if (A.rows() != model.rows() || A.cols() != model.cols()) sim::violation("wrong-matrix", "size changed after memory ran out");
        model = A.makeDense();
      } else {
        for (unsigned e : s.evals) add_vec(codim, p, e);  // an entity's contributions are added without allocating
      }
      check("after memory ran out");
      return;
    }
    // a provider exception: everything handed out so far is in, nothing else
    for (unsigned e : s.evals) matrix ? add_mat(codim, p, e) : add_vec(codim, p, e);
    if (std::set<unsigned>(s.evals.begin(), s.evals.end()).size() != s.evals.size()) sim::violation("wrong-visits", "an entity was visited twice");
    check("after the provider threw");
    if (coin(600)) {
      // resume with the rest
      Plan q = p; q.throw_eval = q.throw_active = -1; q.skip.insert(s.evals.begin(), s.evals.end());
      Seen s2;
      if (matrix) { MatProvider<S> mp{*mesh, *test, *trial, q, &s2}; lf::assemble::AssembleMatrixLocally(static_cast<unsigned>(codim), *trial, *test, mp, A); }
      else { VecProvider<S> vp{*mesh, *test, q, &s2}; lf::assemble::AssembleVectorLocally(static_cast<unsigned>(codim), *test, vp, v); }
      check_seen(s2, codim, q);
      for (unsigned e : s2.evals) matrix ? add_mat(codim, p, e) : add_vec(codim, p, e);
      check("after resuming");
      sim::probe("assembly resumed");
    }
  }
  void fresh() {
    int codim = static_cast<int>(pick(3));
    Plan p{pick(1u << 20), coin(500) ? 1000u : 100 + pick(900), coin(300) ? 1u : 0u};
    Mat keep = model; Vec vkeep = vmodel;
    Seen s;
    if (coin()) {
      MatProvider<S> mp{*mesh, *test, *trial, p, &s};
      auto M = lf::assemble::AssembleMatrixLocally<COOMatrix<S>>(static_cast<unsigned>(codim), *trial, *test, mp);
      check_seen(s, codim, p);
      model = Mat::Zero(test->NumDofs(), trial->NumDofs());
      for (unsigned e : s.evals) add_mat(codim, p, e);
      if (M.rows() != model.rows() || M.cols() != model.cols() || !same(Mat(M.makeDense()), model)) sim::violation("wrong-matrix", "freshly assembled matrix differs");
      model = keep;
    } else {
      VecProvider<S> vp{*mesh, *test, p, &s};
      auto x = lf::assemble::AssembleVectorLocally<Vec>(static_cast<unsigned>(codim), *test, vp);
      check_seen(s, codim, p);
      vmodel = Vec::Zero(test->NumDofs());
      for (unsigned e : s.evals) add_vec(codim, p, e);
      if (x.size() != vmodel.size() || !same(Vec(x), vmodel)) sim::violation("wrong-vector", "freshly assembled vector differs");
      vmodel = vkeep;
    }
    sim::eventf("fresh assembly codim %d", codim);
  }
  void square() {
    // elimination of fixed components on a square, regular copy
    unsigned N = 2 + pick(12);
    COOMatrix<S> B(N, N);
    Mat M = Mat::Zero(N, N);
    uint64_t salt = pick(1u << 20);
    for (uint32_t k = 0, n = 3 * N; k < n; ++k) { unsigned i = pick(N), j = pick(N); S x = val<S>(salt, k, 1, 2) / 8.0; B.AddToEntry(i, j, x); M(i, j) += x; }
    for (unsigned i = 0; i < N; ++i) { S x = S(64.0 * g_scale); B.AddToEntry(i, i, x / 2.0); B.AddToEntry(i, i, x / 2.0); M(i, i) += x; }
    Vec b(N), fixval(N);
    std::vector<bool> fl(N);
    uint32_t dens = pick(1001);
    for (unsigned i = 0; i < N; ++i) { b(i) = val<S>(salt, i, 5, 5); fixval(i) = val0<S>(salt, i, 6, 6) / 4.0; fl[i] = coin(dens); }
    Vec b0 = b;
    auto sel = [&](unsigned k) { return std::make_pair(bool(fl[k]), fl[k] ? fixval(k) : S(kNaN)); };
    uint32_t how = pick(3);
    if (how == 0) lf::assemble::FixFlaggedSolutionComponents<S>(sel, B, b);
    else if (how == 1) lf::assemble::FixFlaggedSolutionCompAlt<S>(sel, B, b);
    else {
      lf::assemble::fixed_components_t<S> f;
      for (unsigned i = 0; i < N; ++i) if (fl[i]) { f.push_back({i, fixval(i)}); if (coin(150)) f.push_back({i, fixval(i)}); }
      hs::shuffle(f);
      lf::assemble::FixSolutionComponentsLse<S>(f, B, b);
    }
    sim::eventf("fix %u of %u components, variant %u", unsigned(std::count(fl.begin(), fl.end(), true)), N, how);
    if (B.rows() != N || B.cols() != N) sim::violation("wrong-elimination", "matrix became %ldx%ld", long(B.rows()), long(B.cols()));
    Mat D = B.makeDense();
    for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) {
      S want = M(i, j);
      if (fl[i]) want = i == j ? S(1.0) : S(0.0);
      else if (fl[j] && how == 0) want = S(0.0);
      if (!(D(i, j) == want)) sim::violation("wrong-elimination", "variant %u: entry (%u,%u) is %g, expected %g", how, i, j, std::abs(D(i, j)), std::abs(want));
    }
    for (unsigned i = 0; i < N; ++i) if (!fl[i]) { D.row(i) /= g_scale; b(i) /= g_scale; }  // equations of comparable size
    Vec x = D.partialPivLu().solve(b);
    for (unsigned i = 0; i < N; ++i) {
      if (fl[i]) { if (!(std::abs(x(i) - fixval(i)) <= 1e-10)) sim::violation("wrong-elimination", "variant %u: solution component %u is %g, prescribed %g", how, i, std::abs(x(i)), std::abs(fixval(i))); }
      else { S r = (M.row(i) * x)(0) - b0(i); if (!(std::abs(r) <= 1e-9 * g_scale)) sim::violation("wrong-elimination", "variant %u: equation %u violated by %g", how, i, std::abs(r)); }
    }
  }
  void step() {
    switch (pick(9)) {
      case 0: case 1: assemble(true); break;
      case 2: assemble(false); break;
      case 3: fresh(); break;
      case 4: {
        uint32_t k = 1 + pick(4);
        for (uint32_t i = 0; i < k; ++i) {
          unsigned r = pick(static_cast<uint32_t>(model.rows()) + (coin(200) ? 3 : 0)), c = pick(static_cast<uint32_t>(model.cols()) + (coin(200) ? 3 : 0));
          S x = val<S>(pick(1000), r, c, 0);
          bool arm = sim::chance(sim::kFault, 100);
          if (arm) sim::heap_arm(0, 0);
          auto res = hs::attempt([&] { A.AddToEntry(r, c, x); });
          if (arm && sim::heap_disarm()) sim::fault_hit("allocation failure");
          if (res == hs::kDone) { grow(r + 1, c + 1); model(r, c) += x; }
          else if (!arm) sim::violation("unexpected-exception", "AddToEntry threw");
        }
        sim::eventf("%u single entries", k);
        check("after adding entries");
        break;
      }
      case 5:
        if (coin(300)) { A.setZero(); model.setZero(); sim::event("set to zero"); }
        else {
          uint32_t m = 1 + pick(5), q = pick(m);
          A.setZero([&](unsigned i, unsigned j) { return (i + 2 * j) % m == q; });
          for (long i = 0; i < model.rows(); ++i) for (long j = 0; j < model.cols(); ++j) if ((i + 2 * j) % m == q) model(i, j) = 0;
          sim::eventf("set entries to zero (%u mod %u)", q, m);
        }
        check("after setZero");
        break;
      case 6: {
        Vec x(model.cols()), y(model.rows());
        uint64_t salt = pick(1000);
        for (long i = 0; i < x.size(); ++i) x(i) = val0<S>(salt, i, 0, 0);
        for (long i = 0; i < y.size(); ++i) y(i) = val<S>(salt, i, 1, 0);
        S al = val0<S>(salt, 1, 1, 1);
        Vec z = A.MatVecMult(al, x), want = al * (model * x), y2 = y;
        if (!same(z, want)) sim::violation("wrong-product", "matrix-vector product differs");
        A.MatVecMult(al, x, y);
        want = y2 + al * (model * x);
        if (!same(y, want)) sim::violation("wrong-product", "accumulating matrix-vector product differs");
        sim::event("products");
        break;
      }
      case 7: {
        COOMatrix<S> B(A);
        COOMatrix<S> C(std::move(A));
        if (coin()) { B.AddToEntry(0, 0, S(1.0)); B.setZero(); }
        A = coin() ? C : std::move(C);
        sim::event("copy and move");
        check("after copying and moving");
        break;
      }
      default: square();
    }
  }
};
void integrate(const MeshP& m) {
  // sum over selected entities of value * volume; values are exact, volumes compared to a tolerance
  int codim = static_cast<int>(pick(2));
  uint64_t salt = pick(1000);
  uint32_t dens = pick(3) == 0 ? 1000 : pick(1001);
  auto sel = [&](const Entity& e) { return sim::mix64(salt * 7 + m->Index(e)) % 1000 < dens; };
  auto v = [&](const Entity& e) { return 1.0 + double(sim::mix64(salt + 3 * m->Index(e)) % 16); };
  double want = 0;
  unsigned n = 0;
  for (const Entity* e : m->Entities(codim)) if (sel(*e)) { ++n; want += v(*e) * lf::geometry::Volume(*e->Geometry()); }
  std::map<const Entity*, int> seen;
  auto mf = [&](const Entity& e, const Eigen::MatrixXd& loc) { seen[&e]++; return std::vector<double>(loc.cols(), v(e)); };
  uint32_t deg = 2 + pick(4);
  double got = lf::fe::IntegrateMeshFunction(*m, mf, static_cast<int>(deg), sel, codim);
  sim::eventf("integral over %u of %u entities of codim %d", n, m->NumEntities(codim), codim);
  if (std::abs(got - want) > 1e-9 * (1 + std::abs(want))) sim::violation("wrong-integral", "integral over %u selected entities of codim %d is %g, expected %g", n, codim, got, want);
  auto mv = [&](const Entity& e, const Eigen::MatrixXd& loc) { return std::vector<Eigen::Vector2d>(loc.cols(), Eigen::Vector2d(v(e), -v(e))); };
  Eigen::Vector2d g2 = lf::fe::IntegrateMeshFunction(*m, mv, static_cast<int>(deg), sel, codim);
  if (!(std::abs(g2(0) - want) <= 1e-9 * (1 + want)) || !(std::abs(g2(1) + want) <= 1e-9 * (1 + want))) sim::violation("wrong-integral", "vector-valued integral over %u selected entities of codim %d is %g, expected %g", n, codim, g2(0), want);
}
template <class S> void history(const MeshP& m, Layout la, Layout lb, bool sameh) {
  World<S> w;
  w.mesh = m;
  g_scale = coin(700) ? 1.0 : std::ldexp(1.0, int(pick(2) ? 20 + pick(230) : 0) - 200 * int(pick(2)));
  auto build = [&](const Layout& l) {
    int fault = sim::chance(sim::kFault, 120) ? 1 + static_cast<int>(sim::choose(sim::kFault, 2)) : 0;
    if (fault) {
      long at = -1;
      if (fault == 1 && l.dynamic) at = sim::choose(sim::kFault, m->NumEntities(0) + m->NumEntities(1) + m->NumEntities(2));
      if (fault == 2) sim::heap_arm(sim::choose(sim::kFault, 30), sim::choose(sim::kFault, 2));
      std::unique_ptr<DofHandler> d;
      auto r = hs::attempt([&] { d = make(m, l, at); });
      uint64_t hits = fault == 2 ? sim::heap_disarm() : 0;
      if (hits) sim::fault_hit("allocation failure");
      if (at >= 0) { sim::fault_hit("dof layout callback throws"); if (r != hs::kThrew) sim::violation("exception-lost", "exception of the dof layout callback did not reach the caller"); }
      if (r != hs::kDone && !hits && at < 0) sim::violation("unexpected-exception", "construction of a dof handler threw");
      if (r == hs::kDone) return d;
    }
    return make(m, l);
  };
  w.trial = build(la);
  w.ntrial = number(*m, la);
  check_handler(*w.trial, m, w.ntrial, "after construction");
  if (sameh) lb = la;
  w.test = build(lb);
  w.ntest = number(*m, lb);
  check_handler(*w.test, m, w.ntest, "after construction");
  unsigned R = w.test->NumDofs(), C = w.trial->NumDofs();
  if (R == 0 || C == 0) return;
  w.A = COOMatrix<S>(R, C);
  w.model = World<S>::Mat::Zero(R, C);
  w.v = World<S>::Vec::Zero(R);
  w.vmodel = w.v;
  uint32_t steps = 1 + pick(8);
  for (uint32_t i = 0; i < steps; ++i) {
    w.step();
    if (w.model.rows() > static_cast<long>(R) || w.model.cols() > static_cast<long>(C)) { w.A = COOMatrix<S>(R, C); w.model = World<S>::Mat::Zero(R, C); }
  }
  if (coin(200)) {
    // moved handlers answer as before
    if (auto* u = dynamic_cast<lf::assemble::UniformFEDofHandler*>(w.trial.get())) { lf::assemble::UniformFEDofHandler x(std::move(*u)); check_handler(x, m, w.ntrial, "after moving"); }
    else if (auto* y = dynamic_cast<lf::assemble::DynamicFEDofHandler*>(w.trial.get())) { lf::assemble::DynamicFEDofHandler x(std::move(*y)); check_handler(x, m, w.ntrial, "after moving"); }
  } else check_handler(*w.trial, m, w.ntrial, "at the end");
  check_handler(*w.test, m, w.ntest, "at the end");
  hs::Digest d;
  d.u(la.dynamic); d.u(lb.dynamic); d.u(la.pt * 64 + la.seg * 16 + la.tri * 4 + la.quad); d.u(lb.pt * 64 + lb.seg * 16 + lb.tri * 4 + lb.quad); d.u(la.maxd); d.u(lb.maxd); d.u(m->NumEntities(0));
  sim::feature(d.h);
  sim::mix(R); sim::mix(C);
}
void run() {
  mg::Opt o;
  o.max_n = range(1, 3); o.allow_clockwise = coin(200); o.allow_world3 = coin(100); o.allow_curved = false;
  auto A = mg::gen(o);
  MeshP m = mg::build(A);
  Layout la = gen_layout(), lb = gen_layout();
  bool sh = coin(400);
  sim::eventf("mesh of %zu cells, handlers %s/%s", A.cells.size(), la.dynamic ? "dynamic" : "uniform", sh ? "same" : (lb.dynamic ? "dynamic" : "uniform"));
  if (coin(300)) history<Cplx>(m, la, lb, sh); else history<double>(m, la, lb, sh);
  if (A.world == 2 && coin(300)) integrate(m);
}
void warm() {
  auto m = mg::build([] { mg::AMesh a; a.pts = {Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(0, 1)}; a.cells.push_back({{0, 1, 2}}); return a; }());
  lf::assemble::AssembleMatrixLogger();
}
}  // namespace
const sim::Harness sim::kHarness{"p08_assemble", warm, run};
