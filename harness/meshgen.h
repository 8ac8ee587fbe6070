// Abstract 2D meshes drawn from the work stream, and their construction through
// the public factory interface.  The abstract mesh is the reference model.
#pragma once
#include <lf/geometry/geometry.h>
#include <lf/mesh/hybrid2d/hybrid2d.h>
#include <lf/mesh/mesh.h>

#include <algorithm>
#include <map>
#include <memory>

#include "common.h"

namespace mg {
using sim::pick;
using sim::coin;
using uint = unsigned;
struct ACell { std::vector<uint> v; bool curved = false; bool geo = false; int para = 0; };  // para: given as a parallelogram by 4 / 3 corners
struct AEdge { uint a, b; bool curved = false; bool geo = false; };
struct AMesh {
  int world = 2;
  std::vector<Eigen::VectorXd> pts;
  std::vector<ACell> cells;
  std::vector<AEdge> edges;  // explicitly inserted, in insertion order
  std::map<std::pair<uint, uint>, Eigen::VectorXd> bend;  // midpoint offset of a curved edge (a<b)
  bool curved = false;
  Eigen::VectorXd mid(uint a, uint b) const {
    Eigen::VectorXd m = 0.5 * (pts[a] + pts[b]);
    auto it = bend.find({std::min(a, b), std::max(a, b)});
    return it == bend.end() ? m : Eigen::VectorXd(m + it->second);
  }
  // all vertex pairs used by cells or explicit edges
  std::set<std::pair<uint, uint>> pairs() const {
    std::set<std::pair<uint, uint>> r;
    for (auto& c : cells) for (size_t i = 0; i < c.v.size(); ++i) { uint a = c.v[i], b = c.v[(i + 1) % c.v.size()]; r.insert({std::min(a, b), std::max(a, b)}); }
    for (auto& e : edges) r.insert({std::min(e.a, e.b), std::max(e.a, e.b)});
    return r;
  }
};
struct Opt {
  uint max_n = 4;            // grid size
  bool allow_curved = false, allow_world3 = false, allow_clockwise = false, allow_holes = true, allow_geo = true, allow_isolated = false;
  uint force_kind = 0;       // 1: triangles only, 2: quads only
  bool dyadic = true;        // coordinates on a coarse binary grid
};
inline AMesh gen(const Opt& o) {
  AMesh m;
  uint nx = 1 + pick(o.max_n), ny = 1 + pick(o.max_n);
  m.world = (o.allow_world3 && coin(250)) ? 3 : 2;
  m.curved = o.allow_curved && coin(300);
  uint kind = o.force_kind ? o.force_kind : pick(3);  // 0 hybrid 1 tria 2 quad
  bool perturb = coin(700);
  double shear = perturb ? 0 : 0.25 * pick(3);
  std::vector<uint> id((nx + 1) * (ny + 1));
  for (uint i = 0; i < id.size(); ++i) id[i] = i;
  bool permute = coin(600);
  if (permute) hs::shuffle(id);
  std::vector<Eigen::VectorXd> p(id.size());
  double hx = 1.0 / nx, hy = 1.0 / ny;
  for (uint j = 0; j <= ny; ++j)
    for (uint i = 0; i <= nx; ++i) {
      double x = i * hx, y = j * hy;
      if (o.dyadic) { x = std::round(x * 1024) / 1024; y = std::round(y * 1024) / 1024; }
      if (perturb) { x += std::round(sim::unit() * 0.17 * hx * 4096) / 4096; y += std::round(sim::unit() * 0.17 * hy * 4096) / 4096; }
      if (shear > 0) x += shear * y;
      Eigen::VectorXd q(m.world);
      q(0) = x; q(1) = y;
      if (m.world == 3 && shear > 0) q(2) = 0.5 * x - 0.25 * y;
      else if (m.world == 3) q(2) = std::round((0.25 * x * x - 0.3 * x * y + 0.125 * y) * 4096) / 4096;
      p[id[j * (nx + 1) + i]] = q;
    }
  std::vector<ACell> cells;
  for (uint j = 0; j < ny; ++j)
    for (uint i = 0; i < nx; ++i) {
      uint a = id[j * (nx + 1) + i], b = id[j * (nx + 1) + i + 1], c = id[(j + 1) * (nx + 1) + i + 1], d = id[(j + 1) * (nx + 1) + i];
      bool quad = kind == 2 || (kind == 0 && coin(500));
      if (quad) cells.push_back({{a, b, c, d}});
      else if (coin(500)) { cells.push_back({{a, b, c}}); cells.push_back({{a, c, d}}); }
      else { cells.push_back({{a, b, d}}); cells.push_back({{b, c, d}}); }
    }
  if (o.allow_holes && coin(300)) {
    std::vector<ACell> k;
    for (auto& c : cells) if (!coin(200)) k.push_back(c);
    if (!k.empty()) cells = k;
  }
  for (auto& c : cells) {
    uint r = pick(static_cast<uint>(c.v.size()));
    std::rotate(c.v.begin(), c.v.begin() + r, c.v.end());
    if (o.allow_clockwise && coin(200)) std::reverse(c.v.begin(), c.v.end());
  }
  if (coin(500)) hs::shuffle(cells);
  // drop unused nodes (keeping relative order) unless isolated nodes are wanted
  std::vector<char> used(p.size(), 0);
  for (auto& c : cells) for (uint v : c.v) used[v] = 1;
  std::vector<uint> map(p.size(), 0);
  for (uint i = 0; i < p.size(); ++i)
    if (used[i] || (o.allow_isolated && coin(500))) { map[i] = static_cast<uint>(m.pts.size()); m.pts.push_back(p[i]); }
  for (auto& c : cells) for (uint& v : c.v) v = map[v];
  m.cells = cells;
  // edges
  std::set<std::pair<uint, uint>> ps = m.pairs();
  if (m.curved)
    for (auto& e : ps)
      if (coin(600)) {
        Eigen::VectorXd d = m.pts[e.second] - m.pts[e.first], n = Eigen::VectorXd::Zero(m.world);
        n(0) = -d(1); n(1) = d(0);
        m.bend[e] = n * (0.08 * std::round(sim::unit() * 16) / 16);
      }
  uint emode = pick(3);  // none, some, all
  if (emode) {
    std::vector<std::pair<uint, uint>> v(ps.begin(), ps.end());
    if (coin(600)) hs::shuffle(v);
    for (auto& e : v)
      if (emode == 2 || coin(400)) m.edges.push_back(coin(500) ? AEdge{e.second, e.first} : AEdge{e.first, e.second});
  }
  uint gmode = o.allow_geo ? pick(3) : 0;  // no explicit geometry, some, all
  for (auto& c : m.cells) {
    bool need = false;
    for (size_t i = 0; i < c.v.size(); ++i) { uint a = c.v[i], b = c.v[(i + 1) % c.v.size()]; if (m.bend.count({std::min(a, b), std::max(a, b)})) need = true; }
    c.curved = m.curved && (need || coin(300));
    c.geo = c.curved || gmode == 2 || (gmode == 1 && coin(500));
    if (c.geo && !c.curved && c.v.size() == 4 && m.pts[c.v[0]] + m.pts[c.v[2]] == m.pts[c.v[1]] + m.pts[c.v[3]]) c.para = static_cast<int>(pick(3));
  }
  for (auto& e : m.edges) {
    bool b = m.bend.count({std::min(e.a, e.b), std::max(e.a, e.b)}) > 0;
    e.curved = m.curved && (b || coin(300));
    e.geo = e.curved || gmode == 2 || (gmode == 1 && coin(500));
  }
  return m;
}
inline std::unique_ptr<lf::geometry::Geometry> cell_geo(const AMesh& m, const ACell& c) {
  if (!c.geo) return nullptr;
  size_t n = c.v.size();
  Eigen::MatrixXd x(m.world, c.curved ? 2 * n : n);
  for (size_t i = 0; i < n; ++i) x.col(i) = m.pts[c.v[i]];
  if (c.curved) for (size_t i = 0; i < n; ++i) x.col(n + i) = m.mid(c.v[i], c.v[(i + 1) % n]);
  if (n == 3) { if (c.curved) return std::make_unique<lf::geometry::TriaO2>(x); return std::make_unique<lf::geometry::TriaO1>(x); }
  if (c.curved) return std::make_unique<lf::geometry::QuadO2>(x);
  if (c.para == 1) return std::make_unique<lf::geometry::Parallelogram>(x);
  if (c.para == 2) return std::make_unique<lf::geometry::Parallelogram>(Eigen::VectorXd(x.col(0)), Eigen::VectorXd(x.col(1)), Eigen::VectorXd(x.col(3)));
  return std::make_unique<lf::geometry::QuadO1>(x);
}
inline std::unique_ptr<lf::geometry::Geometry> edge_geo(const AMesh& m, const AEdge& e) {
  if (!e.geo) return nullptr;
  Eigen::MatrixXd x(m.world, e.curved ? 3 : 2);
  x.col(0) = m.pts[e.a];
  x.col(1) = m.pts[e.b];
  if (e.curved) { x.col(2) = m.mid(e.a, e.b); return std::make_unique<lf::geometry::SegmentO2>(x); }
  return std::make_unique<lf::geometry::SegmentO1>(x);
}
inline lf::base::RefEl ref(const ACell& c) { return c.v.size() == 3 ? lf::base::RefEl::kTria() : lf::base::RefEl::kQuad(); }
inline void feed(lf::mesh::MeshFactory& f, const AMesh& m) {
  using st = lf::mesh::Mesh::size_type;
  for (auto& p : m.pts) f.AddPoint(p);
  for (auto& e : m.edges) { const std::array<st, 2> n{e.a, e.b}; f.AddEntity(lf::base::RefEl::kSegment(), n, edge_geo(m, e)); }
  for (auto& c : m.cells) { std::vector<st> n(c.v.begin(), c.v.end()); f.AddEntity(ref(c), n, cell_geo(m, c)); }
}
inline std::shared_ptr<lf::mesh::Mesh> build(const AMesh& m) {
  lf::mesh::hybrid2d::MeshFactory f(m.world);
  feed(f, m);
  return f.Build();
}
// digest of everything a mesh can be asked
inline uint64_t digest(const lf::mesh::Mesh& mesh) {
  hs::Digest d;
  d.u(mesh.DimMesh()); d.u(mesh.DimWorld());
  Eigen::MatrixXd seg(1, 3); seg << 0, 0.3, 1;
  Eigen::MatrixXd tri(2, 3); tri << 0.2, 0.5, 0, 0.3, 0.5, 1;
  Eigen::MatrixXd pt(0, 1);
  for (unsigned c = 0; c <= mesh.DimMesh(); ++c) {
    d.u(mesh.NumEntities(c));
    for (const auto* e : mesh.Entities(c)) {
      d.u(mesh.Index(*e));
      d.u(mesh.EntityByIndex(c, mesh.Index(*e)) == e);
      d.u(e->RefEl().Id());
      for (unsigned q = 0; q + c <= mesh.DimMesh(); ++q) for (const auto* s : e->SubEntities(q)) d.u(mesh.Index(*s));
      if (c < mesh.DimMesh()) for (auto o : e->RelativeOrientations()) d.u(lf::mesh::to_sign(o) + 5);
      const auto* g = e->Geometry();
      const auto& loc = c == 0 ? tri : (c == 1 ? seg : pt);
      d.m(g->Global(loc));
      if (c < 2) { d.m(g->Jacobian(loc)); d.m(g->IntegrationElement(loc)); d.m(g->JacobianInverseGramian(loc)); }
      d.u(g->isAffine());
    }
  }
  d.u(mesh.NumEntities(lf::base::RefEl::kTria())); d.u(mesh.NumEntities(lf::base::RefEl::kQuad()));
  return d.h;
}
// random mesh through one of the library's builders or the generator
}  // namespace mg
