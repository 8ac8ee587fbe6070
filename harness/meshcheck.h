// Compares a mesh with the abstract mesh it was described by.
#pragma once
#include <lf/mesh/utils/utils.h>
#include "meshgen.h"

namespace mg {
inline bool close(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, double tol = 1e-11) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() <= tol * (1 + b.cwiseAbs().maxCoeff());
}
// exact_edges: explicit edges must come first, in insertion order
inline void check_mesh(const lf::mesh::Mesh& m, const AMesh& A, const char* who) {
  using lf::base::RefEl;
  const RefEl rp = RefEl::kPoint(), rs = RefEl::kSegment(), rt = RefEl::kTria(), rq = RefEl::kQuad();
  auto pairs = A.pairs();
  size_t nt = 0, nq = 0;
  for (auto& c : A.cells) (c.v.size() == 3 ? nt : nq)++;
#define BAD(cls, ...) sim::violation(cls, "%s: %s", who, hs::fmt(__VA_ARGS__).c_str())
  if (m.DimMesh() != 2) BAD("wrong-dimension", "DimMesh %u", m.DimMesh());
  if (m.DimWorld() != static_cast<unsigned>(A.world)) BAD("wrong-dimension", "DimWorld %u, not %d", m.DimWorld(), A.world);
  if (m.NumEntities(2) != A.pts.size()) BAD("wrong-point-count", "%u points, not %zu", m.NumEntities(2), A.pts.size());
  if (m.NumEntities(0) != A.cells.size()) BAD("wrong-cell-count", "%u cells, not %zu", m.NumEntities(0), A.cells.size());
  if (m.NumEntities(1) != pairs.size()) BAD("wrong-edge-count", "%u edges, not %zu", m.NumEntities(1), pairs.size());
  if (m.NumEntities(rp) != A.pts.size() || m.NumEntities(rs) != pairs.size() || m.NumEntities(rt) != nt || m.NumEntities(rq) != nq)
    BAD("wrong-refel-count", "%u/%u/%u/%u points/segments/triangles/quadrilaterals, not %zu/%zu/%zu/%zu", m.NumEntities(rp), m.NumEntities(rs), m.NumEntities(rt), m.NumEntities(rq), A.pts.size(), pairs.size(), nt, nq);
  std::set<const lf::mesh::Entity*> seen;
  for (unsigned c = 0; c <= 2; ++c) {
    auto es = m.Entities(c);
    if (es.size() != m.NumEntities(c)) BAD("entity-enumeration", "Entities(%u) lists %zu of %u", c, es.size(), m.NumEntities(c));
    std::vector<char> hit(es.size(), 0);
    for (const auto* e : es) {
      if (!e) BAD("entity-enumeration", "null entity of codim %u", c);
      if (!seen.insert(e).second) BAD("entity-enumeration", "entity listed twice, codim %u", c);
      if (e->Codim() != c) BAD("entity-codim", "entity of codim %u claims %u", c, e->Codim());
      auto i = m.Index(*e);
      if (i >= hit.size() || hit[i]) BAD("entity-index", "index %u of codim %u out of range or used twice", i, c);
      hit[i] = 1;
      if (m.EntityByIndex(c, i) != e) BAD("entity-index", "EntityByIndex(%u,%u) is another entity", c, i);
      if (!m.Contains(*e)) BAD("entity-contains", "entity %u of codim %u not contained in its mesh", i, c);
      if (e->RefEl().Dimension() != 2 - c) BAD("entity-codim", "reference element of dimension %u for codim %u", unsigned(e->RefEl().Dimension()), c);
      if (!e->Geometry()) BAD("entity-geometry", "no geometry for entity %u of codim %u", i, c);
      if (e->Geometry()->RefEl() != e->RefEl()) BAD("entity-geometry", "geometry of other type for entity %u of codim %u", i, c);
      if (e->Geometry()->DimGlobal() != static_cast<unsigned>(A.world)) BAD("entity-geometry", "geometry of entity %u of codim %u lives in dimension %u", i, c, e->Geometry()->DimGlobal());
      if (e->Geometry()->DimLocal() != 2 - c) BAD("entity-geometry", "geometry of entity %u of codim %u has local dimension %u", i, c, e->Geometry()->DimLocal());
      auto self = e->SubEntities(0);
      if (self.size() != 1 || self[0] != e) BAD("sub-entities", "SubEntities(0) of entity %u codim %u is not itself", i, c);
      for (unsigned q = 0; q + c <= 2; ++q) {
        if (e->SubEntities(q).size() != e->RefEl().NumSubEntities(q)) BAD("sub-entities", "%zu sub-entities of rel. codim %u of %s", e->SubEntities(q).size(), q, e->RefEl().ToString().c_str());
        for (const auto* s : e->SubEntities(q))
          if (m.Index(*s) >= m.NumEntities(c + q) || m.EntityByIndex(c + q, m.Index(*s)) != s) BAD("sub-entities", "sub-entity of rel. codim %u of entity %u codim %u does not belong to the mesh", q, i, c);
      }
    }
  }
  for (unsigned i = 0; i < A.pts.size(); ++i) {
    const auto* p = m.EntityByIndex(2, i);
    if (!close(p->Geometry()->Global(Eigen::MatrixXd(0, 1)), A.pts[i], 0)) BAD("wrong-point", "point %u is elsewhere", i);
  }
  // edges
  Eigen::MatrixXd sg(1, 3); sg << 0, 1, 0.5;
  std::set<std::pair<uint, uint>> got;
  for (unsigned i = 0; i < pairs.size(); ++i) {
    const auto* e = m.EntityByIndex(1, i);
    auto n = e->SubEntities(1);
    uint a = m.Index(*n[0]), b = m.Index(*n[1]);
    auto key = std::make_pair(std::min(a, b), std::max(a, b));
    if (!pairs.count(key)) BAD("wrong-edge", "edge %u joins %u and %u, no such vertex pair", i, a, b);
    if (!got.insert(key).second) BAD("wrong-edge", "two edges between %u and %u", a, b);
    if (i < A.edges.size()) {
      auto& x = A.edges[i];
      bool same = x.a == a && x.b == b, rev = x.a == b && x.b == a;
      if (!(same || (rev && !x.geo))) BAD("wrong-edge-index", "edge %u joins (%u,%u), inserted as (%u,%u)%s", i, a, b, x.a, x.b, x.geo ? " with geometry" : "");
    }
    Eigen::MatrixXd g = e->Geometry()->Global(sg), w(A.world, 3);
    w << A.pts[a], A.pts[b], A.mid(a, b);
    if (!close(g, w)) BAD("wrong-edge-geometry", "edge %u (%u,%u): geometry does not run from its first to its second endpoint through the given midpoint (error %g)", i, a, b, (g - w).cwiseAbs().maxCoeff());
    auto o = e->RelativeOrientations();
    if (o.size() != 2) BAD("wrong-orientation", "segment with %zu orientations", o.size());
  }
  // cells
  std::map<std::pair<uint, uint>, uint> adj;
  std::vector<uint> vc(A.pts.size(), 0);
  for (unsigned i = 0; i < A.cells.size(); ++i) {
    const auto& C = A.cells[i];
    const auto* e = m.EntityByIndex(0, i);
    size_t n = C.v.size();
    if (e->RefEl().NumNodes() != n) BAD("wrong-cell-type", "cell %u has %u vertices, not %zu", i, e->RefEl().NumNodes(), n);
    auto vs = e->SubEntities(2), es = e->SubEntities(1);
    auto os = e->RelativeOrientations();
    if (os.size() != n) BAD("wrong-orientation", "cell %u has %zu orientations", i, os.size());
    Eigen::MatrixXd loc(2, 2 * n), w(A.world, 2 * n);
    auto nc = e->RefEl().NodeCoords();
    for (size_t j = 0; j < n; ++j) {
      uint a = C.v[j], b = C.v[(j + 1) % n];
      if (m.Index(*vs[j]) != a) BAD("wrong-cell-vertex", "vertex %zu of cell %u is %u, not %u", j, i, m.Index(*vs[j]), a);
      auto en = es[j]->SubEntities(1);
      uint x = m.Index(*en[0]), y = m.Index(*en[1]);
      if (!((x == a && y == b) || (x == b && y == a))) BAD("wrong-cell-edge", "edge %zu of cell %u joins %u,%u, not %u,%u", j, i, x, y, a, b);
      bool pos = lf::mesh::to_sign(os[j]) > 0;
      if (pos != (x == a)) BAD("wrong-orientation", "edge %zu of cell %u runs %s, orientation %s", j, i, x == a ? "along" : "against", pos ? "positive" : "negative");
      loc.col(j) = nc.col(j);
      loc.col(n + j) = 0.5 * (nc.col(j) + nc.col((j + 1) % n));
      w.col(j) = A.pts[a];
      w.col(n + j) = A.mid(a, b);
      adj[{std::min(a, b), std::max(a, b)}]++;
      vc[a]++;
    }
    Eigen::MatrixXd g = e->Geometry()->Global(loc);
    if (!close(g, w)) BAD("wrong-cell-geometry", "cell %u: geometry does not match its corners and edge midpoints (error %g)", i, (g - w).cwiseAbs().maxCoeff());
  }
  // derived queries of mesh::utils
  std::shared_ptr<const lf::mesh::Mesh> mp(std::shared_ptr<const lf::mesh::Mesh>(), &m);
  auto cnt = lf::mesh::utils::CountNumSuperEntities(mp, 1, 1);
  auto cv = lf::mesh::utils::CountNumSuperEntities(mp, 2, 2);
  auto bd = lf::mesh::utils::flagEntitiesOnBoundary(mp, 1);
  auto bn = lf::mesh::utils::flagEntitiesOnBoundary(mp, 2);
  std::vector<char> onb(A.pts.size(), 0);
  for (const auto* e : m.Entities(1)) {
    auto n = e->SubEntities(1);
    uint a = m.Index(*n[0]), b = m.Index(*n[1]);
    uint k = adj[{std::min(a, b), std::max(a, b)}];
    if (cnt(*e) != k) BAD("super-entities", "edge %u belongs to %u cells, not %u", m.Index(*e), cnt(*e), k);
    if (bd(*e) != (k == 1)) BAD("boundary-flag", "edge %u with %u adjacent cells flagged %d", m.Index(*e), k, int(bd(*e)));
    if (k == 1) onb[a] = onb[b] = 1;
  }
  for (const auto* e : m.Entities(2)) {
    if (cv(*e) != vc[m.Index(*e)]) BAD("super-entities", "node %u belongs to %u cells, not %u", m.Index(*e), cv(*e), vc[m.Index(*e)]);
    if (bn(*e) != bool(onb[m.Index(*e)])) BAD("boundary-flag", "node %u flagged %d", m.Index(*e), int(bn(*e)));
  }
#undef BAD
}
}  // namespace mg
