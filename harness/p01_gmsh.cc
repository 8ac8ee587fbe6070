// P01: Gmsh files are read exactly as written, or the failure is reported.
#include <lf/io/gmsh_reader.h>
#include <lf/mesh/hybrid2d/hybrid2d.h>

#include <algorithm>
#include <map>

#include "common.h"

namespace {
using namespace sim;
using Vec = Eigen::Vector3d;
using size_type = lf::mesh::Mesh::size_type;

struct Node { uint64_t tag; Vec x; };
struct Elem {
  int type;                   // gmsh type
  std::vector<int> nodes;     // indices into Model::nodes
  std::vector<int> phys;      // physical tags
  int elementary = 1;
  std::vector<int> parts;
  uint64_t tag = 0;
};
struct Name { int dim, nr; std::string name; };
struct Link { int dim, slave, master; std::vector<std::pair<int, int>> map; bool affine; std::vector<double> a; };
struct Ent { int tag; Vec lo, hi; std::vector<int> phys, bnd; int pdim, ptag; std::vector<int> parts; };
struct Block { int dim, ent, type; std::vector<int> elems; };
struct Model {
  int version, enc;  // enc: 0 text, 1 little, 2 big
  int world;
  bool crlf = false;
  std::vector<Node> nodes;       // in file order
  std::vector<Elem> elems;       // in file order
  std::vector<Name> names;
  std::vector<Link> links;
  // v4
  std::vector<Ent> ents[4];      // by dimension, unpartitioned
  int npart = 0;
  std::vector<Ent> pents[4];
  std::vector<std::pair<int, int>> ghosts;
  std::vector<Block> blocks;
  std::vector<std::pair<int, int>> nblocks;  // (size, dim*1000+tag)
  struct GE { uint64_t tag; int part; std::vector<int> gp; };
  std::vector<GE> gel;
  int comments = 0;
};

int nnodes(int t) { switch (t) { case 1: return 2; case 2: return 3; case 3: return 4; case 8: return 3; case 9: return 6; case 10: return 9; case 15: return 1; case 16: return 8; } return 0; }
int dimof(int t) { return t == 15 ? 0 : (t == 1 || t == 8) ? 1 : 2; }
int ncorner(int t) { return t == 15 ? 1 : (t == 1 || t == 8) ? 2 : (t == 2 || t == 9) ? 3 : 4; }

double coordv() {  // values that survive every encoding exactly
  static const double sc[] = {1, 0.5, 0.25, 0.125, 16, 1.0 / 1024};
  return (static_cast<double>(pick(33)) - 16) / 64.0 * sc[pick(6)] * 0.25;
}

void gen_mesh(Model& m) {
  m.version = pick(2) ? 4 : 2;
  m.enc = static_cast<int>(pick(3));
  m.world = pick(4) ? 2 : 3;
  int nx = 1 + pick(4), ny = 1 + pick(3);
  bool second = pick(3) == 2;
  double sx = 0.5 + 0.25 * pick(4), sy = 1.0 + 0.5 * pick(3);
  double ox = coordv(), oy = coordv();
  std::vector<int> corner((nx + 1) * (ny + 1), -1);
  struct C { int type; std::vector<int> v; };
  std::vector<C> cells;
  std::vector<Node> nodes;
  auto newnode = [&](double x, double y, double z) { nodes.push_back({0, Vec(x, y, m.world == 3 ? z : 0.0)}); return static_cast<int>(nodes.size()) - 1; };
  auto at = [&](int i, int j) {
    int& k = corner[j * (nx + 1) + i];
    if (k < 0) k = newnode(ox + sx * (i + (coin(300) ? 0.125 : 0)), oy + sy * (j + (coin(300) ? 0.125 : 0)), 0.25 * i + 0.0625 * j);
    return k;
  };
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      if (!(cells.empty() && j == ny - 1 && i == nx - 1) && coin(100)) continue;  // hole
      int a = at(i, j), b = at(i + 1, j), c = at(i + 1, j + 1), d = at(i, j + 1);
      int q9 = 0;
      switch (pick(3)) {
        case 0: cells.push_back({second ? 16 : 3, {a, b, c, d}}); (void)q9; break;
        case 1: cells.push_back({second ? 9 : 2, {a, b, c}}); cells.push_back({second ? 9 : 2, {a, c, d}}); break;
        default: cells.push_back({second ? 9 : 2, {a, b, d}}); cells.push_back({second ? 9 : 2, {b, c, d}});
      }
    }
  std::map<std::pair<int, int>, int> mid;
  auto midnode = [&](int a, int b) {
    auto key = std::minmax(a, b);
    auto it = mid.find(key);
    if (it != mid.end()) return it->second;
    Vec x = 0.5 * (nodes[a].x + nodes[b].x);
    double px = coin(300) ? 1.0 / 64 : 0, py = coin(300) ? -1.0 / 64 : 0;
    int k = newnode(x[0] + px, x[1] + py, x[2] + 1.0 / 128);
    mid[key] = k;
    return k;
  };
  std::vector<Elem> el;
  std::map<std::pair<int, int>, bool> edge_seen;
  std::vector<std::pair<int, int>> edges;
  for (auto& c : cells) {
    int n = static_cast<int>(c.v.size());
    int rot = static_cast<int>(pick(n));
    std::rotate(c.v.begin(), c.v.begin() + rot, c.v.end());
    if (coin(200)) std::reverse(c.v.begin(), c.v.end());
    Elem e;
    e.type = c.type;
    e.nodes = c.v;
    for (int k = 0; k < n; ++k) {
      int a = c.v[k], b = c.v[(k + 1) % n];
      if (!edge_seen[std::minmax(a, b)]) { edge_seen[std::minmax(a, b)] = true; edges.emplace_back(a, b); }
      if (second) e.nodes.push_back(midnode(a, b));
    }
    if (second && n == 4 && coin(400)) {
      e.type = 10;
      Vec x = 0.25 * (nodes[c.v[0]].x + nodes[c.v[1]].x + nodes[c.v[2]].x + nodes[c.v[3]].x);
      e.nodes.push_back(newnode(x[0] + 1.0 / 256, x[1], x[2]));
    }
    el.push_back(e);
  }
  int extra = static_cast<int>(pick(3));
  for (int k = 0; k < extra; ++k) newnode(100 + k, 50 + k, 3);  // stand-alone nodes
  for (auto& [a, b] : edges) {
    if (!coin(400)) continue;
    Elem e;
    e.type = second ? 8 : 1;
    bool flip = coin(300);
    e.nodes = {flip ? b : a, flip ? a : b};
    if (second) e.nodes.push_back(midnode(a, b));
    el.push_back(e);
  }
  int npt = static_cast<int>(pick(4));
  std::set<int> used;
  for (int k = 0; k < npt; ++k) {
    Elem e;
    e.type = 15;
    e.nodes = {static_cast<int>(pick(static_cast<uint32_t>(nodes.size())))};
    if (!used.insert(e.nodes[0]).second) continue;
    el.push_back(e);
  }
  // node numbering and order
  std::vector<int> order(nodes.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = static_cast<int>(i);
  if (coin(600)) hs::shuffle(order);
  std::vector<uint64_t> tags;
  uint64_t t = 1 + (coin(300) ? pick(50) : 0);
  for (size_t i = 0; i < nodes.size(); ++i) { tags.push_back(t); t += 1 + (coin(150) ? pick(9) : 0); }
  if (coin(400)) hs::shuffle(tags);
  std::vector<int> inv(nodes.size());
  for (size_t i = 0; i < order.size(); ++i) { inv[order[i]] = static_cast<int>(i); m.nodes.push_back({tags[i], nodes[order[i]].x}); }
  for (auto& e : el) for (int& v : e.nodes) v = inv[v];
  if (coin(700)) hs::shuffle(el);
  // physical tags
  std::set<std::pair<int, int>> dn;
  static const char* base[] = {"a", "boundary", "left side", "dom_1", "x.y-z", "N"};
  int nn = static_cast<int>(pick(6));
  for (int k = 0; k < nn; ++k) {
    Name n;
    n.dim = static_cast<int>(pick(3));
    n.nr = 1 + static_cast<int>(pick(5)) * (coin(100) ? 1000 : 1);
    if (!dn.insert({n.dim, n.nr}).second) continue;
    n.name = base[pick(6)];
    if (coin(500)) n.name += std::to_string(k);
    m.names.push_back(n);
  }
  // a name is unique per dimension
  for (size_t i = 0; i < m.names.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (m.names[i].dim == m.names[j].dim && m.names[i].name == m.names[j].name) m.names[i].name += "_" + std::to_string(i);
  auto tagset = [&](int maxn) {
    std::vector<int> r;
    int n = static_cast<int>(pick(maxn + 1));
    for (int k = 0; k < n; ++k) {
      int v = 1 + static_cast<int>(pick(9));
      if (std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v);
    }
    return r;
  };
  uint64_t et = 1;
  if (m.version == 2) {
    bool parts = coin(300);
    for (auto& e : el) {
      auto p = tagset(2);
      if (p.empty()) p = {1};
      e.phys = p;
      e.elementary = 1 + static_cast<int>(pick(7));
      if (parts && coin(700)) { int n = 1 + static_cast<int>(pick(3)); for (int k = 0; k < n; ++k) e.parts.push_back(k + 1 + static_cast<int>(pick(2)) * 10); }
      e.tag = et;
      et += e.phys.size();  // one record per physical tag
    }
    m.elems = el;
    m.crlf = m.enc == 0 && coin(100);
  } else {
    bool part = coin(250);
    if (part) m.npart = 2 + static_cast<int>(pick(3));
    for (int d = 0; d < 3; ++d) {
      int n = 1 + static_cast<int>(pick(3));
      int tg = 1;
      for (int k = 0; k < n; ++k) {
        Ent e;
        tg += coin(300) ? 1 + static_cast<int>(pick(4)) : 0;
        e.tag = tg++;
        e.lo = Vec(coordv(), coordv(), 0);
        e.hi = e.lo + Vec(1, 2, 0);
        e.phys = tagset(3);
        int nb = d ? static_cast<int>(pick(4)) : 0;
        for (int b = 0; b < nb; ++b) e.bnd.push_back((coin() ? 1 : -1) * (1 + static_cast<int>(pick(5))));
        e.pdim = d; e.ptag = e.tag;
        m.ents[d].push_back(e);
      }
      if (part) {
        int np = 1 + static_cast<int>(pick(3)), tg2 = tg;
        for (int k = 0; k < np; ++k) {
          Ent e = m.ents[d][pick(static_cast<uint32_t>(m.ents[d].size()))];
          e.pdim = d; e.ptag = e.tag;
          e.tag = tg2++;
          e.phys = tagset(3);
          e.parts.push_back(1 + static_cast<int>(pick(m.npart)));
          if (coin(300)) e.parts.push_back(m.npart);
          m.pents[d].push_back(e);
        }
      }
    }
    if (part && coin(500)) m.ghosts.push_back({90, 1});
    // elements -> entities -> blocks
    for (auto& e : el) {
      auto& src = part ? m.pents[dimof(e.type)] : m.ents[dimof(e.type)];
      const Ent& en = src[pick(static_cast<uint32_t>(src.size()))];
      e.elementary = en.tag;
      e.phys = en.phys;
    }
    std::map<std::pair<int, int>, std::vector<Elem>> by;
    std::vector<std::pair<int, int>> keys;
    for (auto& e : el) {
      auto k = std::make_pair(e.type, e.elementary);
      if (!by.count(k)) keys.push_back(k);
      by[k].push_back(e);
    }
    for (auto& k : keys) {
      auto& v = by[k];
      size_t i = 0;
      while (i < v.size()) {
        size_t n = coin(200) ? 1 + pick(static_cast<uint32_t>(v.size() - i)) : v.size() - i;
        Block b{dimof(k.first), k.second, k.first, {}};
        for (size_t q = 0; q < n; ++q) { v[i + q].tag = et; et += 1 + (coin(50) ? pick(4) : 0); b.elems.push_back(static_cast<int>(m.elems.size())); m.elems.push_back(v[i + q]); }
        m.blocks.push_back(b);
        i += n;
      }
    }
    size_t i = 0;
    while (i < m.nodes.size()) {
      size_t n = coin(400) ? pick(static_cast<uint32_t>(m.nodes.size() - i) + 1) : m.nodes.size() - i;
      m.nblocks.push_back({static_cast<int>(n), static_cast<int>(pick(3)) * 1000 + 1 + static_cast<int>(pick(3))});
      i += n;
      if (m.nblocks.size() > 12) { m.nblocks.push_back({static_cast<int>(m.nodes.size() - i), 1}); break; }
    }
    if (coin(200)) { int n = 1 + static_cast<int>(pick(3)); for (int k = 0; k < n; ++k) { Model::GE g{m.elems[pick(static_cast<uint32_t>(m.elems.size()))].tag, 1, {}}; for (int q = 0; q <= k; ++q) g.gp.push_back(2 + q); m.gel.push_back(g); } }
  }
  if (coin(250)) {
    int n = 1 + static_cast<int>(pick(2));
    for (int k = 0; k < n; ++k) {
      Link l{1, 1 + k, 2 + k, {}, m.version == 4 && coin(), {}};
      int c = static_cast<int>(pick(4));
      for (int q = 0; q < c; ++q) l.map.emplace_back(pick(static_cast<uint32_t>(m.nodes.size())), pick(static_cast<uint32_t>(m.nodes.size())));
      for (int q = 0; q < 16; ++q) l.a.push_back((q % 5 == 0) ? 1 : 0.25 * q);
      m.links.push_back(l);
    }
  }
  m.comments = static_cast<int>(pick(8));
  if (pick(2)) m.comments = 0;
}

// ------------------------------------------------------------------ encoders
struct Enc {
  const Model& m;
  std::string o;
  std::string nl;
  explicit Enc(const Model& mm) : m(mm), nl(mm.crlf ? "\r\n" : "\n") {}
  void t(const std::string& s) { o += s; }
  void raw(const void* p, size_t n) {
    const char* c = static_cast<const char*>(p);
    if (m.enc == 2) { for (size_t i = n; i > 0; --i) o += c[i - 1]; }
    else o.append(c, n);
  }
  void i32(int64_t v) { int32_t x = static_cast<int32_t>(v); raw(&x, 4); }
  void i64(uint64_t v) { raw(&v, 8); }
  void dbl(double v) { raw(&v, 8); }
  static std::string ds(double v) { return hs::fmt("%.16g", v); }
  std::string is(int64_t v) { return std::to_string(v); }
  void comment(int bit) { if (m.comments & bit) t("$Comments" + nl + "made by nobody" + nl + "1 2 3 \"x\"" + nl + "$EndComments" + nl); }
  void header() {
    t("$MeshFormat" + nl + (m.version == 2 ? "2.2 " : "4.1 ") + (m.enc ? "1" : "0") + " 8" + nl);
    if (m.enc) { i32(1); t(nl); }
    t("$EndMeshFormat" + nl);
  }
  void names() {
    if (m.names.empty()) return;
    t("$PhysicalNames" + nl + is(static_cast<int64_t>(m.names.size())) + nl);
    for (auto& n : m.names) t(is(n.dim) + " " + is(n.nr) + " \"" + n.name + "\"" + nl);
    t("$EndPhysicalNames" + nl);
  }
  void v2() {
    header();
    comment(1);
    names();
    comment(2);
    t("$Nodes" + nl + is(static_cast<int64_t>(m.nodes.size())) + nl);
    for (auto& n : m.nodes) {
      if (m.enc) { i32(static_cast<int64_t>(n.tag)); for (int k = 0; k < 3; ++k) dbl(n.x[k]); }
      else t(is(static_cast<int64_t>(n.tag)) + " " + ds(n.x[0]) + " " + ds(n.x[1]) + " " + ds(n.x[2]) + nl);
    }
    if (m.enc) t(nl);
    t("$EndNodes" + nl);
    size_t cnt = 0;
    for (auto& e : m.elems) cnt += e.phys.size();
    t("$Elements" + nl + is(static_cast<int64_t>(cnt)) + nl);
    for (size_t i = 0; i < m.elems.size();) {
      if (!m.enc) {
        const Elem& e = m.elems[i++];
        for (size_t k = 0; k < e.phys.size(); ++k) {
          std::string s = is(static_cast<int64_t>(e.tag + k)) + " " + is(e.type) + " " + is(e.parts.empty() ? 2 : 3 + static_cast<int64_t>(e.parts.size())) + " " + is(e.phys[k]) + " " + is(e.elementary);
          if (!e.parts.empty()) { s += " " + is(static_cast<int64_t>(e.parts.size())); for (int p : e.parts) s += " " + is(p); }
          for (int v : e.nodes) s += " " + is(static_cast<int64_t>(m.nodes[v].tag));
          t(s + nl);
        }
      } else {
        size_t j = i;
        size_t recs = 0;
        while (j < m.elems.size() && m.elems[j].type == m.elems[i].type && m.elems[j].parts.size() == m.elems[i].parts.size() && (j == i || j % 5)) recs += m.elems[j++].phys.size();
        i32(m.elems[i].type);
        i32(static_cast<int64_t>(recs));
        i32(m.elems[i].parts.empty() ? 2 : 3 + static_cast<int64_t>(m.elems[i].parts.size()));
        for (; i < j; ++i) {
          const Elem& e = m.elems[i];
          for (size_t k = 0; k < e.phys.size(); ++k) {
            i32(static_cast<int64_t>(e.tag + k));
            i32(e.phys[k]);
            i32(e.elementary);
            if (!e.parts.empty()) { i32(static_cast<int64_t>(e.parts.size())); for (int p : e.parts) i32(p); }
            for (int v : e.nodes) i32(static_cast<int64_t>(m.nodes[v].tag));
          }
        }
      }
    }
    if (m.enc) t(nl);
    t("$EndElements" + nl);
    comment(4);
    if (!m.links.empty()) {
      periodic_at = o.size();
      t("$Periodic" + nl + is(static_cast<int64_t>(m.links.size())) + nl);
      for (auto& l : m.links) {
        t(is(l.dim) + " " + is(l.slave) + " " + is(l.master) + nl + is(static_cast<int64_t>(l.map.size())) + nl);
        for (auto& q : l.map) t(is(static_cast<int64_t>(m.nodes[q.first].tag)) + " " + is(static_cast<int64_t>(m.nodes[q.second].tag)) + nl);
      }
      t("$EndPeriodic" + nl);
    }
  }
  // start of the optional trailing sections
  size_t periodic_at = SIZE_MAX, ghosts_at = SIZE_MAX;
  // v4 primitives: int, size_t, double in either encoding
  void I(int64_t v) { if (m.enc) i32(v); else t(is(v) + " "); }
  void Z(uint64_t v) { if (m.enc) i64(v); else t(std::to_string(v) + " "); }
  void D(double v) { if (m.enc) dbl(v); else t(ds(v) + " "); }
  void E() { if (!m.enc) t(nl); }
  void V(const Vec& v) { D(v[0]); D(v[1]); D(v[2]); }
  void IV(const std::vector<int>& v) { Z(v.size()); for (int x : v) I(x); }
  void section(const char* s) { t(std::string("$") + s + nl); }
  void end(const char* s) { if (m.enc) t(nl); t(std::string("$End") + s + nl); }
  void v4() {
    header();
    comment(1);
    names();
    comment(2);
    section("Entities");
    for (int d = 0; d < 4; ++d) Z(m.ents[d].size());
    E();
    for (int d = 0; d < 4; ++d)
      for (auto& e : m.ents[d]) { I(e.tag); V(e.lo); if (d) V(e.hi); IV(e.phys); if (d) IV(e.bnd); E(); }
    end("Entities");
    if (m.npart) {
      section("PartitionedEntities");
      Z(m.npart);
      Z(m.ghosts.size());
      E();
      for (auto& g : m.ghosts) { I(g.first); I(g.second); E(); }
      for (int d = 0; d < 4; ++d) Z(m.pents[d].size());
      E();
      for (int d = 0; d < 4; ++d)
        for (auto& e : m.pents[d]) { I(e.tag); I(e.pdim); I(e.ptag); IV(e.parts); V(e.lo); if (d) V(e.hi); IV(e.phys); if (d) IV(e.bnd); E(); }
      end("PartitionedEntities");
    }
    comment(4);
    section("Nodes");
    uint64_t lo = ~0ull, hi = 0;
    for (auto& n : m.nodes) { lo = std::min(lo, n.tag); hi = std::max(hi, n.tag); }
    Z(m.nblocks.size()); Z(m.nodes.size()); Z(lo); Z(hi); E();
    size_t i = 0;
    for (auto& b : m.nblocks) {
      I(b.second / 1000); I(b.second % 1000); I(0); Z(b.first); E();
      for (int k = 0; k < b.first; ++k) { Z(m.nodes[i + k].tag); E(); }
      for (int k = 0; k < b.first; ++k) { V(m.nodes[i + k].x); E(); }
      i += b.first;
    }
    end("Nodes");
    section("Elements");
    Z(m.blocks.size()); Z(m.elems.size());
    lo = ~0ull; hi = 0;
    for (auto& e : m.elems) { lo = std::min(lo, e.tag); hi = std::max(hi, e.tag); }
    Z(lo); Z(hi); E();
    for (auto& b : m.blocks) {
      I(b.dim); I(b.ent); I(b.type); Z(b.elems.size()); E();
      for (int k : b.elems) { Z(m.elems[k].tag); for (int v : m.elems[k].nodes) Z(m.nodes[v].tag); E(); }
    }
    end("Elements");
    if (!m.links.empty()) {
      periodic_at = o.size();
      section("Periodic");
      Z(m.links.size()); E();
      for (auto& l : m.links) {
        I(l.dim); I(l.slave); I(l.master); E();
        if (l.affine) { Z(16); for (double x : l.a) D(x); } else Z(0);
        E();
        Z(l.map.size()); E();
        for (auto& q : l.map) { Z(m.nodes[q.first].tag); Z(m.nodes[q.second].tag); E(); }
      }
      end("Periodic");
    }
    if (!m.gel.empty()) {
      ghosts_at = o.size();
      section("GhostElements");
      Z(m.gel.size()); E();
      for (auto& g : m.gel) { Z(g.tag); I(g.part); IV(g.gp); E(); }
      end("GhostElements");
    }
  }
};

// ------------------------------------------------------------------ oracle
constexpr double kTol = 1e-12;
bool near(double a, double b) { return std::abs(a - b) <= kTol * (1 + std::abs(b)); }
bool nearv(const Vec& a, const Vec& b) { return near(a[0], b[0]) && near(a[1], b[1]) && near(a[2], b[2]); }

// Lagrange interpolation on the element's nodes (own implementation)
Vec map_elem(const Model& m, const Elem& e, double x, double y) {
  auto N = [&](int i) { return m.nodes[e.nodes[i]].x; };
  switch (e.type) {
    case 1: return (1 - x) * N(0) + x * N(1);
    case 8: return (1 - x) * (1 - 2 * x) * N(0) + x * (2 * x - 1) * N(1) + 4 * x * (1 - x) * N(2);
    case 2: return (1 - x - y) * N(0) + x * N(1) + y * N(2);
    case 9: { double l = 1 - x - y; return l * (2 * l - 1) * N(0) + x * (2 * x - 1) * N(1) + y * (2 * y - 1) * N(2) + 4 * l * x * N(3) + 4 * x * y * N(4) + 4 * y * l * N(5); }
    case 3: return (1 - x) * (1 - y) * N(0) + x * (1 - y) * N(1) + x * y * N(2) + (1 - x) * y * N(3);
    default: {  // serendipity
      double s = 2 * x - 1, r = 2 * y - 1;
      static const double cs[] = {-1, 1, 1, -1}, cr[] = {-1, -1, 1, 1};
      Vec v = Vec::Zero();
      for (int i = 0; i < 4; ++i) v += 0.25 * (1 + s * cs[i]) * (1 + r * cr[i]) * (s * cs[i] + r * cr[i] - 1) * N(i);
      v += 0.5 * (1 - s * s) * (1 - r) * N(4) + 0.5 * (1 + s) * (1 - r * r) * N(5) + 0.5 * (1 - s * s) * (1 + r) * N(6) + 0.5 * (1 - s) * (1 - r * r) * N(7);
      return v;
    }
  }
}
Vec to3(const Eigen::MatrixXd& g) { Vec v = Vec::Zero(); for (int i = 0; i < g.rows(); ++i) v[i] = g(i, 0); return v; }

#define BAD(cls, ...) violation(cls, __VA_ARGS__)

std::string join(const std::vector<size_type>& v) { std::string s; for (auto x : v) s += std::to_string(x) + ","; return s; }

void check_reader(const Model& m, const lf::io::GmshReader& rd) {
  auto mesh = rd.mesh();
  if (!mesh) BAD("no-mesh", "reader returned no mesh");
  // expectation
  std::vector<bool> mainn(m.nodes.size(), false);
  std::map<std::pair<int, int>, const Elem*> given;   // edges in the file
  std::map<std::pair<int, int>, std::pair<const Elem*, int>> derived;
  size_t ncells = 0;
  for (auto& e : m.elems) if (dimof(e.type) == 2) {
    ++ncells;
    int n = ncorner(e.type);
    for (int k = 0; k < n; ++k) { mainn[e.nodes[k]] = true; derived.emplace(std::minmax(e.nodes[k], e.nodes[(k + 1) % n]), std::make_pair(&e, k)); }
  }
  for (auto& e : m.elems) if (dimof(e.type) == 1) given[std::minmax(e.nodes[0], e.nodes[1])] = &e;
  size_t nmain = std::count(mainn.begin(), mainn.end(), true);
  if (mesh->DimMesh() != 2 || static_cast<int>(mesh->DimWorld()) != m.world) BAD("wrong-dimension", "mesh dims %d %d", (int)mesh->DimMesh(), (int)mesh->DimWorld());
  if (mesh->NumEntities(2) != nmain) BAD("wrong-node-count", "%d nodes, file describes %zu", (int)mesh->NumEntities(2), nmain);
  if (mesh->NumEntities(0) != ncells) BAD("wrong-cell-count", "%d cells, file describes %zu", (int)mesh->NumEntities(0), ncells);
  if (mesh->NumEntities(1) != derived.size()) BAD("wrong-edge-count", "%d edges, file describes %zu", (int)mesh->NumEntities(1), derived.size());
  // nodes by coordinates
  std::map<const lf::mesh::Entity*, int> id;
  std::vector<bool> seen(m.nodes.size(), false);
  Eigen::MatrixXd p0(0, 1);
  p0.resize(0, 1);
  for (const auto* p : mesh->Entities(2)) {
    Vec x = to3(lf::geometry::Corners(*p->Geometry()));
    int hit = -1;
    for (size_t i = 0; i < m.nodes.size(); ++i) if (mainn[i] && !seen[i] && nearv(x, m.nodes[i].x)) { hit = static_cast<int>(i); break; }
    if (hit < 0) BAD("wrong-node", "node %d at (%.17g,%.17g,%.17g) is not in the file", (int)mesh->Index(*p), x[0], x[1], x[2]);
    seen[hit] = true;
    id[p] = hit;
  }
  auto phys_check = [&](const lf::mesh::Entity& e, std::vector<int> want, const char* kind) {
    auto got = rd.PhysicalEntityNr(e);
    std::vector<int> g(got.begin(), got.end());
    if (!std::is_sorted(g.begin(), g.end())) BAD("physical-numbers-not-sorted", "%s: physical numbers %s are not sorted", kind, join(got).c_str());
    std::sort(want.begin(), want.end());
    if (g != want) {
      std::string w;
      for (int x : want) w += std::to_string(x) + ",";
      BAD("wrong-physical-numbers", "%s %d has physical numbers [%s], file says [%s]", kind, (int)mesh->Index(e), join(got).c_str(), w.c_str());
    }
    for (int q = 0; q < 12; ++q) if (rd.IsPhysicalEntity(e, q) != (std::find(want.begin(), want.end(), q) != want.end())) BAD("wrong-IsPhysicalEntity", "%s nr %d", kind, q);
  };
  // cells
  std::map<std::vector<int>, const Elem*> cells;
  for (auto& e : m.elems) if (dimof(e.type) == 2) { std::vector<int> k(e.nodes.begin(), e.nodes.begin() + ncorner(e.type)); cells[k] = &e; }
  static const double tp[][2] = {{0, 0}, {0.25, 0.5}, {0.125, 0.0625}, {0.5, 0.5}, {1, 0}};
  for (const auto* c : mesh->Entities(0)) {
    std::vector<int> k;
    for (const auto* p : c->SubEntities(2)) k.push_back(id.count(p) ? id[p] : -1);
    auto it = cells.find(k);
    if (it == cells.end()) BAD("wrong-cell", "cell %d has a vertex sequence that no element of the file has", (int)mesh->Index(*c));
    const Elem& e = *it->second;
    cells.erase(it);
    for (auto& q : tp) {
      Eigen::MatrixXd l(2, 1);
      l << q[0], q[1];
      Vec got = to3(c->Geometry()->Global(l)), want = map_elem(m, e, q[0], q[1]);
      if (!nearv(got, want)) BAD("wrong-cell-geometry", "cell %d type %d maps (%g,%g) to (%.17g,%.17g,%.17g) instead of (%.17g,%.17g,%.17g)", (int)mesh->Index(*c), e.type, q[0], q[1], got[0], got[1], got[2], want[0], want[1], want[2]);
    }
    phys_check(*c, e.phys, "cell");
  }
  std::set<std::pair<int, int>> eseen;
  for (const auto* s : mesh->Entities(1)) {
    std::vector<int> k;
    for (const auto* p : s->SubEntities(1)) k.push_back(id.count(p) ? id[p] : -1);
    auto key = std::minmax(k[0], k[1]);
    std::pair<int, int> kk(key.first, key.second);
    if (!derived.count(kk)) BAD("wrong-edge", "edge %d joins nodes that no element of the file joins", (int)mesh->Index(*s));
    if (!eseen.insert(kk).second) BAD("duplicate-edge", "edge %d appears twice", (int)mesh->Index(*s));
    auto g = given.find(kk);
    for (double x : {0.0, 0.5, 1.0, 0.25}) {
      Eigen::MatrixXd l(1, 1);
      l << x;
      Vec got = to3(s->Geometry()->Global(l)), want;
      if (g != given.end()) {
        if (k[0] != g->second->nodes[0]) BAD("wrong-edge-orientation", "edge %d is reversed with respect to the file", (int)mesh->Index(*s));
        want = map_elem(m, *g->second, x, 0);
      } else {
        // parametrised along its own direction over the adjacent cell
        auto [e, j] = derived[kk];
        int n = ncorner(e->type);
        double t = e->nodes[j] == k[0] ? x : 1 - x;
        static const double T[3][2] = {{0, 0}, {1, 0}, {0, 1}}, Q[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
        const double* a = n == 3 ? T[j] : Q[j];
        const double* b = n == 3 ? T[(j + 1) % 3] : Q[(j + 1) % 4];
        want = map_elem(m, *e, (1 - t) * a[0] + t * b[0], (1 - t) * a[1] + t * b[1]);
      }
      if (!nearv(got, want)) BAD("wrong-edge-geometry", "edge %d at %g: (%.17g,%.17g,%.17g) instead of (%.17g,%.17g,%.17g)", (int)mesh->Index(*s), x, got[0], got[1], got[2], want[0], want[1], want[2]);
    }
    phys_check(*s, g != given.end() ? g->second->phys : std::vector<int>{}, "edge");
  }
  for (const auto* p : mesh->Entities(2)) {
    std::vector<int> want;
    for (auto& e : m.elems) if (e.type == 15 && e.nodes[0] == id[p]) want = e.phys;
    phys_check(*p, want, "node");
  }
  // names
  for (int dim = 0; dim < 3; ++dim) {
    int codim = 2 - dim;
    auto lst = rd.PhysicalEntities(codim);
    std::vector<std::pair<int, std::string>> got(lst.begin(), lst.end()), want;
    for (auto& n : m.names) if (n.dim == dim) want.emplace_back(n.nr, n.name);
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got != want) BAD("wrong-physical-names", "PhysicalEntities(%d) lists %zu names, file has %zu (or different ones)", codim, got.size(), want.size());
  }
  std::set<std::string> allnames;
  std::set<int> allnrs;
  for (auto& n : m.names) { allnames.insert(n.name); allnrs.insert(n.nr); }
  allnames.insert("missing");
  allnrs.insert(777);
  auto lookup = [&](auto fn, auto expect, bool throws, const char* what) {
    decltype(expect) got{};
    std::string msg;
    auto oc = hs::attempt([&] { got = fn(); }, &msg);
    if (throws && oc == hs::kDone) BAD("wrong-name-lookup", "%s succeeded although nothing unambiguous matches", what);
    if (!throws && (oc != hs::kDone || got != expect)) BAD("wrong-name-lookup", "%s gave a wrong answer (%s)", what, msg.c_str());
  };
  for (auto& nm : allnames) {
    std::vector<const Name*> c;
    for (auto& n : m.names) if (n.name == nm) c.push_back(&n);
    lookup([&] { return rd.PhysicalEntityName2Nr(nm); }, size_type(c.size() == 1 ? c[0]->nr : 0), c.size() != 1, "PhysicalEntityName2Nr(name)");
    for (int dim = 0; dim < 3; ++dim) {
      const Name* f = nullptr;
      for (auto* n : c) if (n->dim == dim) f = n;
      lookup([&] { return rd.PhysicalEntityName2Nr(nm, 2 - dim); }, size_type(f ? f->nr : 0), !f, "PhysicalEntityName2Nr(name,codim)");
    }
  }
  for (int nr : allnrs) {
    std::vector<const Name*> c;
    for (auto& n : m.names) if (n.nr == nr) c.push_back(&n);
    lookup([&] { return rd.PhysicalEntityNr2Name(nr); }, c.size() == 1 ? c[0]->name : std::string(), c.size() != 1, "PhysicalEntityNr2Name(nr)");
    for (int dim = 0; dim < 3; ++dim) {
      const Name* f = nullptr;
      for (auto* n : c) if (n->dim == dim) f = n;
      lookup([&] { return rd.PhysicalEntityNr2Name(nr, 2 - dim); }, f ? f->name : std::string(), !f, "PhysicalEntityNr2Name(nr,codim)");
    }
  }
}

void check_file2(const Model& m, const lf::io::GMshFileV2& f) {
  if (f.IsBinary != (m.enc != 0)) BAD("wrong-file-header", "IsBinary");
  if (f.PhysicalEntities.size() != m.names.size()) BAD("wrong-file-names", "count");
  for (size_t i = 0; i < m.names.size(); ++i)
    if (f.PhysicalEntities[i].Dimension != m.names[i].dim || f.PhysicalEntities[i].Number != m.names[i].nr || f.PhysicalEntities[i].Name != m.names[i].name) BAD("wrong-file-names", "entry %zu", i);
  if (f.Nodes.size() != m.nodes.size()) BAD("wrong-file-nodes", "%zu nodes instead of %zu", f.Nodes.size(), m.nodes.size());
  for (size_t i = 0; i < m.nodes.size(); ++i)
    if (f.Nodes[i].first != m.nodes[i].tag || !nearv(f.Nodes[i].second, m.nodes[i].x)) BAD("wrong-file-nodes", "node %zu: tag %u", i, f.Nodes[i].first);
  size_t j = 0;
  for (auto& e : m.elems)
    for (size_t k = 0; k < e.phys.size(); ++k, ++j) {
      if (j >= f.Elements.size()) BAD("wrong-file-elements", "only %zu elements", f.Elements.size());
      const auto& g = f.Elements[j];
      bool ok = g.Number == e.tag + k && static_cast<int>(g.Type) == e.type && g.PhysicalEntityNr == e.phys[k] && g.ElementaryEntityNr == e.elementary && g.MeshPartitions == e.parts && g.NodeNumbers.size() == e.nodes.size();
      for (size_t q = 0; ok && q < e.nodes.size(); ++q) ok = g.NodeNumbers[q] == m.nodes[e.nodes[q]].tag;
      if (!ok) BAD("wrong-file-elements", "element %zu differs from the file", j);
    }
  if (j != f.Elements.size()) BAD("wrong-file-elements", "%zu elements instead of %zu", f.Elements.size(), j);
  if (f.Periodic.size() != m.links.size()) BAD("wrong-file-periodic", "count %zu instead of %zu", f.Periodic.size(), m.links.size());
  for (size_t i = 0; i < m.links.size(); ++i) {
    auto& a = f.Periodic[i];
    auto& b = m.links[i];
    bool ok = a.Dimension == b.dim && a.ElementarySlaveNr == b.slave && a.ElementaryMasterNr == b.master && a.NodeMapping.size() == b.map.size();
    for (size_t q = 0; ok && q < b.map.size(); ++q) ok = a.NodeMapping[q].first == m.nodes[b.map[q].first].tag && a.NodeMapping[q].second == m.nodes[b.map[q].second].tag;
    if (!ok) BAD("wrong-file-periodic", "entry %zu", i);
  }
}

template <class T> void check_ents(const std::vector<T>& g, const std::vector<Ent>& w, int d) {
  if (g.size() != w.size()) BAD("wrong-file-entities", "dim %d: %zu instead of %zu", d, g.size(), w.size());
  for (size_t i = 0; i < w.size(); ++i) {
    bool ok = g[i].tag == w[i].tag && g[i].physical_tags == w[i].phys;
    if constexpr (requires { g[i].coord; }) ok = ok && nearv(g[i].coord, w[i].lo);
    else ok = ok && nearv(g[i].min_coord, w[i].lo) && nearv(g[i].max_coord, w[i].hi) && g[i].bounding_entities == w[i].bnd;
    if constexpr (requires { g[i].partitions; }) ok = ok && g[i].partitions == w[i].parts && g[i].parent_dim == w[i].pdim && g[i].parent_tag == w[i].ptag;
    if (!ok) BAD("wrong-file-entities", "dim %d entity %zu differs", d, i);
  }
}

void check_file4(const Model& m, const lf::io::GMshFileV4& f) {
  if (f.is_binary != (m.enc != 0)) BAD("wrong-file-header", "is_binary");
  if (f.physical_names.size() != m.names.size()) BAD("wrong-file-names", "count");
  for (size_t i = 0; i < m.names.size(); ++i)
    if (f.physical_names[i].dimension != m.names[i].dim || f.physical_names[i].physical_tag != m.names[i].nr || f.physical_names[i].name != m.names[i].name) BAD("wrong-file-names", "entry %zu", i);
  check_ents(std::get<0>(f.entities), m.ents[0], 0);
  check_ents(std::get<1>(f.entities), m.ents[1], 1);
  check_ents(std::get<2>(f.entities), m.ents[2], 2);
  check_ents(std::get<3>(f.entities), m.ents[3], 3);
  if (f.partitioned_entities.num_partitions != static_cast<size_t>(m.npart)) BAD("wrong-file-entities", "num_partitions");
  if (m.npart) {
    if (f.partitioned_entities.ghost_entities.size() != m.ghosts.size()) BAD("wrong-file-entities", "ghost entities");
    for (size_t i = 0; i < m.ghosts.size(); ++i) if (f.partitioned_entities.ghost_entities[i].tag != m.ghosts[i].first || f.partitioned_entities.ghost_entities[i].partition != m.ghosts[i].second) BAD("wrong-file-entities", "ghost entity");
    check_ents(std::get<0>(f.partitioned_entities.partitioned_entities), m.pents[0], 0);
    check_ents(std::get<1>(f.partitioned_entities.partitioned_entities), m.pents[1], 1);
    check_ents(std::get<2>(f.partitioned_entities.partitioned_entities), m.pents[2], 2);
  }
  if (f.nodes.node_blocks.size() != m.nblocks.size() || f.nodes.num_nodes != m.nodes.size()) BAD("wrong-file-nodes", "%zu blocks, %zu nodes", f.nodes.node_blocks.size(), f.nodes.num_nodes);
  size_t i = 0;
  for (size_t b = 0; b < m.nblocks.size(); ++b) {
    auto& nb = f.nodes.node_blocks[b];
    if (nb.entity_dim != m.nblocks[b].second / 1000 || nb.entity_tag != m.nblocks[b].second % 1000 || static_cast<int>(nb.nodes.size()) != m.nblocks[b].first) BAD("wrong-file-nodes", "block %zu header", b);
    for (auto& n : nb.nodes) { if (n.first != m.nodes[i].tag || !nearv(n.second, m.nodes[i].x)) BAD("wrong-file-nodes", "node %zu", i); ++i; }
  }
  if (f.elements.element_blocks.size() != m.blocks.size() || f.elements.num_elements != m.elems.size()) BAD("wrong-file-elements", "%zu blocks, %zu elements", f.elements.element_blocks.size(), f.elements.num_elements);
  for (size_t b = 0; b < m.blocks.size(); ++b) {
    auto& g = f.elements.element_blocks[b];
    auto& w = m.blocks[b];
    bool ok = g.dimension == w.dim && g.entity_tag == w.ent && static_cast<int>(g.element_type) == w.type && g.elements.size() == w.elems.size();
    for (size_t k = 0; ok && k < w.elems.size(); ++k) {
      auto& e = m.elems[w.elems[k]];
      ok = g.elements[k].first == e.tag && g.elements[k].second.size() == e.nodes.size();
      for (size_t q = 0; ok && q < e.nodes.size(); ++q) ok = g.elements[k].second[q] == m.nodes[e.nodes[q]].tag;
    }
    if (!ok) BAD("wrong-file-elements", "block %zu differs from the file", b);
  }
  if (f.periodic_links.size() != m.links.size()) BAD("wrong-file-periodic", "count %zu instead of %zu", f.periodic_links.size(), m.links.size());
  for (size_t k = 0; k < m.links.size(); ++k) {
    auto& a = f.periodic_links[k];
    auto& b = m.links[k];
    bool ok = a.dimension == b.dim && a.entity_tag_slave == b.slave && a.entity_tag_master == b.master && a.node_mapping.size() == b.map.size() && a.affine_transform.has_value() == b.affine;
    for (size_t q = 0; ok && q < b.map.size(); ++q) ok = a.node_mapping[q].first == m.nodes[b.map[q].first].tag && a.node_mapping[q].second == m.nodes[b.map[q].second].tag;
    if (ok && b.affine) for (int r = 0; r < 16; ++r) ok = ok && (*a.affine_transform)(r / 4, r % 4) == b.a[r];
    if (!ok) BAD("wrong-file-periodic", "entry %zu", k);
  }
  if (f.ghost_elements.size() != m.gel.size()) BAD("wrong-file-ghosts", "count %zu instead of %zu", f.ghost_elements.size(), m.gel.size());
  for (size_t k = 0; k < m.gel.size(); ++k)
    if (f.ghost_elements[k].element_tag != m.gel[k].tag || f.ghost_elements[k].partition_tag != m.gel[k].part || f.ghost_elements[k].ghost_partition_tags != m.gel[k].gp) BAD("wrong-file-ghosts", "entry %zu", k);
}

// touch everything that a user could ask for (memory safety on damaged input)
void touch(const lf::io::GmshReader& rd) {
  auto mesh = rd.mesh();
  if (!mesh) return;
  hs::Digest d;
  for (int c = 0; c <= 2; ++c)
    for (const auto* e : mesh->Entities(c)) {
      d.u(mesh->Index(*e));
      for (auto x : rd.PhysicalEntityNr(*e)) d.u(x);
      d.m(lf::geometry::Corners(*e->Geometry()));
      for (int q = 0; q <= 2 - c; ++q) for (const auto* s : e->SubEntities(q)) d.u(mesh->Index(*s));
    }
  for (int c = 0; c <= 2; ++c) for (auto& x : rd.PhysicalEntities(c)) d.s(x.second);
  mix(d.h);
}

void run() {
  Model m;
  gen_mesh(m);
  std::string bytes;
  size_t periodic_at = SIZE_MAX, ghosts_at = SIZE_MAX;
  {
    Enc e(m);
    if (m.version == 2) e.v2(); else e.v4();
    bytes = std::move(e.o);
    periodic_at = e.periodic_at;
    ghosts_at = e.ghosts_at;
  }
  eventf("file v%d enc %d world %d: %zu nodes %zu elements %zu names %zu bytes", m.version, m.enc, m.world, m.nodes.size(), m.elems.size(), m.names.size(), bytes.size());
  disk_reset();
  uint32_t mode = choose(kFault, 12);
  // 0-4 benign, 5-6 read error, 7-8 truncation, 9-10 corruption, 11 memory
  const char* what = "benign";
  bool damaged = false, must = true, armed = false;
  plan_benign_io();
  if (mode == 5 || mode == 6) { plan_read_error(static_cast<int64_t>(bytes.size())); what = "read-error"; must = false; }
  else if (mode == 7 || mode == 8) {
    size_t cut = 1 + choose(kFault, static_cast<uint32_t>(mode == 7 ? bytes.size() : std::min<size_t>(bytes.size(), 60)));
    bytes.resize(bytes.size() - cut);
    eventf("file truncated by %zu bytes", cut);
    fault_hit("file-truncated");
    // a file that ends exactly before an optional trailing section is a valid file without it
    if (bytes.size() <= ghosts_at) m.gel.clear();
    if (bytes.size() <= periodic_at) m.links.clear();
    what = "truncated"; must = false;
  } else if (mode == 9 || mode == 10) {
    int n = 1 + static_cast<int>(choose(kFault, 3));
    for (int k = 0; k < n && !bytes.empty(); ++k) {
      size_t at = choose(kFault, static_cast<uint32_t>(bytes.size()));
      switch (choose(kFault, 5)) {
        case 0: bytes[at] = static_cast<char>(bytes[at] ^ (1 << choose(kFault, 8))); fault_hit("bit-flip"); break;
        case 1: bytes[at] = static_cast<char>(choose(kFault, 256)); fault_hit("byte-garbled"); break;
        case 2: bytes.erase(at, 1 + choose(kFault, 12)); fault_hit("bytes-lost"); break;
        case 3: bytes.insert(at, bytes.substr(at, 1 + choose(kFault, 40))); fault_hit("bytes-duplicated"); break;
        default: {  // garble a number
          size_t p = bytes.find_first_of("0123456789", at);
          if (p != std::string::npos) { static const char* nums[] = {"-1", "0", "99999999", "4294967295", "7", "-0", "18446744073709551615", "3"}; size_t q = p; while (q < bytes.size() && isdigit(static_cast<unsigned char>(bytes[q]))) ++q; bytes.replace(p, q - p, nums[choose(kFault, 8)]); fault_hit("number-garbled"); }
        }
      }
    }
    damaged = true; must = false;
    what = "damaged";
  } else if (mode == 11) { what = "memory"; must = false; armed = true; }
  if (sim::param("DUMP", 0) > 0) { FILE* f = fopen("/tmp/p01.msh", "w"); fwrite(bytes.data(), 1, bytes.size(), f); fclose(f); }
  disk_put("/simfs/m.msh", bytes);
  if (!must && !armed) allow_abort(true, what);
  std::unique_ptr<lf::io::GmshReader> rd;
  std::string err;
  if (armed) heap_arm(choose(kFault, 1u << (1 + choose(kFault, 13))), choose(kFault, 3));
  hs::Outcome oc = hs::kDone;
  bool direct = pick(4) == 3;
  if (!direct) {
    oc = hs::attempt([&] {
      rd = std::make_unique<lf::io::GmshReader>(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(m.world), "/simfs/m.msh");
    }, &err);
    uint64_t inj = heap_disarm();
    allow_abort(damaged, what);
    if (armed && inj && oc == hs::kThrew) violation("wrong-exception", "memory exhaustion surfaced as: %s", err.c_str());
    if (oc == hs::kDone) {
      if (damaged) { touch(*rd); probe("damaged file accepted"); }
      else check_reader(m, *rd);
      // queries must not change anything
      if (!damaged && coin(200)) check_reader(m, *rd);
    }
  } else {
    std::unique_ptr<lf::io::GmshReader::GmshFileVariant> f;
    oc = hs::attempt([&] { f = std::make_unique<lf::io::GmshReader::GmshFileVariant>(lf::io::ReadGmshFile("/simfs/m.msh")); }, &err);
    uint64_t inj = heap_disarm();
    allow_abort(damaged, what);
    if (armed && inj && oc == hs::kThrew) violation("wrong-exception", "memory exhaustion surfaced as: %s", err.c_str());
    if (oc == hs::kDone && !damaged) {
      if ((m.version == 2) != (f->index() == 0)) violation("wrong-version", "variant index %zu", f->index());
      if (m.version == 2) check_file2(m, std::get<0>(*f)); else check_file4(m, std::get<1>(*f));
      check_reader(m, lf::io::GmshReader(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(m.world), *f));
    }
  }
  if (must && oc != hs::kDone) violation("valid-file-rejected", "reading a valid file failed: %s", err.c_str());
  if (disk().read_error_injected && oc == hs::kDone) probe("read error but file complete");
  if (oc != hs::kDone) fault_hit((std::string("reported: ") + what).c_str());
  eventf("outcome %d %s", oc, oc ? err.substr(0, 80).c_str() : "");
  feature(mix64(m.version * 1000 + m.enc * 100 + oc * 10 + mode + (m.links.empty() ? 0 : 100000) + (m.npart ? 200000 : 0) + (m.names.empty() ? 0 : 400000) + m.elems.size() * 1000000ull));
}
}  // namespace
const sim::Harness sim::kHarness{"p01_gmsh", nullptr, run};
