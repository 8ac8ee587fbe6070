// P02: a VTK export is complete and exact, or its failure is reported.
#include <lf/io/vtk_writer.h>
#include <lf/mesh/utils/utils.h>

#include "common.h"
#include "meshgen.h"

namespace {
using namespace sim;
using lf::io::VtkFile;
using lf::io::VtkWriter;
using Eigen::MatrixXd;
using Eigen::VectorXd;

struct Attr { std::string name, type; int comps = 1; bool inexact = false; std::vector<long double> v; };  // v: size*comps
struct Expect {
  std::string header;
  bool binary = false;
  unsigned order = 1;
  std::vector<VectorXd> pts;                 // 3d, by index (as far as determined by nodes)
  std::vector<std::vector<unsigned>> cells;  // exact connectivity (direct files); for the writer: only the corners
  std::vector<MatrixXd> lag;                 // expected coordinates of all nodes of the cell in VTK order (writer)
  std::vector<int> types;
  size_t npts = 0;
  std::vector<Attr> point, cell, field;
  std::function<void(const std::vector<VectorXd>&)> late;  // fills point attributes that depend on the points
};

// ------------------------------------------------------------------- parser
struct Parsed {
  std::string version, header, format, dataset;
  std::vector<std::array<double, 3>> pts;
  std::vector<std::vector<long>> cells;
  std::vector<long> types;
  std::vector<Attr> point, cell, field;
  bool has_points = false, has_cells = false, has_types = false, has_field = false;
  long npoint = -1, ncell = -1;
};
struct Bad { std::string w; };
struct P {
  const std::string& s;
  size_t i = 0;
  bool bin = false;
  [[noreturn]] void bad(const std::string& w) { throw Bad{w + " at byte " + std::to_string(i)}; }
  std::string line() { size_t e = s.find('\n', i); if (e == std::string::npos) bad("unterminated line"); std::string l = s.substr(i, e - i); i = e + 1; return l; }
  std::string tok() {
    while (i < s.size() && isspace(static_cast<unsigned char>(s[i]))) ++i;
    size_t b = i;
    while (i < s.size() && !isspace(static_cast<unsigned char>(s[i]))) ++i;
    if (b == i) bad("unexpected end of file");
    return s.substr(b, i - b);
  }
  long num() { std::string t = tok(); char* e; errno = 0; long v = strtol(t.c_str(), &e, 10); if (*e || t.empty()) bad("not an integer: " + t); return v; }
  void eol() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i; if (i >= s.size() || s[i] != '\n') bad("end of line expected"); ++i; }
  long double value(const std::string& type) {
    if (bin) {
      size_t n = type == "char" || type == "unsigned_char" ? 1 : type == "short" || type == "unsigned_short" ? 2 : type == "double" || type == "long" || type == "unsigned_long" ? 8 : 4;
      if (i + n > s.size()) bad("unexpected end of binary data");
      uint64_t u = 0;
      for (size_t k = 0; k < n; ++k) u = (u << 8) | static_cast<unsigned char>(s[i + k]);
      i += n;
      if (type == "float") { uint32_t w = static_cast<uint32_t>(u); float f; memcpy(&f, &w, 4); return f; }
      if (type == "double") { double d; memcpy(&d, &u, 8); return d; }
      if (type.rfind("unsigned", 0) == 0) return u;
      if (n == 1) return static_cast<int8_t>(u);
      if (n == 2) return static_cast<int16_t>(u);
      if (n == 4) return static_cast<int32_t>(u);
      return static_cast<int64_t>(u);
    }
    std::string t = tok();
    char* e;
    long double v = strtold(t.c_str(), &e);
    if (*e) bad("not a number: " + t);
    if (type != "float" && type != "double") {
      for (char c : t) if (!isdigit(static_cast<unsigned char>(c)) && c != '-' && c != '+') bad("not an integer: " + t);
    }
    return v;
  }
  bool more() { while (i < s.size() && isspace(static_cast<unsigned char>(s[i]))) ++i; return i < s.size(); }
};
Parsed parse(const std::string& s) {
  P p{s};
  Parsed r;
  r.version = p.line();
  r.header = p.line();
  r.format = p.line();
  if (r.format == "BINARY") p.bin = true;
  else if (r.format != "ASCII") p.bad("format line: " + r.format);
  std::vector<Attr>* where = nullptr;
  long count = 0;
  while (p.more()) {
    std::string k = p.tok();
    if (k == "DATASET") { r.dataset = p.tok(); p.eol(); }
    else if (k == "POINTS") {
      long n = p.num(); std::string t = p.tok(); p.eol();
      if (t != "float" && t != "double") p.bad("type of points");
      if (r.has_points) p.bad("POINTS twice");
      r.has_points = true;
      for (long j = 0; j < n; ++j) { std::array<double, 3> a; for (auto& x : a) x = static_cast<double>(p.value(t)); r.pts.push_back(a); }
    } else if (k == "CELLS") {
      long n = p.num(), total = p.num(); p.eol();
      if (r.has_cells) p.bad("CELLS twice");
      r.has_cells = true;
      for (long j = 0; j < n; ++j) {
        long c = static_cast<long>(p.value("int"));
        if (c < 0 || c > 100000) p.bad("cell size");
        std::vector<long> v;
        for (long q = 0; q < c; ++q) v.push_back(static_cast<long>(p.value("int")));
        total -= c + 1;
        r.cells.push_back(v);
      }
      if (total) p.bad("CELLS size field is off by " + std::to_string(total));
    } else if (k == "CELL_TYPES") {
      long n = p.num(); p.eol();
      r.has_types = true;
      for (long j = 0; j < n; ++j) r.types.push_back(static_cast<long>(p.value("int")));
    } else if (k == "FIELD") {
      p.tok(); long n = p.num(); p.eol();
      r.has_field = true;
      for (long j = 0; j < n; ++j) {
        Attr a; a.name = p.tok(); a.comps = static_cast<int>(p.num()); long m = p.num(); a.type = p.tok(); p.eol();
        for (long q = 0; q < m * a.comps; ++q) a.v.push_back(p.value(a.type));
        r.field.push_back(a);
        if (p.bin) p.eol();
      }
    } else if (k == "POINT_DATA") { r.npoint = count = p.num(); p.eol(); where = &r.point; }
    else if (k == "CELL_DATA") { r.ncell = count = p.num(); p.eol(); where = &r.cell; }
    else if (k == "SCALARS" || k == "VECTORS") {
      if (!where) p.bad(k + " outside of data section");
      Attr a; a.name = p.tok(); a.type = p.tok();
      if (k == "SCALARS") { if (p.num() != 1) p.bad("components"); p.eol(); if (p.tok() != "LOOKUP_TABLE") p.bad("LOOKUP_TABLE expected"); p.tok(); p.eol(); a.comps = 1; }
      else { p.eol(); a.comps = 3; }
      for (long q = 0; q < count * a.comps; ++q) a.v.push_back(p.value(a.type));
      where->push_back(a);
      if (p.bin) p.eol();
    } else p.bad("unknown keyword " + k.substr(0, 20));
  }
  return r;
}

void cmp_attr(const char* what, const std::vector<Attr>& want, const std::vector<Attr>& got, bool bin) {
  if (want.size() != got.size()) violation("wrong-data-sets", "%zu %s data sets written, %zu attached", got.size(), what, want.size());
  for (size_t k = 0; k < want.size(); ++k) {
    const Attr &w = want[k], &g = got[k];
    if (w.name != g.name) violation("wrong-data-name", "%s data set %zu is called '%s', not '%s'", what, k, g.name.c_str(), w.name.c_str());
    if (w.type != g.type) violation("wrong-data-type", "%s data set %s has type %s, attached was %s", what, w.name.c_str(), g.type.c_str(), w.type.c_str());
    if (w.v.size() != g.v.size()) violation("wrong-data-size", "%s data set %s has %zu values, not %zu", what, w.name.c_str(), g.v.size(), w.v.size());
    bool real = w.type == "float" || w.type == "double";
    for (size_t i = 0; i < w.v.size(); ++i) {
      bool ok = w.v[i] == g.v[i];
      if (!ok && !bin && w.type == "float") ok = static_cast<float>(w.v[i]) == static_cast<float>(g.v[i]);
      if (!ok && !bin && w.type == "double") ok = static_cast<double>(w.v[i]) == static_cast<double>(g.v[i]);
      if (!ok && real && w.inexact) ok = fabsl(w.v[i] - g.v[i]) <= 1e-5L * (1 + fabsl(w.v[i]));
      if (!ok) violation("wrong-data-value", "%s data set %s entry %zu is %.10Lg, not %.10Lg", what, w.name.c_str(), i, g.v[i], w.v[i]);
    }
  }
}
void check_file(const std::string& path, Expect& x) {
  std::string bytes;
  if (!disk_get(path, &bytes)) violation("file-missing", "export succeeded but %s does not exist", path.c_str());
  Parsed r;
  try { r = parse(bytes); } catch (const Bad& b) { violation("malformed-file", "%s (file of %zu bytes)", b.w.c_str(), bytes.size()); }
  if (r.version.rfind("# vtk DataFile Version ", 0) != 0) violation("malformed-file", "version line '%s'", r.version.c_str());
  if (r.header != x.header) violation("wrong-header", "header '%s'", r.header.c_str());
  if ((r.format == "BINARY") != x.binary) violation("wrong-format", "format %s", r.format.c_str());
  if (r.dataset != "UNSTRUCTURED_GRID" || !r.has_points || !r.has_cells || !r.has_types) violation("malformed-file", "sections missing");
  if (r.pts.size() != x.npts) violation("wrong-points", "%zu points, expected %zu", r.pts.size(), x.npts);
  if (r.cells.size() != x.cells.size() || r.types.size() != x.types.size()) violation("wrong-cells", "%zu cells, %zu types, expected %zu", r.cells.size(), r.types.size(), x.cells.size());
  auto same = [&](const std::array<double, 3>& g, const VectorXd& w) {
    for (int k = 0; k < 3; ++k) {
      double ww = k < w.size() ? w(k) : 0.0;
      if (std::abs(g[k] - ww) > 2e-6 * (1 + std::abs(ww))) return false;
    }
    return true;
  };
  std::vector<VectorXd> exact(x.npts);
  std::vector<char> seen(x.npts, 0);
  for (size_t i = 0; i < x.pts.size(); ++i) {
    exact[i] = x.pts[i]; seen[i] = 1;
    if (!same(r.pts[i], x.pts[i])) violation("wrong-point", "point %zu is (%g,%g,%g), mesh node is at (%g,%g)", i, r.pts[i][0], r.pts[i][1], r.pts[i][2], x.pts[i](0), x.pts[i](1));
  }
  for (size_t c = 0; c < x.cells.size(); ++c) {
    if (r.types[c] != x.types[c]) violation("wrong-cell-type", "cell %zu has type %ld, expected %d", c, r.types[c], x.types[c]);
    for (size_t k = 0; k < x.cells[c].size(); ++k)
      if (k >= r.cells[c].size() || r.cells[c][k] != static_cast<long>(x.cells[c][k])) violation("wrong-cell", "cell %zu corner %zu", c, k);
    size_t want = x.lag.empty() ? x.cells[c].size() : static_cast<size_t>(x.lag[c].cols());
    if (r.cells[c].size() != want) violation("wrong-cell-size", "cell %zu has %zu nodes, expected %zu", c, r.cells[c].size(), want);
    if (!x.lag.empty())
      for (size_t k = 0; k < want; ++k) {
        long id = r.cells[c][k];
        if (id < 0 || id >= static_cast<long>(x.npts)) violation("wrong-cell", "cell %zu refers to point %ld", c, id);
        if (!same(r.pts[id], x.lag[c].col(k))) violation("wrong-lagrange-node", "order %u cell %zu node %zu (point %ld) is at (%g,%g,%g), expected (%g,%g)", x.order, c, k, id, r.pts[id][0], r.pts[id][1], r.pts[id][2], x.lag[c](0, k), x.lag[c](1, k));
        if (!seen[id]) { seen[id] = 1; exact[id] = x.lag[c].col(k); }
        else if ((exact[id] - x.lag[c].col(k)).norm() > 1e-5) violation("shared-point", "point %ld belongs to two places", id);
      }
  }
  for (size_t i = 0; i < x.npts; ++i) if (!seen[i]) violation("unused-point", "point %zu belongs to no cell", i);
  if (x.late) x.late(exact);
  if (r.npoint != static_cast<long>(x.npts)) violation("wrong-data-size", "POINT_DATA %ld", r.npoint);
  if (r.ncell != static_cast<long>(x.cells.size())) violation("wrong-data-size", "CELL_DATA %ld", r.ncell);
  cmp_attr("global", x.field, r.field, x.binary);
  cmp_attr("point", x.point, r.point, x.binary);
  cmp_attr("cell", x.cell, r.cell, x.binary);
}

// ------------------------------------------------- VTK Lagrange node lattice
void tri_nodes(int n, double lo, double step, std::vector<Eigen::Vector2d>& out) {
  // triangle with lattice spacing step, n intervals, lower left corner (lo,lo)
  auto at = [&](int i, int j) { out.push_back({lo + i * step, lo + j * step}); };
  if (n == 0) { at(0, 0); return; }
  at(0, 0); at(n, 0); at(0, n);
  for (int i = 1; i < n; ++i) at(i, 0);
  for (int i = 1; i < n; ++i) at(n - i, i);
  for (int i = 1; i < n; ++i) at(0, n - i);
  if (n >= 3) tri_nodes(n - 3, lo + step, step, out);
}
MatrixXd lattice(lf::base::RefEl r, int o) {
  std::vector<Eigen::Vector2d> v;
  if (r == lf::base::RefEl::kSegment()) {
    MatrixXd m(1, o + 1);
    m(0, 0) = 0; m(0, 1) = 1;
    for (int i = 1; i < o; ++i) m(0, 1 + i) = static_cast<double>(i) / o;
    return m;
  }
  double h = 1.0 / o;
  if (r == lf::base::RefEl::kTria()) tri_nodes(o, 0, h, v);
  else {
    auto at = [&](int i, int j) { v.push_back({i * h, j * h}); };
    at(0, 0); at(o, 0); at(o, o); at(0, o);
    for (int i = 1; i < o; ++i) at(i, 0);
    for (int i = 1; i < o; ++i) at(o, i);
    for (int i = 1; i < o; ++i) at(i, o);
    for (int i = 1; i < o; ++i) at(0, i);
    for (int j = 1; j < o; ++j) for (int i = 1; i < o; ++i) at(i, j);
  }
  MatrixXd m(2, v.size());
  for (size_t i = 0; i < v.size(); ++i) m.col(i) = v[i].cwiseMin(1.0).cwiseMax(0.0);
  return m;
}

// ------------------------------------------------------------------- values
template <class T> T val() {
  if constexpr (std::is_floating_point_v<T>) {
    switch (pick(8)) {
      case 0: return 0;
      case 1: return static_cast<T>(unit() * 1e4);
      case 2: return static_cast<T>(unit() * 1e-6);
      case 3: return static_cast<T>(unit() * 1e20);
      case 4: return static_cast<T>(1.0 / 3);
      default: return static_cast<T>(unit() * 8);
    }
  } else {
    switch (pick(6)) {
      case 0: return std::numeric_limits<T>::max();
      case 1: return std::numeric_limits<T>::min();
      case 2: return 0;
      case 3: return static_cast<T>(10);
      default: return static_cast<T>((static_cast<uint64_t>(choose(kWork, 1u << 31)) << 31) ^ choose(kWork, 1u << 31));
    }
  }
}
template <class T> const char* tname();
template <> const char* tname<char>() { return "char"; }
template <> const char* tname<unsigned char>() { return "unsigned_char"; }
template <> const char* tname<short>() { return "short"; }
template <> const char* tname<unsigned short>() { return "unsigned_short"; }
template <> const char* tname<int>() { return "int"; }
template <> const char* tname<unsigned>() { return "unsigned_int"; }
template <> const char* tname<long>() { return "long"; }
template <> const char* tname<unsigned long>() { return "unsigned_long"; }
template <> const char* tname<float>() { return "float"; }
template <> const char* tname<double>() { return "double"; }

std::string name(size_t k) { static const char* n[] = {"u", "pressure", "a_b", "x1", "T[K]", "very_long_name_of_a_data_set_that_goes_on"}; return n[pick(6)] + std::to_string(k); }

template <class T> long double ld(T v) { return static_cast<long double>(v); }

// attaches a mesh data set of scalar or vector type to points or cells
template <class T> void add_mds(VtkWriter& w, const std::shared_ptr<const lf::mesh::Mesh>& mesh, bool point, unsigned codim, std::vector<Attr>& out) {
  Attr a;
  a.name = name(out.size());
  unsigned c = point ? mesh->DimMesh() : codim;
  bool partial = pick(3) == 2, defu = pick(2);
  constexpr bool vec = !std::is_arithmetic_v<T>;
  T undef{};
  auto fresh = [&]() -> T {
    if constexpr (vec) {
      using S = typename T::Scalar;
      T v;
      int rows = T::RowsAtCompileTime == Eigen::Dynamic ? 2 + static_cast<int>(pick(2)) : T::RowsAtCompileTime;
      if constexpr (T::RowsAtCompileTime == Eigen::Dynamic) v.resize(rows);
      for (int i = 0; i < rows; ++i) v(i) = val<S>();
      return v;
    } else return val<T>();
  };
  auto push = [&](const T& v) {
    if constexpr (vec) { for (int i = 0; i < 3; ++i) a.v.push_back(i < v.size() ? ld(v(i)) : 0.0L); }
    else a.v.push_back(ld(v));
  };
  if constexpr (vec) { a.type = tname<typename T::Scalar>(); a.comps = 3; if constexpr (T::RowsAtCompileTime == Eigen::Dynamic) undef = T::Zero(3); else undef = T::Zero(); }
  else a.type = tname<T>();
  if (!defu) undef = fresh();
  std::map<unsigned, T> value;
  std::set<unsigned> defined;
  for (const auto* e : mesh->Entities(c)) { unsigned i = mesh->Index(*e); value[i] = fresh(); if (!partial || coin()) defined.insert(i); }
  for (unsigned i = 0; i < mesh->NumEntities(c); ++i) push(defined.count(i) ? value[i] : undef);
  auto put = [&](const lf::mesh::utils::MeshDataSet<T>& d) {
    if (point) { if (defu) w.WritePointData(a.name, d); else w.WritePointData(a.name, d, undef); }
    else { if (defu) w.WriteCellData(a.name, d); else w.WriteCellData(a.name, d, undef); }
  };
  if (!partial) {
    lf::mesh::utils::CodimMeshDataSet<T> d(mesh, c);
    for (const auto* e : mesh->Entities(c)) d(*e) = value[mesh->Index(*e)];
    put(d);
  } else {
    struct Part : lf::mesh::utils::MeshDataSet<T> {
      const lf::mesh::Mesh* m; std::map<unsigned, T>* v; std::set<unsigned>* def;
      const T& operator()(const lf::mesh::Entity& e) const override { return v->at(m->Index(e)); }
      bool DefinedOn(const lf::mesh::Entity& e) const override { return def->count(m->Index(e)) > 0; }
    } d;
    d.m = mesh.get(); d.v = &value; d.def = &defined;
    put(d);
  }
  out.push_back(a);
}
void add_any(VtkWriter& w, const std::shared_ptr<const lf::mesh::Mesh>& m, bool point, unsigned codim, std::vector<Attr>& out) {
  switch (pick(12)) {
    case 0: add_mds<double>(w, m, point, codim, out); break;
    case 1: add_mds<float>(w, m, point, codim, out); break;
    case 2: add_mds<int>(w, m, point, codim, out); break;
    case 3: add_mds<unsigned>(w, m, point, codim, out); break;
    case 4: add_mds<char>(w, m, point, codim, out); break;
    case 5: add_mds<unsigned char>(w, m, point, codim, out); break;
    case 6: add_mds<Eigen::Vector2d>(w, m, point, codim, out); break;
    case 7: add_mds<Eigen::Vector2f>(w, m, point, codim, out); break;
    case 8: add_mds<Eigen::Vector3d>(w, m, point, codim, out); break;
    case 9: add_mds<Eigen::Vector3f>(w, m, point, codim, out); break;
    case 10: add_mds<VectorXd>(w, m, point, codim, out); break;
    default: add_mds<Eigen::VectorXf>(w, m, point, codim, out); break;
  }
}
// mesh functions of the global coordinate
struct Fun { double a, b, c, d; double operator()(const VectorXd& x) const { return a + b * x(0) + c * x(1) + d * x(0) * x(1); } };
Fun fun() { return {unit() * 4, unit() * 3, unit() * 3, unit() * 2}; }

template <class T, class F> void put_fun(VtkWriter& w, const std::shared_ptr<const lf::mesh::Mesh>& mesh, bool point, unsigned codim, Attr a, F f, Expect& x, std::vector<Attr>& out) {
  auto mf = lf::mesh::utils::MeshFunctionGlobal([f](const VectorXd& p) -> T { return f(p); });
  auto push = [f](Attr& at, const VectorXd& p) {
    T v = f(p);
    if constexpr (std::is_arithmetic_v<T>) at.v.push_back(ld(v));
    else for (int i = 0; i < 3; ++i) at.v.push_back(i < v.size() ? ld(v(i)) : 0.0L);
  };
  if (point) {
    w.WritePointData(a.name, mf);
    size_t k = out.size();
    out.push_back(a);
    auto prev = x.late;
    x.late = [prev, push, k, &out](const std::vector<VectorXd>& pts) { if (prev) prev(pts); for (auto& p : pts) push(out[k], p); };
  } else {
    w.WriteCellData(a.name, mf);
    for (unsigned i = 0; i < mesh->NumEntities(codim); ++i) {
      const auto* e = mesh->EntityByIndex(codim, i);
      MatrixXd b = e->RefEl().NodeCoords().rowwise().mean();
      push(a, e->Geometry()->Global(b).col(0));
    }
    out.push_back(a);
  }
}
void add_fun(VtkWriter& w, const std::shared_ptr<const lf::mesh::Mesh>& m, bool point, unsigned codim, Expect& x, std::vector<Attr>& out) {
  Attr a;
  a.name = name(out.size());
  Fun f = fun(), g = fun(), h = fun();
  a.inexact = true;
  switch (pick(5)) {
    case 0: a.type = "double"; put_fun<double>(w, m, point, codim, a, f, x, out); break;
    case 1: a.type = "float"; put_fun<float>(w, m, point, codim, a, [f](const VectorXd& p) { return static_cast<float>(f(p)); }, x, out); break;
    case 2: a.type = "int"; a.inexact = false; put_fun<int>(w, m, point, codim, a, [](const VectorXd& p) { return p(0) < 0.4375321 ? -70000 : 123456789; }, x, out); break;
    case 3: a.type = "double"; a.comps = 3; put_fun<Eigen::Vector2d>(w, m, point, codim, a, [f, g](const VectorXd& p) { return Eigen::Vector2d(f(p), g(p)); }, x, out); break;
    default: a.type = "float"; a.comps = 3; put_fun<Eigen::Vector3f>(w, m, point, codim, a, [f, g, h](const VectorXd& p) { return Eigen::Vector3f(f(p), g(p), h(p)); }, x, out); break;
  }
}
void add_global(VtkWriter& w, std::vector<Attr>& out) {
  Attr a;
  a.name = name(out.size());
  size_t n = pick(5);
  auto go = [&](auto tag) { using T = decltype(tag); std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(val<T>()); for (T t : v) a.v.push_back(ld(t)); a.type = tname<T>(); w.WriteGlobalData(a.name, v); };
  switch (pick(3)) { case 0: go(double{}); break; case 1: go(float{}); break; default: go(int{}); }
  out.push_back(a);
}

std::string g_path[2] = {"/simfs/out0.vtk", "/simfs/dir/out1.vtk"};

int fault_plan(size_t hint) {
  uint32_t mode = choose(kFault, 10);
  plan_benign_io();
  if (mode < 5) return 0;
  if (mode < 9) { plan_write_error(static_cast<int64_t>(hint)); return 1; }
  return 2;
}

template <class T> std::unique_ptr<T> mk(std::vector<Attr>& list, size_t n, VtkFile::Attributes& out) { return nullptr; }
template <class T> void direct_scalar(size_t n, VtkFile::Attributes& out, std::vector<Attr>& list) {
  VtkFile::ScalarData<T> d;
  d.name = name(list.size());
  Attr a; a.name = d.name; a.type = tname<T>();
  for (size_t i = 0; i < n; ++i) { d.data.push_back(val<T>()); a.v.push_back(ld(d.data.back())); }
  out.push_back(d); list.push_back(a);
}
template <class T> void direct_vector(size_t n, VtkFile::Attributes& out, std::vector<Attr>& list) {
  VtkFile::VectorData<T> d;
  d.name = name(list.size());
  Attr a; a.name = d.name; a.type = tname<T>(); a.comps = 3;
  for (size_t i = 0; i < n; ++i) { Eigen::Matrix<T, 3, 1> v(val<T>(), val<T>(), val<T>()); d.data.push_back(v); for (int k = 0; k < 3; ++k) a.v.push_back(ld(v(k))); }
  out.push_back(d); list.push_back(a);
}
void direct_attr(size_t n, VtkFile::Attributes& out, std::vector<Attr>& list) {
  switch (pick(12)) {
    case 0: direct_scalar<double>(n, out, list); break;
    case 1: direct_scalar<float>(n, out, list); break;
    case 2: direct_scalar<int>(n, out, list); break;
    case 3: direct_scalar<unsigned>(n, out, list); break;
    case 4: direct_scalar<char>(n, out, list); break;
    case 5: direct_scalar<unsigned char>(n, out, list); break;
    case 6: direct_scalar<short>(n, out, list); break;
    case 7: direct_scalar<unsigned short>(n, out, list); break;
    case 8: direct_scalar<long>(n, out, list); break;
    case 9: direct_scalar<unsigned long>(n, out, list); break;
    case 10: direct_vector<float>(n, out, list); break;
    default: direct_vector<double>(n, out, list); break;
  }
}
void run_direct() {
  VtkFile f;
  Expect x;
  static const char* hd[] = {"", "lehrfem", "a header with spaces and : signs"};
  f.header = hd[pick(3)];
  x.binary = pick(2);
  f.format = x.binary ? VtkFile::Format::BINARY : VtkFile::Format::ASCII;
  size_t np = 1 + pick(9), nc = 1 + pick(5);
  for (size_t i = 0; i < np; ++i) { Eigen::Vector3f p(val<float>(), val<float>(), val<float>()); f.unstructured_grid.points.push_back(p); x.pts.push_back(p.cast<double>()); }
  for (size_t c = 0; c < nc; ++c) {
    size_t k = 1 + pick(5);
    std::vector<unsigned> v;
    for (size_t i = 0; i < k; ++i) v.push_back(pick(static_cast<uint32_t>(np)));
    f.unstructured_grid.cells.push_back(v);
    static const VtkFile::CellType ty[] = {VtkFile::CellType::VTK_POLY_VERTEX, VtkFile::CellType::VTK_POLYGON, VtkFile::CellType::VTK_LAGRANGE_CURVE, VtkFile::CellType::VTK_TRIANGLE};
    f.unstructured_grid.cell_types.push_back(ty[pick(4)]);
    x.cells.push_back(v);
    x.types.push_back(static_cast<int>(f.unstructured_grid.cell_types.back()));
  }
  for (uint32_t k = pick(4); k > 0; --k) direct_attr(np, f.point_data, x.point);
  for (uint32_t k = pick(4); k > 0; --k) direct_attr(nc, f.cell_data, x.cell);
  for (uint32_t k = pick(3); k > 0; --k) {
    Attr a; a.name = name(x.field.size());
    size_t n = pick(4);
    auto go = [&](auto tag) { using T = decltype(tag); std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(val<T>()); for (T t : v) a.v.push_back(ld(t)); a.type = tname<T>(); f.field_data.push_back(VtkFile::FieldDataArray<T>(a.name, v)); };
    switch (pick(3)) { case 0: go(double{}); break; case 1: go(float{}); break; default: go(int{}); }
    x.field.push_back(a);
  }
  x.npts = np;
  x.header = f.header;
  int invalid = static_cast<int>(pick(12));
  bool mustthrow = false;
  if (invalid == 9) { f.unstructured_grid.cell_types.push_back(VtkFile::CellType::VTK_LINE); mustthrow = true; }
  if (invalid == 10) { f.header = "two\nlines"; mustthrow = true; }
  if (invalid == 11) { VtkFile::ScalarData<int> d; d.name = "wrong"; d.data.assign(np + 1, 3); f.point_data.push_back(d); mustthrow = true; }
  disk_reset();
  if (pick(2)) disk_put(g_path[0], std::string(1 + pick(60000), 'z'));
  int plan = fault_plan(200 + np * 30 * (1 + x.point.size()) + nc * 30);
  std::string err;
  if (plan == 2) heap_arm(choose(kFault, 1u << (1 + choose(kFault, 9))), choose(kFault, 3));
  auto oc = hs::attempt([&] { lf::io::WriteToFile(f, g_path[0]); }, &err);
  uint64_t inj = heap_disarm();
  eventf("direct %s: outcome %d %s", x.binary ? "binary" : "text", oc, err.c_str());
  if (mustthrow) { if (oc == hs::kDone) violation("invalid-accepted", "invalid VtkFile (%d) written without error", invalid); return; }
  if (oc == hs::kDone) {
    // the x.pts need not belong to cells here
    Expect y = x;
    std::string bytes;
    disk_get(g_path[0], &bytes);
    y.lag.clear();
    // mark all as seen: check_file compares all points since pts covers them
    check_file(g_path[0], y);
    return;
  }
  if (!disk().write_error_injected && !inj) violation("spurious-error", "export failed on a healthy system: %s", err.c_str());
  fault_hit("reported: exception");
}
void run_writer() {
  mg::Opt o;
  o.allow_curved = o.allow_world3 = o.allow_clockwise = true;
  o.max_n = 3;
  int nw = 1 + static_cast<int>(pick(8) == 7);
  struct One { std::unique_ptr<VtkWriter> w; Expect x; std::shared_ptr<lf::mesh::Mesh> mesh; unsigned codim; };
  std::vector<One> ws(nw);
  disk_reset();
  for (int k = 0; k < nw; ++k) {
    One& z = ws[k];
    auto am = mg::gen(o);
    z.mesh = mg::build(am);
    z.codim = pick(4) == 3;
    static const unsigned ord[] = {1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10};
    unsigned order = ord[pick(13)];
    Expect& x = z.x;
    x.order = order;
    if (pick(2)) disk_put(g_path[k], std::string(1 + pick(60000), 'z'));
    bool deflt = order == 1 && z.codim == 0 && coin();
    z.w = deflt ? std::make_unique<VtkWriter>(z.mesh, g_path[k]) : std::make_unique<VtkWriter>(z.mesh, g_path[k], z.codim, static_cast<unsigned char>(order));
    x.binary = pick(2);
    if (x.binary || coin()) z.w->setBinary(x.binary);
    for (unsigned i = 0; i < z.mesh->NumEntities(2); ++i) x.pts.push_back(z.mesh->EntityByIndex(2, i)->Geometry()->Global(MatrixXd(0, 1)).col(0));
    x.npts = x.pts.size();
    if (order > 1) {
      x.npts += z.mesh->NumEntities(1) * (order - 1);
      if (z.codim == 0) x.npts += z.mesh->NumEntities(lf::base::RefEl::kTria()) * ((order - 1) * (order - 2) / 2) + z.mesh->NumEntities(lf::base::RefEl::kQuad()) * (order - 1) * (order - 1);
    }
    for (unsigned i = 0; i < z.mesh->NumEntities(z.codim); ++i) {
      const auto* e = z.mesh->EntityByIndex(z.codim, i);
      auto r = e->RefEl();
      x.lag.push_back(e->Geometry()->Global(lattice(r, static_cast<int>(order))));
      std::vector<unsigned> c;
      for (const auto* s : e->SubEntities(2 - z.codim)) c.push_back(z.mesh->Index(*s));
      x.cells.push_back(c);
      bool seg = r == lf::base::RefEl::kSegment(), tri = r == lf::base::RefEl::kTria();
      x.types.push_back(order == 1 ? (seg ? 3 : tri ? 5 : 9) : (seg ? 68 : tri ? 69 : 70));
    }
  }
  for (uint32_t ops = pick(7); ops > 0; --ops) {
    One& z = ws[pick(static_cast<uint32_t>(nw))];
    switch (pick(6)) {
      case 0: case 1: if (z.x.order == 1) { add_any(*z.w, z.mesh, true, z.codim, z.x.point); break; } [[fallthrough]];
      case 2: add_fun(*z.w, z.mesh, true, z.codim, z.x, z.x.point); break;
      case 3: add_any(*z.w, z.mesh, false, z.codim, z.x.cell); break;
      case 4: add_fun(*z.w, z.mesh, false, z.codim, z.x, z.x.cell); break;
      default: add_global(*z.w, z.x.field); break;
    }
    if (coin(60) && !z.x.cell.empty()) {  // duplicate and illegal names are refused and leave no trace
      std::string e;
      auto oc = hs::attempt([&] { z.w->WriteCellData(coin() ? z.x.cell[0].name : "with space", lf::mesh::utils::CodimMeshDataSet<int>(z.mesh, z.codim, 3)); }, &e);
      if (oc == hs::kDone) violation("illegal-name-accepted", "duplicate/illegal data set name accepted");
    }
  }
  size_t hint = 200 + ws[0].x.npts * 30 * (1 + ws[0].x.point.size());
  int plan = fault_plan(hint);
  int alive = nw;
  for (auto& z : ws) {
    // z.x.late captures &z.x.point, z does not move any more
    uint64_t werr = disk().write_error_injected;
    (void)werr;
    if (plan == 2) heap_arm(choose(kFault, 1u << (1 + choose(kFault, 10))), choose(kFault, 3));
    if (plan) allow_abort(true, "export reports by terminating");
    std::string err;
    auto oc = hs::attempt([&] { z.w.reset(); }, &err);
    uint64_t inj = heap_disarm();
    allow_abort(false);
    eventf("order %u codim %u %s %zu cells: outcome %d", z.x.order, z.codim, z.x.binary ? "binary" : "text", z.x.cells.size(), oc);
    if (oc != hs::kDone) {
      if (!disk().write_error_injected && !inj) violation("spurious-error", "export failed on a healthy system: %s", err.c_str());
      z.w.release();
      finish();
    }
    check_file(g_path[&z - ws.data()], z.x);
    feature(mix64(z.x.order * 64 + z.codim * 32 + z.x.binary * 16 + plan * 4 + (z.x.point.size() > 0) * 2 + (z.x.cell.size() > 0) + 1024ull * z.x.cells.size()));
    --alive;
  }
}
void run() {
  if (pick(4) == 3) run_direct();
  else run_writer();
}
}  // namespace
const sim::Harness sim::kHarness{"p02_vtk", nullptr, run};
