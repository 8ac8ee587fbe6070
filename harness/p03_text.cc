// P03: MATLAB, matplotlib and TikZ exports on a simulated disk.
#include <lf/io/io.h>
#include <lf/refinement/refinement.h>

#include "meshgen.h"
using namespace sim;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace {
using lf::base::RefEl;
using lf::mesh::Mesh;
constexpr const char* kDir = "/simfs/out/";

bool nearv(double got, double want) { return std::abs(got - want) <= 1e-5 * std::abs(want) + 1e-9; }
VectorXd pos(const lf::mesh::Entity& e) { return e.Geometry()->Global(e.RefEl().NodeCoords()).col(0); }

struct Lines {
  std::vector<std::string> l;
  explicit Lines(const std::string& s) {
    size_t i = 0;
    while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); l.push_back(s.substr(i, e - i)); i = e + 1; }
  }
};
// all numbers of a string; false if something that is neither number nor in `skip` is met
bool numbers(const std::string& s, std::vector<double>* out, const char* skip) {
  size_t i = 0;
  while (i < s.size()) {
    if (strchr(skip, s[i])) { ++i; continue; }
    char* e;
    double v = strtod(s.c_str() + i, &e);
    if (e == s.c_str() + i) return false;
    out->push_back(v);
    i = e - s.c_str();
  }
  return true;
}
[[noreturn]] void bad(const std::string& file, const char* cls, const std::string& what) { violation(cls, "%s: %s", file.c_str(), what.c_str()); }

std::string fetch(const std::string& path) {
  std::string b;
  if (!disk_get(path, &b)) violation("file-missing", "export succeeded but %s does not exist", path.c_str());
  return b;
}

// name(i,:) = [a,b,c]; or name(i) = a;   -> table[name][i]
using Table = std::map<std::string, std::map<long, std::vector<double>>>;
Table parse_matlab(const std::string& path, const std::string& bytes) {
  Table t;
  Lines L(bytes);
  if (L.l.empty() || L.l[0].rfind("function", 0) != 0) bad(path, "malformed-file", "no function header");
  if (bytes.back() != '\n') bad(path, "malformed-file", "last line incomplete");
  for (size_t k = 1; k < L.l.size(); ++k) {
    std::string s = L.l[k];
    size_t h = s.find_first_not_of(" \t");
    if (h == std::string::npos || s[h] == '%') continue;
    size_t eq = s.find('=');
    if (eq == std::string::npos) bad(path, "malformed-file", "line " + std::to_string(k) + ": " + s);
    std::string lhs = s.substr(0, eq), rhs = s.substr(eq + 1);
    size_t par = lhs.find('(');
    if (par == std::string::npos) {  // initialisation such as  x = zeros(5,1);  TRI = []; QUAD = [];
      std::string n = lhs;
      std::vector<double> v;
      size_t z = rhs.find("zeros(");
      if (z != std::string::npos) {
        if (!numbers(rhs.substr(z + 6), &v, " ,();") || v.size() != 2) bad(path, "malformed-file", s);
        n.erase(std::remove(n.begin(), n.end(), ' '), n.end());
        t["size:" + n][0] = v;
      }
      continue;
    }
    std::string n = lhs.substr(0, par);
    n.erase(std::remove(n.begin(), n.end(), ' '), n.end());
    std::vector<double> idx, v;
    if (!numbers(lhs.substr(par), &idx, " (),:") || idx.size() != 1 || !numbers(rhs, &v, " ,;[]") || v.empty()) bad(path, "malformed-file", "line " + std::to_string(k) + ": " + s);
    if (!t[n].insert({static_cast<long>(idx[0]), v}).second) bad(path, "entity-listed-twice", n + " " + std::to_string(idx[0]));
  }
  return t;
}
void want_keys(const std::string& path, const Table& t, std::initializer_list<const char*> names) {
  for (auto& e : t) {
    if (e.first.rfind("size:", 0) == 0) continue;
    bool ok = false;
    for (auto* n : names) ok = ok || e.first == n;
    if (!ok) bad(path, "malformed-file", "unexpected variable " + e.first);
  }
}
void check_matlab(const Mesh& m, const std::string& path) {
  Table t = parse_matlab(path, fetch(path));
  want_keys(path, t, {"x", "y", "TRI", "QUAD", "EDS"});
  auto at = [&](const char* n, long i) -> const std::vector<double>& {
    auto& q = t[n];
    auto it = q.find(i);
    if (it == q.end()) bad(path, "entity-missing", hs::fmt("%s(%ld) is missing", n, i));
    return it->second;
  };
  unsigned nn = m.NumEntities(2), ne = m.NumEntities(1), nc = m.NumEntities(0);
  for (auto& z : std::map<std::string, unsigned>{{"size:x", nn}, {"size:y", nn}, {"size:EDS", ne}})
    if (t.count(z.first) && t[z.first][0][0] != z.second) bad(path, "wrong-size", z.first);
  if (t["x"].size() != nn || t["y"].size() != nn) bad(path, "entity-missing", hs::fmt("%zu/%zu coordinates for %u nodes", t["x"].size(), t["y"].size(), nn));
  if (t["EDS"].size() != ne) bad(path, "entity-missing", hs::fmt("%zu edges instead of %u", t["EDS"].size(), ne));
  if (t["TRI"].size() + t["QUAD"].size() != nc) bad(path, "entity-missing", hs::fmt("%zu+%zu cells instead of %u", t["TRI"].size(), t["QUAD"].size(), nc));
  for (const auto* e : m.Entities(2)) {
    long i = m.Index(*e) + 1;
    VectorXd p = pos(*e);
    if (!nearv(at("x", i)[0], p(0)) || !nearv(at("y", i)[0], p(1))) bad(path, "wrong-coordinates", hs::fmt("node %ld", i));
  }
  for (const auto* e : m.Entities(1)) {
    auto& v = at("EDS", m.Index(*e) + 1);
    auto s = e->SubEntities(1);
    if (v.size() != 2 || v[0] != m.Index(*s[0]) + 1 || v[1] != m.Index(*s[1]) + 1) bad(path, "wrong-edge", hs::fmt("edge %u", m.Index(*e)));
  }
  std::vector<char> seen(nc, 0);
  for (int q = 0; q < 2; ++q) {
    auto& tab = t[q ? "QUAD" : "TRI"];
    long k = 0;
    for (auto& r : tab) {
      if (r.first != ++k) bad(path, "entity-missing", "cell rows not consecutive");
      size_t nv = 3 + q;
      if (r.second.size() != nv + 1) bad(path, "wrong-cell", "row length");
      double ci = r.second[nv];
      if (ci < 0 || ci >= nc) bad(path, "wrong-cell", hs::fmt("cell index %g", ci));
      const auto* e = m.EntityByIndex(0, static_cast<unsigned>(ci));
      if (seen[static_cast<size_t>(ci)]++) bad(path, "entity-listed-twice", hs::fmt("cell %g", ci));
      if (e->RefEl().NumNodes() != nv) bad(path, "wrong-cell", hs::fmt("cell %g has the wrong type", ci));
      auto s = e->SubEntities(2);
      for (size_t j = 0; j < nv; ++j) if (r.second[j] != m.Index(*s[j]) + 1) bad(path, "wrong-cell", hs::fmt("vertex %zu of cell %g", j, ci));
    }
  }
}
void check_level(const lf::refinement::MeshHierarchy& h, unsigned lev, const std::string& path) {
  Table t = parse_matlab(path, fetch(path));
  want_keys(path, t, {"PTPAR", "EDPAR", "CELLPAR"});
  auto m = h.getMesh(lev);
  auto n = [](unsigned i) { return i == lf::base::kIdxNil ? -1.0 : static_cast<double>(i); };
  const char* nm[] = {"CELLPAR", "EDPAR", "PTPAR"};
  for (unsigned c = 0; c < 3; ++c) {
    auto& tab = t[nm[c]];
    if (tab.size() != m->NumEntities(c)) bad(path, "entity-missing", hs::fmt("%zu rows in %s instead of %u", tab.size(), nm[c], m->NumEntities(c)));
    auto& pi = h.ParentInfos(lev, c);
    for (unsigned i = 0; i < m->NumEntities(c); ++i) {
      auto it = tab.find(i + 1);
      if (it == tab.end()) bad(path, "entity-missing", hs::fmt("%s row %u", nm[c], i + 1));
      std::vector<double> w{n(pi[i].parent_index), n(pi[i].child_number)};
      if (c == 0) w.push_back(n(h.RefinementEdges(lev)[i]));
      if (it->second != w) bad(path, "wrong-parent-info", hs::fmt("%s row %u", nm[c], i + 1));
    }
  }
}
void check_matplotlib(const Mesh& m, const std::string& path) {
  std::string bytes = fetch(path);
  Lines L(bytes);
  if (bytes.empty() || bytes.back() != '\n') bad(path, "malformed-file", "last line incomplete");
  std::set<std::pair<int, unsigned>> seen;
  for (auto& s : L.l) {
    std::vector<double> v;
    if (!numbers(s, &v, ",") || v.size() < 4) bad(path, "malformed-file", s);
    int c = static_cast<int>(v[0]);
    if (c < 0 || c > 2 || v[1] < 0 || v[1] >= m.NumEntities(c)) bad(path, "malformed-file", s);
    unsigned i = static_cast<unsigned>(v[1]);
    if (!seen.insert({c, i}).second) bad(path, "entity-listed-twice", s);
    const auto* e = m.EntityByIndex(c, i);
    v.erase(v.begin(), v.begin() + 2);
    if (c == 2) {
      VectorXd p = pos(*e);
      if (v.size() != 2 || !nearv(v[0], p(0)) || !nearv(v[1], p(1))) bad(path, "wrong-coordinates", s);
    } else {
      auto sub = e->SubEntities(1);
      if (v.size() != sub.size()) bad(path, "wrong-vertices", s);
      for (size_t j = 0; j < sub.size(); ++j) if (v[j] != m.Index(*sub[j])) bad(path, "wrong-vertices", s);
    }
  }
  size_t want = m.NumEntities(0) + m.NumEntities(1) + m.NumEntities(2);
  if (seen.size() != want) bad(path, "entity-missing", hs::fmt("%zu of %zu entities", seen.size(), want));
}

// one TikZ drawing command
struct Cmd { std::vector<std::array<double, 2>> p; std::vector<long> lab; bool cycle = false, star = false, dash = false, arrow = false; std::string txt; };
void check_tikz(const Mesh& m, const std::string& path, unsigned ctrl, const std::function<bool(const lf::mesh::Entity&)>& sel) {
  std::string b = fetch(path);
  if (b.empty() || b.back() != '\n') bad(path, "malformed-file", "last line incomplete");
  bool pre = ctrl & 64;
  Lines L(b);
  std::vector<Cmd> cmds;
  int pic = 0, doc = 0, cls = 0;
  for (auto& s : L.l) {
    if (s.empty() || s[0] == '%') continue;
    if (s.find("\\documentclass") != s.npos) { if (cls++ || pic || doc) bad(path, "malformed-file", s); continue; }
    if (s.find("\\usepackage") != s.npos || s.find("\\tikzstyle") != s.npos) continue;
    if (s.find("\\begin{document}") != s.npos) { if (doc++ || pic) bad(path, "malformed-file", s); continue; }
    if (s.find("\\end{document}") != s.npos) { if (doc++ != 1 || pic != 2) bad(path, "malformed-file", s); continue; }
    if (s.find("\\begin{tikzpicture}") != s.npos) { if (pic++) bad(path, "malformed-file", s); continue; }
    if (s.find("\\end{tikzpicture}") != s.npos) { if (pic++ != 1) bad(path, "malformed-file", s); continue; }
    if (s.rfind("\\draw", 0) != 0 || pic != 1 || s.back() != ';') bad(path, "malformed-file", s);
    Cmd c;
    c.txt = s;
    size_t i = 5;
    if (s[i] == '[') { size_t e = s.find(']', i); if (e == s.npos) bad(path, "malformed-file", s); c.arrow = s.substr(i, e - i).find("->") != s.npos; i = e + 1; }
    while (i < s.size()) {
      if (s[i] == '(') {
        size_t e = s.find(')', i);
        std::vector<double> v;
        if (e == s.npos || !numbers(s.substr(i + 1, e - i - 1), &v, ",") || v.size() != 2) bad(path, "malformed-file", s);
        c.p.push_back({v[0], v[1]});
        i = e + 1;
      } else if (s[i] == '{') {
        size_t e = s.find('}', i);
        if (e == s.npos) bad(path, "malformed-file", s);
        std::string in = s.substr(i + 1, e - i - 1);
        std::vector<double> v;
        if (in == "*") c.star = true;
        else if (numbers(in, &v, "") && v.size() == 1) c.lab.push_back(static_cast<long>(v[0]));
        else bad(path, "malformed-file", s);
        i = e + 1;
      } else if (s[i] == '[') { size_t e = s.find(']', i); if (e == s.npos) bad(path, "malformed-file", s); i = e + 1; }
      else if (s.compare(i, 5, "cycle") == 0) { c.cycle = true; i += 5; }
      else if (s.compare(i, 4, "node") == 0) i += 4;
      else if (s.compare(i, 2, "--") == 0) { c.dash = true; i += 2; }
      else if (s[i] == ' ' || s[i] == ';') ++i;
      else bad(path, "malformed-file", s);
    }
    cmds.push_back(c);
  }
  if (pic != 2 || doc != (pre ? 2 : 0) || cls != (pre ? 1 : 0)) bad(path, "malformed-file", "environments do not match the request");
  std::vector<char> used(cmds.size(), 0);
  auto take = [&](const std::string& what, const std::function<bool(const Cmd&)>& f) {
    for (size_t i = 0; i < cmds.size(); ++i) if (!used[i] && f(cmds[i])) { used[i] = 1; return; }
    bad(path, "entity-missing", what);
  };
  bool rend = ctrl & 1, cnum = ctrl & 2, vnum = ctrl & 4, nnum = ctrl & 8, enumb = ctrl & 16, arrow = ctrl & 32;
  auto close = [](double a, double b) { return std::abs(a - b) <= 2e-5 * (1 + std::abs(b)); };
  for (unsigned cd = 0; cd < 3; ++cd)
    for (const auto* e : m.Entities(cd)) {
      if (!sel(*e)) continue;
      long idx = m.Index(*e);
      MatrixXd v = e->Geometry()->Global(e->RefEl().NodeCoords());
      VectorXd ctr = v.rowwise().mean();
      size_t n = v.cols();
      auto shrunk = [&](const Cmd& c, bool exact) {
        if (c.p.size() != n) return false;
        double d0 = (v.col(0) - ctr).head(2).norm();
        double s = d0 > 0 ? std::hypot(c.p[0][0] - ctr(0), c.p[0][1] - ctr(1)) / d0 : 1;
        if (exact) s = 1;
        if (s < 0.3 || s > 1.001) return false;
        for (size_t j = 0; j < n; ++j) for (int k = 0; k < 2; ++k) if (!close(c.p[j][k], ctr(k) + s * (v(k, j) - ctr(k)))) return false;
        return true;
      };
      std::string what = hs::fmt("codim %u entity %ld", cd, idx);
      if (cd == 2) take(what, [&](const Cmd& c) { return !c.dash && c.p.size() == 1 && close(c.p[0][0], v(0, 0)) && close(c.p[0][1], v(1, 0)) && c.star == !nnum && c.lab == (nnum ? std::vector<long>{idx} : std::vector<long>{}); });
      else if (cd == 1) take(what, [&](const Cmd& c) { return c.dash && !c.cycle && c.arrow == arrow && shrunk(c, !arrow) && c.lab == (enumb ? std::vector<long>{idx} : std::vector<long>{}); });
      else if (rend) {
        std::vector<long> lab;
        if (vnum) for (size_t j = 0; j < n; ++j) lab.push_back(static_cast<long>(j));
        take(what, [&](const Cmd& c) { return c.cycle && c.lab == lab && shrunk(c, false); });
        if (cnum) take(what + " label", [&](const Cmd& c) { return !c.dash && !c.star && c.p.size() == 1 && c.lab == std::vector<long>{idx} && close(c.p[0][0], ctr(0)) && close(c.p[0][1], ctr(1)); });
      }
    }
  for (size_t i = 0; i < cmds.size(); ++i) if (!used[i]) bad(path, "unexpected-entity", cmds[i].txt);
}

std::string filename(const char* ext) {
  static const char* base[] = {"m", "mesh", "a_rather_long_file_name", "with.dot", "x.m", "x.csv", "x.", "m.csv.bak", "mm", "q.txt", "dcsv", "csv"};
  std::string n = base[pick(12)];
  if (coin(400)) n += ext;
  return n;
}
std::string ended(const std::string& n, const char* ext) { size_t k = strlen(ext); return n.size() >= k && n.compare(n.size() - k, k, ext) == 0 ? n : n + ext; }

void run() {
  mg::Opt o;
  o.allow_curved = o.allow_clockwise = o.allow_world3 = true;
  o.max_n = coin(100) ? 8 : 3;
  auto am = mg::gen(o);
  auto mesh = mg::build(am);
  bool hier = pick(5) >= 4 && am.world == 2;
  std::unique_ptr<lf::refinement::MeshHierarchy> h;
  if (hier) {
    h = std::make_unique<lf::refinement::MeshHierarchy>(mesh, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2));
    for (uint32_t k = pick(3); k > 0; --k) {
      if (h->getMesh(h->NumLevels() - 1)->NumEntities(0) > 60) break;
      switch (pick(3)) {
        case 0: h->RefineRegular(); break;
        case 1: h->RefineRegular(lf::refinement::RefPat::rp_barycentric); break;
        default: { unsigned q = 1 + pick(4); h->MarkEdges([q](const Mesh& mm, const lf::mesh::Entity& e) { return mm.Index(e) % q == 0; }); h->RefineMarked(); }
      }
    }
  }
  disk_reset();
  const std::string other = std::string(kDir) + "other";
  disk_put(other, "untouched");
  int done = 0;
  for (uint32_t rounds = 1 + pick(3); rounds > 0; --rounds) {
    int kind = hier ? static_cast<int>(pick(5)) : static_cast<int>(pick(3));
    uint32_t mode = choose(kFault, 10);
    disk().write_error_injected = false;
    plan_benign_io();
    size_t hint = 100 + 60ull * (mesh->NumEntities(0) + mesh->NumEntities(1) + mesh->NumEntities(2));
    if (mode >= 5 && mode < 9) plan_write_error(static_cast<int64_t>(hint));
    std::vector<std::string> files;
    unsigned ctrl = 0, which = 0;
    std::string err;
    bool ret = true;
    std::string n;
    unsigned lev = 0;
    std::function<bool(const lf::mesh::Entity&)> sel = [](const lf::mesh::Entity&) { return true; };
    std::function<void()> op;
    switch (kind) {
      case 0: n = kDir + filename(".m"); files = {ended(n, ".m")}; op = [&] { lf::io::writeMatlab(*mesh, n); }; break;
      case 1: n = kDir + filename(".csv"); files = {ended(n, ".csv")}; op = [&] { lf::io::writeMatplotlib(*mesh, n); }; break;
      case 2: {
        n = kDir + filename(".tex");
        files = {n};
        which = pick(4);
        unsigned sm = pick(6);
        if (which >= 2) sel = [sm, mesh](const lf::mesh::Entity& e) { return sm < 3 ? e.Codim() != sm : sm == 3 ? mesh->Index(e) % 3 != 0 : sm == 4 ? e.RefEl() == RefEl::kTria() || e.Codim() == 1 : false; };
        ctrl = which % 2 == 0 ? 1 : pick(128);
        auto c = static_cast<lf::io::TikzOutputCtrl>(ctrl);
        op = [&, c] {
          auto s = sel;
          ret = which == 0 ? lf::io::writeTikZ(*mesh, n) : which == 1 ? lf::io::writeTikZ(*mesh, n, c) : which == 2 ? lf::io::writeTikZ(*mesh, n, std::move(s)) : lf::io::writeTikZ(*mesh, n, std::move(s), c);
        };
        break;
      }
      case 3: lev = pick(h->NumLevels()); n = kDir + filename(".m"); files = {ended(n, ".m")}; op = [&] { lf::refinement::WriteMatlabLevel(*h, lev, n); }; break;
      default:
        n = std::string(kDir) + (coin() ? "hier" : "x.m");
        for (unsigned l = 0; l < h->NumLevels(); ++l) { files.push_back(n + "_L" + std::to_string(l) + ".m"); files.push_back(n + "_L" + std::to_string(l) + "_pi.m"); }
        op = [&] { lf::refinement::WriteMatlab(*h, n); };
    }
    for (auto& f : files) if (coin(400)) disk_put(f, std::string(1 + pick(40000), 'z'));
    auto before = disk_list();
    if (mode == 9) heap_arm(choose(kFault, 1u << (1 + choose(kFault, 10))), choose(kFault, 3));
    auto oc = hs::attempt(op, &err);
    uint64_t inj = heap_disarm();
    eventf("writer %d ctrl %u which %u '%s': outcome %d ret %d %s", kind, ctrl, which, n.c_str(), oc, ret, err.substr(0, 60).c_str());
    bool success = oc == hs::kDone && ret;
    if (!success) {
      if (!disk().write_error_injected && !inj) violation("spurious-error", "export failed on a healthy system: %s", err.c_str());
      if (inj && !disk().write_error_injected && oc == hs::kThrew) violation("wrong-exception", "memory exhaustion surfaced as: %s", err.c_str());
      fault_hit(oc == hs::kDone ? "reported: false" : "reported: exception");
    } else {
      switch (kind) {
        case 0: check_matlab(*mesh, files[0]); break;
        case 1: check_matplotlib(*mesh, files[0]); break;
        case 2: check_tikz(*mesh, files[0], ctrl, sel); break;
        case 3: check_level(*h, lev, files[0]); break;
        default: for (unsigned l = 0; l < h->NumLevels(); ++l) { check_matlab(*h->getMesh(l), files[2 * l]); check_level(*h, l, files[2 * l + 1]); }
      }
      ++done;
    }
    // nothing but the documented files may have been created or changed
    for (auto& f : disk_list())
      if (std::find(files.begin(), files.end(), f) == files.end() && std::find(before.begin(), before.end(), f) == before.end()) violation("wrong-file-name", "created %s, documented name %s", f.c_str(), files[0].c_str());
    std::string ob;
    if (!disk_get(other, &ob) || ob != "untouched") violation("other-file-damaged", "an unrelated file changed");
    feature(mix64(kind * 16 + mode + 1000 * ctrl + 200000 * which + 10000000ull * mesh->NumEntities(0)));
    // the next export meets a healthy disk again
    auto list = disk_list();
    std::vector<std::pair<std::string, std::string>> keep;
    for (auto& f : list) { std::string b; disk_get(f, &b); keep.push_back({f, b}); }
    disk_reset();
    for (auto& f : keep) disk_put(f.first, f.second);
  }
}
}  // namespace
const sim::Harness sim::kHarness{"p03_text", nullptr, run};
