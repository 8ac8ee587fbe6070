// io, on the simulated disk; Params::a[7] makes file names of concurrent steps distinct
#include <lf/io/io.h>
#include "tour.h"
namespace tour {
namespace {
using hs::Digest;
std::string path(const Params& p, const char* ext) { return "/simfs/t" + std::to_string(p.a[7]) + ext; }
void dfile(Digest& d, const std::string& f) { std::string b; d.u(sim::disk_get(f, &b)); d.s(b); sim::disk_remove(f); }
uint64_t vtk(const World& w, const Params& p) {
  Digest d;
  std::string f = path(p, ".vtk");
  {
    unsigned order = 1 + p.a[0] % 3;
    lf::io::VtkWriter v(w.mesh, f, 0, static_cast<unsigned char>(order));
    v.setBinary(p.a[1] % 2);
    v.WritePointData("wave", MFG(Wave{1, 2}));
    lf::mesh::utils::CodimMeshDataSet<double> cd(w.mesh, 0, 1.5);
    lf::mesh::utils::CodimMeshDataSet<int> pd(w.mesh, 2, 7);
    v.WriteCellData("cells", cd);
    if (order == 1) v.WritePointData("pts", pd);
    v.WriteGlobalData("glob", std::vector<double>{1.0, 2.5});
  }
  dfile(d, f);
  return d.h;
}
uint64_t vtk_fe(const World& w, const Params& p) {
  Digest d;
  std::string f = path(p, ".vtk");
  {
    lf::io::VtkWriter v(w.mesh, f);
    v.WritePointData("u", *w.mf);
    v.WriteCellData("g", *w.gmf);
  }
  dfile(d, f);
  return d.h;
}
uint64_t text(const World& w, const Params& p) {
  Digest d;
  std::string f = path(p, ".csv"), g = path(p, ".m"), h = path(p, ".tex");
  lf::io::writeMatplotlib(*w.mesh, f);
  lf::io::writeMatlab(*w.mesh, g);
  d.u(lf::io::writeTikZ(*w.mesh, h, [&](const lf::mesh::Entity& e) { user(&e); return (w.mesh->Index(e) + p.a[1]) % 4 != 0; }, static_cast<lf::io::TikzOutputCtrl>(p.a[0] % 128)));
  for (auto& x : {f, g, h}) dfile(d, x);
  return d.h;
}
uint64_t hier_matlab(const World& w, const Params& p) {
  Digest d;
  std::string f = path(p, "h");
  lf::refinement::WriteMatlab(*w.hier, f);
  for (unsigned l = 0; l < w.hier->NumLevels(); ++l) { dfile(d, f + "_L" + std::to_string(l) + ".m"); dfile(d, f + "_L" + std::to_string(l) + "_pi.m"); }
  return d.h;
}
uint64_t gmsh(const World& w, const Params& p) {
  Digest d;
  const auto& am = w.spec->am;
  Out o;
  o.precision(17);
  o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n2\n2 1 \"left\"\n2 2 \"right\"\n$EndPhysicalNames\n$Nodes\n" << am.pts.size() << "\n";
  for (size_t i = 0; i < am.pts.size(); ++i) o << i + 1 << " " << am.pts[i](0) << " " << am.pts[i](1) << " " << (am.world == 3 ? am.pts[i](2) : 0.0) << "\n";
  o << "$EndNodes\n$Elements\n" << am.cells.size() << "\n";
  for (size_t i = 0; i < am.cells.size(); ++i) { o << i + 1 << (am.cells[i].v.size() == 3 ? " 2 2 " : " 3 2 ") << 1 + i % 2 << " 5"; for (auto v : am.cells[i].v) o << " " << v + 1; o << "\n"; }
  o << "$EndElements\n";
  std::string f = path(p, ".msh");
  sim::disk_put(f, o.str());
  struct Rm { std::string f; ~Rm() { sim::disk_remove(f); } } rm{f};
  lf::io::GmshReader r(factory(am.world), f);
  d.u(mg::digest(*r.mesh()));
  for (const auto* e : r.mesh()->Entities(0)) { for (auto n : r.PhysicalEntityNr(*e)) d.u(n); d.u(r.IsPhysicalEntity(*e, 1 + p.a[0] % 2)); }
  d.u(r.PhysicalEntityName2Nr("right")); d.s(r.PhysicalEntityNr2Name(1, 0));
  for (auto& x : r.PhysicalEntities(0)) { d.u(x.first); d.s(x.second); }
  return d.h;
}
const Reg reg{{"vtk", vtk, kMesh, kUser | kDisk | kNoOom}, {"vtk-fe", vtk_fe, kMesh | kFes | kPlanar, kDisk | kNoOom}, {"text-export", text, kMesh | kPlanar, kUser | kDisk},
              {"hierarchy-matlab", hier_matlab, kHier | kPlanar, kDisk}, {"gmsh", gmsh, kMesh, kUser | kDisk}};
}  // namespace
}  // namespace tour
