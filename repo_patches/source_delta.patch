From 31174f4745fba02ea2f41d8ca09824cb02c2f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:01 +0000
Subject: [PATCH 01/32] fix: GmshReader name/number lookup must not dereference
 the end iterator

---
 lib/lf/io/gmsh_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 5aaac08..358104c 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -53,10 +53,10 @@ size_type GmshReader::PhysicalEntityName2Nr(const std::string& name,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
@@ -87,10 +87,10 @@ std::string GmshReader::PhysicalEntityNr2Name(size_type number,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
-- 
2.43.0


From 7bbed52cd4d08bef6518d14ef460602d8af6ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:01 +0000
Subject: [PATCH 02/32] fix: ReadGmshFile reports an I/O error instead of
 parsing the part read so far

---
 lib/lf/io/gmsh_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 358104c..7cea13c 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -656,6 +656,9 @@ std::variant<GMshFileV2, GMshFileV4> ReadGmshFile(const std::string& filename) {
   in.unsetf(std::ios::skipws);  // no white space skipping
   std::copy(std::istream_iterator<char>(in), std::istream_iterator<char>(),
             std::back_inserter(storage));
+  if (in.bad()) {
+    throw lf::base::LfException("Error while reading file " + filename);
+  }
 
   // Parse header to determine if we are dealing with ASCII format or binary
   // format + little or big endian:
-- 
2.43.0


From 88b95241243e9af4bd2af1a9bd48d691a0037b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:01 +0000
Subject: [PATCH 03/32] fix: GmshReader assigns repeated point elements to the
 point they belong to

---
 lib/lf/io/gmsh_reader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 7cea13c..63fcb55 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -219,7 +219,8 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
     const auto& end_element = msh_file.Elements[end];
     auto ref_el = RefElOf(end_element.Type);
     auto codim = dim_mesh - ref_el.Dimension();
-    if (begin_element.NodeNumbers == end_element.NodeNumbers && begin != end &&
+    if (ref_el != base::RefEl::kPoint() && begin != end &&
+        begin_element.NodeNumbers == end_element.NodeNumbers &&
         begin_element.Type == end_element.Type) {
       // This entity appears more than once
       mi2gi[codim].back().push_back(end);
@@ -468,7 +469,8 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
       const auto& begin_element = element_block.elements[begin];
       const auto& end_element = element_block.elements[end];
 
-      if (begin_element.second == end_element.second && begin != end) {
+      if (ref_el != base::RefEl::kPoint() && begin != end &&
+          begin_element.second == end_element.second) {
         // This entity appears more than once
         mi2gi[codim].back().emplace_back(ebi);
         continue;
-- 
2.43.0


From 65bb9297e2bc41ecce9a2c4828cef4cd16fd3226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:01 +0000
Subject: [PATCH 04/32] fix: GmshReader::PhysicalEntityNr returns the numbers
 sorted as documented

---
 lib/lf/io/gmsh_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 63fcb55..2a2ceb2 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -2,6 +2,7 @@
 
 #include <lf/geometry/geometry.h>
 
+#include <algorithm>
 #include <boost/fusion/adapted/std_tuple.hpp>
 #include <boost/spirit/include/qi.hpp>
 #include <boost/spirit/include/qi_string.hpp>
@@ -323,6 +324,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
           temp.push_back(msh_file.Elements[gmsh_index].PhysicalEntityNr);
         }
 
+        std::sort(temp.begin(), temp.end());
         physical_nrs_->operator()(*e) = std::move(temp);
       }
     }
@@ -621,6 +623,7 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
                       std::end(physical_tags));
         }
 
+        std::sort(temp.begin(), temp.end());
         physical_nrs_->operator()(*e) = std::move(temp);
       }
     }
-- 
2.43.0


From ae1010095537fee5f106a59e484e94362c494b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:01 +0000
Subject: [PATCH 05/32] fix: binary Gmsh 4.1 files may contain comment sections

---
 lib/lf/io/gmsh_file_v4_binary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/gmsh_file_v4_binary.cc b/lib/lf/io/gmsh_file_v4_binary.cc
index 39c347c..4d05df3 100644
--- a/lib/lf/io/gmsh_file_v4_binary.cc
+++ b/lib/lf/io/gmsh_file_v4_binary.cc
@@ -200,7 +200,7 @@ struct MshV4GrammarBinary
   }
 
   qi::rule<ITERATOR, std::string(), ascii::space_type> quoted_string_;
-  qi::rule<ITERATOR, std::string(), ascii::space_type> start_comment_;
+  qi::rule<ITERATOR, std::string()> start_comment_;
   qi::rule<ITERATOR, qi::locals<std::string>, ascii::space_type> comment_;
   qi::rule<ITERATOR, Eigen::Vector3d()> vec3_;
   qi::rule<ITERATOR, std::vector<int>, qi::locals<std::size_t>> int_vec_;
-- 
2.43.0


From 8d3b2c7012285da92e87b499102739a70014d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:25 +0000
Subject: [PATCH 06/32] fix: GmshReader reads past the node map for point
 elements on auxiliary nodes

---
 lib/lf/io/gmsh_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 2a2ceb2..81839c7 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -230,9 +230,12 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
 
     begin = end;
     if (ref_el == base::RefEl::kPoint()) {
-      auto mesh_index = gi2mi[end_element.NodeNumbers[0]];
       // check that this node is a main node (auxilliary nodes are not inserted
       // into the mesh!):
+      const auto node_number = end_element.NodeNumbers[0];
+      const auto mesh_index = node_number < gi2mi.size()
+                                  ? gi2mi[node_number]
+                                  : static_cast<size_type>(-1);
       if (mesh_index != std::numeric_limits<unsigned int>::max()) {
         // special case, this entity is a point (which has already been
         // inserted)
-- 
2.43.0


From 2559d3a739499c20a10568ddd1139cf3fa09bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:25 +0000
Subject: [PATCH 07/32] fix: GmshReader rejects files whose elements refer to
 missing nodes or entities

---
 lib/lf/io/gmsh_reader.cc | 62 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 81839c7..e6d3f30 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -7,6 +7,7 @@
 #include <boost/spirit/include/qi.hpp>
 #include <boost/spirit/include/qi_string.hpp>
 #include <fstream>
+#include <unordered_set>
 
 #include "eigen_fusion_adapter.h"
 
@@ -133,6 +134,25 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
   // This is necessary because e.g. second order meshes in gmsh need a lot of
   // auxilliary nodes to define their geometry...
   /////////////////////////////////////////////////////////////////////////////
+  // Make sure that every element refers to nodes that are part of the file
+  {
+    std::unordered_set<size_type> node_numbers;
+    for (const auto& n : msh_file.Nodes) {
+      node_numbers.insert(n.first);
+    }
+    for (const auto& e : msh_file.Elements) {
+      LF_VERIFY_MSG(e.NodeNumbers.size() == NumNodes(e.Type),
+                    "Element " << e.Number << " of type " << e.Type << " has "
+                               << e.NodeNumbers.size() << " nodes.");
+      for (auto node_number : e.NodeNumbers) {
+        LF_VERIFY_MSG(node_numbers.count(node_number) == 1,
+                      "Element " << e.Number << " refers to node "
+                                 << node_number
+                                 << " which is not part of the file.");
+      }
+    }
+  }
+
   // is_main_node[i] = true means that gmsh-node i is one of the main nodes of
   // an element
   std::vector<bool> is_main_node(msh_file.Nodes.size(), false);
@@ -161,7 +181,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
         for (unsigned int i = 0; i < ref_el.NumNodes(); ++i) {
           auto node_number = e.NodeNumbers[i];
           if (is_main_node.size() <= node_number) {
-            is_main_node.resize(node_number + 1);
+            is_main_node.resize(std::size_t{node_number} + 1);
           }
           is_main_node[node_number] = true;
         }
@@ -191,7 +211,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
   for (std::size_t i = 0; i < msh_file.Nodes.size(); ++i) {
     const auto& n = msh_file.Nodes[i];
     if (gi2i.size() <= n.first) {
-      gi2i.resize(n.first + 1, -1);
+      gi2i.resize(std::size_t{n.first} + 1, -1);
     }
     gi2i[n.first] = i;
 
@@ -297,6 +317,9 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
       std::vector<size_type> main_nodes(ref_el.NumNodes());
       for (dim_t i = 0; i < ref_el.NumNodes(); ++i) {
         main_nodes[i] = gi2mi[end_element.NodeNumbers[i]];
+        LF_VERIFY_MSG(main_nodes[i] != static_cast<size_type>(-1),
+                      "Node " << end_element.NodeNumbers[i]
+                              << " does not belong to any cell.");
       }
 
       mesh_factory_->AddEntity(ref_el, main_nodes, std::move(geom));
@@ -370,6 +393,29 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
   auto min_node_tag = msh_file.nodes.min_node_tag;
   auto max_node_tag = msh_file.nodes.max_node_tag;
 
+  // Make sure that every element refers to nodes that are part of the file
+  {
+    std::unordered_set<std::size_t> node_tags;
+    for (const auto& nb : msh_file.nodes.node_blocks) {
+      for (const auto& n : nb.nodes) {
+        LF_VERIFY_MSG(n.first >= min_node_tag && n.first <= max_node_tag,
+                      "node tag " << n.first << " is not in the range ["
+                                  << min_node_tag << ", " << max_node_tag
+                                  << "] announced by the file.");
+        node_tags.insert(n.first);
+      }
+    }
+    for (const auto& eb : msh_file.elements.element_blocks) {
+      for (const auto& e : eb.elements) {
+        for (auto node_tag : e.second) {
+          LF_VERIFY_MSG(node_tags.count(node_tag) == 1,
+                        "Element " << e.first << " refers to node " << node_tag
+                                   << " which is not part of the file.");
+        }
+      }
+    }
+  }
+
   // is_main_node[i] = true means that gmsh-node (i + min_node_tag) is one of
   // the main nodes of an element
   std::vector<bool> is_main_node(max_node_tag - min_node_tag + 1, false);
@@ -549,6 +595,9 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
         std::vector<size_type> main_nodes(ref_el.NumNodes());
         for (dim_t i = 0; i < ref_el.NumNodes(); ++i) {
           main_nodes[i] = gi2mi[end_element.second[i] - min_node_tag];
+          LF_VERIFY_MSG(main_nodes[i] != static_cast<size_type>(-1),
+                        "Node " << end_element.second[i]
+                                << " does not belong to any cell.");
         }
 
         mesh_factory_->AddEntity(ref_el, main_nodes, std::move(geom));
@@ -573,9 +622,10 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
     // find largest entity tag:
     int max_entity_tag = 0;
     for (auto& e : entities) {
+      LF_VERIFY_MSG(e.tag >= 0, "Entity with negative tag " << e.tag);
       max_entity_tag = std::max(max_entity_tag, e.tag);
     }
-    result.resize(max_entity_tag + 1);
+    result.resize(static_cast<std::size_t>(max_entity_tag) + 1);
 
     // build map:
     for (auto& e : entities) {
@@ -621,6 +671,12 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
         for (auto& gmsh_index : mi2gi[c][mi]) {
           const auto& element_block =
               msh_file.elements.element_blocks[gmsh_index];
+          LF_VERIFY_MSG(
+              element_block.entity_tag >= 0 &&
+                  static_cast<std::size_t>(element_block.entity_tag) <
+                      gmei2gmphi[c].size(),
+              "Element block refers to entity " << element_block.entity_tag
+                                                << " which does not exist.");
           auto& physical_tags = gmei2gmphi[c][element_block.entity_tag];
           temp.insert(std::end(temp), std::begin(physical_tags),
                       std::end(physical_tags));
-- 
2.43.0


From 106dce588fb5f45e71d2d0e501795a4b872d407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:40 +0000
Subject: [PATCH 08/32] fix: VTK WriteToFile reports write errors and validates
 before truncating the file

---
 lib/lf/io/vtk_writer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index b8a1f4c..e39f42f 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -549,10 +549,10 @@ Eigen::MatrixXd AuxNodesQuad(unsigned char order) {
 }  // namespace
 
 void WriteToFile(const VtkFile& vtk_file, const std::string& filename) {
-  std::ofstream file(filename, std::ios_base::out | std::ios_base::binary |
-                                   std::ios_base::trunc);
   ValidateVtkFile(vtk_file);
 
+  std::ofstream file(filename, std::ios_base::out | std::ios_base::binary |
+                                   std::ios_base::trunc);
   if (!file.is_open()) {
     throw base::LfException("Could not open file " + filename +
                             " for writing.");
@@ -572,6 +572,9 @@ void WriteToFile(const VtkFile& vtk_file, const std::string& filename) {
   if (!result) {
     throw base::LfException("Karma error");
   }
+  if (!file) {
+    throw base::LfException("Error while writing to file " + filename);
+  }
 }
 
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
-- 
2.43.0


From ac84ee91427ea0d708731f87275e00550737e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:41 +0000
Subject: [PATCH 09/32] fix: VtkWriter samples cell data of quadrilaterals at
 their barycenter

---
 lib/lf/io/vtk_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/vtk_writer.h b/lib/lf/io/vtk_writer.h
index e5d5afa..5fd7287 100644
--- a/lib/lf/io/vtk_writer.h
+++ b/lib/lf/io/vtk_writer.h
@@ -933,7 +933,7 @@ void VtkWriter::WriteCellData(const std::string& name,
   barycenters[base::RefEl::kTria().Id()] =
       base::RefEl::kTria().NodeCoords().rowwise().sum() / 3.;
   barycenters[base::RefEl::kQuad().Id()] =
-      base::RefEl::kTria().NodeCoords().rowwise().sum() / 4.;
+      base::RefEl::kQuad().NodeCoords().rowwise().sum() / 4.;
 
   if constexpr (base::EigenArray<T> || base::EigenMatrix<T>) {
     static_assert(T::ColsAtCompileTime == 1,
-- 
2.43.0


From 577df80c5843606adcd254b7204373753d6e9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:41 +0000
Subject: [PATCH 10/32] fix: writeTikZ returns false if the file could not be
 written completely

---
 lib/lf/io/write_tikz.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/lf/io/write_tikz.cc b/lib/lf/io/write_tikz.cc
index 70e98e8..78c2abd 100644
--- a/lib/lf/io/write_tikz.cc
+++ b/lib/lf/io/write_tikz.cc
@@ -245,7 +245,8 @@ bool writeTikZ(const lf::mesh::Mesh &mesh, const std::string &filename,
   if (WithPreamble) {
     outfile << "\n\\end{document}" << '\n';
   }
-  return true;
+  outfile.close();
+  return static_cast<bool>(outfile);
 }  // writetikz
 
 // Second version of writeTikZ using default selector
-- 
2.43.0


From 45681a2816ae067863e48bc7bf6ae8f3b29e080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:15 +0000
Subject: [PATCH 11/32] fix: MATLAB and matplotlib writers append the file
 extension whenever it is missing

---
 lib/lf/io/write_matlab.cc     | 4 +---
 lib/lf/io/write_matplotlib.cc | 2 +-
 lib/lf/refinement/refutils.cc | 4 +---
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/lf/io/write_matlab.cc b/lib/lf/io/write_matlab.cc
index ce66062..740ea41 100644
--- a/lib/lf/io/write_matlab.cc
+++ b/lib/lf/io/write_matlab.cc
@@ -13,9 +13,7 @@ void writeMatlab(const lf::mesh::Mesh& mesh, std::string filename) {
 
   // Preprocess filename: append .m, if not there already
   {
-    const size_type fn_len = filename.size();
-    if ((fn_len > 1) && (filename[fn_len - 2] != '.') &&
-        (filename[fn_len - 1] != 'm')) {
+    if (!filename.ends_with(".m")) {
       filename += ".m";
     }
   }
diff --git a/lib/lf/io/write_matplotlib.cc b/lib/lf/io/write_matplotlib.cc
index 62e6d4b..cab620f 100644
--- a/lib/lf/io/write_matplotlib.cc
+++ b/lib/lf/io/write_matplotlib.cc
@@ -18,7 +18,7 @@ void writeMatplotlib(const lf::mesh::Mesh &mesh, std::string filename) {
   using dim_t = lf::base::RefEl::dim_t;
 
   // append .csv to filename if necessary
-  if (filename.compare(filename.size() - 4, 4, ".csv") != 0) {
+  if (!filename.ends_with(".csv")) {
     filename += ".csv";
   }
 
diff --git a/lib/lf/refinement/refutils.cc b/lib/lf/refinement/refutils.cc
index 7d0f992..dcceff7 100644
--- a/lib/lf/refinement/refutils.cc
+++ b/lib/lf/refinement/refutils.cc
@@ -21,9 +21,7 @@ void WriteMatlabLevel(const MeshHierarchy &hier_mesh, size_type level,
                       std::string filename) {
   // Preprocess filename: append .m, if not there already
   {
-    const size_type fn_len = filename.size();
-    if ((fn_len > 1) && (filename[fn_len - 2] != '.') &&
-        (filename[fn_len - 1] != 'm')) {
+    if (!filename.ends_with(".m")) {
       filename += ".m";
     }
   }
-- 
2.43.0


From 0f774fd12d480ddf4f7abf85a9cc65ad6fc5bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:02 +0000
Subject: [PATCH 12/32] fix: MATLAB and matplotlib writers report failure to
 open or write the file

---
 lib/lf/io/write_matlab.cc     | 9 +++++++++
 lib/lf/io/write_matlab.h      | 2 ++
 lib/lf/io/write_matplotlib.cc | 9 +++++++++
 lib/lf/io/write_matplotlib.h  | 2 ++
 lib/lf/refinement/refutils.cc | 8 ++++++++
 lib/lf/refinement/refutils.h  | 2 ++
 6 files changed, 32 insertions(+)

diff --git a/lib/lf/io/write_matlab.cc b/lib/lf/io/write_matlab.cc
index 740ea41..f0fc67e 100644
--- a/lib/lf/io/write_matlab.cc
+++ b/lib/lf/io/write_matlab.cc
@@ -2,6 +2,8 @@
 
 #include "write_matlab.h"
 
+#include <lf/base/base.h>
+
 #include <fstream>
 
 namespace lf::io {
@@ -108,6 +110,13 @@ void writeMatlab(const lf::mesh::Mesh& mesh, std::string filename) {
       }
       cell_cnt++;
     }
+  } else {
+    throw base::LfException("Could not open file " + filename +
+                            " for writing.");
+  }
+  file.close();
+  if (!file) {
+    throw base::LfException("Error while writing to file " + filename);
   }
 }
 
diff --git a/lib/lf/io/write_matlab.h b/lib/lf/io/write_matlab.h
index 1664865..497f26d 100644
--- a/lib/lf/io/write_matlab.h
+++ b/lib/lf/io/write_matlab.h
@@ -31,6 +31,8 @@ namespace lf::io {
  * The the ordering of the nodes in the coordinate arrays corresponds to their
  * indices.
  *
+ * Throws a base::LfException if the file cannot be opened or written.
+ *
  * The data returned by this function can be visualized by the MATLAB
  * function plot_lf_mesh(), which is also  provided with LehrFEM++.
  *
diff --git a/lib/lf/io/write_matplotlib.cc b/lib/lf/io/write_matplotlib.cc
index cab620f..0cb9f36 100644
--- a/lib/lf/io/write_matplotlib.cc
+++ b/lib/lf/io/write_matplotlib.cc
@@ -8,6 +8,8 @@
 
 #include "write_matplotlib.h"
 
+#include <lf/base/base.h>
+
 #include <fstream>
 #include <iostream>
 
@@ -74,6 +76,13 @@ void writeMatplotlib(const lf::mesh::Mesh &mesh, std::string filename) {
         }
       }
     }
+  } else {
+    throw base::LfException("Could not open file " + filename +
+                            " for writing.");
+  }
+  file.close();
+  if (!file) {
+    throw base::LfException("Error while writing to file " + filename);
   }
 }
 
diff --git a/lib/lf/io/write_matplotlib.h b/lib/lf/io/write_matplotlib.h
index 924a9c0..c72e9c7 100644
--- a/lib/lf/io/write_matplotlib.h
+++ b/lib/lf/io/write_matplotlib.h
@@ -33,6 +33,8 @@ namespace lf::io {
  * codim, index, segment1_idx, segment2_idx, ...
  *
  * The .csv file can be read by plot_mesh.py to visualize the mesh
+ *
+ * Throws a base::LfException if the file cannot be opened or written.
  */
 void writeMatplotlib(const lf::mesh::Mesh &mesh, std::string filename);
 
diff --git a/lib/lf/refinement/refutils.cc b/lib/lf/refinement/refutils.cc
index dcceff7..e2f7d8a 100644
--- a/lib/lf/refinement/refutils.cc
+++ b/lib/lf/refinement/refutils.cc
@@ -4,6 +4,7 @@
 
 #include "refutils.h"
 
+#include <lf/base/base.h>
 #include <lf/io/io.h>
 #include <lf/mesh/utils/utils.h>
 
@@ -74,6 +75,13 @@ void WriteMatlabLevel(const MeshHierarchy &hier_mesh, size_type level,
              << normalize_idx(ref_eds[k]) << " ];" << '\n';
       }
     }
+  } else {
+    throw base::LfException("Could not open file " + filename +
+                            " for writing.");
+  }
+  file.close();
+  if (!file) {
+    throw base::LfException("Error while writing to file " + filename);
   }
 }
 
diff --git a/lib/lf/refinement/refutils.h b/lib/lf/refinement/refutils.h
index acebc43..89ef300 100644
--- a/lib/lf/refinement/refutils.h
+++ b/lib/lf/refinement/refutils.h
@@ -14,6 +14,8 @@ namespace lf::refinement {
  * @param hier_mesh reference to a valid MeshHierarchy object
  * @param level refinement level to be output
  * @param filename output file in which to store the MATLAB code
+ *
+ * Throws a base::LfException if the file cannot be opened or written.
  */
 void WriteMatlabLevel(const MeshHierarchy &hier_mesh, size_type level,
                       std::string filename);
-- 
2.43.0


From 855a4eda651b61da0df276a899a6dfde7f8ce11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:06 +0000
Subject: [PATCH 13/32] fix: VTK text field data may be empty, unsigned char
 scalars are declared as such, and triangle nodes of order >= 7 are evaluated
 at the right points

---
 lib/lf/io/vtk_writer.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index e39f42f..25c7f47 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -200,16 +200,16 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
     } else {
       field_data_int %= karma::string << lit(" 1 ") << lit(size(at_c<1>(_val)))
                                       << lit(" int") << eol
-                                      << (karma::int_ % lit(' ')) << eol;
+                                      << -(karma::int_ % lit(' ')) << eol;
       field_data_float %= karma::string
                           << lit(" 1 ") << lit(size(at_c<1>(_val)))
-                          << lit(" float") << eol << (karma::float_ % lit(' '))
+                          << lit(" float") << eol << -(karma::float_ % lit(' '))
                           << eol;
 
       field_data_double %= karma::string << lit(" 1 ")
                                          << lit(size(at_c<1>(_val)))
                                          << lit(" double") << eol
-                                         << (karma::double_ % lit(' ')) << eol;
+                                         << -(karma::double_ % lit(' ')) << eol;
     }
     field_data %= lit("FIELD FieldData ")
                   << lit(size(_val)) << eol
@@ -224,7 +224,7 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
           << eol;
 
       scalar_data_uchar %=
-          (lit("SCALARS ") << karma::string << lit(" char 1") << eol
+          (lit("SCALARS ") << karma::string << lit(" unsigned_char 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
                            << *karma::byte_)
           << eol;
@@ -308,7 +308,7 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
           << eol;
 
       scalar_data_uchar %=
-          (lit("SCALARS ") << karma::string << lit(" char 1") << eol
+          (lit("SCALARS ") << karma::string << lit(" unsigned_char 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
                            << (*(karma::ushort_ % eol)))
           << eol;
@@ -523,8 +523,8 @@ Eigen::MatrixXd AuxNodesTria(unsigned char order) {
       // assign interior points recursively:
       auto points = AuxNodesTria(order - 3);
       result.block(0, 3 * order - 9, 2, points.cols()) =
-          AuxNodesTria(order - 3) * (order - 6.) / order +
-          Eigen::Vector2d(2. / order, 2. / order) *
+          points * (order - 3.) / order +
+          Eigen::Vector2d(1. / order, 1. / order) *
               Eigen::MatrixXd::Ones(1, points.cols());
     }
   }
-- 
2.43.0


From 29a819e31d91c9515e811dcf286b598beade96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:06 +0000
Subject: [PATCH 14/32] fix: edges may be added to a mesh without a geometry,
 as documented

---
 lib/lf/mesh/hybrid2d/mesh.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index 1c937f2..ec2dfe3 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -250,17 +250,16 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     // If one of the endpoints of a edge does not have a geometry, supply it
     // with one inherited from the edge.
     for (int j = 0; j < 2; ++j) {
-      if (nodes[end_nodes[j]] == nullptr) {
+      if (nodes[end_nodes[j]] == nullptr && e.second != nullptr) {
         // if no geometry for node exists request geomtry for an endpoint of the
         // edge Note: endpoints are entities of relative co-dimension 1
         nodes[end_nodes[j]] = e.second->SubGeometry(1, j);
       }
     }
 
-    // Store provided geometry information; information on adjacent cells
+    // Store provided geometry information (may be missing, then it will be
+    // deduced from an adjacent cell below); information on adjacent cells
     // not yet available.
-    LF_ASSERT_MSG(e.second != nullptr,
-                  "Edge " << edge_index << ": missing geometry!");
     const AdjCellsList empty_cells_list{};
     EdgeData edge_data(std::move(e.second), empty_cells_list, edge_index);
     EdgeMap::value_type edge_info =
-- 
2.43.0


From 5ebe8810e85afa7a4ef99ed9a517c2f0f4feb468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:19 +0000
Subject: [PATCH 15/32] fix: straight edges and cells without explicit geometry
 are built in the mesh's world dimension

---
 lib/lf/mesh/hybrid2d/mesh.cc | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index ec2dfe3..df0bd29 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -539,11 +539,10 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     GeometryPtr edge_geo_ptr(std::move(edge.second.geo_uptr));
     if (!edge_geo_ptr) {
       // If the edge does not have a geometry build a straight edge
-      Eigen::Matrix<double, 2, 2> straight_edge_coords;
-      straight_edge_coords.block<2, 1>(0, 0) =
-          p0_ptr->Geometry()->Global(zero_point);
-      straight_edge_coords.block<2, 1>(0, 1) =
-          p1_ptr->Geometry()->Global(zero_point);
+      Eigen::Matrix<double, Eigen::Dynamic, 2> straight_edge_coords(dim_world_,
+                                                                    2);
+      straight_edge_coords.col(0) = p0_ptr->Geometry()->Global(zero_point);
+      straight_edge_coords.col(1) = p1_ptr->Geometry()->Global(zero_point);
       edge_geo_ptr =
           std::make_unique<geometry::SegmentO1>(straight_edge_coords);
     }
@@ -683,13 +682,11 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
         // At this point only the latter policy is implemented
         // and we build an affine triangle.
         // First assemble corner coordinates into matrix
-        Eigen::Matrix<double, 2, 3> triag_corner_coords;
-        triag_corner_coords.block<2, 1>(0, 0) =
-            corner0->Geometry()->Global(zero_point);
-        triag_corner_coords.block<2, 1>(0, 1) =
-            corner1->Geometry()->Global(zero_point);
-        triag_corner_coords.block<2, 1>(0, 2) =
-            corner2->Geometry()->Global(zero_point);
+        Eigen::Matrix<double, Eigen::Dynamic, 3> triag_corner_coords(dim_world_,
+                                                                     3);
+        triag_corner_coords.col(0) = corner0->Geometry()->Global(zero_point);
+        triag_corner_coords.col(1) = corner1->Geometry()->Global(zero_point);
+        triag_corner_coords.col(2) = corner2->Geometry()->Global(zero_point);
 
         // Diagnostics
         SPDLOG_LOGGER_TRACE(Logger(), "Creating triangle with geometry \n{}",
@@ -732,15 +729,12 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
         // with straight edges ("bilinear quadrilateral")
         // First assemble corner coordinates into matrix
 
-        Eigen::Matrix<double, 2, 4> quad_corner_coords;
-        quad_corner_coords.block<2, 1>(0, 0) =
-            corner0->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 1) =
-            corner1->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 2) =
-            corner2->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 3) =
-            corner3->Geometry()->Global(zero_point);
+        Eigen::Matrix<double, Eigen::Dynamic, 4> quad_corner_coords(dim_world_,
+                                                                    4);
+        quad_corner_coords.col(0) = corner0->Geometry()->Global(zero_point);
+        quad_corner_coords.col(1) = corner1->Geometry()->Global(zero_point);
+        quad_corner_coords.col(2) = corner2->Geometry()->Global(zero_point);
+        quad_corner_coords.col(3) = corner3->Geometry()->Global(zero_point);
         // Then create geometry of an affine triangle
 
         // Diagnostics
-- 
2.43.0


From d8bfb1475ff511eb4be91433183c09ac27e27e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:19 +0000
Subject: [PATCH 16/32] fix: text VTK files reproduce floating point values
 exactly

---
 lib/lf/io/vtk_writer.cc | 49 +++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index 25c7f47..c256cbe 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -11,10 +11,12 @@
 #include <lf/base/base.h>
 
 #include <Eigen/Eigen>
+#include <array>
 #include <boost/fusion/include/adapt_struct.hpp>
 #include <boost/phoenix/phoenix.hpp>
 #include <boost/phoenix/scope/let.hpp>
 #include <boost/spirit/include/karma.hpp>
+#include <charconv>
 #include <fstream>
 #include <unsupported/Eigen/KroneckerProduct>
 
@@ -118,6 +120,25 @@ std::ostream& operator<<(std::ostream& stream, const VtkFile::Format& f) {
 
 namespace /*anonymous */ {
 namespace karma = boost::spirit::karma;
+
+/// Karma policy that prints the shortest decimal number which reproduces the
+/// floating point value exactly. (The default policy prints 3 fractional digits
+/// only and drops leading zeros of the fraction, e.g. 3.09e-04 -> 3.9e-04)
+template <class T>
+struct ExactRealPolicies : karma::real_policies<T> {
+  template <class Inserter, class OutputIterator, class Policies>
+  static bool call(OutputIterator& sink, T n, const Policies& /*policies*/) {
+    std::array<char, 64> buffer;
+    const auto result =
+        std::to_chars(buffer.data(), buffer.data() + buffer.size(), n);
+    for (const char* c = buffer.data(); c != result.ptr; ++c) {
+      *sink = *c;
+      ++sink;
+    }
+    return true;
+  }
+};
+
 template <class Iterator, bool BINARY>
 struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
   // template <class T>
@@ -136,14 +157,16 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
     using karma::eol;
     using karma::eps;
     using karma::lit;
+    const karma::real_generator<float, ExactRealPolicies<float>> exact_float;
+    const karma::real_generator<double, ExactRealPolicies<double>> exact_double;
 
     if (BINARY) {
       points_vector %= *(karma::big_bin_float << karma::big_bin_float
                                               << karma::big_bin_float)
                        << eol;
     } else {
-      points_vector %= *(karma::float_ << ' ' << karma::float_ << ' '
-                                       << karma::float_ << karma::eol);
+      points_vector %= *(exact_float << ' ' << exact_float << ' ' << exact_float
+                                     << karma::eol);
     }
 
     points = lit("POINTS ")
@@ -203,13 +226,13 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
                                       << -(karma::int_ % lit(' ')) << eol;
       field_data_float %= karma::string
                           << lit(" 1 ") << lit(size(at_c<1>(_val)))
-                          << lit(" float") << eol << -(karma::float_ % lit(' '))
+                          << lit(" float") << eol << -(exact_float % lit(' '))
                           << eol;
 
       field_data_double %= karma::string << lit(" 1 ")
                                          << lit(size(at_c<1>(_val)))
                                          << lit(" double") << eol
-                                         << -(karma::double_ % lit(' ')) << eol;
+                                         << -(exact_double % lit(' ')) << eol;
     }
     field_data %= lit("FIELD FieldData ")
                   << lit(size(_val)) << eol
@@ -351,26 +374,24 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
       scalar_data_float %=
           (lit("SCALARS ") << karma::string << lit(" float 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
-                           << (*(karma::float_ % eol)))
+                           << (*(exact_float % eol)))
           << eol;
 
       scalar_data_double %=
           (lit("SCALARS ") << karma::string << lit(" double 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
-                           << (*(karma::double_ % eol)))
+                           << (*(exact_double % eol)))
           << eol;
 
       vector_data_float %= lit("VECTORS ")
                            << karma::string << lit(" float") << eol
-                           << *(karma::float_ << lit(' ') << karma::float_
-                                              << lit(' ') << karma::float_
-                                              << eol);
+                           << *(exact_float << lit(' ') << exact_float
+                                            << lit(' ') << exact_float << eol);
 
-      vector_data_double %= lit("VECTORS ")
-                            << karma::string << lit(" double") << eol
-                            << *(karma::double_ << lit(' ') << karma::double_
-                                                << lit(' ') << karma::double_
-                                                << eol);
+      vector_data_double %=
+          lit("VECTORS ") << karma::string << lit(" double") << eol
+                          << *(exact_double << lit(' ') << exact_double
+                                            << lit(' ') << exact_double << eol);
     }
 
     attributes %=
-- 
2.43.0


From 5527172a5c7c70367ad98626d6df198907f13c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:10 +0000
Subject: [PATCH 17/32] fix: ReadGmshFile rejects format 4.1 files with an
 unparsable tail instead of dropping it

---
 lib/lf/io/gmsh_file_v4.cc        | 3 +--
 lib/lf/io/gmsh_file_v4_binary.cc | 6 ++++--
 lib/lf/io/gmsh_file_v4_text.cc   | 3 ++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/lf/io/gmsh_file_v4.cc b/lib/lf/io/gmsh_file_v4.cc
index e3e4c17..dc1586a 100644
--- a/lib/lf/io/gmsh_file_v4.cc
+++ b/lib/lf/io/gmsh_file_v4.cc
@@ -322,8 +322,7 @@ GMshFileV4 ReadGmshFileV4(std::string::const_iterator begin,
     succesful = detail::ParseGmshFileV4Binary(begin, end, one, &result);
   }
 
-  LF_VERIFY_MSG(succesful, "Could not parse file " << filename);
-  // LF_VERIFY_MSG(iter == end, "Could not parse all of file " << filename);
+  LF_VERIFY_MSG(succesful, "Could not parse (all of) file " << filename);
 
   // transpose all periodic matrices because they are read in column-first mode
   // but gmsh writes them in row-first mode
diff --git a/lib/lf/io/gmsh_file_v4_binary.cc b/lib/lf/io/gmsh_file_v4_binary.cc
index 4d05df3..706ceb0 100644
--- a/lib/lf/io/gmsh_file_v4_binary.cc
+++ b/lib/lf/io/gmsh_file_v4_binary.cc
@@ -302,11 +302,13 @@ bool ParseGmshFileV4Binary(std::string::const_iterator begin,
   if (one == 1) {
     const MshV4GrammarBinary<std::string::const_iterator> grammar(
         qi::little_dword, qi::little_qword, qi::little_bin_double);
-    return qi::phrase_parse(begin, end, grammar, ascii::space, *result);
+    return qi::phrase_parse(begin, end, grammar, ascii::space, *result) &&
+           begin == end;
   }
   const MshV4GrammarBinary<std::string::const_iterator> grammar(
       qi::big_dword, qi::big_qword, qi::big_bin_double);
-  return qi::phrase_parse(begin, end, grammar, ascii::space, *result);
+  return qi::phrase_parse(begin, end, grammar, ascii::space, *result) &&
+         begin == end;
 }
 }  // namespace detail
 
diff --git a/lib/lf/io/gmsh_file_v4_text.cc b/lib/lf/io/gmsh_file_v4_text.cc
index a84f2fb..a40837a 100644
--- a/lib/lf/io/gmsh_file_v4_text.cc
+++ b/lib/lf/io/gmsh_file_v4_text.cc
@@ -303,7 +303,8 @@ bool ParseGmshFileV4Text(std::string::const_iterator begin,
                          std::string::const_iterator end, GMshFileV4* result) {
   // Text file
   const MshV4GrammarText<std::string::const_iterator> grammar;
-  return qi::phrase_parse(begin, end, grammar, ascii::space, *result);
+  return qi::phrase_parse(begin, end, grammar, ascii::space, *result) &&
+         begin == end;
 }
 
 }  // namespace detail
-- 
2.43.0


From 7a7f2e15087324905765f6e21c37b40c1eab0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:00 +0000
Subject: [PATCH 18/32] fix: Timer measures wall clock time with a monotonic
 clock

---
 lib/lf/base/timer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/base/timer.cc b/lib/lf/base/timer.cc
index a6e10eb..3555439 100644
--- a/lib/lf/base/timer.cc
+++ b/lib/lf/base/timer.cc
@@ -45,7 +45,7 @@ std::int_least64_t tick_factor()  // multiplier to convert ticks
 
 void get_cpu_times(lf::base::Timer::cpu_times* const current) {
   const std::chrono::nanoseconds x(
-      std::chrono::high_resolution_clock::now().time_since_epoch());
+      std::chrono::steady_clock::now().time_since_epoch());
   current->wall = std::chrono::nanoseconds(x.count());
 
 #if defined(_WIN32) || defined(WIN32)
-- 
2.43.0


From f9bdef26673304782ec6bcfda0133898ae0581af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:00 +0000
Subject: [PATCH 19/32] fix: initialization of the tick length in Timer is
 thread-safe

---
 lib/lf/base/timer.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/lib/lf/base/timer.cc b/lib/lf/base/timer.cc
index 3555439..8a7afd1 100644
--- a/lib/lf/base/timer.cc
+++ b/lib/lf/base/timer.cc
@@ -28,17 +28,14 @@ namespace /* anonymous */ {
 std::int_least64_t tick_factor()  // multiplier to convert ticks
                                   //  to nanoseconds; -1 if unknown
 {
-  static std::int_least64_t tick_factor = 0;
-  if (tick_factor == 0) {
-    if (tick_factor = ::sysconf(_SC_CLK_TCK); tick_factor <= 0) {
-      tick_factor = -1;
-    } else {
-      tick_factor = INT64_C(1000000000) / tick_factor;  // compute factor
-      if (tick_factor == 0) {
-        tick_factor = -1;
-      }
+  // Initialization of a local static variable is thread-safe
+  static const std::int_least64_t tick_factor = [] {
+    const std::int_least64_t ticks_per_second = ::sysconf(_SC_CLK_TCK);
+    if (ticks_per_second <= 0 || ticks_per_second > INT64_C(1000000000)) {
+      return INT64_C(-1);
     }
-  }
+    return INT64_C(1000000000) / ticks_per_second;
+  }();
   return tick_factor;
 }
 #endif
-- 
2.43.0


From d95ae69595e4c574493b66cd7b78241c14c89c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:00 +0000
Subject: [PATCH 20/32] fix: Timer::Format of a running timer prints the
 elapsed times as documented

---
 lib/lf/base/timer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/lf/base/timer.cc b/lib/lf/base/timer.cc
index 8a7afd1..6cb7588 100644
--- a/lib/lf/base/timer.cc
+++ b/lib/lf/base/timer.cc
@@ -95,16 +95,17 @@ Timer::cpu_times Timer::Elapsed() const noexcept {
 }
 
 std::string Timer::Format(std::string_view format) const {
+  const cpu_times times = Elapsed();
   const double sec = 1000000000.0L;
-  const double wall_sec = static_cast<double>(times_.wall.count()) / sec;
-  const auto total = times_.system.count() + times_.user.count();
+  const double wall_sec = static_cast<double>(times.wall.count()) / sec;
+  const auto total = times.system.count() + times.user.count();
   const double total_sec = static_cast<double>(total) / sec;
   const double percent = (total_sec / wall_sec) * 100.0;
 
   return fmt::format(
       fmt::runtime(format), fmt::arg("w", wall_sec),
-      fmt::arg("u", static_cast<double>(times_.user.count()) / sec),
-      fmt::arg("s", static_cast<double>(times_.system.count()) / sec),
+      fmt::arg("u", static_cast<double>(times.user.count()) / sec),
+      fmt::arg("s", static_cast<double>(times.system.count()) / sec),
       fmt::arg("t", total_sec), fmt::arg("p", percent));
 }
 
-- 
2.43.0


From 9b0a593a8ef5f1e706d9fa8a9b4a2424450e2ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:00 +0000
Subject: [PATCH 21/32] fix: a moved-from AutoTimer neither reports nor
 accesses its moved-from logger

---
 lib/lf/base/timer.cc | 17 +++++++++++++++++
 lib/lf/base/timer.h  |  6 ++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/lf/base/timer.cc b/lib/lf/base/timer.cc
index 6cb7588..0db87bd 100644
--- a/lib/lf/base/timer.cc
+++ b/lib/lf/base/timer.cc
@@ -148,6 +148,23 @@ AutoTimer::AutoTimer(std::shared_ptr<spdlog::logger> logger,
     : format_(std::move(format)),
       output_(std::make_pair(std::move(logger), level)) {}
 
+AutoTimer::AutoTimer(AutoTimer&& other) noexcept
+    : timer_(other.timer_),
+      format_(std::move(other.format_)),
+      output_(std::move(other.output_)) {
+  other.timer_.Stop();
+}
+
+AutoTimer& AutoTimer::operator=(AutoTimer&& other) noexcept {
+  if (this != &other) {
+    timer_ = other.timer_;
+    format_ = std::move(other.format_);
+    output_ = std::move(other.output_);
+    other.timer_.Stop();
+  }
+  return *this;
+}
+
 AutoTimer::~AutoTimer() {
   if (!timer_.IsStopped()) {
     timer_.Stop();
diff --git a/lib/lf/base/timer.h b/lib/lf/base/timer.h
index 6b8277d..936a9cb 100644
--- a/lib/lf/base/timer.h
+++ b/lib/lf/base/timer.h
@@ -214,9 +214,11 @@ class AutoTimer {
       std::string format = Timer::kDefaultFormat);
 
   AutoTimer(const AutoTimer&) = default;
-  AutoTimer(AutoTimer&&) = default;
+  /// The moved-from object is stopped and doesn't report anymore.
+  AutoTimer(AutoTimer&& other) noexcept;
   AutoTimer& operator=(const AutoTimer&) = default;
-  AutoTimer& operator=(AutoTimer&&) = default;
+  /// The moved-from object is stopped and doesn't report anymore.
+  AutoTimer& operator=(AutoTimer&& other) noexcept;
 
   /**
    * @brief Destructor of AutoTimer, calls Report().
-- 
2.43.0


From e440d14bf5e2d0098abdfe8779695727a83ed4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:15 +0000
Subject: [PATCH 22/32] fix: keep MeshHierarchy intact when a refinement step
 throws

If the mesh factory or an allocation failed inside RefineRegular() or
RefineMarked(), the hierarchy was left with half-filled child information
and possibly an extra, incomplete level.
---
 lib/lf/refinement/mesh_hierarchy.cc | 46 +++++++++++++++++++++++++----
 lib/lf/refinement/mesh_hierarchy.h  | 10 +++++++
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/lib/lf/refinement/mesh_hierarchy.cc b/lib/lf/refinement/mesh_hierarchy.cc
index f3f69af..e482c85 100644
--- a/lib/lf/refinement/mesh_hierarchy.cc
+++ b/lib/lf/refinement/mesh_hierarchy.cc
@@ -107,9 +107,7 @@ void MeshHierarchy::RefineRegular(RefPat ref_pat) {
     cell_child_info.ref_pat_ = ref_pat;
   }
   // With all refinement patterns set, generate the new mesh
-  PerformRefinement();
-  // Finish initialization
-  initGeometryInParent();
+  AddRefinedLevel();
 }
 
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
@@ -359,11 +357,47 @@ void MeshHierarchy::RefineMarked() {
   } while (!refinement_complete);
 
   // Create finer mesh according to set refinment edges
-  PerformRefinement();
-  // Finish initialization
-  initGeometryInParent();
+  AddRefinedLevel();
 }  // end RefineMarked
 
+void MeshHierarchy::AddRefinedLevel() {
+  const size_type num_levels = meshes_.size();
+  LF_VERIFY_MSG(!refinement_failed_,
+                "The mesh factory still holds the entities of a refinement "
+                "step that failed: no further refinement possible.");
+  try {
+    PerformRefinement();
+    // Finish initialization
+    initGeometryInParent();
+  } catch (...) {
+    // Drop everything that belongs to the incomplete level ...
+    auto drop_levels = [num_levels](auto &levels) {
+      while (levels.size() > num_levels) {
+        levels.pop_back();
+      }
+    };
+    drop_levels(meshes_);
+    drop_levels(parent_infos_);
+    drop_levels(cell_child_infos_);
+    drop_levels(edge_child_infos_);
+    drop_levels(point_child_infos_);
+    drop_levels(refinement_edges_);
+    drop_levels(edge_marked_);
+    // ... and the links to it: the finest mesh has no children
+    for (CellChildInfo &cell_ci : cell_child_infos_.back()) {
+      cell_ci = CellChildInfo();
+    }
+    for (EdgeChildInfo &edge_ci : edge_child_infos_.back()) {
+      edge_ci = EdgeChildInfo();
+    }
+    for (PointChildInfo &point_ci : point_child_infos_.back()) {
+      point_ci = PointChildInfo();
+    }
+    refinement_failed_ = true;
+    throw;
+  }
+}
+
 // NOLINTNEXTLINE
 void MeshHierarchy::PerformRefinement() {
   SPDLOG_LOGGER_DEBUG(Logger(),
diff --git a/lib/lf/refinement/mesh_hierarchy.h b/lib/lf/refinement/mesh_hierarchy.h
index 1578393..dc1fa8a 100644
--- a/lib/lf/refinement/mesh_hierarchy.h
+++ b/lib/lf/refinement/mesh_hierarchy.h
@@ -418,10 +418,20 @@ class MeshHierarchy {
    */
   void initGeometryInParent();
 
+  /**
+   * @brief Creates the mesh of the next level from the refinement patterns set
+   *
+   * Calls PerformRefinement() and initGeometryInParent(). If one of them throws
+   * an exception, the hierarchy is left with the levels it had before.
+   */
+  void AddRefinedLevel();
+
   /** @brief the meshes managed by the MeshHierarchy object */
   std::vector<std::shared_ptr<mesh::Mesh>> meshes_;
   /** @brief The mesh factory to be used to creating a new mesh */
   std::unique_ptr<mesh::MeshFactory> mesh_factory_;
+  /** @brief Has a refinement step failed half-way through? */
+  bool refinement_failed_{false};
   /** @brief information about children of nodes for each level */
   std::vector<std::vector<PointChildInfo>> point_child_infos_;
   /** @brief information about children of edges for each level */
-- 
2.43.0


From bb001d43f0471b2fe84e4f33712bc12bfbfb4396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:15 +0000
Subject: [PATCH 23/32] fix: MeshFunctionTransfer::getMesh() returns the mesh
 of the fine level

It returned the mesh one level below the coarse one, also when the function
is transferred over several levels.
---
 lib/lf/refinement/mesh_function_transfer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_function_transfer.h b/lib/lf/refinement/mesh_function_transfer.h
index be8878e..3f84fff 100644
--- a/lib/lf/refinement/mesh_function_transfer.h
+++ b/lib/lf/refinement/mesh_function_transfer.h
@@ -87,7 +87,7 @@ class MeshFunctionTransfer {
    * @returns A shared pointer to the Mesh on which this MeshFunction is defined
    */
   [[nodiscard]] std::shared_ptr<const lf::mesh::Mesh> getMesh() const {
-    return mh_.getMesh(level_coarse_ + 1);
+    return mh_.getMesh(level_fine_);
   }
 
  private:
-- 
2.43.0


From b02e67a5bc4a9e0849b883d6e45639e55ff39f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:55 +0000
Subject: [PATCH 24/32] fix: COOMatrix keeps its size when adding an entry runs
 out of memory

---
 lib/lf/assemble/coomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index afa45cd..98b3f8f 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -85,9 +85,9 @@ class COOMatrix {
    * information remains valid.
    */
   void AddToEntry(gdof_idx_t i, gdof_idx_t j, SCALAR increment) {
+    triplets_.push_back(Eigen::Triplet<SCALAR>(i, j, increment));
     rows_ = (i + 1 > rows_) ? i + 1 : rows_;
     cols_ = (j + 1 > cols_) ? j + 1 : cols_;
-    triplets_.push_back(Eigen::Triplet<SCALAR>(i, j, increment));
   }
   /**
    * @brief Erase all entries of the matrix
-- 
2.43.0


From 68b0fc3ea54508cd4cba493ae76b2b7244fc6108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:55 +0000
Subject: [PATCH 25/32] fix: make COOMatrix usable with scalar types other than
 double

MatVecMult() and FixSolutionComponentsLse() hard-coded double, and the output
operator called PrintInfo() without its stream.
---
 lib/lf/assemble/coomatrix.h | 4 ++--
 lib/lf/assemble/fix_dof.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index 98b3f8f..a45141d 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -227,7 +227,7 @@ class COOMatrix {
 // Implementation of output operator
 template <typename SCALARTYPE>
 std::ostream &operator<<(std::ostream &o, const COOMatrix<SCALARTYPE> &mat) {
-  mat.PrintInfo();
+  mat.PrintInfo(o);
   return o;
 }
 
@@ -237,7 +237,7 @@ Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> COOMatrix<SCALAR>::MatVecMult(
     SCALAR alpha, const VECTOR &vec) const {
   LF_ASSERT_MSG(vec.size() >= cols_,
                 "size mismatch: " << cols_ << " <-> " << vec.size());
-  Eigen::VectorXd result(rows_);
+  Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> result(rows_);
   result.setZero();
   for (const Triplet &trp : triplets_) {
     result[trp.row()] += trp.value() * (alpha * vec[trp.col()]);
diff --git a/lib/lf/assemble/fix_dof.h b/lib/lf/assemble/fix_dof.h
index e804647..3e8efed 100644
--- a/lib/lf/assemble/fix_dof.h
+++ b/lib/lf/assemble/fix_dof.h
@@ -271,7 +271,7 @@ void FixSolutionComponentsLse(
   // FixFlaggedSolutionComponents<SCALAR>(fixed_comp_flags, fixed_vec, A, b);
   FixFlaggedSolutionCompAlt<SCALAR>(
       [&fixed_comp_flags,
-       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, double> {
+       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, SCALAR> {
         LF_ASSERT_MSG((i < fixed_comp_flags.size()) && (i < fixed_vec.size()),
                       "Illegal index " << i);
         return std::make_pair(fixed_comp_flags[i], fixed_vec[i]);
-- 
2.43.0


From 0743a7140147d60252e84e92e57e1af651018702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:55 +0000
Subject: [PATCH 26/32] fix: a solution component listed twice is fixed to its
 value, not to the sum

FixSolutionComponentsLse() added up the values of repeated entries.
---
 lib/lf/assemble/fix_dof.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/fix_dof.h b/lib/lf/assemble/fix_dof.h
index 3e8efed..b476f79 100644
--- a/lib/lf/assemble/fix_dof.h
+++ b/lib/lf/assemble/fix_dof.h
@@ -265,7 +265,7 @@ void FixSolutionComponentsLse(
        fixed_components) {
     LF_ASSERT_MSG(idx_val_pair.first < N,
                   "Index " << idx_val_pair.first << " >= N = " << N);
-    fixed_vec[idx_val_pair.first] += idx_val_pair.second;
+    fixed_vec[idx_val_pair.first] = idx_val_pair.second;
     fixed_comp_flags[idx_val_pair.first] = true;
   }
   // FixFlaggedSolutionComponents<SCALAR>(fixed_comp_flags, fixed_vec, A, b);
-- 
2.43.0


From d74394b74d9d69078074690107be2e5ac941d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 27/32] fix: IntegrateMeshFunction() respects the entity
 predicate for the first entity

The first entity was always integrated over, whether selected or not.
---
 lib/lf/fe/fe_tools.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/lf/fe/fe_tools.h b/lib/lf/fe/fe_tools.h
index fc599c6..f779d66 100644
--- a/lib/lf/fe/fe_tools.h
+++ b/lib/lf/fe/fe_tools.h
@@ -114,8 +114,22 @@ auto IntegrateMeshFunction(
   using MfType = mesh::utils::MeshFunctionReturnType<MF>;
 
   auto entities = mesh.Entities(codim);
-  auto result = internal::LocalIntegral(**entities.begin(), qr_selector, mf);
-  for (auto i = entities.begin() + 1; i != entities.end(); ++i) {
+  // The first selected entity determines the size of the result
+  auto i = entities.begin();
+  while (i != entities.end() && !ep(**i)) {
+    ++i;
+  }
+  if (i == entities.end()) {
+    // The integral over the empty set is zero
+    if constexpr (base::EigenMatrix<MfType>) {  // NOLINT
+      if constexpr (MfType::SizeAtCompileTime != Eigen::Dynamic) {
+        return MfType::Zero();
+      }
+    }
+    return MfType();
+  }
+  MfType result = internal::LocalIntegral(**i, qr_selector, mf);
+  for (++i; i != entities.end(); ++i) {
     if (!ep(**i)) {
       continue;
     }
-- 
2.43.0


From 2751dd41b54b7555eb98421272dd97f8f1cf40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:50 +0000
Subject: [PATCH 28/32] fix: LineFeedFormatter overwrote text when the pattern
 ends with more than a newline

The offset was the length of a formatted empty message minus one, which
also counts whatever the wrapped formatter prints after the message (a
suffix in the pattern or a two-character end of line), so that the
beginning of every line but the first was blanked out.
---
 lib/lf/base/spdlog_utils.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/lf/base/spdlog_utils.cc b/lib/lf/base/spdlog_utils.cc
index 88233a9..c6d4794 100644
--- a/lib/lf/base/spdlog_utils.cc
+++ b/lib/lf/base/spdlog_utils.cc
@@ -11,6 +11,8 @@
 #include <spdlog/pattern_formatter.h>
 #include <spdlog/sinks/stdout_color_sinks.h>
 
+#include <algorithm>
+
 namespace lf::base {
 
 std::shared_ptr<spdlog::logger> InitLogger(const std::string& name) {
@@ -35,13 +37,27 @@ void LineFeedFormatter::format(const spdlog::details::log_msg& msg,
         ++offset;
       } else if (offset == -1) {
         // the log message has more than one line
-        // => determine the offset
-        spdlog::memory_buf_t temp_dest;
+        // => determine the offset, i.e. how many characters the wrapped
+        // formatter puts in front of the message
+        spdlog::memory_buf_t empty_dest;
         const spdlog::details::log_msg empty_msg(msg.time, msg.source,
                                                  msg.logger_name, msg.level,
                                                  spdlog::string_view_t());
-        wrapped_formatter_->format(empty_msg, temp_dest);
-        offset = static_cast<int>(temp_dest.size() - 1);
+        wrapped_formatter_->format(empty_msg, empty_dest);
+        spdlog::memory_buf_t mark_dest;
+        const spdlog::details::log_msg mark_msg(msg.time, msg.source,
+                                                msg.logger_name, msg.level,
+                                                spdlog::string_view_t("\x01"));
+        wrapped_formatter_->format(mark_msg, mark_dest);
+        if (mark_dest.size() == empty_dest.size()) {
+          offset = 0;  // the formatter doesn't print the message at all
+        } else {
+          offset = static_cast<int>(
+              std::mismatch(empty_dest.begin(), empty_dest.end(),
+                            mark_dest.begin(), mark_dest.end())
+                  .first -
+              empty_dest.begin());
+        }
       }
 
       const spdlog::details::log_msg part(
-- 
2.43.0


From 48104be372de55acc1215aa3efe43fa260b4a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 29/32] fix: uscalfe providers must keep the finite element
 space alive they point into

---
 lib/lf/uscalfe/loc_comp_ellbvp.h | 52 +++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/lib/lf/uscalfe/loc_comp_ellbvp.h b/lib/lf/uscalfe/loc_comp_ellbvp.h
index 4bd7ccd..9692221 100644
--- a/lib/lf/uscalfe/loc_comp_ellbvp.h
+++ b/lib/lf/uscalfe/loc_comp_ellbvp.h
@@ -184,6 +184,9 @@ class ReactionDiffusionElementMatrixProvider {
   REACTION_COEFF gamma_;
   /** @} */
 
+  // owns the reference finite element(s) which the precomputed data points to
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
+
   // fe_precomp_[i] contains precomputed reference finite element for ref_el i.
   std::array<PrecomputedScalarReferenceFiniteElement<SCALAR>, 5> fe_precomp_;
 };
@@ -213,9 +216,12 @@ ReactionDiffusionElementMatrixProvider<SCALAR, DIFF_COEFF, REACTION_COEFF>::
     ReactionDiffusionElementMatrixProvider(
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         DIFF_COEFF alpha, REACTION_COEFF gamma)
-    : alpha_(std::move(alpha)), gamma_(std::move(gamma)), fe_precomp_() {
+    : alpha_(std::move(alpha)),
+      gamma_(std::move(gamma)),
+      fe_space_(std::move(fe_space)),
+      fe_precomp_() {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
-    auto fe = fe_space->ShapeFunctionLayout(ref_el);
+    auto fe = fe_space_->ShapeFunctionLayout(ref_el);
     // Check whether shape functions for that entity type are available.
     // Note that the corresponding PrecomputedScalarReferenceFiniteElement local
     // object is not initialized if the associated description of local shape
@@ -238,10 +244,13 @@ ReactionDiffusionElementMatrixProvider<SCALAR, DIFF_COEFF, REACTION_COEFF>::
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         DIFF_COEFF alpha, REACTION_COEFF gamma,
         quad_rule_collection_t qr_collection)
-    : alpha_(std::move(alpha)), gamma_(std::move(gamma)), fe_precomp_() {
+    : alpha_(std::move(alpha)),
+      gamma_(std::move(gamma)),
+      fe_space_(std::move(fe_space)),
+      fe_precomp_() {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
     // Obtain pointer to an object describing local shape functions
-    auto fe = fe_space->ShapeFunctionLayout(ref_el);
+    auto fe = fe_space_->ShapeFunctionLayout(ref_el);
     // Check whether shape functions for that entity type are available
     // Note that the corresponding PrecomputedScalarReferenceFiniteElement local
     // object is not initialized if the associated description of local shape
@@ -398,8 +407,9 @@ class MassEdgeMatrixProvider {
       EDGESELECTOR edge_selector = base::PredicateTrue{})
       : gamma_(std::move(gamma)),
         edge_sel_(std::move(edge_selector)),
+        fe_space_(std::move(fe_space)),
         fe_precomp_() {
-    auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
+    auto fe = fe_space_->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
     // Precompute entity-independent quantities based on a LehrFEM++ built-in
     // quadrature rule
@@ -423,8 +433,9 @@ class MassEdgeMatrixProvider {
       EDGESELECTOR edge_selector = base::PredicateTrue{})
       : gamma_(std::move(gamma)),
         edge_sel_(std::move(edge_selector)),
+        fe_space_(std::move(fe_space)),
         fe_precomp_() {
-    auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
+    auto fe = fe_space_->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
     LF_ASSERT_MSG(quadrule.RefEl() == base::RefEl::kSegment(),
                   "Quadrature rule not meant for EDGE entities!");
@@ -466,6 +477,8 @@ class MassEdgeMatrixProvider {
  private:
   COEFF gamma_;            // functor for coefficient
   EDGESELECTOR edge_sel_;  // Defines the active edges
+  // owns the reference finite element(s) which the precomputed data points to
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
   // Precomputed quantities at quadrature points
   PrecomputedScalarReferenceFiniteElement<SCALAR> fe_precomp_;
 };
@@ -620,6 +633,9 @@ class ScalarLoadElementVectorProvider {
   /** @brief An object providing the source function */
   MESH_FUNCTION f_;
 
+  // owns the reference finite element(s) which the precomputed data points to
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
+
   std::array<PrecomputedScalarReferenceFiniteElement<SCALAR>, 5> fe_precomp_;
 };
 
@@ -640,9 +656,9 @@ ScalarLoadElementVectorProvider<SCALAR, MESH_FUNCTION>::
     ScalarLoadElementVectorProvider(
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         MESH_FUNCTION f)
-    : f_(std::move(f)) {
+    : f_(std::move(f)), fe_space_(std::move(fe_space)) {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
-    auto fe = fe_space->ShapeFunctionLayout(ref_el);
+    auto fe = fe_space_->ShapeFunctionLayout(ref_el);
     // Check whether shape functions for that entity type are available
     if (fe != nullptr) {
       // Precompute cell-independent quantities based on quadrature rules
@@ -660,9 +676,9 @@ ScalarLoadElementVectorProvider<SCALAR, MESH_FUNCTION>::
     ScalarLoadElementVectorProvider(
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         MESH_FUNCTION f, quad_rule_collection_t qr_collection)
-    : f_(std::move(f)) {
+    : f_(std::move(f)), fe_space_(std::move(fe_space)) {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
-    auto fe = fe_space->ShapeFunctionLayout(ref_el);
+    auto fe = fe_space_->ShapeFunctionLayout(ref_el);
     // Check whether shape functions for that entity type are available
     if (fe != nullptr) {
       // Obtain quadrature rule from user-supplied collection.
@@ -814,8 +830,11 @@ class ScalarLoadEdgeVectorProvider {
   ScalarLoadEdgeVectorProvider(
       std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space, FUNCTOR g,
       EDGESELECTOR edge_sel = base::PredicateTrue{})
-      : g_(std::move(g)), edge_sel_(std::move(edge_sel)), pfe_() {
-    auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
+      : g_(std::move(g)),
+        edge_sel_(std::move(edge_sel)),
+        fe_space_(std::move(fe_space)),
+        pfe_() {
+    auto fe = fe_space_->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
     // Precompute entity-independent quantities based on a LehrFEM++ built-in
     // quadrature rule
@@ -834,8 +853,11 @@ class ScalarLoadEdgeVectorProvider {
       std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space, FUNCTOR g,
       lf::quad::QuadRule quadrule,
       EDGESELECTOR edge_sel = base::PredicateTrue{})
-      : g_(std::move(g)), edge_sel_(std::move(edge_sel)), pfe_() {
-    auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
+      : g_(std::move(g)),
+        edge_sel_(std::move(edge_sel)),
+        fe_space_(std::move(fe_space)),
+        pfe_() {
+    auto fe = fe_space_->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
     LF_ASSERT_MSG(quadrule.RefEl() == base::RefEl::kSegment(),
                   "Quadrature rule not meant for EDGE entities!");
@@ -861,6 +883,8 @@ class ScalarLoadEdgeVectorProvider {
  private:
   FUNCTOR g_;              // source function
   EDGESELECTOR edge_sel_;  // selects edges
+  // owns the reference finite element(s) which the precomputed data points to
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
   PrecomputedScalarReferenceFiniteElement<SCALAR> pfe_;
 };
 
-- 
2.43.0


From c7a7bf19c476eb12b0eaca92cbb7d07e01871a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 30/32] fix: LinearFELocalLoadVector evaluated the source
 function outside of triangles

---
 lib/lf/uscalfe/lin_fe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/uscalfe/lin_fe.h b/lib/lf/uscalfe/lin_fe.h
index df3bcf9..f0a3198 100644
--- a/lib/lf/uscalfe/lin_fe.h
+++ b/lib/lf/uscalfe/lin_fe.h
@@ -209,7 +209,7 @@ LinearFELocalLoadVector<SCALAR, FUNCTOR>::Eval(
   ElemVec elem_vec = ElemVec::Zero();
   // Run over the midpoints of edges and fetch values of the source function
   // there
-  auto fvals = f_(cell, ref_mp);
+  auto fvals = f_(cell, ref_mp.leftCols(num_nodes));
 
   for (int k = 0; k < num_nodes; k++) {
     elem_vec[k] += 0.5 * fvals[k];
-- 
2.43.0


From 76f82c3c751800c4f5056eddd9305d5bd4a80abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 31/32] fix: GenerateMeshHierarchyByUniformRefinemnt aborted
 for surface meshes in 3D

---
 lib/lf/refinement/mesh_hierarchy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_hierarchy.cc b/lib/lf/refinement/mesh_hierarchy.cc
index e482c85..92d99ff 100644
--- a/lib/lf/refinement/mesh_hierarchy.cc
+++ b/lib/lf/refinement/mesh_hierarchy.cc
@@ -1955,7 +1955,7 @@ std::shared_ptr<MeshHierarchy> GenerateMeshHierarchyByUniformRefinemnt(
   // Set up the builder object for mesh entities, here suitable for a 2D
   // hybrid mesh comprising triangles and quadrilaterals
   std::unique_ptr<lf::mesh::hybrid2d::MeshFactory> mesh_factory_ptr =
-      std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2);
+      std::make_unique<lf::mesh::hybrid2d::MeshFactory>(mesh_p->DimWorld());
   // Create a mesh hierarchy with a single level
   std::shared_ptr<MeshHierarchy> multi_mesh_p =
       std::make_shared<MeshHierarchy>(mesh_p, std::move(mesh_factory_ptr));
-- 
2.43.0


From 7ee6900e68e3e6d2d7200f26511a314ba0ca75c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:07 +0000
Subject: [PATCH 32/32] fix: InitLogger left a half-initialised logger
 registered when it ran out of memory

---
 lib/lf/base/spdlog_utils.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/lf/base/spdlog_utils.cc b/lib/lf/base/spdlog_utils.cc
index c6d4794..7eb6e51 100644
--- a/lib/lf/base/spdlog_utils.cc
+++ b/lib/lf/base/spdlog_utils.cc
@@ -16,9 +16,12 @@
 namespace lf::base {
 
 std::shared_ptr<spdlog::logger> InitLogger(const std::string& name) {
+  // create the formatter first: nothing may fail once the logger is registered
+  // with spdlog, because its name would be taken forever.
+  auto formatter = std::make_unique<LineFeedFormatter>(
+      std::make_unique<spdlog::pattern_formatter>());
   auto result = spdlog::stdout_color_mt(name);
-  result->set_formatter(std::make_unique<LineFeedFormatter>(
-      std::make_unique<spdlog::pattern_formatter>()));
+  result->set_formatter(std::move(formatter));
   return result;
 }
 
-- 
2.43.0

