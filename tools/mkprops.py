#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- claimed
p("P01", "Gmsh files are read exactly as written, or the failure is reported",
  "Reading a Gmsh mesh file (format 2.2 or 4.1; text, little- or big-endian binary) yields exactly the nodes, elements, element geometry and physical-group information the file describes, however the operating system splits or interrupts the reads. If the file cannot be read completely (missing, truncated, I/O error part-way through), the reader reports an error; it never hands back a mesh with missing or altered nodes, elements or tags. Damaged input never leads to out-of-bounds memory access, use of freed memory or an endless loop.",
  ["inputs", "fault_sequences", "configurations"],
  "Every abstract mesh (triangles, quadrilaterals, points, boundary segments, first/second order, any tag numbering, physical names, partitions, periodic links, comments), every encoding of it, every way read() may split, interrupt, fail or end early.",
  "The tests read a handful of checked-in files through an undisturbed file system: no short reads, no EINTR, no EIO, no truncation at an arbitrary byte, and only a few tag numberings.",
  ["lib/lf/io/gmsh_reader.cc", "lib/lf/io/gmsh_reader.h", "lib/lf/io/gmsh_file_v2.cc", "lib/lf/io/gmsh_file_v4.cc", "lib/lf/io/gmsh_file_v4_text.cc", "lib/lf/io/gmsh_file_v4_binary.cc"],
  [("ReadGmshFile loads the file and dispatches on version", "lib/lf/io/gmsh_reader.cc"), ("spirit grammars per version and encoding", "lib/lf/io/gmsh_file_v*.cc"), ("GmshReader::InitGmshFile maps elements to mesh entities", "lib/lf/io/gmsh_reader.cc")],
  observe=["GmshReader::mesh()", "GmshReader::PhysicalEntityNr / IsPhysicalEntity / PhysicalEntityName2Nr / PhysicalEntities", "ReadGmshFile()"])
p("P02", "A VTK export is complete and exact, or its failure is reported",
  "When a VTK export finishes without reporting an error, the file holds the complete, well-formed VTK dataset: every mesh point, cell, higher-order node and every attached point, cell and global data value, in text or binary mode, however the operating system splits or interrupts the writes. Whenever the storage does not take the whole file (open failure, full disk, I/O error, failing flush or close), the export reports an error instead of leaving a truncated or corrupted file behind as if it had succeeded.",
  ["inputs", "fault_sequences", "configurations"],
  "Every mesh, cell order 1..10, codimension, text/binary mode, attached data sets and mesh functions; every sequence of short writes, interruptions, ENOSPC/EIO at any byte, failing open and close.",
  "The tests write a few files to a healthy disk and never read them back; no test injects a full disk or a failing close.",
  ["lib/lf/io/vtk_writer.cc", "lib/lf/io/vtk_writer.h"],
  [("VtkWriter collects the data set, its destructor calls WriteToFile", "lib/lf/io/vtk_writer.h"), ("WriteToFile opens, generates and closes the file", "lib/lf/io/vtk_writer.cc")],
  observe=["bytes of the file on the simulated disk", "exception / abnormal termination of the export"])
p("P03", "Text mesh exports are complete and exact, or their failure is reported",
  "The MATLAB, matplotlib (CSV) and TikZ exports of a mesh and the MATLAB dump of a refinement hierarchy contain every entity they are documented to list, exactly once, with the right indices, coordinates and parent information, under the documented file name, however the operating system splits or interrupts the writes. If the file cannot be opened or not all bytes reach it (full disk, I/O error, failing close), the export reports this to the caller through its documented return value or an error; it never returns as if it had succeeded.",
  ["inputs", "fault_sequences"],
  "Every 2D hybrid mesh or refinement hierarchy, file name, output-control flag set and entity selector; every sequence of short writes, interruptions, ENOSPC/EIO at any byte, failing open and close.",
  "The tests call the writers on a few meshes on a healthy disk and mostly do not look at the output.",
  ["lib/lf/io/write_matlab.cc", "lib/lf/io/write_matplotlib.cc", "lib/lf/io/write_tikz.cc", "lib/lf/refinement/refutils.cc"],
  [("writeMatlab", "lib/lf/io/write_matlab.cc"), ("writeMatplotlib", "lib/lf/io/write_matplotlib.cc"), ("writeTikZ returns false on trouble", "lib/lf/io/write_tikz.cc"), ("WriteMatlab / WriteMatlabLevel", "lib/lf/refinement/refutils.cc")],
  observe=["bytes of the files on the simulated disk", "return value / exception of the writer"])
p("P04", "Timers report the time actually spent running, whatever the clocks do",
  "For every history of start, stop, resume and query operations, a timer reports as wall-clock time exactly the time that passed while it was running, independent of adjustments of the calendar clock, and as user and system time the CPU time consumed in those periods, converted with the system's tick length. Queries never disturb a running timer, stopping is idempotent, and formatted output prints the same numbers as a query at that moment, with the requested number of digits and format directives. An automatic timer reports exactly once when it goes out of scope, to the stream or logger it was given.",
  ["histories", "fault_sequences", "schedules"],
  "Every history of timer operations interleaved with passage of simulated time, calendar clock jumps in both directions, CPU accounting jumps, failing system calls, every tick rate, and concurrent use of separate timers.",
  "The tests measure real sleeps with loose tolerances, so they can neither step a clock back nor see an off-by-one-period error.",
  ["lib/lf/base/timer.cc", "lib/lf/base/timer.h"],
  [("Timer::Start/Stop/Resume/Elapsed", "lib/lf/base/timer.cc"), ("tick conversion and clock access", "lib/lf/base/timer.cc"), ("AutoTimer destructor", "lib/lf/base/timer.h")],
  state=[("times_", "start time while running, accumulated time while stopped", "lib/lf/base/timer.h")],
  observe=["Timer::Elapsed/IsStopped/Format", "AutoTimer output"])
p("P05", "Concurrent read-only use of shared library objects is race-free",
  "Any number of threads may at the same time call const operations of the same mesh, geometry, reference element, quadrature rule, finite element space, dof handler, mesh function, mesh data set or refinement hierarchy, and may independently create, assemble, refine, interpolate, read and write with objects of their own. Under every interleaving there is no data race, no deadlock, and each thread obtains exactly the results it would obtain running alone, including when the operation is the very first use of that facility in the process.",
  ["schedules", "programs"],
  "Every interleaving, at the granularity of individual memory accesses, of 2-5 threads running arbitrary selections of library operations on shared const objects and private objects, starting from a cold process.",
  "All tests are single-threaded; nothing exercises first-use initialisation or shared objects from two threads.",
  ["lib/lf/base", "lib/lf/geometry", "lib/lf/quad", "lib/lf/mesh", "lib/lf/refinement", "lib/lf/assemble", "lib/lf/fe", "lib/lf/uscalfe", "lib/lf/io"],
  [("function-local statics with guarded initialisation", "lib/lf/base/ref_el.h, lib/lf/quad, lib/lf/mesh/hybrid2d"), ("const member functions without hidden mutable state", "lib/lf")],
  observe=["happens-before relation of all memory accesses of library code", "results returned to each thread"])
p("P06", "Mesh refinement keeps every hierarchy consistent, even after a failed step",
  "After every sequence of global (regular or barycentric) and marked local refinements, each mesh of the hierarchy is conforming, covers exactly the same domain with positively sized cells, and the recorded parent, child, relative-geometry and refinement-edge information agrees with the actual entities and geometry on both levels; every marked edge has been split. Refining never changes the meshes, indices or information of the older levels. If a refinement step fails (user marker throws, mesh factory fails, memory runs out), all previously existing levels remain intact and usable.",
  ["histories", "fault_sequences", "inputs"],
  "Every initial triangular/quadrilateral/hybrid mesh (straight or curved), every sequence of refinement operations and marking patterns up to the size bound, and failures of marker, factory or allocation at any point of any step.",
  "The tests refine a few fixed meshes with fixed marking patterns and never let a step fail.",
  ["lib/lf/refinement/mesh_hierarchy.cc", "lib/lf/refinement/mesh_hierarchy.h", "lib/lf/refinement/hybrid2d_refinement_pattern.cc"],
  [("MeshHierarchy::RefineRegular/MarkEdges/RefineMarked/PerformRefinement", "lib/lf/refinement/mesh_hierarchy.cc"), ("Hybrid2DRefinementPattern child geometry", "lib/lf/refinement/hybrid2d_refinement_pattern.cc")],
  state=[("child/parent infos", "links between consecutive levels", "lib/lf/refinement/mesh_hierarchy.h")],
  observe=["MeshHierarchy::getMesh/ParentInfos/CellChildInfos/EdgeChildInfos/PointChildInfos/ParentEntity/GeometryInParent/RefinementEdges"])
p("P07", "Mesh construction yields exactly the described mesh for every call history",
  "For every sequence of point and entity insertions (cells in any order and orientation, edges given explicitly in either direction, with their own geometry, or left out), the built mesh contains exactly the described points and cells under the indices returned on insertion and exactly one edge per vertex pair used, with all sub-entity, orientation, index and geometry queries mutually consistent. A factory can be reused after building without anything from an earlier mesh leaking into the next one, meshes stay valid after their factory is gone, and the structured mesh builders obey the same rules. If memory runs out during insertion or building, the failure is reported as an exception and neither earlier meshes nor later use of a fresh factory are affected.",
  ["histories", "fault_sequences", "inputs"],
  "Every insertion history up to the size bound, any interleaving of several factories, reuse of a factory for consecutive meshes, allocation failure at any point.",
  "The tests build a few fixed meshes in one canonical insertion order and never reuse a factory after a failure.",
  ["lib/lf/mesh/hybrid2d/mesh_factory.cc", "lib/lf/mesh/hybrid2d/mesh.cc", "lib/lf/mesh/hybrid2d/mesh.h", "lib/lf/mesh/utils/tp_triag_mesh_builder.cc", "lib/lf/mesh/utils/tp_quad_mesh_builder.cc", "lib/lf/mesh/utils/torus_mesh_builder.cc"],
  [("hybrid2d::MeshFactory::AddPoint/AddEntity/Build", "lib/lf/mesh/hybrid2d/mesh_factory.cc"), ("hybrid2d::Mesh constructor", "lib/lf/mesh/hybrid2d/mesh.cc")],
  observe=["Mesh::NumEntities/Entities/EntityByIndex/Index/Contains", "Entity::SubEntities/RelativeOrientations/Geometry/RefEl"])
p("P08", "Assembly adds every local contribution exactly once, in any call history",
  "Assembling element matrices and vectors adds each local entry of each active entity exactly once at the position given by the global degree-of-freedom numbering, for every co-dimension, trial/test pairing and provider, also when assembly accumulates over several calls, or resumes after a provider failed. The degree-of-freedom numbering is a consistent, gap-free assignment shared by adjacent entities with orientation respected. Fixing selected solution components afterwards yields a system whose solution has exactly the prescribed values and otherwise solves the original equations; integrating a mesh function over selected entities counts each selected entity exactly once.",
  ["histories", "inputs", "fault_sequences"],
  "Every hybrid mesh, uniform or variable dof layout, provider (including active-entity filters), accumulation history on the same target, provider exception at any entity, allocation failure at any point.",
  "The tests assemble single operators once per fixed mesh; none accumulates or fails midway.",
  ["lib/lf/assemble/assembler.h", "lib/lf/assemble/dofhandler.cc", "lib/lf/assemble/dofhandler.h", "lib/lf/assemble/coomatrix.h", "lib/lf/assemble/fix_dof.h"],
  [("AssembleMatrixLocally / AssembleVectorLocally", "lib/lf/assemble/assembler.h"), ("UniformFEDofHandler / DynamicFEDofHandler", "lib/lf/assemble/dofhandler.cc"), ("COOMatrix", "lib/lf/assemble/coomatrix.h"), ("FixFlaggedSolutionComponents and variants", "lib/lf/assemble/fix_dof.h")],
  observe=["COOMatrix triplets/dense/sparse", "assembled vectors", "DofHandler queries"])
p("P09", "A quadrature rule cache serves correct, stable rules for every request order",
  "For every sequence of requests, a quadrature rule cache returns for each reference element and degree the same rule that would be built without the cache, exact at least to the requested degree. References handed out earlier stay valid and unchanged for the lifetime of the cache, also when the cache is moved. If memory runs out while a rule is created, the request fails with an exception and every other and later request still yields the right rule.",
  ["histories", "fault_sequences"],
  "Every sequence of requests over all reference elements and degrees, with moves of the cache object in between and allocation failures at any point.",
  "The tests ask one fresh cache for a few degrees in increasing order.",
  ["lib/lf/quad/quad_rule_cache.cc", "lib/lf/quad/quad_rule_cache.h"],
  [("QuadRuleCache::Get grows a table of rules per reference element", "lib/lf/quad/quad_rule_cache.cc")],
  state=[("cache_", "rules created so far", "lib/lf/quad/quad_rule_cache.h")],
  observe=["QuadRuleCache::Get"])
p("P10", "Log output stays whole, aligned and complete under concurrent logging",
  "Every message logged through the library's loggers at an enabled level appears in the output exactly once, its lines contiguous and in order, with continuation lines aligned to the first line's text, whatever threads log at the same time, through whichever logger and level, and also when the logger's very first use happens in several threads at once. Every accessor of a library logger always yields the same usable logger, distinct from all others and registered under its name. A line feed formatter with any wrapped pattern (also with text after the message and any end of line), its copies and moved versions all give this result.",
  ["schedules", "histories", "inputs"],
  "Every interleaving of threads logging single- and multi-line messages through shared and private loggers, including first use, level changes and copies of the formatter.",
  "The tests log from one thread and do not look at interleavings or first-use races.",
  ["lib/lf/base/spdlog_utils.cc", "lib/lf/base/spdlog_utils.h"],
  [("LineFeedFormatter::format", "lib/lf/base/spdlog_utils.cc"), ("InitLogger", "lib/lf/base/spdlog_utils.cc"), ("function-local static loggers", "lib/lf")],
  observe=["bytes arriving at the log sink / standard output"])
p("P11", "Objects stay usable in every legal construction and destruction order",
  "Objects that share ownership of what they refer to (meshes, finite element spaces, dof handlers, mesh functions and their combinations, data sets, hierarchies, readers) can be copied where copying is allowed, moved and released in any order: whatever is still reachable through a live handle keeps giving the same answers, nothing released is accessed again, and everything is freed when the last handle goes.",
  ["histories", "schedules"],
  "Every order of creating, copying, moving, querying and dropping handles, including dropping the creating object (factory, reader, hierarchy, builder) first and dropping from several threads' perspectives in any order.",
  "Tests keep all objects alive until the end of the scope, so only one destruction order is ever exercised.",
  ["lib/lf/mesh", "lib/lf/fe", "lib/lf/uscalfe", "lib/lf/assemble", "lib/lf/refinement", "lib/lf/io", "lib/lf/quad"],
  [("shared_ptr members in FE spaces, dof handlers, data sets, mesh functions", "lib/lf")],
  observe=["query results after each drop", "heap: accesses to freed memory, bytes still allocated at the end"])
p("P12", "Results do not depend on memory layout or stale memory contents",
  "Repeating the same sequence of library operations gives bit-for-bit identical results (meshes, numberings, matrices, vectors, files, log texts), regardless of where objects are placed in memory, what earlier contents the memory had, or how memory is recycled. In particular no result is ever computed from uninitialised memory and no ordering depends on addresses.",
  ["configurations", "histories", "programs"],
  "Every sequence of library operations, under arbitrary heap placement, recycling policy and initial contents of heap and stack memory.",
  "Each test runs once under one allocator state; uninitialised reads usually see zeros there and address-dependent orders look stable.",
  ["lib/lf/base", "lib/lf/geometry", "lib/lf/quad", "lib/lf/mesh", "lib/lf/refinement", "lib/lf/assemble", "lib/lf/fe", "lib/lf/uscalfe", "lib/lf/io"],
  [("value initialisation of members and results; containers ordered by index, not by address", "lib/lf")],
  observe=["digest of all results of an operation sequence"])
p("P13", "Running out of memory is reported cleanly and leaves shared objects intact",
  "If an allocation fails during a library operation (other than the destructor that writes a VTK file), the operation ends with a memory-exhaustion exception: no crash, no hang, no leak, and no wrong result passed off as success. Objects that existed before and were only read by the operation still give the same answers, and repeating the operation once memory is available gives the normal result.",
  ["fault_sequences", "programs"],
  "Every allocation made by every operation in the covered API, failed singly or from some point on for a while, in arbitrary operation sequences.",
  "No test ever makes an allocation fail.",
  ["lib/lf/base", "lib/lf/geometry", "lib/lf/quad", "lib/lf/mesh", "lib/lf/refinement", "lib/lf/assemble", "lib/lf/fe", "lib/lf/uscalfe", "lib/lf/io"],
  [("RAII ownership throughout", "lib/lf")],
  observe=["exception type", "heap balance", "results before, after and on retry"])
p("P14", "Exceptions thrown by user callbacks pass through without damage",
  "When a user-supplied function (element provider, mesh function, marker, selector, degree or data functor, mesh factory) throws while being called by the library, exactly that exception reaches the caller, nothing leaks, and all objects the operation only read are unchanged. Repeating the operation with a callback that no longer throws gives the normal result, and the library calls callbacks no more often and for no other entities than it does without the failure.",
  ["fault_sequences", "programs", "histories"],
  "Every callback-taking operation, an exception at every callback invocation index, single or repeated failures, followed by a retry.",
  "No test uses a throwing callback.",
  ["lib/lf/assemble/assembler.h", "lib/lf/fe/fe_tools.h", "lib/lf/refinement/mesh_hierarchy.cc", "lib/lf/io/write_tikz.cc", "lib/lf/io/vtk_writer.h", "lib/lf/mesh/utils"],
  [("RAII and exception-neutral templates", "lib/lf")],
  observe=["exception identity", "heap balance", "results before, after and on retry"])

# ---------------------------------------------------------------- not applicable
NA = [
("P40", "Quadrature rules integrate polynomials up to their degree exactly",
 "Every quadrature rule provided for a reference element has points inside the element, and integrates all polynomials up to its stated degree exactly.",
 ["lib/lf/quad/make_quad_rule.cc", "lib/lf/quad/gauss_quadrature.cc", "lib/lf/quad/quad_rules_tria.cc"]),
("P41", "Geometry mappings, Jacobians and sub-geometries are mutually consistent",
 "For every geometry the Jacobian, inverse Gramian and integration element are those of its global mapping, and sub- and child geometries are restrictions of it.",
 ["lib/lf/geometry"]),
("P42", "Local shape functions form the stated basis and match across entities",
 "Every reference finite element's shape functions, gradients and nodal functionals are dual and conforming across shared edges and vertices.",
 ["lib/lf/uscalfe/lagr_fe.h", "lib/lf/fe/hierarchic_fe.h"]),
("P43", "Element matrices and vectors equal the integrals they stand for",
 "The local computations for second-order elliptic problems return the exact integrals of the corresponding bilinear and linear forms for polynomial data within the quadrature degree.",
 ["lib/lf/uscalfe/loc_comp_ellbvp.h", "lib/lf/fe/loc_comp_ellbvp.h", "lib/lf/uscalfe/lin_fe.cc"]),
("P44", "Mesh function arithmetic is pointwise",
 "Unary and binary operators on mesh functions give at every point of every entity the operator applied to the operands' values.",
 ["lib/lf/mesh/utils/mesh_function_unary.h", "lib/lf/mesh/utils/mesh_function_binary.h"]),
("P45", "Discrete solutions converge at the rate of the chosen elements",
 "For smooth exact solutions the finite element error in the L2 and energy norms decreases with the optimal order of the space.",
 ["lib/lf/fe", "lib/lf/uscalfe", "examples", "experiments"]),
("P46", "DPG, interior-penalty Stokes and Fisher-KPP modules solve their model problems",
 "The discontinuous Petrov-Galerkin, interior-penalty Stokes and Fisher-KPP project codes compute discrete solutions of the stated variational problems.",
 ["projects/dpg", "projects/ipdg_stokes", "projects/fisher_kpp"]),
]
for id, t, s, f in NA:
    p(id, t, s, ["inputs"], "All inputs of a pure function.",
      "Tests sample a few inputs; the property is over all inputs.", f, [("numerical formulas", f[0])])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
print(len(P), "properties")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    assert x["statement"].count(". ") <= 2, x["id"]
