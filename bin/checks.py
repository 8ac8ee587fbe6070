"""What each check consists of."""
IO_BASE = ["base", "geometry", "quad", "mesh", "refinement"]
TOUR = ["tour.cc", "tour_mesh.cc", "tour_ref.cc", "tour_asm.cc", "tour_fe.cc", "tour_io.cc"]
PARTS = {
    "p01_gmsh": dict(variant="asan", modules=["base", "geometry", "mesh", "io"], exclude=["vtk_writer.cc"],
                     sources=["p01_gmsh.cc"], quick=(40000, 40), thorough=(4000000, 1200)),
    "p02_vtk": dict(variant="asan", modules=["base", "geometry", "mesh", "io"], exclude=["gmsh", "write_"],
                    sources=["p02_vtk.cc"], quick=(30000, 35), thorough=(4000000, 1200)),
    "p03_text": dict(variant="asan", modules=["base", "geometry", "mesh", "io", "refinement"], exclude=["gmsh", "vtk_writer.cc"],
                     sources=["p03_text.cc"], quick=(60000, 30), thorough=(6000000, 1200)),
    "p04_timer": dict(variant="asan", modules=["base"], sources=["p04_timer.cc"], quick=(200000, 25), thorough=(20000000, 1200)),
    "p06_refine": dict(variant="asan", modules=["base", "geometry", "mesh", "refinement"], sources=["p06_refine.cc"], quick=(60000, 40), thorough=(6000000, 1200)),
    "p07_mesh": dict(variant="asan", modules=["base", "geometry", "mesh"], sources=["p07_mesh.cc"], quick=(60000, 30), thorough=(6000000, 1200)),
    "p08_assemble": dict(variant="asan", modules=["base", "geometry", "mesh", "quad", "assemble"], sources=["p08_assemble.cc"], quick=(60000, 35), thorough=(6000000, 1200)),
    "p09_quad": dict(variant="asan", modules=["base", "quad"], sources=["p09_quad.cc"], quick=(40000, 30), thorough=(6000000, 1200)),
    "p10_log": dict(variant="thr", modules=["base", "geometry", "quad", "mesh", "refinement", "assemble", "fe", "uscalfe"], sources=["p10_log.cc"], quick=(60000, 30), thorough=(6000000, 1200)),
    "p05_threads": dict(variant="thr", modules=["base", "geometry", "quad", "mesh", "refinement", "assemble", "fe", "uscalfe", "io"],
                        sources=["p05_threads.cc"] + TOUR, quick=(60000, 40), thorough=(6000000, 1200)),
    "p12_memory": dict(variant="plain", modules=["base", "geometry", "quad", "mesh", "refinement", "assemble", "fe", "uscalfe", "io"],
                       sources=["p12_memory.cc"] + TOUR, quick=(60000, 35), thorough=(6000000, 1200)),
    "p13_oom": dict(variant="asan", modules=["base", "geometry", "quad", "mesh", "refinement", "assemble", "fe", "uscalfe", "io"],
                    sources=["p13_oom.cc"] + TOUR, quick=(60000, 35), thorough=(6000000, 1200)),
    "p14_throw": dict(variant="asan", modules=["base", "geometry", "quad", "mesh", "refinement", "assemble", "fe", "uscalfe", "io"],
                      sources=["p14_throw.cc"] + TOUR, quick=(60000, 35), thorough=(6000000, 1200)),
    "p11_lifetime": dict(variant="asan", modules=["base", "geometry", "quad", "mesh", "refinement", "assemble", "fe", "uscalfe", "io"], exclude=["vtk_writer.cc", "write_"],
                         sources=["p11_lifetime.cc", "tour.cc"], quick=(60000, 40), thorough=(6000000, 1200)),
}
REAL_COMMON = ["lehrfempp library sources of /repo (compiled by the check)", "libstdc++ iostreams", "boost.spirit"]
CHECKS = {
    "P01": dict(parts=["p01_gmsh"], technique="deterministic simulation: simulated disk with read faults, generated mesh files, abstract-mesh oracle, ASan",
                note="Seeded exploration; every run is exactly replayable. Trusts the harness's own file encoders and abstract mesh, and ASan for memory errors.",
                rule="an abstract mesh is generated, encoded to one of eight Gmsh encodings, put on the simulated disk and read under one fault plan.",
                real=REAL_COMMON, stub=["file system: in-memory disk behind fopen/read/close"],
                feature="abstract shape of (format, mesh kind, fault kind, outcome)"),
    "P02": dict(parts=["p02_vtk"], technique="deterministic simulation: simulated disk with write faults, independent VTK parser and Lagrange lattice as oracle, ASan",
                note="Seeded exploration; every run is exactly replayable. Values are compared exactly in both modes (floats after rounding to float).",
                rule="a random mesh (straight/curved, 2D/3D) and random data sets are exported under one fault plan; the bytes on the simulated disk are parsed back.",
                real=REAL_COMMON, stub=["file system: in-memory disk behind fopen/open/write/writev/close"],
                feature="abstract shape of (order, codim, format, fault plan, data kinds, number of cells)"),
    "P03": dict(parts=["p03_text"], technique="deterministic simulation: simulated disk with write faults, independent parsers of the text formats as oracle, ASan",
                note="Seeded exploration; every run is exactly replayable. Coordinates are compared to the printed precision (6 significant digits).",
                rule="a random mesh or refinement hierarchy is exported by one to three writers under one fault plan each; the bytes on the simulated disk are parsed back.",
                real=REAL_COMMON, stub=["file system: in-memory disk behind fopen/open/write/writev/close"],
                feature="abstract shape of (writer, flags, fault plan, number of cells)"),
    "P04": dict(parts=["p04_timer"], technique="deterministic simulation: simulated calendar, monotonic and CPU clocks with jumps and failures, interval-sum reference model",
                note="Seeded exploration; every run is exactly replayable. Clock values are compared exactly (CPU times to 1e-6 when the tick rate does not divide a second).",
                rule="a random history of timer and auto-timer operations interleaved with passage of simulated time and clock adjustments.",
                real=REAL_COMMON + ["spdlog, fmt"], stub=["clock_gettime, times, sysconf(_SC_CLK_TCK): simulated clocks"],
                feature="sequence of operation kinds and tick rate"),
    "P06": dict(parts=["p06_refine"], technique="deterministic simulation: random refinement histories with throwing markers, failing mesh factories and allocation failures; geometric and combinatorial oracle per level, ASan",
                note="Seeded exploration; every run is exactly replayable. Up to 5 refinement steps on base meshes of up to 3x3 lattice rectangles; geometry compared to 1e-10.",
                rule="a random (hybrid, curved, perforated) base mesh is refined by a random history of global and marked local steps, some of which fail; each new level is checked against its parent level and all older levels against snapshots.",
                real=REAL_COMMON + ["spdlog, fmt"], stub=["mesh factory: real factory behind a wrapper that fails at chosen calls", "operator new/malloc: failing at chosen allocations"],
                feature="refinement patterns with anchors per level; failure kind and depth"),
    "P07": dict(parts=["p07_mesh"], technique="deterministic simulation: random construction histories of interleaved mesh factories with allocation failures, abstract-mesh oracle, ASan",
                note="Seeded exploration; every run is exactly replayable. Meshes up to about 4x4 lattice rectangles (32 triangles), random holes, curved edges, both world dimensions.",
                rule="one or two factories (or a structured builder) receive randomly interleaved insertions, several meshes are built, allocations fail at chosen points; every mesh is compared with its description when built and again at the end.",
                real=REAL_COMMON + ["spdlog, fmt"], stub=["operator new/malloc: failing at chosen allocations"],
                feature="shape of the described mesh and position of the failing allocation"),
    "P08": dict(parts=["p08_assemble"], technique="deterministic simulation: random assembly histories with throwing providers and allocation failures against exact integer bookkeeping, ASan",
                note="Seeded exploration; every run is exactly replayable. All contributions are small integers, so sums are compared exactly. Meshes up to 3x3 lattice rectangles.",
                rule="uniform and variable dof layouts are built on a random mesh; a random history of assembly calls, single entries, resets, copies, products and eliminations runs on one target while providers throw or memory runs out; after each step the target must equal the model.",
                real=REAL_COMMON + ["Eigen, spdlog, fmt"], stub=["element matrix/vector providers: recorded integer values, throwing at chosen entities", "operator new/malloc: failing at chosen allocations"],
                feature="pair of dof layouts and mesh size"),
    "P09": dict(parts=["p09_quad"], technique="deterministic simulation: random request histories on quadrature rule caches with moves and allocation failures; uncached rules and exact monomial integrals as oracle, ASan",
                note="Seeded exploration; every run is exactly replayable. Degrees up to 104; rules are compared bit by bit with make_QuadRule and integrate random monomials of the requested degree to 1e-11.",
                rule="up to two caches answer a random sequence of requests, are moved, and run out of memory at chosen allocations; every rule handed out so far is checked again after each step.",
                real=REAL_COMMON[:2] + ["Eigen, boost.multiprecision"], stub=["operator new/malloc: failing at chosen allocations"],
                feature="(reference element, degree, outcome)"),
    "P10": dict(parts=["p10_log"], technique="deterministic simulation: threads under a seeded scheduler (preemption at memory accesses and locks), simulated calendar clock, happens-before race detection, exact expected-output oracle",
                note="Seeded exploration; every run is exactly replayable. 2-4 threads with up to 6 operations each; the bytes on standard output and in stream sinks are split into messages and compared with the expected text (digits of time stamps only by shape).",
                rule="threads log single- and multi-line messages through library loggers (cold or warm) and private loggers with random patterns, change levels and flush under a random schedule; or a line feed formatter is copied, moved and used in a random history.",
                real=REAL_COMMON[:2] + ["spdlog, fmt (not instrumented: their locks and one-time initialisations are scheduling points, their memory accesses are not)"],
                stub=["thread scheduler, mutexes, condition variables, one-time initialisation: simulated", "clock_gettime: simulated"],
                feature="hash of the sequence of thread switches"),
    "P05": dict(parts=["p05_threads"], technique="deterministic simulation: threads under a seeded scheduler (preemption at memory accesses and locks) on shared library objects, happens-before race detection, sequential execution as oracle",
                note="Seeded exploration; every run is exactly replayable. 2-4 threads with 1-2 of 50 library operations each; a data race is reported whether or not it changed a result, as long as no synchronisation ordered the two accesses in the simulated schedule.",
                rule="threads run random operations on a shared mesh, hierarchy, spaces, rules and data sets (read only) and on objects of their own under a random schedule, starting with cold static state; results must equal those of a sequential execution in a copy of the process.",
                real=REAL_COMMON + ["Eigen, spdlog, fmt (not instrumented where precompiled)"],
                stub=["thread scheduler, mutexes, condition variables, one-time initialisation: simulated", "file system: in-memory disk"],
                feature="hash of the sequence of thread switches"),
    "P11": dict(parts=["p11_lifetime"], technique="deterministic simulation: random histories of creating, copying, moving, assigning and releasing library objects; answers recorded at creation as oracle, ASan and live-block accounting",
                note="Seeded exploration; every run is exactly replayable. About 29 kinds of objects, histories of up to 40 operations; use of released storage is decided by ASan, leaks by the number of live heap blocks after the second execution of the same history.",
                rule="objects are created from others that are alive, copied, moved, assigned and released in random order; after each step a random live object and at the end every live object must answer as when created.",
                real=REAL_COMMON + ["Eigen, spdlog, fmt"], stub=["allocation accounting: operator new/malloc wrappers"],
                feature="history of object kinds and operations"),
    "P12": dict(parts=["p12_memory"], technique="deterministic simulation: the same operations in copies of one process under seeded memory placement, recycling and contents policies (heap and stack); bit-for-bit comparison of results, files and log texts",
                note="Seeded exploration; every run is exactly replayable. Three memory policies per run, each operation executed twice per policy; a quarter of the runs also compare the text of all library loggers at trace level.",
                rule="a random world and 1-5 of 50 library operations are executed under three memory policies: order of fresh blocks, gaps, reuse order, contents of new and released blocks, contents of the unused stack.",
                real=REAL_COMMON + ["Eigen, spdlog, fmt"], stub=["operator new/malloc: arena allocator with seeded policy", "file system: in-memory disk", "clock_gettime: simulated"],
                feature="operations and memory policy"),
    "P13": dict(parts=["p13_oom"], technique="deterministic simulation: allocation failures at chosen points of random library operations; failure-free execution as oracle, ASan and live-block accounting",
                note="Seeded exploration; every run is exactly replayable. 46 operations; single failures, short series and failure of everything from some point on; leak means the number of live blocks grew in each of the last two identical failing attempts.",
                rule="1-2 operations run on a random world, one allocation (or several) of a chosen one fails, four times in a row; then the operation is repeated with enough memory; static state is cold in 70 % of the runs.",
                real=REAL_COMMON + ["Eigen, spdlog, fmt"], stub=["operator new/malloc: failing at chosen allocations", "file system: in-memory disk"],
                feature="(operation, index of the failing allocation, number of failures)"),
    "P14": dict(parts=["p14_throw"], technique="deterministic simulation: exceptions injected at chosen invocations of user-supplied functions in random library operations; failure-free execution and its call sequence as oracle, ASan and live-block accounting",
                note="Seeded exploration; every run is exactly replayable. Exceptions of four types (std::exception or not); calls are identified by entity type and position.",
                rule="1-2 operations with user-supplied functions run on a random world; one invocation throws, four times in a row; then the operation is repeated without.",
                real=REAL_COMMON + ["Eigen, spdlog, fmt"], stub=["user-supplied functions, element providers, markers and mesh factories: throwing at chosen invocations", "file system: in-memory disk"],
                feature="(operation, index of the throwing call, exception type)"),
}
