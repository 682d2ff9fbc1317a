"""Which scenarios decide which property, how many seeds per tier, and which violation classes each check owns."""
THR_RULE = ("A case is one simulated run: a generated workload (operations and configuration) under one seeded schedule and fault sequence. "
            "Distinct: the hash of its context switches (from, to, kind of point) and recorded outcomes; runs with equal hashes count once.")
SEQ_RULE = ("A case is one simulated run: a generated history of operations with one seeded fault sequence. "
            "Distinct: the hash of the recorded outcomes and injected faults; runs with equal hashes count once.")
THR_ASSUME = ["sequentially consistent interleaving at the granularity of instrumented accesses; weak memory is covered through happens-before race detection, not by reordering",
              "libstdc++, libc and Boost internals compiled in shared libraries are not preempted inside",
              "a clean batch is evidence over the sampled seeds, not a proof"]
SEQ_ASSUME = ["the simulated disk and streams fail in the ways listed under faults_injected; other failures of real media are not modelled",
              "Elements (exceptions, logging, floating-point comparison) is a stand-in with the same interface: it is not installed here",
              "a clean batch is evidence over the sampled seeds, not a proof"]

# classes reported with sfail(): only the checks that own them report them
SOFT = {
    "tp": "queued-count running-count active-count start-order too-many-running block-slow exception-lost phantom-exception foreign-exception task-started-in-exception-state".split(),
    "nd": ["concat-stale-size"],
    "fp": "mode-overlap open-while-used limit-exceeded two-handlers refused-below-limit try-refused-free-file exclusion wrong-mode descriptor-leak counters handler-lost accounting capacity-lost handler-kept try-waited try-result limit-result open-result reuse eviction-order policy-order policy-count".split(),
}

TP_REAL = ["AlexandriaKernel/ThreadPool (all of it)", "libstdc++ thread, mutex, condition_variable, function"]
TP_STUB = ["scheduler, clock, sleep, pthread mutex/cond/create/join, heap: simulator", "tasks: workload"]
FP_REAL = ["FilePool: FileManager, LRUFileManager, FileHandler, FileAccessor (all of it)", "boost::shared_mutex, libstdc++ mutex", "path canonicalisation on a real scratch directory"]
FP_STUB = ["scheduler, clock, pthread primitives, heap: simulator", "the files behind the descriptors (OpenCloseTrait): recording stub that can fail", "Elements exceptions: stand-in"]

def check(bin, scens, quick, own, real, stub, rule=THR_RULE, assume=THR_ASSUME, **kw):
    ign = [c for c in SOFT.get(bin, []) if c not in own.split()]
    return dict(level="exploration", rule=rule, real=real, stub=stub, assumptions=assume,
                groups=[dict(bin=bin, scenarios=scens, quick=quick, thorough=quick * 40, max_s=150, thorough_s=800, ignore=ign, **kw)])

def tp(scens, quick, own=""):
    return check("tp", scens, quick, own, TP_REAL, TP_STUB)

def fp(scens, quick, own=""):
    return check("fp", scens, quick, own, FP_REAL, FP_STUB)

IO_STUB = ["system calls on the scratch directory (open, read, write, truncate, mmap, close, readdir): passed to the real file system, failed or cut by the simulator", "process death: simulated at a chosen system call", "heap: can fail", "Elements: stand-in"]
NPY_REAL = ["NdArray/io (Npy, NpyMmap, header parser and writer)", "NdArray containers", "libstdc++ and Boost iostreams"]

def seq(bin, scens, quick, real, own="", stub=IO_STUB, **kw):
    return check(bin, scens, quick, own, real, stub, SEQ_RULE, SEQ_ASSUME, **kw)
TB_REAL = ["Table (all but FITS)", "NdArray (cells)", "libstdc++ and Boost streams"]
XY_REAL = ["XYDataset (AsciiParser, FileSystemProvider, CachedProvider, QualifiedName, XYDataset)", "Table (ASCII reader)", "libstdc++ and Boost filesystem, regex"]
SH_REAL = ["MathUtils (functions, interpolation)", "XYDataset, QualifiedName", "Table, Row, ColumnInfo"]
CF_REAL = ["Configuration (ConfigManager, Configuration, Utils)", "Boost program_options", "libstdc++ thread, mutex"]

CHECKS = {
    "C01": tp(["tp_block", "tp_zero"], 120000),
    "C02": tp(["tp_exception", "tp_alloc"], 100000, "exception-lost phantom-exception foreign-exception task-started-in-exception-state"),
    "C03": tp(["tp_destroy", "tp_discard", "tp_stop", "tp_ctor_fail"], 120000),
    "C04": tp(["tp_gate", "tp_block", "tp_exception"], 100000, "queued-count running-count active-count start-order too-many-running block-slow"),
    "C05": fp(["fp_mixed", "fp_churn", "fp_try", "fp_evict"], 50000, "mode-overlap open-while-used two-handlers exclusion wrong-mode handler-lost handler-kept"),
    "C06": fp(["fp_mixed", "fp_evict", "fp_life", "fp_policy", "fp_lru"], 60000, "closeall descriptor-leak accounting counters policy-order policy-count"),
    "C07": fp(["fp_lru", "fp_evict"], 60000, "limit-exceeded refused-below-limit limit-result default-limit eviction-order reuse accounting counters"),
    "C08": fp(["fp_fault", "fp_lru"], 50000, "capacity-lost open-result refused-below-limit limit-exceeded accounting descriptor-leak handler-kept exclusion open-while-used"),
    "C09": fp(["fp_try", "fp_evict", "fp_mixed", "fp_churn"], 50000, "try-waited try-result try-refused-free-file refused-below-limit"),
    "C10": seq("npy", ["npy_read", "npy_damage", "npy_write"], 60000, NPY_REAL),
    "C11": seq("npy", ["npy_file", "npy_torn"], 24000, NPY_REAL),
    "C12": seq("npy", ["npy_mmap", "npy_mcrash", "npy_big", "npy_torn"], 24000, NPY_REAL),
    "C13": seq("tb", ["tb_write", "tb_file", "tb_crash", "tb_iface"], 60000, TB_REAL),
    "C14": seq("tb", ["tb_read"], 60000, TB_REAL),
    "C15": seq("xy", ["xy_cache"], 60000, XY_REAL, stub=IO_STUB + ["the provider behind the cache: changing and failing stub"]),
    "C16": seq("xy", ["xy_tree"], 20000, XY_REAL),
    "C18": check("sh", ["sh_const"], 120000, "", SH_REAL, ["scheduler, pthread primitives, heap: simulator"]),
    "C20": check("cf", ["cf_life", "cf_threads"], 40000, "", CF_REAL, ["scheduler, clocks (can be set back and forth, coarse), pthread primitives, heap: simulator", "configurations: workload that can fail", "Elements: stand-in"]),
    "C17": seq("ar", ["ar_archive"], 20000, ["GridContainer, SOM, XYDataset serialization", "Boost serialization and its archives"], stub=IO_STUB + ["streams: simulator", "CCfits: compile-only stand-in, never run"]),
    "C21": seq("so", ["so_train", "so_fair"], 30000, ["SOM (trainer, policies, projector, U-matrix)", "GridContainer"], stub=IO_STUB + ["std::random_device: simulator"]),
    "C22": seq("gr", ["gr_hist", "gr_one"], 30000, ["GridContainer", "Table"]),
    "C23": seq("ct", ["ct_catalog"], 20000, ["Configuration (catalog, mapping, photometry, redshift)", "SourceCatalog", "Table (ASCII)", "ConfigManager"], stub=IO_STUB + ["FITS reader: stand-in that refuses", "Elements: stand-in"]),
    "C25": seq("fn", ["fn_hist", "fn_grid"], 24000, ["MathUtils (functions, products, interpolation on one and several axes, Simpson's rule)", "NdArray"], own="user functions, integration schemes", stub=IO_STUB),
    "C26": seq("st", ["st_hist"], 20000, ["Histogram (Sqrt, Scott, EdgeVector, clipping, statistics)"], own="user iterators"),
    "C27": seq("st", ["st_kd"], 20000, ["KdTree"], own="user points and coordinates"),
    "C28": seq("st", ["st_pdf"], 20000, ["MathUtils (Cumulative, PdfModeExtraction)", "XYDataset"]),
    "C29": seq("tb", ["tb_mem"], 20000, ["Table (descriptions, rows, tables, CastVisitor, options of reader and writer)", "NdArray"]),
    "C30": seq("xy", ["xy_names"], 20000, ["XYDataset (QualifiedName, XYDataset)"]),
    "C24": seq("sa", ["sa_draw"], 60000, ["MathUtils (samplers, interpolation)", "NdArray", "GridContainer"], stub=IO_STUB + ["random generator: simulator"]),
    "C19": seq("nd", ["nd_hist"], 60000, ["NdArray (container, views, iterators, Operations)"]),
}
# a known finding has a small group of its own, so that the rest of the check does not depend on it
CHECKS["C19"]["groups"].append(dict(bin="nd", scenarios=["nd_concat"], quick=8, thorough=64, max_s=60, thorough_s=60, ignore=[]))
# a few runs are enough for what does not depend on the seed
CHECKS["C13"]["groups"].append(dict(bin="tb", scenarios=["tb_empty"], quick=40, thorough=400, max_s=60, thorough_s=60, ignore=[]))
