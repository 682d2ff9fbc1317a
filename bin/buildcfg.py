"""Build description: which sources make which simulation binary. Sources come from /repo's working tree."""
import os
REPO = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = "AlexandriaKernel Configuration FilePool GridContainer Histogram KdTree MathUtils NdArray PhysicsUtils SOM SourceCatalog Table XYDataset".split()
INC = " ".join(f"-I{REPO}/{m}" for m in MODULES)
SHIM = f"-I{V}/shim -I{V}/sim"
COMMON = f"-std=c++14 -g1 -DNDEBUG -pipe -w -include memory -include array -include functional -include string -include vector -include cassert -include algorithm -include map -include chrono -include boost/io/quoted.hpp {SHIM} {INC}"
THR = f"-O1 -fsanitize=thread -fno-omit-frame-pointer {COMMON}"
IO = f"-O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -DSIM_ASAN {COMMON}"
PLAIN = f"-O2 {COMMON}"
LIBS = "-lboost_filesystem -lboost_iostreams -lboost_program_options -lboost_regex -lboost_serialization -lboost_system -lboost_thread -ldl -pthread"

TABLE = ["Table/src/lib/" + x + ".cpp" for x in "AsciiReader AsciiReaderHelper AsciiWriter AsciiWriterHelper ColumnDescription ColumnInfo ReaderHelper Row Table TableWriter".split()]
MATHS = ["MathUtils/src/lib/" + x + ".cpp" for x in "PDF/Cumulative function/Differentiable function/FunctionAdapter function/Piecewise function/Polynomial function/function_tools function/multiplication helpers/Solvers interpolation/interpolation interpolation/linear interpolation/spline numericalDifferentiation/FiniteDifference numericalIntegration/SimpsonsRule".split()]

# name: (flavour, harness sources, repo sources)
BINARIES = {
    "cf": ("thr", ["scen/config.cpp"], ["Configuration/src/lib/" + x + ".cpp" for x in "ConfigManager Configuration Utils".split()]),
    "ct": ("io", ["scen/cat.cpp"], TABLE + ["Configuration/src/lib/" + x + ".cpp" for x in "CatalogConfig ConfigManager Configuration PhotometricBandMappingConfig PhotometryCatalogConfig SpecZCatalogConfig Utils".split()] +
           ["SourceCatalog/src/lib/" + x + ".cpp" for x in "Catalog CatalogFromTable FluxErrorPair Photometry PhotometryAttributeFromRow".split()]),
    "fp": ("thr", ["scen/filepool.cpp"], ["FilePool/src/lib/FileHandler.cpp", "FilePool/src/lib/FileManager.cpp", "FilePool/src/lib/LRUFileManager.cpp"]),
    "npy": ("io", ["scen/npy.cpp"], []),
    "nd": ("io", ["scen/ndarray.cpp"], ["NdArray/src/Operations.cpp"]),
    "sh": ("thr", ["scen/share.cpp"], MATHS + ["Table/src/lib/" + x + ".cpp" for x in "ColumnDescription ColumnInfo Row Table".split()] + ["XYDataset/src/lib/QualifiedName.cpp", "XYDataset/src/lib/XYDataset.cpp",
           "SourceCatalog/src/lib/Catalog.cpp", "SourceCatalog/src/lib/Photometry.cpp", "SourceCatalog/src/lib/FluxErrorPair.cpp", "MathUtils/src/lib/PDF/PdfModeExtraction.cpp", "SOM/src/lib/ImplTools.cpp", "SOM/src/lib/InitFunc.cpp", "PhysicsUtils/src/lib/CosmologicalDistances.cpp", "PhysicsUtils/src/lib/CosmologicalParameters.cpp", "NdArray/src/Operations.cpp"]),
    "ar": ("io", ["scen/archive.cpp"], ["SOM/src/lib/ImplTools.cpp", "SOM/src/lib/InitFunc.cpp", "XYDataset/src/lib/QualifiedName.cpp"]),
    "gr": ("io", ["scen/grid.cpp"], ["Table/src/lib/" + x + ".cpp" for x in "ColumnDescription ColumnInfo Row Table".split()] + ["XYDataset/src/lib/QualifiedName.cpp"]),
    "fn": ("io", ["scen/func.cpp", "scen/interp.cpp"], MATHS + ["XYDataset/src/lib/XYDataset.cpp"]),
    "st": ("io", ["scen/stats.cpp"], ["MathUtils/src/lib/PDF/Cumulative.cpp", "MathUtils/src/lib/PDF/PdfModeExtraction.cpp", "XYDataset/src/lib/XYDataset.cpp"]),
    "sa": ("io", ["scen/sample.cpp"], MATHS + ["NdArray/src/Operations.cpp", "XYDataset/src/lib/XYDataset.cpp"]),
    "so": ("io", ["scen/som.cpp"], ["SOM/src/lib/" + x + ".cpp" for x in "ImplTools InitFunc LearningRestraintFunc NeihbourhoodFunc".split()]),
    "tb": ("io", ["scen/table.cpp", "scen/tmem.cpp"], TABLE),
    "xy": ("io", ["scen/xy.cpp", "scen/names.cpp"], TABLE + ["XYDataset/src/lib/" + x + ".cpp" for x in "AsciiParser CachedProvider FileSystemProvider QualifiedName StringFunctions XYDataset".split()]),
    "tp": ("thr", ["scen/threadpool.cpp"], ["AlexandriaKernel/src/lib/ThreadPool.cpp"]),
}
