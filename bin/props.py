#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it to regenerate both."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique=None, note=None, na=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None), technique=technique, note=note, na=na, level=level))

TPF = ["AlexandriaKernel/AlexandriaKernel/ThreadPool.h", "AlexandriaKernel/src/lib/ThreadPool.cpp"]
TPT = "The pool's own test is not even among the tests that build here; it runs a fixed workload under whatever schedule the machine happens to give."
THR = "deterministic simulation: seeded scheduler, virtual time and fault injection over the real code; history checked against a reference model"
THRN = "Seeded search over schedules and faults, every failure replayable; the memory of the code under test is tracked for races, use after free and overflow. Sampled, not exhaustive; sequentially consistent interleavings plus happens-before race detection."

prop("C01", "Thread pool: every task runs exactly once before block() returns",
     "Every task submitted to a thread pool is executed exactly once, and when block() returns without an exception all tasks submitted before the call have finished and their effects are visible to the caller. It holds with any number of submitting threads, when tasks submit further tasks, and for a pool of zero threads, where tasks run in the submitting thread.",
     ["schedules", "histories", "configurations"], "all interleavings of submitters, workers and blockers; all durations, pool sizes and wait times", TPT, TPF,
     [("queue protected by the queue mutex", "ThreadPool::submit and the worker loop"), ("worker state flags", "block() waits for an empty queue and all workers idle")],
     [("queue", "tasks not taken yet", TPF[0]), ("worker flags", "run / done / sleeping per worker", TPF[1])], ["submit()", "block()", "effects of the tasks"], THR, THRN)
prop("C02", "Thread pool: an exception of a task reaches the caller, once and intact",
     "If a task throws, block() (or a rethrowing exception check) throws to the caller an exception that one of the tasks threw; it never throws otherwise, and an exception is never lost or reported by a pool whose tasks did not throw. After an exception has been reported no queued task is started beyond those already being picked up. Running out of memory while submitting either refuses the task with an exception or runs it.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of throwing and normal tasks, any number of them throwing at once, and allocation failures at any point of submission", TPT, TPF,
     [("stored exception pointer", "worker loop and block()")], [("exception pointer", "first exception caught by a worker", TPF[0])], ["block()", "checkForException()"], THR, THRN)
prop("C03", "Thread pool: destruction and failed construction leave nothing running",
     "Destroying a pool waits for the tasks in execution, starts no task afterwards, destroys the tasks still queued without running them later, and leaves no thread running. If a worker thread cannot be started, the constructor reports it with an exception after stopping the threads that were started.",
     ["schedules", "fault_sequences", "histories"], "all points of a workload at which the pool may be destroyed, and failure of any of the thread creations", TPT, TPF,
     [("stop flags and join", "ThreadPool destructor")], [], ["~ThreadPool()", "ThreadPool constructor"], THR, THRN)
prop("C04", "Thread pool: progress, start order, parallelism and counters",
     "With n threads, n tasks that wait for each other do run in parallel and never more than n run at once; queued tasks start in submission order; block() returns within a bounded number of polling periods once the work is done; and the counts of queued, running and active workers agree with what is actually queued and executing.",
     ["schedules", "histories"], "all interleavings; stalled threads, spurious wake-ups and oversleeping included", TPT, TPF,
     [("polling loops with the configured wait time", "worker loop, block()")], [], ["queued()", "running()", "activeThreads()", "start times of the tasks"], THR, THRN)

FPF = ["FilePool/FilePool/FileHandler.h", "FilePool/FilePool/_impl/FileHandler.icpp", "FilePool/FilePool/FileManager.h", "FilePool/FilePool/_impl/FileManager.icpp", "FilePool/src/lib/FileManager.cpp",
       "FilePool/src/lib/FileHandler.cpp", "FilePool/src/lib/LRUFileManager.cpp", "FilePool/FilePool/FileAccessor.h"]
FPT = "The FilePool tests that build here only construct accessors by hand; the multi-threaded one (not built here) has no oracle and samples a few real schedules."
prop("C05", "File pool: readers share, writers exclude, one handler per file",
     "At any moment a file is used through the pool either by any number of read accessors or by exactly one write accessor, whatever threads and spellings of its path (symbolic links, dot segments) are used to reach it. While a handler of a file is alive every request for that file gets the same handler, and an accessor is always bound to the file and mode it was requested for, even if it outlives the handler reference. A handler opens a file for writing, or for reading after it was written, only once the descriptors of the other mode are closed.",
     ["schedules", "histories"], "all interleavings of requesting and releasing handlers and accessors from several threads", FPT, FPF,
     [("shared mutex of the handler", "FileHandler"), ("map of live handlers by canonical path", "FileManager::getFileHandler")],
     [("handler map", "weak references by canonical path", FPF[4])], ["getFileHandler()", "getAccessor()", "release of accessors"], THR, THRN)
prop("C06", "File pool: each descriptor is opened, used and closed exactly once",
     "A descriptor is given to at most one accessor at a time, is never closed while an accessor uses it, and is closed exactly once with the type it was opened with; none stays open once its handlers, or the manager and the accessors, are gone, in whatever order they are released. closeAll() closes every descriptor that is not in use, and no other. The manager's counts and the notifications of its policy interface match the descriptors actually open.",
     ["schedules", "histories", "fault_sequences"], "all interleavings and orders of destruction, with eviction and closing requests at any time and with failing opens", FPT, FPF,
     [("single ownership: handler when idle, accessor when in use", "FileHandler, FileAccessor"), ("close requests answered by the handler", "FileHandler::close")], [], ["open and close of descriptors", "getUsed()", "notify* of the policy"], THR, THRN)
prop("C07", "File pool: the limit of open files holds and evicts the least recently used",
     "The number of descriptors open at the same time never exceeds the manager's limit, even while several threads are opening; a manager made with limit 0 stays within what the process may open. When room is needed the least recently used descriptor not in use is closed, and no other; a request is refused only when all descriptors are in use. A released descriptor of the right mode and type is reused instead of opening another.",
     ["schedules", "histories", "configurations"], "all histories of requests and releases (against an exact model), all interleavings, all limits", FPT, FPF,
     [("least-recently-used list", "LRUFileManager"), ("request to close before opening", "LRUFileManager::notifyIntentToOpen")], [], ["number of descriptors open", "which descriptor is closed", "getUsed(), getAvailable()"], THR, THRN)
prop("C08", "File pool: a failing open is reported and leaves the pool intact",
     "When opening a file fails, the error reaches the caller of getAccessor and nothing else changes: no lock is kept, no descriptor or slot of the limit is lost, other users are unaffected, and once opens succeed again the pool offers its full capacity.",
     ["fault_sequences", "schedules", "histories"], "failures of any subset of the opens, under all interleavings", FPT, FPF,
     [("exception safety of the open path", "FileManager::open, FileHandler::getReadAccessor / getWriteAccessor")], [], ["exceptions of getAccessor()", "capacity after the faults stop"], THR, THRN)
prop("C09", "File pool: no deadlock, and the try modes never wait",
     "Threads that wait for at most one file at a time always get it eventually, including when opening requires closing descriptors of the same or of other handlers. The try modes return immediately: an accessor if the file is free for that mode, nothing if it is in use by somebody else or by the caller.",
     ["schedules", "histories"], "all interleavings; handlers with idle descriptors of several types at the limit", FPT, FPF,
     [("lock order between handler and manager mutexes", "FileHandler, LRUFileManager")], [], ["completion of getAccessor() in bounded simulated time"], THR, THRN)

IO = "deterministic simulation: generated histories with seeded I/O, stream, allocation and crash faults over the real code, compared with an independent reference model"
ION = "Seeded search over histories and fault sequences, every failure replayable, with address and undefined-behaviour sanitizers on. Sampled, not exhaustive; the process and the calls of the file system fail, not the kernel or the medium below it."
NPYF = ["NdArray/NdArray/io/Npy.h", "NdArray/NdArray/io/_impl/NpyReader.icpp", "NdArray/NdArray/io/_impl/NpyWriter.icpp", "NdArray/NdArray/io/_impl/NpyCommon.h", "NdArray/NdArray/io/NpyMmap.h", "NdArray/NdArray/io/_impl/NpyMmap.icpp"]
NPYT = "The NPY tests write a few small arrays to healthy streams and files and read them back; no stream ends, breaks or refuses data, no file is cut, no process dies."
prop("C10", "NPY streams: an array is read exactly or an error is reported",
     "readNpy on a stream returns an array whose shape, element type, attribute names and every element are those encoded, or throws; it never returns data the stream did not deliver, in whatever pieces the bytes arrive and wherever the stream ends or breaks, and it consumes exactly one array, so that consecutive arrays of one stream are read one after the other. Attribute names may hold anything but quotes, backslashes and line breaks, which writeNpy refuses. Headers that are damaged, or that describe an unsupported array (byte order, Fortran order, mixed or other element types, fields of several values), are refused without touching memory out of bounds. writeNpy writes any array, also a slice of a larger one, as a valid NPY array with aligned data that reads back identically, and a stream that stops accepting is left in error.",
     ["inputs", "fault_sequences"], "all element types, shapes and attribute names; sequences of arrays in one stream; every byte at which a stream can end, break or stop accepting; damaged header bytes", NPYT, NPYF[:4],
     [("NPY header parser and writer", "NpyCommon.h, NpyReader.icpp, NpyWriter.icpp")], [], ["readNpy(stream)", "writeNpy(stream)"], IO, ION)
prop("C11", "NPY files: no write or read error of the disk goes unreported",
     "When writeNpy to a path returns normally the file holds exactly the array; if opening, writing or closing the file fails or the disk is full it throws, and the same call succeeds once the disk recovers. readNpy from a path returns the array or throws when a call of the file system fails; interrupted and short reads and writes are not errors. A file cut short by a crash of the writer or a lost tail is refused, never read as an array, and a complete file is never refused.",
     ["fault_sequences", "crash_points", "inputs"], "failures of any subset of the system calls, all crash points of the writer, all lengths of a cut file", NPYT, NPYF[:4],
     [("file streams and their state", "Npy.h")], [], ["writeNpy(path)", "readNpy(path)", "content of the file"], IO, ION)
prop("C12", "Memory mapped NPY arrays: array and file always agree",
     "An array created or opened with createMmapNpy or mmapNpy shows exactly the content of its file, and changes of elements and concatenations are in the file, as a valid NPY array with the new shape, as soon as the call returns, also for a process that dies right after; changes of a private or copied array never reach the file. If growing fails (maximum size, disk, mapping) it throws and array and file are as before. After a crash every completed operation is in the file and the file can be opened. Files too short for the array they announce are refused, and arrays of more than 2^32 elements work.",
     ["histories", "fault_sequences", "crash_points", "configurations"], "all histories of element changes, growth, failed growth, copies and reopening in every mapping mode; all crash points; all element types, shapes and maximum sizes", NPYT, NPYF[3:],
     [("resize of the mapped file and rewrite of its header", "NpyMmap.icpp")], [("mapped file", "header and data seen by other processes", NPYF[5])], ["elements and shape of the array", "content of the file", "exceptions of concatenate, createMmapNpy and mmapNpy"], IO, ION)
NDF = ["NdArray/NdArray/NdArray.h", "NdArray/NdArray/_impl/NdArray.icpp", "NdArray/NdArray/Operations.h", "NdArray/src/Operations.cpp"]
prop("C19", "NdArray: views, aliases and copies agree with the array they come from",
     "In any history of operations an array, its aliases (copies share the elements), its slices and its deep copies show exactly the elements, shape and attribute names that the operations imply: a change through one is seen through all that share the elements and by no deep copy, iteration is in row-major order, slices and their reshapes address the right elements. Accesses and shapes that are out of range or do not match are refused with an exception and change nothing; running out of memory is reported as such and leaves the other arrays intact. Sums, extremes and comparison are those of the elements shown.",
     ["histories", "inputs", "fault_sequences"], "all histories of construction, aliasing, assignment, moving, copying, slicing on either end, reshaping, concatenation, iteration and element access, with allocation failures at any point", "The tests check each operation alone on a fresh array; the defects appear when views, copies and growth are combined.", NDF,
     [("shared container and per-view offset, shape and strides", "NdArray::Details")], [("container", "elements shared by aliases and views", NDF[1])], ["at()", "iterators", "shape(), size(), attributes()", "Operations"], IO, ION)

TBF = ["Table/Table/AsciiReader.h", "Table/src/lib/AsciiReader.cpp", "Table/src/lib/AsciiReaderHelper.cpp", "Table/src/lib/ReaderHelper.cpp", "Table/Table/AsciiWriter.h", "Table/src/lib/AsciiWriter.cpp",
       "Table/src/lib/AsciiWriterHelper.cpp", "Table/src/lib/TableWriter.cpp", "Table/src/lib/Row.cpp"]
TBT = "The table tests (not built here) read and write a few small tables in healthy string streams; no stream ends inside a line, breaks, fills up or dies with its process, and reads, skips and questions are hardly combined."
prop("C13", "ASCII tables: what was written is all there, or the writer reported it",
     "Every call of AsciiWriter that returns normally has its comments and rows in the stream or file, complete and in order, also for a process that dies right after; if the destination stops accepting, cannot be opened or is full, the call throws, and so do later ones. The header with the descriptions of the columns is written exactly once, before the first row, and data with other columns, or comments after the data, are refused without changing the table. Reading the result with AsciiReader gives the same comments, columns (names, types, units, descriptions) and cells. After a failure or crash the text is a prefix of the table. Strings must not contain the comment indicator and numbers are compared up to the six digits the format writes.",
     ["histories", "fault_sequences", "crash_points", "inputs"], "all histories of comments and data, all column types, every byte at which a destination can stop accepting, failures of any subset of the system calls, all crash points", TBT, TBF[4:],
     [("initialisation before the first data", "TableWriter::addData"), ("state of the output stream", "AsciiWriter")], [("stream", "destination of the text", TBF[4])], ["addComment()", "addData()", "content of the file or stream", "AsciiReader on the result"], IO, ION)
prop("C14", "ASCII tables: reading returns the rows of the table, or reports the error",
     "In any history of read(n), skip(n), hasMoreRows(), rowsLeft(), getInfo() and getComment(), AsciiReader returns every row of the table exactly once, in order, with the names, types and cells of the text, and the questions are answered for what is left and change nothing. A stream or file that breaks is reported with an exception and never taken for the end of the table; operations that do not reach the fault are not affected, and a table that merely ends is not an error. Rows that do not fit the columns are refused. It holds for seekable streams, with and without column descriptions, names and fixed types, and for text with remarks, blank lines and quoted strings.",
     ["histories", "fault_sequences", "inputs"], "all histories of operations, all column types and layouts of the header, every byte at which a stream can end or break, failures of any subset of the system calls", TBT, TBF[:4],
     [("look-ahead with rewinding", "AsciiReaderHelper, StreamRewinder")], [("position of the stream", "the next row", TBF[0])], ["read()", "skip()", "hasMoreRows()", "rowsLeft()", "getInfo()", "getComment()"], IO, ION)

XYT = "The dataset tests read three fixed files and an intact directory tree once; no file changes, disappears or fails to open, no directory entry order varies and no provider fails."
prop("C15", "Cached datasets: the cache never differs from its provider",
     "CachedProvider returns for every name and group exactly what the provider behind it answered first, be it a dataset, its absence or a list, and does not ask again. A failure is not an answer: an exception of the provider reaches the caller and the next call asks the provider anew; running out of memory leaves the cache usable and right. Parameters are always those of the provider. A dataset obtained before stays valid and unchanged.",
     ["histories", "fault_sequences"], "all histories of listing groups, getting datasets and parameters, with failures of the provider and of the allocator at any point", XYT, ["XYDataset/XYDataset/CachedProvider.h", "XYDataset/src/lib/CachedProvider.cpp"],
     [("cache of lists and datasets filled on demand", "CachedProvider")], [("cache", "datasets and lists already fetched", "XYDataset/src/lib/CachedProvider.cpp")], ["listContents()", "getDataset()", "getParameter()"], IO, ION)
prop("C16", "Dataset files: listed completely, in order, and read exactly or with an error",
     "FileSystemProvider over AsciiParser lists every dataset file below its root that can be read exactly once, by its qualified name, in each directory the names of its order.txt first and in that order, then the others sorted, independent of the order in which the file system lists them; listing a group returns exactly the members of the group and its subgroups. Getting a dataset returns every point of the file, in order, and its parameters as written, or throws; a read error is never taken for the end of the file, and a file that can not be opened is an error, not a missing dataset. A name that is not there gives no dataset. Interrupted and short reads are not errors.",
     ["inputs", "fault_sequences", "histories", "configurations"], "all trees of dataset files, directories, hidden and foreign files and order files, all orders of directory entries, all text layouts of datasets, failures of any subset of the system calls", XYT,
     ["XYDataset/XYDataset/FileSystemProvider.h", "XYDataset/src/lib/FileSystemProvider.cpp", "XYDataset/src/lib/AsciiParser.cpp", "XYDataset/src/lib/QualifiedName.cpp"],
     [("names collected at construction", "FileSystemProvider::FileSystemProvider"), ("line parser", "AsciiParser")], [], ["listContents()", "getDataset()", "getParameter()", "isDatasetFile(), getName()"], IO, ION)
prop("C18", "Immutable objects can be shared by threads",
     "Objects that are documented or used as immutable values (qualified names, polynomials, piecewise and N-dimensional functions, interpolators, cumulative distributions, datasets, tables, rows, grids, histograms, photometries, samplers and the like) can be used through their const interface by any number of threads at the same time: every call returns what it would return on an object used by nobody else, whatever was called before, and there is no data race. Copying an object while others use it is included, except for polynomials whose derivative is being computed.",
     ["schedules", "histories"], "all interleavings of const calls on shared objects of 20 kinds; all orders of calls", "The tests use every object from one thread; lazily computed members race only under particular interleavings, and usually without visible effect.",
     ["XYDataset/src/lib/QualifiedName.cpp", "MathUtils/src/lib/function/Polynomial.cpp", "MathUtils/src/lib/function/Piecewise.cpp", "Table/src/lib/Row.cpp", "XYDataset/src/lib/XYDataset.cpp"],
     [("members computed on first use", "QualifiedName::hash, Polynomial::derivative / indefiniteIntegral")], [("lazily computed members", "hash, derivative, integral", "MathUtils/src/lib/function/Polynomial.cpp")], ["results of const calls", "data races"], THR, THRN)
CFF = ["Configuration/Configuration/ConfigManager.h", "Configuration/Configuration/_impl/ConfigManager.icpp", "Configuration/src/lib/ConfigManager.cpp", "Configuration/src/lib/Configuration.cpp", "Configuration/src/lib/Utils.cpp"]
prop("C20", "Configuration: dependencies come first, and failures are never hidden",
     "A configuration manager has at most one instance of each configuration; registering one registers all its dependencies. closeRegistration offers the options of exactly the registered configurations and refuses circular dependencies with an exception. initialize runs each of its phases once for every registered configuration, a phase only after the previous one is complete and initialize of a configuration only after those it depends on. An exception of a configuration reaches the caller at every step, after which nothing can be obtained that is not completely initialized. Configurations are given away only when registered and after a successful initialization, and nothing can be registered after the registration was closed. Identifiers of managers never repeat, for any number of threads and whatever happens to the clock, the same identifier gives the same manager, and threads can use different managers at the same time.",
     ["histories", "schedules", "fault_sequences"], "all histories of registration, dependencies, closing and initialization with failures of any configuration or the allocator at any point; all interleavings of threads with their own managers; clocks that are set or coarse", "The tests use one manager whose configurations never fail, from one thread.", CFF,
     [("map of the managers", "ConfigManager::getInstance"), ("states and dependency graph", "ConfigManager")], [("map of managers", "all managers of the process", CFF[2]), ("clock", "source of identifiers", CFF[4])], ["registerConfiguration()", "closeRegistration()", "initialize()", "getConfiguration()", "getUniqueManagerId()"], THR, THRN)

GRF = ["GridContainer/GridContainer/GridContainer.h", "GridContainer/GridContainer/_impl/GridContainer.icpp", "GridContainer/GridContainer/_impl/GridIterator.icpp", "GridContainer/GridContainer/_impl/GridIndexHelper.icpp"]
SEF = ["GridContainer/GridContainer/serialize.h", "GridContainer/GridContainer/serialization/GridContainer.h", "GridContainer/GridContainer/serialization/GridAxis.h", "GridContainer/GridContainer/serialization/tuple.h", "SOM/SOM/serialize.h", "SOM/SOM/serialization/SOM.h", "XYDataset/XYDataset/serialize.h"]
SOF = ["SOM/SOM/SOM.h", "SOM/SOM/SOMTrainer.h", "SOM/SOM/SamplingPolicy.h", "SOM/SOM/_impl/SOM.icpp", "SOM/SOM/_impl/SOMProjector.icpp", "SOM/SOM/_impl/UMatrix.icpp", "SOM/src/lib/NeihbourhoodFunc.cpp", "SOM/src/lib/LearningRestraintFunc.cpp", "SOM/src/lib/InitFunc.cpp"]
prop("C17", "Archives of grids and maps: what is imported is what was exported, or an error",
     "Grids (also slices, with axes of numbers, strings or qualified names, and with empty axes) and self-organising maps exported one after another to one stream, or saved together in one archive, are imported in the same order with the same axis names, knots, cells and weights, bit for bit, whatever pieces the stream delivers. An input that ends or breaks within an object gives an exception for it and never an object; an output that refuses bytes is reported by the export or the stream; running out of memory is reported and leaves the objects usable. A map is not read with another distance function than it was written with.",
     ["inputs", "fault_sequences", "histories"], "all sequences of grids and maps, in separate archives or one, binary or text; inputs that end or break at any byte; outputs that refuse bytes from any point; failing allocations", "The tests write and read single objects through string streams that never fail.", SEF,
     [("boost archives with tracked pointers", "save_construct_data / load_construct_data")], [], ["gridExport(), gridImport(), gridBinaryExport(), gridBinaryImport()", "somExport(), somImport()"], IO, ION)
prop("C21", "Self-organising maps: training follows its samples, whatever the randomness",
     "Each training iteration uses exactly the sample its policy promises, whatever the random source yields: the full set in order, one element for Bootstrap, the given number of distinct elements (all, if there are fewer) for Jackknife, and nothing of an empty training set. Each used input moves every cell towards it by the product of the neighbourhood and the restraint factor, as documented: the unit disk and the Kohonen neighbourhood depend only on the distance to the best matching unit and the iteration. The best matching unit is a closest cell, a projection gives every input to the cell of its best matching unit exactly once, and the U-matrix summarises the distances to the existing neighbours (NaN when there are none). Running out of memory and failures of the caller's functions are reported and leave trainer, policy and map usable for other training sets and numbers of iterations.",
     ["inputs", "fault_sequences", "histories"], "all random sequences, training sets (also empty), sample sizes, map shapes, neighbourhoods and restraints; repeated trainings with one trainer; failing allocations", "The tests print one training and check sizes; the random source is not controlled.", SOF,
     [("state of the policies between start and next", "Jackknife, Bootstrap")], [("m_iter_list, m_current", "the sample of the iteration", "SOM/SOM/SamplingPolicy.h")], ["SOMTrainer::train()", "findBMU()", "SOMProjector::project()", "computeUMatrix()"], IO, ION)
prop("C22", "Grids: every view of a grid shows the same cells at the right coordinates",
     "A grid, its slices by index or value, slices of slices, moved grids and all iterators are views of the same cells: size, axes, operator(), at(), iteration order, axisValue, axisIndex and infimum of every view agree with the coordinates of the original grid, a write through one view is seen through every other, and a slice outlives the grid it was taken from. An iterator fixed on axes, at its start or half way, visits exactly the remaining cells with these coordinates, in order. Out-of-range indices given to at(), unknown values and axes fixed twice are refused with an exception and change nothing; so does running out of memory.",
     ["histories", "inputs", "fault_sequences"], "all histories of slicing, moving, writing and iterating over grids of one, two and four axes of any shape, also empty, with knots in any order; failing allocations", "The tests slice one fixed grid along one axis and fix iterators only at their start.", GRF,
     [("cells shared by views", "GridContainer::m_cell_manager"), ("fixed axes of views and iterators", "m_fixed_indices")], [("m_fixed_indices", "axes fixed so far", GRF[2])], ["at(), operator()", "begin(), end(), fixAxisByIndex(), fixAxisByValue()", "getAxis(), size(), infimum()", "gridContainerToTable()"], IO, ION)

CTF = ["Configuration/src/lib/CatalogConfig.cpp", "Configuration/src/lib/PhotometricBandMappingConfig.cpp", "Configuration/src/lib/PhotometryCatalogConfig.cpp", "Configuration/src/lib/SpecZCatalogConfig.cpp", "SourceCatalog/src/lib/CatalogFromTable.cpp", "SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp", "SourceCatalog/src/lib/Photometry.cpp", "SourceCatalog/src/lib/Catalog.cpp", "SourceCatalog/SourceCatalog/SourceAttributes/PdfFromRow.h"]
prop("C23", "Input catalogs: the sources in memory are the rows of the file, or an error",
     "Given a catalog file, a filter mapping file and the options, the catalog in memory, read whole or in pieces, has exactly the sources of the file in its order, each found by its identifier, with the photometry of the mapped filters that are not excluded, in the order of the mapping, the redshift if it is configured and the probability distribution of the redshift if its columns are configured: values as written, magnitudes converted to fluxes, missing data and upper limits flagged as the options say, upper limits without an error taken from the threshold. A file that can not be opened or read, in whole or in part, at any point, a column that is not there, values that no option allows and an identifier that occurs twice give an exception and never a shorter or different catalog. After a failure a new attempt (with a new manager) succeeds. Options that contradict each other or name what is not there are refused, and before its initialization a configuration gives nothing away nor accepts changes after it.",
     ["inputs", "fault_sequences"], "all catalogs, mappings and option sets, with the disk failing at any open or read or delivering any pieces", "The tests mock the tables and read small files from a disk that never fails.", CTF,
     [("reads through iostreams", "CatalogConfig, AsciiReader, PhotometricBandMappingConfig"), ("configurations initialized through their dependencies", "ConfigManager")], [], ["CatalogConfig::readAsCatalog(), getTableReader(), getTableToCatalogConverter()", "PhotometricBandMappingConfig::getPhotometricBandMapping()", "Catalog::find(), Source::getAttribute(), Photometry::find()"], IO, ION)

SAF = ["MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp", "MathUtils/MathUtils/PDF/_impl/NdSampler.icpp", "MathUtils/MathUtils/PDF/NdSamplerFromGrid.h", "MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp", "MathUtils/src/lib/interpolation/interpolation.cpp"]
prop("C24", "Sampling: every draw follows the distribution, whatever the random source yields",
     "A sampler built from knots and densities, or from a grid, gives exactly the asked number of draws, for any numbers of the random source, also its extremes: on a continuous axis a value between the first and the last knot, on a discrete axis one of its knots, and never one that has no probability. Each value is the quantile of one number of the source in the distribution of its axis given the values drawn on the later axes, with the density interpolated linearly on continuous axes, for any scale of knots and densities. The interpolated density outside of the knots and for unknown discrete values is zero. Densities that do not match the knots and output areas of another size are refused. Running out of memory is reported and leaves the sampler usable.",
     ["inputs", "fault_sequences", "histories"], "all sequences of random numbers, distributions of one to three continuous or discrete axes at any scale, sequences of draws, failing allocations", "The tests draw from a few fixed distributions with a fixed seed and check the mean.", SAF,
     [("random generator consumed by nested samplers", "NdSampler::draw()")], [], ["NdSampler::draw()", "createSamplerFromGrid()", "InterpN::operator()"], IO, ION)

FNF = ["MathUtils/src/lib/function/Piecewise.cpp", "MathUtils/src/lib/function/Polynomial.cpp", "MathUtils/src/lib/function/multiplication.cpp", "MathUtils/src/lib/function/function_tools.cpp", "MathUtils/src/lib/interpolation/interpolation.cpp", "MathUtils/src/lib/interpolation/linear.cpp", "MathUtils/src/lib/interpolation/spline.cpp", "MathUtils/src/lib/numericalIntegration/SimpsonsRule.cpp", "MathUtils/MathUtils/interpolation/GridInterpolation.h"]
prop("C25", "Functions: what is built of functions has the value of its parts",
     "However functions are built of each other (polynomials, functions of the user, pieces, linear and cubic interpolations, products, copies, derivatives and antiderivatives, in any order), each has at every point, the knots apart, the value that its definition gives: the product of the values, the piece that holds the point, zero outside of the knots, the straight line or the natural cubic spline through the points, extended or zero outside as asked; on a knot it has the value of one of its sides. Its integral over any range, in either direction, is that of its definition, without a numerical scheme whenever it is built of polynomials only, and with the scheme of the caller, used exactly once over the range asked, if it can not be integrated otherwise. An interpolation on a grid of several axes is linear along each continuous axis, exact on discrete ones, and zero (or extended, if asked, along continuous axes) outside of them, whatever the layout of the array of values. Copies and products do not depend on the functions they were made of. Knots in disorder, sizes that do not match, empty lists and steps for splines are refused. Running out of memory and exceptions of the user's functions and schemes come out unchanged and leave every function as it was.",
     ["inputs", "histories", "fault_sequences"], "all histories of constructing, multiplying, cloning, deriving and integrating functions, with any knots, failing allocations and throwing user code", "The tests evaluate single functions of a few types at fixed points, and nothing fails.", FNF,
     [("functions with an algebra of their own", "multiply(), integrate()"), ("lazy derivatives", "Polynomial::derivative()")], [], ["multiply()", "integrate()", "interpolate()", "Piecewise::operator()", "Polynomial::indefiniteIntegral()"], IO, ION)

HIF = ["Histogram/Histogram/Histogram.h", "Histogram/Histogram/_impl/ComputationImpl.icpp", "Histogram/Histogram/Binning/Sqrt.h", "Histogram/Histogram/Binning/Scott.h", "Histogram/Histogram/Binning/EdgeVector.h"]
prop("C26", "Histograms: every value is counted once, in the bin that holds it",
     "For floating point values of any number and size, with or without weights, a histogram counts every value exactly once with its weight, in the bin that holds it (the lower edge belongs to a bin, the upper one only to the last), and none outside of the edges given; the bins follow each other without gaps and cover all values when the histogram chooses them. Counts, bins, edges and sizes agree with each other; cutting a histogram to a range keeps the bins of that range and changes nothing else, and a range in the wrong order is refused. The mean, the standard deviation and the median are those of the counts that are kept, at the centres of their bins, the median interpolated in its bin. A copy does not depend on its original. Running out of memory, and exceptions of the iterators of the user, come out unchanged.",
     ["inputs", "histories", "fault_sequences"], "all values, weights, edges and sequences of cuts, copies and moves, with failing allocations and throwing iterators", "The tests fill a few histograms of regular values, and nothing fails.", HIF,
     [("binning strategies", "getBinIndex() and getBinEdges() of Sqrt, Scott and EdgeVector"), ("clip positions", "ComputationImpl::clip()")], [], ["getCounts()", "getEdges()", "getBins()", "clip()", "getStats()"], IO, ION)
prop("C27", "Range search: the tree finds exactly the points within the radius",
     "For every set of points, with duplicates, in any dimension and with any leaf size, a search of the tree around any centre with any radius returns each point that is nearer than the radius exactly once, unchanged, and no other, as a scan of all points does. Running out of memory, and exceptions of the user's coordinates or copies, come out unchanged while the tree is built or searched, leak nothing, and leave the tree as it was.",
     ["inputs", "histories", "fault_sequences"], "all point sets, dimensions, leaf sizes and sequences of searches, with failing allocations and throwing user types", "The tests search one small grid of points and random ones from a fixed seed, and nothing fails.", ["KdTree/KdTree/KdTree.h", "KdTree/KdTree/_impl/KdTree.icpp"],
     [("split of the points along alternating axes", "KdTree::Split"), ("user types through traits", "KdTreeTraits")], [], ["findPointsWithinRadius()"], IO, ION)
prop("C28", "Distributions: shares, intervals and modes are those of the samples",
     "For every sampled distribution, the position at which a share of it is reached (the first, the last and the middle one if it is reached on a plateau), the smallest and the central interval that hold a share, and its normalization are those of its cumulative sums; shares outside of the range, and samples whose numbers differ, are refused. The highest and the biggest modes of a density are disjoint runs of its samples around their highest sample as the merging ratio asks, the borders included; each has the mean and the area of its samples, they come in the order of their height or area, and there are never more of them than asked for. (The smallest interval and the biggest modes are decided where they are defined: the latter up to three times as many modes as asked for.) Running out of memory comes out unchanged and leaves a distribution as it was.",
     ["inputs", "histories", "fault_sequences"], "all samplings, shares, ratios and numbers of modes, and sequences of operations with failing allocations", "The tests look at a handful of regular densities that are 0 at their borders, and nothing fails.", ["MathUtils/src/lib/PDF/Cumulative.cpp", "MathUtils/src/lib/PDF/PdfModeExtraction.cpp"],
     [("cumulative sums", "Cumulative"), ("peaks removed one after the other", "catchPeak(), flatternPeak()")], [], ["findValue()", "findMinInterval()", "findCenteredInterval()", "extractNHighestModes()", "extractNBigestModes()"], IO, ION)

prop("C29", "Tables in memory: what is given is kept, what does not fit is refused",
     "For every list of columns, rows and cells: names that are empty, twice there or hold a line break, empty lists of columns and empty tables, rows of another number or of other types of cells than their columns, strings that are empty or hold a line break, and rows of different columns are refused; names and types that do not match each other are refused by a reader too. All else is accepted, and is found again by number, by name and by iteration as it was given; numbers and names that are not there are refused. Columns are equal if and only if names, types and units are. A cell read as another type has exactly its value (numbers as wider ones, strings as the number they begin with or as a list of them), or is refused, also if the number is too large for the type. Running out of memory comes out unchanged and leaves everything as it was.",
     ["inputs", "histories", "fault_sequences"], "all descriptions, rows, cells of every type, and sequences of operations with failing allocations", "The tests build a few tables and conversions by hand, and nothing fails.", ["Table/src/lib/ColumnDescription.cpp", "Table/src/lib/ColumnInfo.cpp", "Table/src/lib/Row.cpp", "Table/src/lib/Table.cpp", "Table/Table/CastVisitor.h", "Table/src/lib/AsciiReader.cpp"],
     [("checks when an object is made", "constructors of Row, Table, ColumnInfo, ColumnDescription"), ("conversions by visitor", "CastVisitor")], [], ["Row::operator[]", "Table::operator[]", "ColumnInfo::find()", "CastVisitor::operator()"], IO, ION)

prop("C30", "Qualified names and datasets: valid, distinct and ordered as identifiers",
     "A qualified name is accepted if and only if none of its groups and its name are empty or hold a slash, whether it is given in parts or as one string; its parts and its text are then those given, in copies too. Two names are equal if and only if their texts are, equal names have equal hashes, and the order of names is a strict total order (the alphabetical one that of the texts), so that ordered and unordered collections hold each name once. A name belongs to exactly the groups that its text begins with, at whole parts. A dataset has exactly the points given, in order; lists of different lengths are refused. Running out of memory comes out unchanged and leaves no name or dataset half made.",
     ["inputs", "histories", "fault_sequences"], "all names, pairs and triples of names, datasets, and sequences of operations with failing allocations", "The tests compare a handful of fixed names; nothing fails.", ["XYDataset/src/lib/QualifiedName.cpp", "XYDataset/XYDataset/QualifiedName.h", "XYDataset/src/lib/XYDataset.cpp", "XYDataset/XYDataset/XYDataset.h"],
     [("text and hash computed once", "QualifiedName constructor"), ("order by hash, then by text", "QualifiedName::operator<")], [], ["QualifiedName()", "operator==", "operator<", "hash()", "belongsInGroup()", "XYDataset::factory()"], IO, ION)

def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = dict(version=1, setup_cmd="bin/check --build-all",
             checks=[dict(property=p["id"], quick_cmd=f"bin/check {p['id']} --tier quick", thorough_cmd=f"bin/check {p['id']} --tier thorough",
                          technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if not p["na"]],
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
             notes="No hooks in /repo: the seams are link-time (pthread, time, heap, system calls) and the library's own template traits and streams. Replay: bin/check --replay <binary> <file> --trace.")
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    open(f"{V}/MANIFEST.json", "a").write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]

if __name__ == "__main__":
    main()
