"""Writes properties.jsonl (kept as a program so that the texts stay readable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


ALL = ["src/scclust.c", "src/data_set.c", "src/utilities.c", "src/nng_clustering.c", "src/nng_batch_clustering.c", "src/nng_core.c",
       "src/nng_findseeds.c", "src/digraph_core.c", "src/digraph_operations.c", "src/hierarchical_clustering.c", "src/dist_search_imp.c",
       "src/error.c", "src/scclust_spi.c"]

prop("P01", "Everything acquired in a call is released exactly once, and never used later",
     "During every public call, on success and on every failure path, each memory block and each distance-search object acquired by the library is released exactly once before the call returns, unless it becomes part of an object the caller can free. "
     "Nothing is read, written, closed or released again after its release, and memory supplied by the caller is never released or resized.",
     ["inputs", "fault_sequences", "configurations"],
     "all arguments and options of every public function, every outcome of every memory request and every distance callback",
     "The tests run a few inputs with all allocations succeeding; only one path of each function is ever taken and no leak checker runs.",
     ALL, [("release-before-return and goto-free discipline in every function that allocates", "src/*.c"),
           ("init/close pairing of search objects", "src/nng_core.c, src/nng_batch_clustering.c, src/hierarchical_clustering.c, src/dist_search.h"),
           ("ownership of labels recorded in the clustering object", "src/scclust.c")],
     ["malloc/calloc/realloc/free", "init_/close_ search object callbacks"])

prop("P02", "A failed memory request is survived and reported as out of memory",
     "If a memory request of the library (outside the distance callbacks, which report failures their own way) fails at any point during a public call, the library never dereferences, hands to a callback or otherwise relies on the missing block, and the call returns the out-of-memory error code instead of success or another code. "
     "Exempt are requests that merely shrink a block and requests the library makes again, smaller, with success.",
     ["fault_sequences", "inputs"],
     "every allocation site reachable from a public function failing, under every option setting",
     "The tests never make an allocation fail, so none of the roughly hundred checks after allocations is exercised.",
     ALL, [("null check plus NO_MEMORY return after every request", "src/*.c"),
           ("greedy-then-exact retry", "src/digraph_operations.c iscc_digraph_union_and_delete, iscc_adjacency_product")],
     ["return codes of public functions"])

prop("P03", "A failing distance callback always surfaces as a distance search error",
     "If a distance-matrix, distance-row, max-distance or nearest-neighbour callback (including creating their search objects) reports failure at any point during a clustering or statistics call, that call returns the distance-search error code. "
     "It never returns success and never uses a search object whose creation failed.",
     ["fault_sequences", "inputs"],
     "every callback call site reachable from a public function failing, under every option setting and any user-installed callback set",
     "The tests install callbacks that succeed; failure returns are produced in none of the option combinations.",
     ["src/nng_core.c", "src/nng_batch_clustering.c", "src/hierarchical_clustering.c", "src/utilities.c", "src/dist_search.h"],
     [("boolean result of every callback checked and mapped to DIST_SEARCH_ERROR", "src/nng_core.c, src/nng_batch_clustering.c, src/hierarchical_clustering.c, src/utilities.c")],
     ["return codes of public functions"])

prop("P04", "The latest-error report always describes the error code just returned",
     "Whenever a public function returns an error code, the error reported by the latest-error query afterwards belongs to that same code, whatever was reported before. "
     "The query writes only inside the buffer it is given, terminates it, and refuses an empty or missing buffer.",
     ["inputs", "fault_sequences", "histories"],
     "every error return of every public function, any earlier error on record, any buffer length",
     "Tests compare return codes on a few inputs but never the recorded code against the returned one on each error path.",
     ["src/error.c", "src/error.h"] + ALL[:11],
     [("iscc_make_error records and returns the same code", "src/error.c, src/error.h"),
      ("error text chosen from the recorded code, bounded formatting", "src/error.c scc_get_latest_error")],
     ["scc_get_latest_error", "return codes"])

prop("P05", "Constructors hand out complete objects or null; freeing clears the handle",
     "A successful data set or clustering constructor (including copying) stores a new object holding exactly the given sizes, labels and data, which passes the library's own is-initialized test; on every failure the output handle is null. "
     "Freeing releases the object and exactly the labels the library owns, sets the handle to null, and accepts null and already freed handles.",
     ["inputs", "fault_sequences", "histories"],
     "all argument values and all allocation outcomes of the constructors and destructors",
     "Tests build a few objects with valid sizes and do not inspect the handle after allocation failures or second frees.",
     ["src/data_set.c", "src/scclust.c", "src/clustering_struct.h", "src/data_set_struct.h"],
     [("output handle set to null before validation", "src/data_set.c, src/scclust.c"),
      ("single struct assignment of all fields", "src/data_set.c, src/scclust.c"),
      ("free + null assignment", "scc_free_data_set, scc_free_clustering")],
     ["object handles"])

prop("P06", "Copied labels are independent, shared labels stay the caller's",
     "A clustering made with a deep label copy, or by copying another clustering, owns a separate label array with one label per data point copied from the source, so neither side sees later changes of the other. "
     "Without deep copy the clustering uses the caller's array itself and never frees it.",
     ["inputs", "histories"],
     "all sizes, both label-copy modes, copies of empty and non-empty clusterings whatever the ownership of their labels",
     "Tests check a copy's values once; aliasing and ownership for every mode, and the number of bytes copied for every size, are not visible to them.",
     ["src/scclust.c", "src/clustering_struct.h"],
     [("separate allocation + full-length copy + ownership flag", "scc_init_existing_clustering, scc_copy_clustering"),
      ("ownership flag consulted on free", "scc_free_clustering")],
     ["label arrays"])

prop("P07", "Invalid clustering options are always rejected and valid ones accepted",
     "The size-constrained clustering and clustering-check functions return an error, before touching any data, for every option set that is not valid: wrong options version, size constraint below two or above the number of points, missing, surplus or out-of-range type data, type constraints summing to more than the size constraint (clustering function only), unsorted or out-of-range primary points, unknown method or radius codes, and supplied radii that are not positive. "
     "No option set meeting those rules is rejected as invalid input.",
     ["inputs"],
     "all values of every option field, every number of data points",
     "Tests sample a handful of invalid values per field; boundaries and combinations are left out.",
     ["src/utilities.c", "src/utilities.h", "src/nng_clustering.c", "src/nng_batch_clustering.c"],
     [("single option validator called before any work", "src/utilities.c iscc_check_cluster_options")],
     ["return codes", "callback calls"])

prop("P08", "Bad objects, null outputs and mismatched sizes are rejected before any work",
     "Every public function that takes a clustering, data set or output argument returns the invalid-input error, without crashing and without computing anything, when a required pointer is null, the clustering is not initialized (or empty where labels are needed), the data set is not accepted by the installed data set test, or the numbers of data points disagree. "
     "The constructors likewise refuse (as invalid or too large) zero or too many points, clusters or dimensions, too short data matrices and missing arrays; calls meeting these rules are not rejected.",
     ["inputs"],
     "all combinations of null and non-null arguments and all object sizes",
     "Tests cover single null arguments on some functions; combinations and exact limits are not covered.",
     ["src/scclust.c", "src/data_set.c", "src/utilities.c", "src/nng_clustering.c", "src/hierarchical_clustering.c"],
     [("argument checks at the top of each public function", "src/scclust.c, src/data_set.c, src/utilities.c, src/nng_clustering.c, src/hierarchical_clustering.c"),
      ("object validity tests", "scc_is_initialized_clustering, scc_is_initialized_data_set")],
     ["return codes"])

prop("P09", "Read-only inputs are never written",
     "No public call writes to the options, to the arrays the options point to, to the data matrix, or to a clustering (or its labels) that is only being inspected, copied, checked or summarised, and none of these is handed to a callback as an output buffer.",
     ["inputs", "fault_sequences"],
     "all inputs of all public functions",
     "A write through a cast or alias on a rare path leaves no trace in a test that does not compare the inputs afterwards.",
     ALL, [("const-qualified parameters", "templates/scclust.h")], ["memory of the caller"])

prop("P10", "Data are only reached through the installed distance functions",
     "Clustering and statistics calls never look inside the data set they are given: all data access goes through the currently installed callbacks, so any data set representation works. "
     "Installing callbacks replaces exactly the non-null entries, with the three max-distance and the three nearest-neighbour entries only as complete groups (a partial group is refused and left as it was); resetting restores the built-in set.",
     ["inputs", "histories", "configurations"],
     "any user-defined data set and callback set, any sequence of install and reset calls",
     "Tests use one alternative callback set with the built-in data set struct, so direct peeking and partial installs go unnoticed.",
     ["src/scclust_spi.c", "src/dist_search.h", "src/nng_clustering.c", "src/hierarchical_clustering.c", "src/utilities.c", "src/nng_core.c", "src/nng_batch_clustering.c"],
     [("function table indirection", "src/dist_search.h"), ("grouped installation", "src/scclust_spi.c")],
     ["data set pointer", "callback table"])

prop("P11", "Distance callbacks are always called within their contract",
     "Every callback call respects the callback interface: the data set passed is the caller's, search objects are used only between creation and closing, by the right kind of call, and while the index array they were built on still exists; at least one query, one search point and one neighbour (and no more neighbours than search points) is requested, output arrays are present and large enough for the requested results, and a radius is positive and only passed together with an output for the answered queries.",
     ["inputs", "fault_sequences"],
     "all option settings and inputs, any user-installed callback set",
     "The built-in callbacks tolerate most misuse, and contract checks are only assertions over sampled inputs.",
     ["include/scclust_spi.h", "src/dist_search.h", "src/nng_core.c", "src/nng_batch_clustering.c", "src/hierarchical_clustering.c", "src/utilities.c"],
     [("wrapper calls and buffer sizing next to each call", "src/nng_core.c, src/nng_batch_clustering.c, src/hierarchical_clustering.c, src/utilities.c")],
     ["arguments of callback calls"])

prop("P12", "Every option takes effect at the distance searches it governs",
     "The neighbour searches of a clustering call use exactly the options they are governed by: seed searches use the seed radius when and only when one is supplied, assignment searches use the primary (for primary or unspecified points) or secondary radius setting, with 'use seed radius' meaning the seed's and 'no radius' meaning none; without types the seed search asks for exactly size-constraint neighbours. "
     "A search is restricted to the primary points exactly where the options name them.",
     ["inputs"],
     "all combinations of seed method, radius methods, radius values, unassigned methods, primary points and sizes",
     "The combinations of radius, method and primary-point options number in the thousands; tests run a few dozen on one small data set.",
     ["src/nng_clustering.c", "src/nng_batch_clustering.c", "src/nng_core.c"],
     [("radius resolution", "src/nng_clustering.c iscc_make_clustering_from_nng"), ("argument passing", "src/nng_core.c, src/nng_batch_clustering.c")],
     ["arguments of nearest-neighbour callbacks"])

prop("P13", "Results depend only on arguments; no hidden state, I/O, clock or exit",
     "Apart from the latest-error record and the installed callback table, the library keeps no state between calls, so the same call gives the same result whatever happened before. "
     "No public function performs I/O, reads the clock, environment, locale or a random source, or can terminate or abort the program.",
     ["histories", "programs"],
     "all call sequences on all inputs",
     "A cache, counter or static buffer that only matters on a second call, or a print on a rare path, is outside what single-call tests observe.",
     ALL, [("no mutable static data outside error.c and scclust_spi.c", "src/*.c"), ("only memory, sorting, formatting and arithmetic library calls", "src/*.c")],
     ["whole process"])

prop("P14", "No result or decision depends on uninitialised memory",
     "On every path of every public call, no value is read from a local variable, allocated block or output buffer before something has been stored there, and objects and result structures handed to the caller are completely filled in.",
     ["inputs", "fault_sequences"],
     "all inputs and failure outcomes of all public functions",
     "Fresh memory often happens to be zero under test; reads on rare paths are not executed at all.",
     ALL, [("initialisation at declaration, calloc or full writes before use", "src/*.c")], ["memory reads"])

prop("P15", "Sizes and counts are computed without wrapping, and blocks are large enough",
     "No memory request is computed with arithmetic that can wrap around in a type narrower than the address size, so a block is never silently smaller than intended. Blocks sized by the caller's quantities (points, clusters, types, size constraint, batch size) are never overrun by the loops and copies that run over those quantities.",
     ["inputs", "configurations"],
     "all problem sizes, size constraints, batch sizes and type-width configurations",
     "Wrapping needs problem sizes or option values (around 2^32) no test can afford.",
     ALL, [("size_t/uintmax_t arithmetic and explicit limits before allocation", "src/*.c")], ["arguments of malloc/calloc/realloc"])

prop("P16", "A failed clustering call leaves the clustering's sizes as they were",
     "When a clustering call returns an error, the clustering object still reports the number of data points and clusters it had before the call and keeps a valid label array; when it succeeds on an empty clustering, the number of clusters it reports is at least one.",
     ["inputs", "fault_sequences"],
     "every error return of the clustering functions",
     "Tests check the object after a few validation errors, none after a failure in the middle of the work.",
     ["src/nng_clustering.c", "src/nng_batch_clustering.c", "src/nng_core.c", "src/hierarchical_clustering.c"],
     [("cluster count stored as the last step, reset on failure", "src/nng_clustering.c, src/nng_batch_clustering.c, src/hierarchical_clustering.c")],
     ["scc_get_clustering_info"])

prop("P17", "Clustering accessors report exactly what the object holds",
     "The info query returns the object's own number of data points and clusters, the label query copies the first labels in order into the given buffer and pads the remainder with the unassigned label without writing past the given length, and the version query returns the version in the header.",
     ["inputs"],
     "all object sizes and buffer lengths, all combinations of omitted outputs",
     "Tests use one or two buffer lengths.",
     ["src/scclust.c"], [("field copies and two bounded loops", "src/scclust.c")], ["outputs"])

prop("P18", "A clustering is approved only after every rule has been checked",
     "The clustering check never answers 'valid' for a clustering with a label that is neither a cluster nor the unassigned mark, an unassigned primary point, a cluster below the size constraint or, with two or more types, a cluster with too few points of some type, and never together with an error. "
     "Without types, a clustering meeting every rule is answered 'valid'.",
     ["inputs"],
     "all clusterings and option sets",
     "Tests check a few dozen clusterings; the early exits and the combination of types, sizes and primary points are sampled.",
     ["src/utilities.c"], [("answer preset to false, set to true as the last step", "src/utilities.c scc_check_clustering")], ["output flag"])

prop("P19", "The built-in distance functions keep their side of the callback contract",
     "For every data set and every combination of given and omitted index arrays and radius, the built-in distance functions accept exactly the properly initialised data sets, report their true number of points, only read the data matrix inside its bounds and the index arrays, and write only inside the output arrays the caller has to provide. "
     "They report failure exactly when memory ran out. On success the number of answered queries is set (never more than were asked, and all of them when there is no radius), each answered query is named when asked for, and every query has a farthest point and a distance, whatever the distances are (they need not be comparable). They keep search objects usable for several searches, and release everything they requested by the time the object is closed.",
     ["inputs", "fault_sequences", "configurations"],
     "all data sets, index arrays, numbers of queries, search points and neighbours, radii, and outcomes of memory requests",
     "The tests call these functions on one fixed data set with all memory requests succeeding; which index arrays are omitted, sizes and failures range far beyond that.",
     ["src/dist_search_imp.c", "src/dist_search.h", "src/scclust_spi.c", "src/data_set.c"],
     [("built-in distance, maximum-distance and nearest-neighbour functions", "src/dist_search_imp.c"),
      ("table of distance functions", "src/scclust_spi.c iscc_dist_functions")],
     ["functions of the table of distance functions", "malloc/free"])

prop("P20", "Stack use stays bounded however large the problem is",
     "Every public call uses a fixed amount of stack (less than 256 KiB besides user-installed callbacks and the C library), whatever the number of points, clusters, arcs, types and neighbours: no library function calls itself directly or through others, and no stack block has a run-time size. "
     "Memory that grows with the problem comes from memory requests, which can fail and be reported.",
     ["inputs", "configurations"],
     "all problem sizes, graphs and option sets",
     "Test problems are small; recursion over points or a stack array of problem size only overflows on large ones.",
     ALL[:12], [("explicit cluster stack instead of recursion", "src/hierarchical_clustering.c"), ("requested work arrays", "src/*.c")],
     ["stack pointer during public calls"])

prop("P21", "Assertions only observe: release builds do the same work as assertion builds",
     "Compiling the library with or without assertions (NDEBUG) makes no difference to any call in which no assertion fails: the same memory is written and released, the same callbacks do the same work and the same results are returned. "
     "An assertion, or code compiled only in one kind of build, has no side effect; it may ask the data set test and the number of points.",
     ["inputs", "configurations"],
     "all calls, in builds with and without assertions",
     "The test suite is only ever built with assertions; work hidden in an assertion is done there and missing from the library users get.",
     ALL[:12], [("assertions throughout", "src/*.c"), ("code depending on NDEBUG", "src/nng_findseeds.c, src/digraph_operations.c"),
                ("release builds define NDEBUG", "configure")],
     ["results of public functions in both builds"])

prop("P22", "Clustering statistics are delivered completely or not at all",
     "When the statistics function reports an error, every field of the caller's statistics is zero, whatever was in it before; when it reports success, every field has been set and the numbers of data points and clusters are those of the clustering.",
     ["inputs", "fault_sequences"],
     "all clusterings and data sets, usable or not, and every outcome of memory requests and distance callbacks",
     "Tests never make the statistics function run out of memory or its callback fail, and check the output after few of the rejections.",
     ["src/utilities.c"], [("output preset to zero, results copied out as the last step", "src/utilities.c scc_get_clustering_stats")],
     ["out_stats"])

prop("P23", "Sorting orders every pair and triple of elements consistently",
     "Every comparison function the library hands to the C library's sort is an ordering of all possible elements, whatever their values: an element equals itself, exchanging two elements reverses the answer, and any three elements are ordered (a NaN distance has a fixed place, large and small values do not wrap the answer around). It reads nothing outside the two elements.",
     ["inputs", "configurations"],
     "all distances (infinite and NaN included) and all indices, in builds with and without stable sorting",
     "Tests sort a few small finite distances and small indices; an order that breaks for NaN, huge or tiny differences passes them, and the C library may then read outside the array.",
     ["src/hierarchical_clustering.c", "src/nng_core.c", "src/nng_batch_clustering.c"],
     [("order of distance edges", "src/hierarchical_clustering.c iscc_hi_compare_dist_edges"), ("order of indices in stable builds", "src/nng_core.c, src/nng_batch_clustering.c iscc_compare_PointIndex")],
     ["arguments of qsort"])

# -- not decided by static analysis here ------------------------------------------------------------------
prop("N01", "Every produced clustering satisfies the size and type constraints",
     "Every cluster of a clustering produced without error has at least the requested number of points, and of each type, and every primary point not left unassigned by the chosen method belongs to exactly one cluster.",
     ["inputs"], "all data sets and options", "Needs the contents of neighbour graphs built at run time for all inputs; tests sample small ones.",
     ["src/nng_core.c", "src/nng_findseeds.c", "src/hierarchical_clustering.c"], [("seed disjointness in the neighbour graph", "src/nng_findseeds.c")])
prop("N02", "Seeds are disjoint and maximal",
     "No two seeds share a neighbour and no further seed could be added, for every seed-finding method.",
     ["inputs"], "all graphs", "Graphs of all shapes; tests use three small ones.",
     ["src/nng_findseeds.c"], [("marks on seed neighbours", "src/nng_findseeds.c")])
prop("N03", "The built-in searches return the true nearest neighbours and distances",
     "The built-in nearest-neighbour, maximum-distance and distance callbacks return exactly the nearest or farthest points and Euclidean distances, with radius limits applied.",
     ["inputs"], "all data matrices", "Numerical result over all real data.",
     ["src/dist_search_imp.c"], [("insertion into sorted list", "src/dist_search_imp.c")])
prop("N04", "Graph operations compute the documented union, product, difference and transpose",
     "Each graph operation returns exactly the arcs its documentation promises.",
     ["inputs"], "all graphs", "Result sets depend on run-time arc arrays.",
     ["src/digraph_operations.c"], [("row markers", "src/digraph_operations.c")])
prop("N05", "Clustering statistics are numerically correct",
     "Every field of the statistics equals its definition over the pairwise within-cluster distances.",
     ["inputs"], "all clusterings and distances", "Numerical result.",
     ["src/utilities.c"], [("accumulation loops", "src/utilities.c")])
prop("N06", "Clustering approximates the optimum within the documented factor",
     "The maximum within-cluster distance of the result is within the documented constant factor of the best possible one.",
     ["inputs"], "all data sets", "Optimality over all partitions.",
     ["src/nng_clustering.c"], [("neighbour graph argument", "doxyrefs.bib")])
prop("N07", "All public calls terminate",
     "Every public call on valid input returns after finitely many steps.",
     ["inputs"], "all inputs", "Ranking arguments over run-time graph contents and stack sizes.",
     ["src/hierarchical_clustering.c", "src/nng_findseeds.c"], [("shrinking clusters", "src/hierarchical_clustering.c")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
