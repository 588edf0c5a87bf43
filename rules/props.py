"""What each property's check analyses (jobs per tier) and which findings violate it."""
from .runner import Job

OBJ = ["init_ds", "free_ds", "is_ds", "init_empty", "init_existing", "free_cl:0", "free_cl:1", "is_cl", "copy", "info", "labels",
       "version", "latest", "defaults", "reset_fns", "set_fns"]
LIGHT = ["chk", "stats"]
# scc_sc_clustering, by (types, seed method, primary points given, labels given); together they visit every function
SC_QUICK = [("sc:0:0:1:0", 4), ("sc:0:1:1:0", 1), ("sc:0:1:0:1", 1), ("sc:0:2:0:1", 4), ("sc:0:3:1:1", 8), ("sc:0:4:1:1", 40),
            ("sc:0:5:0:0", 40), ("sc:1:0:1:1", 55), ("sc:1:1:1:1", 1)]
HEAVY = [("hi", 45)]


def imp(**kw):
    """the built-in distance functions"""
    from .builtin import IMP
    return [Job(s, **kw) for s in IMP]


def elem(**kw):
    """any one element of their answers"""
    from .builtin import ELEM
    return [Job(s, alloc_fail=False, **kw) for s in ELEM]


def full(**kw):
    """every public function under every option family"""
    js = [Job(s, **kw) for s in OBJ + LIGHT] + imp(**kw)
    js += [Job(s, cost=c, **kw) for s, c in SC_QUICK + HEAVY]
    return js


def grid(**kw):
    js = [Job(s, **kw) for s in OBJ + LIGHT] + imp(**kw)
    js += [Job(s, cost=c, **kw) for s, c in HEAVY]
    for t in "01":
        for m in "012345":
            for pr in "01":
                for l in "01":
                    js.append(Job(f"sc:{t}:{m}:{pr}:{l}", cost=(60 if t == "1" else 5) + (45 if m in "45" else 0), **kw))
    return js


LIFE = {"leak", "double-free", "use-after-free", "free-bad", "spi-object"}


class Prop:
    def __init__(self, id, technique, note, quick, thorough, select, rule, floor=None, extra=None, cross=None, level="other", trusted=""):
        self.id, self.technique, self.note = id, technique, note
        self.quick, self.thorough, self.select, self.rule = quick, thorough, select, rule
        self.floor = floor or {}
        self.extra = extra
        self.cross = cross
        self.level = level


PROPS = {}


def add(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.id] = p


AI = "disjunctive interprocedural abstract interpretation of the LLVM IR"

add("P01", AI + ": ownership/typestate of blocks and search objects",
    "All paths of all public functions with every allocation and callback outcome; one failure pending at a time in the quick tier. Blocks kept several per allocation site (recency pools) are only checked for use, not for loss.",
    quick=lambda: full(), thorough=lambda: grid() + full(max_pending=2),
    select=lambda f: f["rule"] in LIFE,
    rule="at every exit each block/search object created during the call is released exactly once or reachable from an object handed out; no access, close or release after release; no release of caller memory",
    floor={"allocs": 40, "frees": 50, "spi": 12})

add("P02", AI + ": every allocation site forked into success and failure",
    "All paths on which an allocation fails; exit code compared with NO_MEMORY, dereferences of the failed result tracked by taint.",
    quick=lambda: full(spi_fail=False), thorough=lambda: grid(spi_fail=False) + full(max_pending=2),
    select=lambda f: f["rule"] == "null-alloc" or ("mem" in f["after_failure"] and f["rule"] in LIFE | {"failure-code", "null-deref", "null-arg", "uninit"})
    or (f["rule"] == "spi-null-buffer" and "failed allocation" in f["what"]) or (f["rule"] == "failure-code" and "memory" in f["what"]),
    rule="no dereference or hand-over of a failed allocation result; exit code NO_MEMORY whenever an allocation failed and was not successfully repeated",
    floor={"allocs": 40})

add("P03", AI + ": every callback call site forked into success and failure",
    "All paths on which a distance callback fails; exit code compared with DIST_SEARCH_ERROR. Closing a search object is not counted as a distance failure.",
    quick=lambda: full(alloc_fail=False) + imp(), thorough=lambda: grid(alloc_fail=False) + full(max_pending=2),
    select=lambda f: "dist" in f["after_failure"] and f["rule"] in {"failure-code", "spi-object", "null-deref", "spi-null-buffer"}
    or f["rule"] == "builtin" and "reports success" in f["what"],
    rule="exit code DIST_SEARCH_ERROR whenever a distance callback failed during the call; no use of a search object whose creation failed",
    floor={"spi": 12})

add("P09", AI + ": write targets traced to caller regions",
    "Every store, bulk copy, sort and callback output traced to the regions the caller handed over as read-only.",
    quick=lambda: full(alloc_fail=False, spi_fail=False), thorough=lambda: grid(),
    select=lambda f: f["rule"] == "const-write",
    rule="no store, copy, sort or callback output reaches a region handed over as read-only",
    floor={"stores": 100})

add("P14", AI + ": definite initialisation of variables, fields and blocks",
    "Variables and fields exactly. Array elements: reads of a block nothing was stored in yet (paths that skip the only stores are kept apart while they depend on arguments), reads that dominate every store to their block, and reads of a first element while all stores so far lie behind it; other elements are taken as written once the block has been.",
    quick=lambda: full(uninit=True), thorough=lambda: grid(uninit=True),
    select=lambda f: f["rule"] == "uninit",
    rule="no read of a variable or field that was not written on some path, nor of a block nothing was stored in on some path, nor a read preceding every store to the block, nor of a first element never stored to",
    floor={"loads": 300})


def opt_jobs(tier="quick", **kw):
    from .contracts import OPT_CONDS
    js = [Job(f"badopt:{w}:{c}", **kw) for w in ("sc", "chk") for c in OPT_CONDS if not (w == "chk" and c == "type-sum")]
    for M in ("LEXICAL", "BATCHES", "INWARDS_ORDER", "INWARDS_UPDATING", "EXCLUSION_ORDER", "EXCLUSION_UPDATING"):
        for Pr in "01":
            js += [Job(f"goodopt:{w}:{T}:{M}:{Pr}", **kw) for w, T in (("sc", "0"), ("chk", "0"), ("chk", "1")) if not (M == "BATCHES" and T == "1")]
    return js


def arg_jobs(**kw):
    from .contracts import BAD, GOOD
    return [Job(f"bad:{f}:{c}", **kw) for f, c in BAD] + [Job(f"good:{f}", **kw) for f in GOOD]


CONFIGS = ("ann", "wide", "int_min", "int_mna")

add("P07", AI + ": one abstract call per validity rule, with the offending element singled out",
    "One abstract call per rule and function covers every option set breaking that rule (offending array elements at every index) and must not reach a data callback or return success; abstract calls with all rules met must not be rejected as invalid.",
    quick=lambda: opt_jobs(), thorough=lambda: opt_jobs() + [j for c in CONFIGS for j in opt_jobs(config=c)],
    select=lambda f: f["rule"] in ("not-rejected", "wrongly-rejected"),
    rule="every exit of a call with broken options carries an error code and no data callback precedes it; no exit of a call with valid options is an invalid-input rejection",
    floor={"funcs": 5})

add("P08", AI + ": one abstract call per argument rule",
    "One abstract call per rule and function covers every such call, whatever its other arguments.",
    quick=lambda: arg_jobs(), thorough=lambda: arg_jobs() + [j for c in CONFIGS for j in arg_jobs(config=c)],
    select=lambda f: f["rule"] in ("not-rejected", "wrongly-rejected", "null-arg", "null-deref"),
    rule="every exit of a call with an unusable argument carries an error code, nothing null is dereferenced and no data callback is called; valid calls are accepted",
    floor={"funcs": 10})


def approve_jobs(**kw):
    from .approve import APPROVE
    return [Job(s, **kw) for s in APPROVE]


add("P18", AI + ": one abstract call per approval rule, with the offending point or cluster singled out",
    "One abstract call per rule covers every clustering breaking it (offending point, primary point or cluster at every index, cluster counts of any size) and must never be answered 'valid'; without types, an abstract call meeting every rule is answered 'valid'.",
    quick=lambda: approve_jobs(), thorough=lambda: approve_jobs() + [j for c in CONFIGS for j in approve_jobs(config=c)],
    select=lambda f: f["rule"] in ("approved", "not-approved"),
    rule="no exit of a call on a clustering breaking a rule, and no error exit, leaves the answer 'valid'; every successful exit of a call meeting all rules leaves it 'valid'",
    floor={"funcs": 1})


def objs(name, **kw):
    from . import objects
    return [Job(s, **kw) for s in getattr(objects, name)]


def more(f):
    return lambda: f() + [j for c in CONFIGS for j in f(config=c)]


add("P05", AI + ": contents of objects and handles at every exit of constructors and destructors",
    "All arguments and allocation outcomes of the four constructors and two destructors; field values compared symbolically with the arguments; the is-initialized functions are applied to what was handed out and to one abstract object per way of being unusable.",
    quick=lambda: objs("OBJECTS"), thorough=more(lambda **k: objs("OBJECTS", **k)),
    select=lambda f: f["rule"] in ("handle", "object-field", "object-test", "not-released", "free-bad", "double-free", "use-after-free", "null-arg", "null-deref", "null-alloc"),
    rule="error exits leave the handle null; success exits hand out a live new block whose fields equal the arguments and which the is-initialized function accepts; destructors release exactly the owned blocks and clear the handle",
    floor={"funcs": 7})

add("P06", AI + ": label arrays and ownership flags at every exit, with any one label singled out",
    "One arbitrary label of the source is followed through allocation and copying for every size; region identity decides sharing.",
    quick=lambda: objs("LABELS"), thorough=more(lambda **k: objs("LABELS", **k)),
    select=lambda f: f["rule"] in ("label-copy", "object-field", "not-released", "free-bad"),
    rule="deep copies hold every source label at its place in a separate block of sufficient size; shallow clusterings hold the caller's array and mark it as external; only owned labels are released",
    floor={"funcs": 3})

add("P17", AI + ": outputs at every exit, with any one buffer element singled out",
    "One arbitrary element of the output buffer is followed for every number of labels and every buffer length, inside and beyond the given length.",
    quick=lambda: objs("ACCESS"), thorough=more(lambda **k: objs("ACCESS", **k)),
    select=lambda f: f["rule"] in ("accessor", "null-arg", "null-deref", "oob", "oob-low", "oob-bulk"),
    rule="outputs equal the object's fields and the header's version; buffer element j holds label j, or the unassigned mark from the number of points on, and no element beyond the given length is written",
    floor={"funcs": 3})


def _effects(tier):
    from . import effects
    return effects.effects(tier)


add("P13", "interprocedural effect analysis over the LLVM IR call graph (reads and writes of static storage, external calls)",
    "Every function reachable from a public function, including those reached through function tables; an address of a static variable that goes anywhere counts as read and written. Calls into user-supplied callbacks are the caller's affair. Assertions are compiled out.",
    quick=lambda: [], thorough=lambda: [], select=lambda f: True, extra=_effects,
    rule="a static variable written outside the installing functions is read only by the latest-error query; external calls only to memory, string, sorting, formatting and arithmetic functions; no environment variables, no traps; addresses become numbers only for differences")


def spi_jobs(tier="quick", **kw):
    from .spi import masks
    js = [Job("install:" + m, **kw) for m in masks(tier)] + [Job("reset", **kw)]
    return js + [j for j in full(alloc_fail=False, spi_fail=False, **kw) if j.scenario.startswith(("sc", "hi", "stats"))]


add("P10", AI + ": accesses behind the data set pointer; contents of the callback table after installing and resetting",
    "Every dereference on every path of the clustering and statistics calls is traced to the caller's data set; installing is analysed for every combination of null and non-null callbacks over any installed table.",
    quick=lambda: spi_jobs(), thorough=lambda: spi_jobs("thorough") + [j for j in grid(alloc_fail=False, spi_fail=False) if j.scenario.startswith(("sc", "hi", "stats"))],
    select=lambda f: f["rule"] in ("opaque-data", "install", "reset"),
    rule="no load, store, copy or sort reaches the region behind the data set pointer; after installing, given entries are in the table, entries not given or in incomplete groups are unchanged and incomplete groups are refused; after resetting, the table equals its initial value",
    floor={"spi": 12})


def err_jobs(**kw):
    from .errors import ERRORS
    return [Job(s, **kw) for s in ERRORS]


add("P04", AI + ": error record compared with the returned code at every error exit; writes of the latest-error query",
    "All error exits of all public functions, with any earlier error on record, under every outcome of memory requests and callbacks; the query for every buffer length and every recorded code. A text formatted by snprintf counts as terminated.",
    quick=lambda: full() + err_jobs(), thorough=lambda: grid() + err_jobs() + [j for c in CONFIGS for j in err_jobs(config=c)],
    select=lambda f: f["rule"] in ("error-record", "error-code-range", "error-buffer", "error-text")
    or (f["function"] == "scc_get_latest_error" and f["rule"] in ("oob", "oob-low", "oob-bulk", "null-arg", "null-deref")),
    rule="the recorded code equals the returned code and no pointer of an earlier record survives at every error exit; the query writes only with lengths bounded by the given one, terminates the text, refuses null and empty buffers and reports different codes with different texts",
    floor={"funcs": 60})


def sizes_jobs(js):
    return [j for j in js if j.scenario.startswith(("sc", "hi"))] + [Job("sc-again")] + [Job(f"none-found:0:{m}:{pr}:1") for m in "01245" for pr in "01"]


add("P16", AI + ": clustering object compared with its state before the call at every exit",
    "All error exits of the clustering functions under every outcome of memory requests and callbacks; 'at least one cluster' is decided for calls whose radius searches find nothing, otherwise only contradicted when certain.",
    quick=lambda: sizes_jobs(full()), thorough=lambda: sizes_jobs(grid()),
    select=lambda f: f["rule"] == "object-sizes",
    rule="at every exit the number of data points is unchanged, the label array is the one there was before or a live one, and on errors the number of clusters is unchanged; no success exit reports zero clusters",
    floor={"funcs": 40})


add("P11", AI + ": arguments of every callback call against the callback contract",
    "Every callback call on every path, under every outcome of memory requests and callbacks. Clauses about numbers (queries, neighbours, search points, buffer room) are reported when they fail in every state reaching the call, or may fail for quantities that come from the caller alone; those that depend on array contents are listed as open in the evidence.",
    quick=lambda: full(contract=True), thorough=lambda: grid(contract=True) + full(max_pending=2, contract=True),
    select=lambda f: f["rule"] in ("spi-object", "spi-null-buffer", "spi-contract"),
    rule="data set argument is the caller's; objects are used between creation and closing by the matching calls while their index array lives; output arrays present and with room; at least one query, one neighbour, one search point, two points for a distance matrix; no more neighbours than search points; radius positive",
    floor={"spi": 12})


def use_jobs(tier):
    from .usage import USE
    return [Job(s, cost=c, alloc_fail=False, spi_fail=False) for s, c in USE(tier)]


def search_sets(results):
    """points close to a seed and points close to any assigned point are looked for among different sets"""
    by = {}
    for r in results:
        for m, site in r.get("search_sets", ()):
            by.setdefault(m, set()).add(tuple(site) if isinstance(site, list) else site)
    if len(by) == 2 and by[2] == by[3] and len(by[2]) == 1:
        f, l = next(iter(by[2])).rsplit(":", 1)
        return [{"rule": "option-use", "function": "scc_sc_clustering", "file": f, "line": int(l), "after_failure": [], "call_path": "",
                 "scenario": "use:*", "what": "points close to a seed and points close to any assigned point are searched for in the same array"}]
    return []


add("P12", AI + ": arguments of every neighbour search against the options governing it",
    "One abstract call per combination of the radius and unassigned-point options (with and without named primary points), for every size, radius value and data; each search is identified by the set it searches. With types the number of neighbours is only bounded.",
    quick=lambda: use_jobs("quick"), thorough=lambda: use_jobs("thorough"),
    select=lambda f: f["rule"] == "option-use",
    rule="seed searches ask for size-constraint neighbours of exactly the primary points, or all points, with the supplied seed radius or none; assignment searches ask for one neighbour with the radius setting of the points they serve; every search the options ask for is made on some path and none is made that they exclude; 'closest seed' and 'closest assigned' search different sets",
    floor={"spi": 3}, cross=search_sets)


add("P15", AI + ": sizes of all memory requests and bounds of all accesses",
    "Every memory request and access on every path, in several type-width configurations. Wrapping is decided for every request size computed in a narrower type. An access is reported when it lies outside its block in every state reaching it, or when a loop counter or copy length that depends on nothing but the caller's quantities takes it outside for some values of these; indices and counts read from arrays are assumed to be in range.",
    quick=lambda: full(bounds=True, contract=True, alloc_fail=False, spi_fail=False) + [j for c in CONFIGS for j in light(bounds=True, contract=True, config=c)],
    thorough=lambda: grid(bounds=True, contract=True, alloc_fail=False, spi_fail=False) + [j for c in CONFIGS for j in full(bounds=True, contract=True, alloc_fail=False, spi_fail=False, config=c)],
    select=lambda f: f["rule"] in ("size-wrap", "oob", "oob-low", "oob-bulk") or (f["rule"] == "spi-contract" and "has room for" in f["what"]),
    rule="no request size contains a sub-expression that can wrap in a type narrower than the address size; no access certainly outside its block; no counted loop or bulk operation leaves its block for some caller quantities; no buffer handed to a callback is smaller than what is asked for",
    floor={"allocs": 40})


add("P19", AI + ": the built-in distance functions called as the library calls them",
    "One abstract call per combination of given and omitted index arrays and radius, for every size, index contents and data, under every outcome of memory requests; the values of the distances are not looked at.",
    quick=lambda: imp(bounds=True, uninit=True) + elem(), thorough=lambda: imp(bounds=True, uninit=True, max_pending=2) + elem() + [j for c in CONFIGS for j in imp(bounds=True, uninit=True, config=c) + elem(config=c)],
    select=lambda f: f["rule"] in LIFE | {"builtin", "const-write", "null-alloc", "null-arg", "null-deref", "uninit", "oob", "oob-low", "oob-bulk", "size-wrap"},
    rule="every memory request is released by the matching close or before returning, failure is reported exactly when memory ran out, the data set and the index arrays are only read, outputs stay within the room the caller has to provide, no more queries are answered than asked, all of them without a radius, and on success any one singled-out element of the farthest points, their distances and the answered queries has been written",
    floor={"allocs": 3, "frees": 3})


def light(**kw):
    """everything that is analysed within seconds, without failures"""
    js = [Job(s, alloc_fail=False, spi_fail=False, **kw) for s in OBJ + LIGHT]
    return js + [Job(s, cost=4, alloc_fail=False, spi_fail=False, **kw) for s in ("sc:0:0:1:0", "sc:0:1:0:1", "sc:0:2:0:1")]


def _stack(tier):
    from . import stack
    return stack.stack(tier)


add("P20", "call-graph cycles and stack frames over the LLVM IR",
    "Every function reachable from a public function, calls through function tables and comparison functions included; user-installed callbacks and the C library itself excluded.",
    quick=lambda: [], thorough=lambda: [], select=lambda f: True, extra=_stack,
    rule="the call graph of the library has no cycle, no stack block has a run-time size, and the fixed frames along the deepest chain of calls stay below 256 KiB")


def _asserts(tier):
    from . import asserts
    return asserts.asserts(tier)


add("P21", "comparison of the LLVM IR of assertion and release builds, with a purity analysis of what only one of them does",
    "Every function of the library, in both builds; instructions are matched by their position in the source. The two callbacks that only answer questions (data set test, number of points) may be called in assertions.",
    quick=lambda: [], thorough=lambda: [], select=lambda f: True, extra=_asserts,
    rule="an instruction only one build has stores only to variables nothing else uses, calls only functions that only read, and never makes the code around it continue elsewhere or return")


def stats_jobs(**kw):
    from .statsout import STATS
    return [Job(s, **kw) for s in STATS]


add("P22", AI + ": every field of the statistics at every exit",
    "All exits of the statistics function under every outcome of memory requests and callbacks; the values of the distance fields are not looked at.",
    quick=lambda: stats_jobs(uninit=True), thorough=lambda: stats_jobs(uninit=True, max_pending=2) + [j for c in CONFIGS for j in stats_jobs(uninit=True, config=c)],
    select=lambda f: f["rule"] == "stats-out" or f["rule"] == "uninit",
    rule="at error exits every field is zero; at success exits every field has been set and the numbers of points and clusters are the clustering's",
    floor={"funcs": 1})


def _order(tier):
    from . import order
    return order.order(tier)


add("P23", AI + ": the sign of every comparison function's answer for every relation between the keys of two elements",
    "Every function handed to the C library's sorting and searching functions, for all element values (NaN included), in builds with and without stable sorting.",
    quick=lambda: [], thorough=lambda: [], select=lambda f: True, extra=_order,
    rule="for every relation between the keys the answer has one sign; equal elements compare equal, exchanging the elements reverses the answer, and any three elements are ordered; only bytes of the elements are looked at")
