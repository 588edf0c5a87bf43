"""Abstract callers that single out one way of misusing (or correctly using) a public function, and the rules
their exits have to satisfy. Nothing else about the call is fixed, so each covers every such call."""
from engine.dom import *
from engine.state import *
from engine.interp import LNULL, NULP, AnalysisError, ANY
from engine.scen import P, cell
from .scenarios import scenario, exit_codes, old_record, setnull, held, SLOTS, ERRNAMES, handle

DATA_SLOTS = {"get_dist_matrix", "get_dist_rows", "init_max_dist_object", "get_max_dist", "init_nn_search_object", "nearest_neighbor_search"}
S = "scc_ClusterOptions"


class NoData:
    """the call has to be over before any data is asked for"""

    def __init__(self, why):
        self.why = why

    def spi(self, eng, st, slot, args, ins, ctx):
        if slot in DATA_SLOTS:
            eng.report("not-rejected", ins, ctx, f"{slot} is called although {self.why}")
            return "dead"


class StopAtData:
    """accepted: what happens afterwards is not this scenario's business"""
    seen = False

    def spi(self, eng, st, slot, args, ins, ctx):
        if slot in DATA_SLOTS:
            self.seen = True
            return "dead"


def rejected(why, codes):
    """every exit must carry one of the codes"""
    def post(chk, exs):
        for ex in exs:
            chk.ok()
            c = ex.code()
            names = "/".join(ERRNAMES[x] for x in codes)
            if c == 3 and "mem" in ex.pend:
                continue
            if c is None and any(ex.may(x) for x in ERRNAMES if x not in codes):
                chk.bad(ex, "not-rejected", f"{chk.fname} need not return {names} although {why}")
            elif c is not None and c not in codes:
                chk.bad(ex, "not-rejected", f"{chk.fname} returns {ERRNAMES.get(c, c)} instead of {names} although {why}")
        if not exs:
            chk.eng.obligations = getattr(chk.eng, "obligations", 0)
    return post


def single(sc, st, r, elems, *atoms):
    """single out elements of a caller's array"""
    sc.eng.special[r] = elems
    for e in elems:
        st.ghost[("sp", e[3])] = "before"
    TEMPLATE.extend(a for a in atoms if a not in TEMPLATE)


def neg_(l):
    return (-l[0], tuple((a, -c) for a, c in l[1]))


class Vacuous(Exception):
    """no call in this configuration has the property"""


def lt(st, a, b):
    if not st.facts.assume_le((a[0] - b[0] + 1, l_sub(a, b)[1])):
        raise Vacuous()


def le(st, a, b):
    if not st.facts.assume_le(l_sub(a, b)):
        raise Vacuous()


def below(s, v, n):
    """v < n for a value read from an array; False when contradictory"""
    hi = s.facts.range(n)[1]
    return s.facts.assume_le((v[0] - n[0] + 1, l_sub(v, n)[1])) and s.facts.assume_le((v[0] - hi + 1, v[1]))


def K(c):
    return (c, ())


def notin(st, l, vals):
    for v in vals:
        st.facts.assume_ne((l[0] - v, l[1]))


def notpos(st, v):
    """a float that is zero, negative or not a number"""
    from engine.interp import Engine  # noqa
    return v


# -- clustering options --------------------------------------------------------------------------------
class Opt:
    """the options of one abstract call"""

    def __init__(self, sc, st, cl):
        self.sc, self.st = sc, st
        self.op = sc.options(st, null="no")
        self.n = sc.fieldval(st, cl, "scc_Clustering", "num_data_points")[1]
        for f, z in (("type_labels", "scc_TypeLabel"), ("primary_data_points", "scc_PointIndex")):
            pass

    def f(self, name):
        return self.sc.fieldval(self.st, self.op, S, name)

    def l(self, name):
        return self.f(name)[1]

    def set(self, name, v):
        self.sc.field(self.st, self.op, S, name, v)

    def null(self, name, yes):
        setnull(self.st, self.f(name)[1], yes)


def _enum(*names):
    return names


def opt_conditions(k):
    """name -> (description, how to impose it)"""
    SMS = [k["k__SCC_SM_" + x] for x in ("LEXICAL", "BATCHES", "INWARDS_ORDER", "INWARDS_UPDATING", "EXCLUSION_ORDER", "EXCLUSION_UPDATING")]
    UMS = [k["k__SCC_UM_" + x] for x in ("IGNORE", "ANY_NEIGHBOR", "CLOSEST_ASSIGNED", "CLOSEST_SEED")]
    RMS = [k["k__SCC_RM_" + x] for x in ("NO_RADIUS", "USE_SUPPLIED", "USE_SEED_RADIUS", "USE_ESTIMATED")]
    C = {}

    def cond(name, why):
        def deco(f):
            C[name] = (why, f)
        return deco

    def types(o, yes):
        if yes:
            le(o.st, K(2), o.l("num_types"))
        else:
            le(o.st, o.l("num_types"), K(1))

    @cond("null", "the options are null")
    def _(o):
        setnull(o.st, o.op, True)

    @cond("version", "the options carry another version")
    def _(o):
        notin(o.st, o.l("options_version"), [k["k__OPTIONS_VERSION"]])

    @cond("size-small", "the size constraint is below two")
    def _(o):
        le(o.st, o.l("size_constraint"), K(1))

    @cond("size-large", "the size constraint exceeds the number of points")
    def _(o):
        lt(o.st, o.n, o.l("size_constraint"))

    @cond("surplus-constraints", "type constraints are given without types")
    def _(o):
        types(o, False)
        o.null("type_constraints", False)

    @cond("surplus-labels", "type labels are given without types")
    def _(o):
        types(o, False)
        o.null("type_labels", False)

    @cond("surplus-label-length", "a length of type labels is given without types")
    def _(o):
        types(o, False)
        le(o.st, K(1), o.l("len_type_labels"))

    @cond("many-types", "there are more types than type labels")
    def _(o):
        m = min(k["k__TYPELABEL_MAX"], 65535)
        lt(o.st, K(m), o.l("num_types"))

    @cond("missing-constraints", "types are given without type constraints")
    def _(o):
        types(o, True)
        o.null("type_constraints", True)

    @cond("missing-labels", "types are given without type labels")
    def _(o):
        types(o, True)
        o.null("type_labels", True)

    @cond("short-labels", "there are fewer type labels than points")
    def _(o):
        types(o, True)
        lt(o.st, o.l("len_type_labels"), o.n)

    @cond("label-range", "some point's type label is out of range")
    def _(o):
        types(o, True)
        z = k["sz__scc_TypeLabel"]
        j = AT.get(("arg", "bad label index"), 0, 2 ** 64 - 1)
        b = AT.get(("arg", "bad label"), 0, 2 ** (8 * z - k["k__TYPELABEL_SIGNED"]) - 1)
        lt(o.st, (0, ((j, 1),)), o.n)
        le(o.st, o.l("num_types"), (0, ((b, 1),)))
        single(o.sc, o.st, o.f("type_labels")[1], [((0, ((j, z),)), z, atom_val(b), "label")], j)

    @cond("label-negative", "some point's type label is negative")
    def _(o):
        if not k["k__TYPELABEL_SIGNED"]:
            raise Vacuous()
        types(o, True)
        z = k["sz__scc_TypeLabel"]
        j = AT.get(("arg", "bad label index"), 0, 2 ** 64 - 1)
        b = AT.get(("arg", "bad label"), -2 ** (8 * z - 1), -1)
        lt(o.st, (0, ((j, 1),)), o.n)
        single(o.sc, o.st, o.f("type_labels")[1], [((0, ((j, z),)), z, atom_val(b), "label")], j)

    @cond("primary-negative", "the first primary point is negative")
    def _(o):
        if not k["k__POINTINDEX_SIGNED"]:
            raise Vacuous()
        o.null("primary_data_points", False)
        z = k["sz__scc_PointIndex"]
        le(o.st, K(1), o.l("len_primary_data_points"))
        x = AT.get(("arg", "bad primary"), -2 ** (8 * z - 1), -1)
        single(o.sc, o.st, o.f("primary_data_points")[1], [((0, ()), z, atom_val(x), "p")])

    @cond("type-sum", "the type constraints sum up to more than the size constraint")
    def _(o):
        o.set("num_types", I(2))
        o.sc.eng.peel = 3
        a, b = (AT.get(("arg", "type constraint %d" % i), 0, 2 ** 31 - 1) for i in (0, 1))
        le(o.st, (1, o.l("size_constraint")[1]), (0, ((a, 1), (b, 1))))
        single(o.sc, o.st, o.f("type_constraints")[1], [((0, ()), 4, atom_val(a), "c0"), ((4, ()), 4, atom_val(b), "c1")])

    @cond("seed-method", "the seed method is unknown")
    def _(o):
        notin(o.st, o.l("seed_method"), SMS)

    @cond("primary-empty", "an empty array of primary points is given")
    def _(o):
        o.null("primary_data_points", False)
        o.set("len_primary_data_points", ZERO)

    @cond("primary-missing", "a number of primary points is given without the points")
    def _(o):
        o.null("primary_data_points", True)
        le(o.st, K(1), o.l("len_primary_data_points"))

    def unsorted(o, eq):
        o.null("primary_data_points", False)
        z = k["sz__scc_PointIndex"]
        j = AT.get(("arg", "bad primary index"), 1, 2 ** 64 - 1)
        x = AT.get(("arg", "bad primary 1"), 0, 2 ** (8 * z - k["k__POINTINDEX_SIGNED"]) - 1)
        y = AT.get(("arg", "bad primary 2"), 0, 2 ** (8 * z - k["k__POINTINDEX_SIGNED"]) - 1)
        lt(o.st, (0, ((j, 1),)), o.l("len_primary_data_points"))
        if eq:
            o.st.facts.assume_eq((0, ((x, 1), (y, -1))) if x < y else (0, ((y, -1), (x, 1))))
        else:
            lt(o.st, (0, ((y, 1),)), (0, ((x, 1),)))
        single(o.sc, o.st, o.f("primary_data_points")[1], [((-z, ((j, z),)), z, atom_val(x), "p1"), ((0, ((j, z),)), z, atom_val(y), "p2")], j)

    @cond("primary-unsorted", "some primary point is smaller than the one before it")
    def _(o):
        unsorted(o, False)

    @cond("primary-duplicate", "a primary point is given twice")
    def _(o):
        unsorted(o, True)

    @cond("primary-last-range", "the last primary point is out of range")
    def _(o):
        o.null("primary_data_points", False)
        z = k["sz__scc_PointIndex"]
        ln = o.l("len_primary_data_points")
        le(o.st, K(1), ln)
        x = AT.get(("arg", "bad primary"), 0, 2 ** (8 * z - k["k__POINTINDEX_SIGNED"]) - 1)
        le(o.st, o.n, (0, ((x, 1),)))
        single(o.sc, o.st, o.f("primary_data_points")[1], [(l_add(l_scale(ln, z), (-z, ())), z, atom_val(x), "p")])

    @cond("primary-method", "the method for unassigned primary points is unknown")
    def _(o):
        notin(o.st, o.l("primary_unassigned_method"), UMS)

    @cond("secondary-any", "secondary points are to be assigned to any neighbour")
    def _(o):
        o.set("secondary_unassigned_method", I(k["k__SCC_UM_ANY_NEIGHBOR"]))

    @cond("secondary-method", "the method for unassigned secondary points is unknown")
    def _(o):
        notin(o.st, o.l("secondary_unassigned_method"), UMS)

    for w, ok in (("seed", ("NO_RADIUS", "USE_SUPPLIED")), ("primary", None), ("secondary", None)):
        vals = RMS if ok is None else [k["k__SCC_RM_" + x] for x in ok]

        def rm(o, w=w, vals=vals):
            notin(o.st, o.l(w + "_radius"), vals)
        C[w + "-radius-method"] = (f"the {w} radius setting is unknown", rm)

        def rv(o, w=w):
            o.set(w + "_radius", I(k["k__SCC_RM_USE_SUPPLIED"]))
            x = o.f(w + "_supplied_radius")
            if not o.sc.eng.fassume(o.st, "ule", x[1], 0.0):
                raise AnalysisError("contradictory scenario")
        C[w + "-radius-value"] = (f"the supplied {w} radius is not positive", rv)

    def batches(o):
        o.set("seed_method", I(k["k__SCC_SM_BATCHES"]))

    @cond("batches-types", "batches are combined with types")
    def _(o):
        batches(o)
        types(o, True)

    @cond("batches-secondary", "batches are combined with assigning secondary points")
    def _(o):
        batches(o)
        notin(o.st, o.l("secondary_unassigned_method"), [k["k__SCC_UM_IGNORE"]])

    @cond("batches-radius", "batches are combined with a separate primary radius")
    def _(o):
        batches(o)
        notin(o.st, o.l("primary_radius"), [k["k__SCC_RM_USE_SEED_RADIUS"]])
    return C


OPT_CONDS = ["null", "version", "size-small", "size-large", "surplus-constraints", "surplus-labels", "surplus-label-length", "many-types",
             "missing-constraints", "missing-labels", "short-labels", "label-range", "label-negative", "primary-negative", "type-sum", "seed-method", "primary-empty", "primary-missing",
             "primary-unsorted", "primary-duplicate", "primary-last-range", "primary-method", "secondary-any", "secondary-method",
             "seed-radius-method", "seed-radius-value", "primary-radius-method", "primary-radius-value", "secondary-radius-method",
             "secondary-radius-value", "batches-types", "batches-secondary", "batches-radius"]


def options_call(sc, st, which):
    """a call in which everything but the options is fine"""
    old_record(sc, st)
    cl, lr = sc.clustering(st, const=which == "chk", null="no", label="maybe" if which == "sc" else "no")
    sc.field(st, cl, "scc_Clustering", "clustering_version", I(sc.p["k__CLUSTERING_VERSION"]))
    n = sc.fieldval(st, cl, "scc_Clustering", "num_data_points")[1]
    kc = sc.fieldval(st, cl, "scc_Clustering", "num_clusters")[1]
    le(st, K(1), n)
    le(st, n, K(sc.p["k__POINTINDEX_MAX"]))
    if which == "sc":
        sc.field(st, cl, "scc_Clustering", "num_clusters", ZERO)
    else:
        le(st, K(1), kc)
        le(st, kc, K(sc.p["k__CLABEL_MAX"]))
    o = Opt(sc, st, cl)
    sc.cl, sc.lr, sc.op = cl, lr, o.op
    if which == "sc":
        ds = sc.data_set(st)
        st.facts.assume_eq(l_sub((0, ((AT.get(("spi", "num_data_points"), 0, 2 ** 64 - 1), 1),)), n))
        return o, "scc_sc_clustering", [ds, P(o.op), P(cl)]
    out = sc.out(st, "out_is_OK", 1, null="no")
    sc.out_ok = out
    return o, "scc_check_clustering", [P(cl), P(o.op), P(out)]


@scenario("badopt")
def s_badopt(sc, st, which, cname):
    o, fn, args = options_call(sc, st, which)
    why, f = opt_conditions(sc.p)[cname]
    f(o)
    sc.eng.hook = NoData(why)
    return fn, args, [rejected(why, (2, 4, 5, 7))]


@scenario("goodopt")
def s_goodopt(sc, st, which, T, M, Pr):
    """all rules for options are met; the data set is fine"""
    o, fn, args = options_call(sc, st, which)
    k = sc.p
    o.set("options_version", I(k["k__OPTIONS_VERSION"]))
    le(st, K(2), o.l("size_constraint"))
    le(st, o.l("size_constraint"), o.n)
    e = sc.eng
    if T == "0":
        le(st, o.l("num_types"), K(1))
        o.null("type_constraints", True)
        o.null("type_labels", True)
        o.set("len_type_labels", ZERO)
    else:
        le(st, K(2), o.l("num_types"))
        le(st, o.l("num_types"), K(min(65535, k["k__TYPELABEL_MAX"])))
        o.null("type_constraints", False)
        o.null("type_labels", False)
        le(st, o.n, o.l("len_type_labels"))
        nt = o.l("num_types")

        def el(eng, s, off, v):
            if v[0] == "i":
                return below(s, v[1], nt)
        e.elem[o.f("type_labels")[1]] = el
    o.set("seed_method", I(k["k__SCC_SM_" + M]))
    if Pr == "0":
        o.null("primary_data_points", True)
        o.set("len_primary_data_points", ZERO)
    else:
        o.null("primary_data_points", False)
        le(st, K(1), o.l("len_primary_data_points"))
        le(st, o.l("len_primary_data_points"), o.n)
        r = o.f("primary_data_points")[1]
        z = k["sz__scc_PointIndex"]
        n = o.n

        def el2(eng, s, off, v):
            if v[0] != "i":
                return None
            if not below(s, v[1], n):
                return False
            for (o2, sz), w in list(s.mem[r].cache.items()):
                d = l_sub(off, o2)
                if not d[1] and d[0] and w[0] == "i" and sz == z:
                    a, b = (w[1], v[1]) if d[0] > 0 else (v[1], w[1])
                    if not s.facts.assume_le((a[0] - b[0] + 1, l_sub(a, b)[1])):
                        return False
        e.elem[r] = el2
    batches = M == "BATCHES"
    um = [k["k__SCC_UM_" + x] for x in ("IGNORE", "ANY_NEIGHBOR", "CLOSEST_ASSIGNED", "CLOSEST_SEED")]
    rm = [k["k__SCC_RM_" + x] for x in ("NO_RADIUS", "USE_SUPPLIED", "USE_SEED_RADIUS", "USE_ESTIMATED")]

    def within(l, vals):
        le(st, K(min(vals)), l)
        le(st, l, K(max(vals)))
        notin(st, l, [x for x in range(min(vals), max(vals)) if x not in vals])
    within(o.l("primary_unassigned_method"), um[:2] if batches else um)
    if batches:
        o.set("secondary_unassigned_method", I(um[0]))
        o.set("primary_radius", I(rm[2]))
    else:
        within(o.l("secondary_unassigned_method"), [um[0], um[2], um[3]])
        within(o.l("primary_radius"), rm)
    within(o.l("secondary_radius"), rm)
    within(o.l("seed_radius"), rm[:2])
    for w in ("seed", "primary", "secondary"):
        if not e.fassume(st, "ogt", o.f(w + "_supplied_radius")[1], 0.0):
            raise AnalysisError("contradictory scenario")
    h = e.hook = StopAtData()
    e.ds_answer = True
    INV, NI = k["k__SCC_ER_INVALID_INPUT"], k["k__SCC_ER_NOT_IMPLEMENTED"]

    def post(chk, exs):
        for ex in exs:
            chk.ok()
            for c in (INV, NI, k["k__SCC_ER_TOO_LARGE_PROBLEM"] if which == "chk" else INV, k["k__SCC_ER_NO_SOLUTION"] if which == "chk" else INV):
                if ex.code() == c:
                    chk.bad(ex, "wrongly-rejected", f"{chk.fname} returns {ERRNAMES[c]} for valid options")
        if which == "sc" and not h.seen:
            chk.bad(None, "wrongly-rejected", f"{chk.fname} never gets to the data for valid options")
    return fn, args, [post]


# -- arguments other than options -------------------------------------------------------------------------
CL_CONDS = {
    "cl-null": "the clustering is null",
    "cl-version": "the clustering was not initialised by this library",
    "cl-no-points": "the clustering has no data points",
    "cl-many-points": "the clustering has more points than indices",
    "cl-many-clusters": "the clustering has more clusters than labels",
    "cl-no-labels": "the clustering has clusters but no labels",
}


def CL(f):
    return ("scc_Clustering", f)


def bad_clustering(sc, st, kind, const=True, label="maybe"):
    """an arbitrary clustering object that is unusable for the given reason"""
    cl, lr = sc.clustering(st, const=const, null="yes" if kind == "cl-null" else "no", label=label)
    n = sc.fieldval(st, cl, *CL("num_data_points"))[1]
    k = sc.fieldval(st, cl, *CL("num_clusters"))[1]
    if kind == "cl-version":
        notin(st, sc.fieldval(st, cl, *CL("clustering_version"))[1], [sc.p["k__CLUSTERING_VERSION"]])
    elif kind == "cl-no-points":
        sc.field(st, cl, *CL("num_data_points"), ZERO)
    elif kind == "cl-many-points":
        lt(st, K(sc.p["k__POINTINDEX_MAX"]), n)
    elif kind == "cl-many-clusters":
        lt(st, K(sc.p["k__CLABEL_MAX"]), k)
    elif kind == "cl-no-labels":
        le(st, K(1), k)
        setnull(st, lr, True)
    return cl, lr


def good_clustering(sc, st, const=True, empty=None):
    """any usable clustering; empty: True, False or None for either"""
    cl, lr = sc.clustering(st, const=const, null="no", label="maybe")
    sc.field(st, cl, *CL("clustering_version"), I(sc.p["k__CLUSTERING_VERSION"]))
    n = sc.fieldval(st, cl, *CL("num_data_points"))[1]
    k = sc.fieldval(st, cl, *CL("num_clusters"))[1]
    le(st, K(1), n)
    le(st, n, K(sc.p["k__POINTINDEX_MAX"]))
    if empty:
        sc.field(st, cl, *CL("num_clusters"), ZERO)
    elif empty is False:
        le(st, K(1), k)
        le(st, k, K(sc.p["k__CLABEL_MAX"]))
        setnull(st, lr, False)
    return cl, lr


def bad_label(sc, st, cl, lr):
    """some point carries a label that is neither a cluster nor the mark of an unassigned point"""
    z = sc.p["sz__scc_Clabel"]
    n = sc.fieldval(st, cl, *CL("num_data_points"))[1]
    k = sc.fieldval(st, cl, *CL("num_clusters"))[1]
    j = AT.get(("arg", "bad label index"), 0, 2 ** 64 - 1)
    b = AT.get(("arg", "bad label"), 0, 2 ** (8 * z - sc.p["k__CLABEL_SIGNED"]) - 1)
    lt(st, (0, ((j, 1),)), n)
    le(st, k, (0, ((b, 1),)))
    le(st, K(max(0, st.facts.range(k)[0])), (0, ((b, 1),)))
    na = sc.p["k__CLABEL_NA"]
    st.facts.assume_ne((-(na if na >= 0 else na + 2 ** (8 * z)), ((b, 1),)))
    single(sc, st, lr, [((0, ((j, z),)), z, atom_val(b), "label")], j)


def matching(sc, st, cl, yes=True):
    """does the installed callback report as many points as the clustering has?"""
    n = sc.fieldval(st, cl, *CL("num_data_points"))[1]
    d = l_sub((0, ((AT.get(("spi", "num_data_points"), 0, 2 ** 64 - 1), 1),)), n)
    (st.facts.assume_eq if yes else st.facts.assume_ne)(d)


BAD = {}     # (function, condition) -> (why, builder(sc, st) -> (fname, args), codes)


def badcall(fn, cname, why, codes=(2,)):
    def deco(f):
        BAD[(fn, cname)] = (why, f, codes)
        return f
    return deco


@scenario("bad")
def s_bad(sc, st, fn, cname):
    old_record(sc, st)
    why, f, codes = BAD[(fn, cname)]
    fname, args = f(sc, st)
    if sc.eng.hook is None:
        sc.eng.hook = NoData(why)
    return fname, args, [rejected(why, codes)]


def _init_ds(sc, st, out="no", matrix="no", d=None):
    dm = sc.eng.input_region(st, "data_matrix", null=matrix, const=True)
    o = sc.out(st, "out_data_set", 8, null=out)
    n, dd, ln = sc.atom("num_data_points"), sc.atom("num_dimensions", 32) if d is None else I(d), sc.atom("len_data_matrix")
    return "scc_init_data_set", [n, dd, ln, P(dm), P(o)]


def _init_empty(sc, st, out="no"):
    lr = sc.eng.input_region(st, "external_cluster_labels", null="maybe", const=True)
    return "scc_init_empty_clustering", [sc.atom("num_data_points"), P(lr), P(sc.out(st, "out_clustering", 8, null=out))]


def _init_existing(sc, st, out="no", labels="no"):
    lr = sc.eng.input_region(st, "current_cluster_labels", null=labels, const=True)
    n = sc.atom("num_data_points")
    st.regs[lr] = st.regs[lr].upd(size=l_scale(n[1], sc.p["sz__scc_Clabel"]))
    return "scc_init_existing_clustering", [n, sc.atom("num_clusters"), P(lr), atom_val(AT.get(("arg", "deep"), 0, 1)),
                                            P(sc.out(st, "out_clustering", 8, null=out))]


def _simple(fn, cname, why, mk, change, codes=(2,)):
    def f(sc, st):
        fname, args = mk(sc, st)
        args = change(sc, st, args) or args
        return fname, args
    BAD[(fn, cname)] = (why, f, codes)


def _with(args, i, v):
    args = list(args)
    args[i] = v
    return args


for _fn, _mk in (("init_ds", _init_ds), ("init_empty", _init_empty), ("init_existing", _init_existing)):
    _simple(_fn, "out-null", "the output handle is null", lambda sc, st, m=_mk: m(sc, st, out="yes"), lambda sc, st, a: None)
    _simple(_fn, "no-points", "there are no data points", _mk, lambda sc, st, a: _with(a, 0, ZERO))
    _simple(_fn, "many-points", "there are more points than indices", _mk,
            lambda sc, st, a: lt(st, K(sc.p["k__POINTINDEX_MAX"]), a[0][1]), (5,) if _fn == "init_empty" else (2, 5))
_simple("init_ds", "no-dimensions", "there are no dimensions", lambda sc, st: _init_ds(sc, st, d=0), lambda sc, st, a: None, (2, 5))
_simple("init_ds", "many-dimensions", "there are too many dimensions", _init_ds, lambda sc, st, a: lt(st, K(65535), a[1][1]), (2, 5))
_simple("init_ds", "no-matrix", "there is no data matrix", lambda sc, st: _init_ds(sc, st, matrix="yes"), lambda sc, st, a: None, (2, 5))
for _d in (1, 2, 3):
    _simple("init_ds", f"short-matrix-{_d}", "the data matrix is too short", lambda sc, st, d=_d: _init_ds(sc, st, d=d),
            lambda sc, st, a, d=_d: lt(st, a[2][1], l_scale(a[0][1], d)), (2, 5))
_simple("init_existing", "no-clusters", "there are no clusters", _init_existing, lambda sc, st, a: _with(a, 1, ZERO), (2, 5))
_simple("init_existing", "many-clusters", "there are more clusters than labels", _init_existing,
        lambda sc, st, a: lt(st, K(sc.p["k__CLABEL_MAX"]), a[1][1]), (2, 5))
_simple("init_existing", "no-labels", "there are no labels", lambda sc, st: _init_existing(sc, st, labels="yes"), lambda sc, st, a: None, (2, 5))


def _cl_fn(fn):
    """how to call fn on a clustering, everything else being as it may"""
    def call(sc, st, cl, ok=True, n=None):
        nul = "no" if ok else "maybe"
        if fn == "copy":
            return "scc_copy_clustering", [P(cl), P(sc.out(st, "out_clustering", 8, null="no"))]
        if fn == "info":
            return "scc_get_clustering_info", [P(cl), P(sc.out(st, "out_num_data_points", 8)), P(sc.out(st, "out_num_clusters", 8))]
        if fn == "labels":
            ln = sc.atom("len_out_label_buffer")
            o = sc.out(st, "out_label_buffer", 0, null=nul)
            st.regs[o] = st.regs[o].upd(size=l_scale(ln[1], sc.p["sz__scc_Clabel"]))
            return "scc_get_cluster_labels", [P(cl), ln, P(o)]
        if fn == "chk":
            return "scc_check_clustering", [P(cl), P(sc.options(st)), P(sc.out(st, "out_is_OK", 1, null="no"))]
        if fn == "stats":
            return "scc_get_clustering_stats", [sc.data_set(st), P(cl), P(sc.out(st, "out_stats", sc.p["sz__scc_ClusteringStats"], null="no"))]
        if fn == "sc":
            return "scc_sc_clustering", [sc.data_set(st), P(sc.options(st)), P(cl)]
        if fn == "hi":
            return ("scc_hierarchical_clustering", [sc.data_set(st), sc.atom("size_constraint", 32),
                                                    atom_val(AT.get(("arg", "batch_assign"), 0, 1)), P(cl)])
    return call


for _fn in ("copy", "info", "labels", "chk", "stats", "sc", "hi"):
    for _c, _why in CL_CONDS.items():
        def _f(sc, st, fn=_fn, c=_c):
            cl, lr = bad_clustering(sc, st, c, const=fn not in ("sc", "hi"))
            return _cl_fn(fn)(sc, st, cl, ok=False)
        BAD[(_fn, _c)] = (_why, _f, (2,))

for _fn in ("labels", "chk", "stats"):
    def _f(sc, st, fn=_fn):
        cl, lr = good_clustering(sc, st, empty=True)
        return _cl_fn(fn)(sc, st, cl, ok=False)
    BAD[(_fn, "cl-empty")] = ("the clustering is empty", _f, (2,))

for _fn, _i, _what in (("copy", 1, "output handle"), ("chk", 2, "answer"), ("stats", 2, "statistics")):
    def _f(sc, st, fn=_fn, i=_i):
        cl, lr = sc.clustering(st, const=True)
        fname, args = _cl_fn(fn)(sc, st, cl, ok=False)
        setnull(st, args[i][1], True)
        return fname, args
    BAD[(_fn, "out-null")] = (f"the output {_what} is null", _f, (2,))


@badcall("labels", "out-null", "the label buffer is null")
def _(sc, st):
    cl, lr = good_clustering(sc, st, empty=False)
    fname, args = _cl_fn("labels")(sc, st, cl)
    setnull(st, args[2][1], True)
    return fname, args


@badcall("labels", "out-empty", "the label buffer has no room")
def _(sc, st):
    cl, lr = good_clustering(sc, st, empty=False)
    fname, args = _cl_fn("labels")(sc, st, cl, ok=False)
    return fname, _with(args, 1, ZERO)


for _fn in ("stats", "sc", "hi"):
    def _f(sc, st, fn=_fn):
        cl, lr = good_clustering(sc, st, const=fn == "stats", empty=False if fn == "stats" else None)
        sc.eng.ds_answer = False
        return _cl_fn(fn)(sc, st, cl)
    BAD[(_fn, "data-set")] = ("the installed test does not accept the data set", _f, (2,))

    def _f(sc, st, fn=_fn):
        cl, lr = good_clustering(sc, st, const=fn == "stats", empty=False if fn == "stats" else None)
        matching(sc, st, cl, False)
        return _cl_fn(fn)(sc, st, cl)
    BAD[(_fn, "mismatch")] = ("the data set has another number of points than the clustering", _f, (2,))

for _fn in ("stats", "hi"):
    def _f(sc, st, fn=_fn):
        cl, lr = good_clustering(sc, st, const=fn == "stats", empty=False)
        matching(sc, st, cl)
        sc.eng.ds_answer = True
        sc.eng.alloc_fail = False
        bad_label(sc, st, cl, lr)
        fname, args = _cl_fn(fn)(sc, st, cl)
        if fn == "hi":
            le(st, K(2), args[1][1])
            le(st, args[1][1], sc.fieldval(st, cl, *CL("num_data_points"))[1])
        return fname, args
    BAD[(_fn, "label-range")] = ("some point carries the label of a cluster that does not exist", _f, (2,) if _fn == "stats" else (2, 5))


@badcall("hi", "size-small", "the size constraint is below two")
def _(sc, st):
    cl, lr = good_clustering(sc, st, const=False)
    fname, args = _cl_fn("hi")(sc, st, cl)
    le(st, args[1][1], K(1))
    return fname, args


@badcall("hi", "size-large", "the size constraint exceeds the number of points", (2, 4))
def _(sc, st):
    cl, lr = good_clustering(sc, st, const=False)
    fname, args = _cl_fn("hi")(sc, st, cl)
    lt(st, sc.fieldval(st, cl, *CL("num_data_points"))[1], args[1][1])
    return fname, args


@badcall("sc", "not-empty", "the clustering already has clusters", (2, 4, 5, 7))
def _(sc, st):
    cl, lr = good_clustering(sc, st, const=False, empty=False)
    return _cl_fn("sc")(sc, st, cl)


# -- calls that have to be accepted -------------------------------------------------------------------------
@scenario("good")
def s_good(sc, st, fn):
    old_record(sc, st)
    e, k = sc.eng, sc.p
    allowed = {0, 3}
    if fn == "init_ds":
        fname, args = _init_ds(sc, st, d=3)
        le(st, l_scale(args[0][1], 3), args[2][1])
    elif fn == "init_empty":
        fname, args = _init_empty(sc, st)
    elif fn == "init_existing":
        fname, args = _init_existing(sc, st)
        le(st, K(1), args[1][1])
        le(st, args[1][1], K(k["k__CLABEL_MAX"]))
    else:
        cl, lr = good_clustering(sc, st, const=not fn.startswith(("sc", "hi")), empty=None if fn in ("copy", "info") else fn == "hi0")
        kk = sc.fieldval(st, cl, *CL("num_clusters"))[1]
        if fn in ("copy", "info"):
            setnull(st, lr, False)
            le(st, kk, K(k["k__CLABEL_MAX"]))
        base = fn.rstrip("01")
        fname, args = _cl_fn(base)(sc, st, cl)
        if base == "labels":
            le(st, K(1), args[1][1])
        if base in ("stats", "hi"):
            matching(sc, st, cl)
            e.ds_answer = True
            e.hook = StopAtData()
        if base == "hi":
            le(st, K(2), args[1][1])
            le(st, args[1][1], sc.fieldval(st, cl, *CL("num_data_points"))[1])
            allowed = {0, 3, 5}
        if base == "stats" or fn == "hi1":
            kq = sc.fieldval(st, cl, *CL("num_clusters"))[1]
            na = k["k__CLABEL_NA"]
            na = na if na >= 0 else na + 2 ** (8 * k["sz__scc_Clabel"])

            def el(eng, s, off, v):
                # every label is a cluster (the unassigned ones are skipped by everything of interest)
                if v[0] == "i":
                    return below(s, v[1], kq)
            e.elem[lr] = el
    if fn.startswith("init"):
        le(st, K(1), args[0][1])
        le(st, args[0][1], K(min(k["k__POINTINDEX_MAX"], 2 ** 64 - 2)))

    def post(chk, exs):
        for ex in exs:
            chk.ok()
            c = ex.code()
            if c is not None and c not in allowed:
                chk.bad(ex, "wrongly-rejected", f"{chk.fname} returns {ERRNAMES.get(c, c)} for a valid call")
    return fname, args, [post]


GOOD = ["init_ds", "init_empty", "init_existing", "copy", "info", "labels1", "stats1", "hi0", "hi1"]
