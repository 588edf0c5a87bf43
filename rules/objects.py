"""Abstract callers of constructors, destructors and accessors, and what their exits have to look like."""
from engine.dom import *
from engine.state import *
from engine.interp import ANY, AnalysisError
from engine.scen import P, cell
from .scenarios import scenario, old_record, setnull, held, ERRNAMES, SLOTS
from .contracts import (lt, le, K, single, CL, Vacuous, good_clustering, bad_clustering, CL_CONDS, _init_ds, _init_empty,
                        _init_existing, _cl_fn)


def isnull(ex, v):
    """True / False / None (either or unknown)"""
    if v is None:
        return None
    if v[0] == "i":
        lo, hi = ex.st.facts.range(v[1])
        return True if (lo, hi) == (0, 0) else False if lo > 0 else None
    if v[0] == "p":
        rg = ex.st.regs.get(v[1])
        return None if rg is None or rg.null == "maybe" else rg.null == "yes"
    return None


def ok_exits(chk, exs):
    """exits on success, with the object handed out"""
    for ex in exs:
        if ex.code() == 0 or (ex.code() is None and ex.may(0)):
            yield ex


def handle_null_on_error(chk, exs):
    for ex in exs:
        c = ex.code()
        if c is None or c == 0:
            continue
        rg = ex.st.regs.get(chk.sc.h)
        if rg is None or rg.null == "yes":
            continue
        chk.ok()
        if isnull(ex, ex.cell(chk.sc.h)) is not True:
            chk.bad(ex, "handle", f"{chk.fname} returns {ERRNAMES.get(c, c)} without setting the output handle to null")


def new_object(chk, ex):
    """the object the caller got, or None after reporting"""
    v = ex.cell(chk.sc.h)
    if v is None or v[0] != "p" or isnull(ex, v) is not False:
        if isnull(ex, v) is True or v is None or v[0] == "i":
            chk.bad(ex, "handle", f"{chk.fname} returns OK without handing out an object")
        return None
    rg = ex.st.regs[v[1]]
    if rg.status != "live" or v[2] != (0, ()):
        chk.bad(ex, "handle", f"{chk.fname} hands out an object that is already released")
        return None
    if rg.kind != "heap":
        chk.bad(ex, "handle", f"{chk.fname} hands out something that is not a new object")
        return None
    return v[1]


def wrong(ex, v, w):
    """does the field certainly hold something else than w?"""
    if v is None or v[0] == "u":
        return True
    if v[0] == "?":
        return False
    v, w = ex.chk.eng.canon(ex.st, v), ex.chk.eng.canon(ex.st, w)
    if w[0] == "p":
        if isnull(ex, w) is True:
            return isnull(ex, v) is False
        if v[0] == "p":
            return v[1] != w[1] or (v[2] is not None and v[2] != w[2])
        return True
    if v[0] == "i":
        return ex.st.facts.range(l_sub(v[1], w[1])) != (0, 0)
    if v[0] == "c" and w[0] == "i" and not w[1][1]:
        d = ex.chk.eng.decide(ex.st, v)
        return d is None and v[1] in ("le", "eq", "ne") or d is not None and d != bool(w[1][0])
    return v[0] == "p"


def fields(struct, want):
    """the object handed out holds exactly these values"""
    def post(chk, exs):
        for ex in ok_exits(chk, exs):
            o = new_object(chk, ex)
            if o is None:
                continue
            for f, w in want.items():
                chk.ok()
                if wrong(ex, ex.field(o, struct, f), w):
                    chk.bad(ex, "object-field", f"{chk.fname} hands out an object whose {f} is not the value it was given")
    return post


def passes(test):
    """the library's own test accepts what was handed out"""
    def post(chk, exs):
        for ex in ok_exits(chk, exs):
            v = ex.cell(chk.sc.h)
            if v is None or v[0] != "p" or isnull(ex, v) is not False:
                continue
            chk.ok()
            for st, r in chk.eng.call(chk.eng.mod.funcs[test], ex.st.copy(), [v], (("after", 0, 0),), None):
                if r is not None and r[0] == "i" and st.facts.range(r[1])[1] == 0:
                    chk.bad(ex, "object-field", f"{test} rejects what {chk.fname} hands out")
    return post


def never_error(chk, exs):
    for ex in exs:
        chk.ok()
        if ex.code() is not None and ex.code() not in (0, 3):
            chk.bad(ex, "object-field", f"{chk.fname} returns {ERRNAMES.get(ex.code(), ex.code())} for a valid call")


@scenario("new")
def s_new(sc, st, fn):
    old_record(sc, st)
    k = sc.p
    if fn == "init_ds":
        fname, a = _init_ds(sc, st, out="maybe", matrix="maybe")
        sc.h = a[4][1]
        want = {"num_data_points": a[0], "num_dimensions": a[1], "data_matrix": a[3], "data_set_version": I(k["k__DATASET_VERSION"])}
        return fname, a, [handle_null_on_error, fields("scc_DataSet", want), passes("scc_is_initialized_data_set")]
    C = "scc_Clustering"
    if fn in ("empty0", "empty1"):
        fname, a = _init_empty(sc, st, out="maybe")
        setnull(st, a[1][1], fn == "empty0")
        sc.h = a[2][1]

        def post(chk, exs):
            for ex in ok_exits(chk, exs):
                o = new_object(chk, ex)
                if o is None:
                    continue
                n = isnull(ex, a[1])
                lab, ext = ex.field(o, C, "cluster_label"), ex.field(o, C, "external_labels")
                chk.ok(2)
                if n is True and isnull(ex, lab) is not True or n is False and wrong(ex, lab, a[1]):
                    chk.bad(ex, "object-field", f"{chk.fname} hands out an object whose labels are not the given ones")
                if n is False and wrong(ex, ext, ONE):
                    chk.bad(ex, "object-field", f"{chk.fname} marks the caller's labels as its own")
                if n is True and wrong(ex, ext, ZERO):
                    chk.bad(ex, "object-field", f"{chk.fname} marks labels it will allocate itself as the caller's")
        want = {"num_data_points": a[0], "num_clusters": ZERO, "clustering_version": I(k["k__CLUSTERING_VERSION"])}
        return fname, a, [handle_null_on_error, fields(C, want), post, passes("scc_is_initialized_clustering")]
    if fn in ("shallow", "deep"):
        fname, a = _init_existing(sc, st, out="maybe", labels="maybe")
        a[3] = ONE if fn == "deep" else ZERO
        sc.h = a[4][1]
        want = {"num_data_points": a[0], "num_clusters": a[1], "clustering_version": I(k["k__CLUSTERING_VERSION"]),
                "external_labels": ZERO if fn == "deep" else ONE}
        if fn == "shallow":
            want["cluster_label"] = a[2]
        return fname, a, [handle_null_on_error, fields(C, want), passes("scc_is_initialized_clustering")]
    if fn == "copy":
        cl, lr = sc.clustering(st, const=True)
        fname, a = "scc_copy_clustering", [P(cl), P(sc.out(st, "out_clustering", 8))]
        sc.h = a[1][1]
        want = {"num_data_points": sc.fieldval(st, cl, *CL("num_data_points")), "num_clusters": sc.fieldval(st, cl, *CL("num_clusters")),
                "clustering_version": I(k["k__CLUSTERING_VERSION"]), "external_labels": ZERO}
        return fname, a, [handle_null_on_error, fields(C, want), passes("scc_is_initialized_clustering")]


@scenario("is")
def s_is(sc, st, which, kind):
    """the is-initialized tests tell usable objects from unusable ones"""
    yes = kind == "good"
    if which == "cl":
        if yes:
            cl, lr = good_clustering(sc, st)
            k = sc.fieldval(st, cl, *CL("num_clusters"))[1]
            le(st, k, K(sc.p["k__CLABEL_MAX"]))
            setnull(st, lr, False)
        else:
            cl, lr = bad_clustering(sc, st, kind)
        fn, o = "scc_is_initialized_clustering", cl
    else:
        e, p = sc.eng, sc.p
        D = "scc_DataSet"
        o = e.input_region(st, "data_set object", null="yes" if kind == "null" else "no", const=True, size=(p["sz__scc_DataSet"], ()))
        dm = e.input_region(st, "data_matrix", null="yes" if kind == "matrix" else "no" if yes else "maybe", const=True)
        sc.field(st, o, D, "data_matrix", P(dm))
        for f in ("num_data_points", "num_dimensions", "data_set_version"):
            z = p[f"siz__{D}__{f}"]
            a = AT.get(("arg", "ds." + f), 0, 2 ** (8 * z) - 1)
            sc.field(st, o, D, f, atom_val(a))
            if f == "data_set_version":
                if kind == "version":
                    st.facts.assume_ne((-p["k__DATASET_VERSION"], ((a, 1),)))
                elif yes:
                    sc.field(st, o, D, f, I(p["k__DATASET_VERSION"]))
            elif yes:
                st.facts.assume_le((1, ((a, -1),)))
            elif kind == f:
                sc.field(st, o, D, f, ZERO)
        if yes:
            st.facts.assume_le((-p["k__POINTINDEX_MAX"], ((AT.get(("arg", "ds.num_data_points"), 0, 2 ** 64 - 1), 1),)))
            st.facts.assume_le((-65535, ((AT.get(("arg", "ds.num_dimensions"), 0, 2 ** 64 - 1), 1),)))
        fn = "scc_is_initialized_data_set"

    def post(chk, exs):
        for ex in exs:
            chk.ok()
            if ex.ret is None or ex.ret[0] != "i":
                continue
            lo, hi = ex.st.facts.range(ex.ret[1])
            if yes and hi == 0:
                chk.bad(ex, "object-test", f"{fn} rejects a usable object")
            if not yes and hi != 0:
                chk.bad(ex, "object-test", f"{fn} accepts an object although {CL_CONDS.get(kind, 'its ' + kind + ' is unusable')}")
    return fn, [P(o)], [post]


@scenario("release")
def s_release(sc, st, which, owned="1", label="maybe"):
    e, p = sc.eng, sc.p
    if which == "cl":
        o, lr = sc.clustering(st, null="no", label=label, owned=owned == "1", label_const=False)
        fn = "scc_free_clustering"
    else:
        o = e.input_region(st, "data_set object", null="no", const=False, size=(p["sz__scc_DataSet"], ()))
        lr = e.input_region(st, "data_matrix", null="maybe", const=True)
        sc.field(st, o, "scc_DataSet", "data_matrix", P(lr))
        fn = "scc_free_data_set"
    st.regs[o] = st.regs[o].upd(extra=("owned",))
    h = sc.eng.input_region(st, "handle", null="no", const=False, size=(8, ()))
    cell(st, h, 0, 8, P(o))

    def post(chk, exs):
        for ex in exs:
            chk.ok(3)
            if isnull(ex, ex.cell(h)) is not True:
                chk.bad(ex, "handle", f"{fn} leaves the handle pointing to the released object")
            if ex.st.regs[o].status != "freed":
                chk.bad(ex, "not-released", f"{fn} does not release the object")
            rg = ex.st.regs[lr]
            if which == "cl" and owned == "1" and rg.null == "no" and rg.status != "freed":
                chk.bad(ex, "not-released", f"{fn} does not release the labels the object owns")
            if (which == "ds" or owned == "0") and rg.status == "freed":
                chk.bad(ex, "free-bad", f"{fn} releases memory the caller owns")
    return fn, [P(h)], [post]


@scenario("release-null")
def s_release_null(sc, st, which, level):
    """null handles and handles of released objects are accepted and left alone"""
    h = sc.eng.input_region(st, "handle", null="yes" if level == "0" else "no", const=False, size=(8, ()))
    if level == "1":
        cell(st, h, 0, 8, ZERO)
    fn = "scc_free_clustering" if which == "cl" else "scc_free_data_set"

    def post(chk, exs):
        if not exs:
            chk.bad(None, "handle", f"{fn} does not survive a null handle")
        for ex in exs:
            chk.ok()
            if level == "1" and isnull(ex, ex.cell(h)) is not True:
                chk.bad(ex, "handle", f"{fn} changes a null handle")
    return fn, [P(h)], [post]


# -- labels ---------------------------------------------------------------------------------------------------
def track(sc, st, r, so, z, tag):
    e = sc.eng
    e.special[r] = e.special.get(r, []) + [(so, z, "track", tag)]
    e.tracked.add(r)
    st.ghost[("sp", tag)] = "before"
    st.ghost[("tv", tag)] = ("u",)


def tracked_ok(ex, tag, want, bits):
    """True, False, or None when the analysis lost sight of the element"""
    v = ex.st.ghost.get(("tv", tag), ANY)
    if v[0] == "?":
        return None
    if v[0] != "i":
        return False
    d = l_sub(v[1], want)
    if d[1]:
        return ex.st.facts.range(d) == (0, 0)
    return d[0] % 2 ** bits == 0


def at(a, c=1):
    return (0, ((a, c),))


@scenario("dup")
def s_dup(sc, st, fn):
    """any one label of the source: does the copy hold the same label at the same place?"""
    old_record(sc, st)
    e, z = sc.eng, sc.p["sz__scc_Clabel"]
    j = AT.get(("arg", "label index"), 0, 2 ** 64 - 1)
    x = AT.get(("arg", "label"), 0, 2 ** (8 * z) - 1)
    e.stable |= {j, x}
    if fn == "deep":
        fname, a = _init_existing(sc, st)
        n, src, sc.h = a[0][1], a[2][1], a[4][1]
        a[3] = ONE
    else:
        cl, src = good_clustering(sc, st, empty=False)
        fname, a = _cl_fn("copy")(sc, st, cl)
        n, sc.h = sc.fieldval(st, cl, *CL("num_data_points"))[1], a[1][1]
    lt(st, at(j), n)
    single(sc, st, src, [(at(j, z), z, atom_val(x), "src")], j)

    def hook(eng, s, r, size, init):
        if size is not None and l_sub(size, l_scale(n, z)) == (0, ()):
            track(sc, s, r, at(j, z), z, "dst")
            if init == "zero":
                s.ghost[("tv", "dst")] = ZERO
    e.special_alloc = hook

    def post(chk, exs):
        for ex in ok_exits(chk, exs):
            o = new_object(chk, ex)
            if o is None:
                continue
            lab = ex.field(o, "scc_Clustering", "cluster_label")
            chk.ok(2)
            if lab is None or lab[0] != "p" or lab[1] == src or isnull(ex, lab) is not False:
                chk.bad(ex, "label-copy", f"{chk.fname} does not give the new clustering labels of its own")
                continue
            rg = ex.st.regs[lab[1]]
            if rg.kind != "heap" or rg.status != "live":
                chk.bad(ex, "label-copy", f"{chk.fname} does not give the new clustering labels of its own")
                continue
            if rg.size is not None:
                lo, hi = ex.st.facts.range(l_sub(l_scale(n, z), rg.size))
                if lo > 0:
                    chk.bad(ex, "label-copy", f"{chk.fname} gives the new clustering room for too few labels")
                    continue
            if lab[1] in chk.eng.tracked and tracked_ok(ex, "dst", at(x), 8 * z) is False:
                chk.bad(ex, "label-copy", f"{chk.fname} does not copy every label")
    return fname, a, [post]


@scenario("dup-empty")
def s_dup_empty(sc, st):
    """a copy of a clustering without clusters does not share its labels"""
    old_record(sc, st)
    cl, src = good_clustering(sc, st, empty=True)
    fname, a = _cl_fn("copy")(sc, st, cl)
    sc.h = a[1][1]

    def post(chk, exs):
        for ex in ok_exits(chk, exs):
            o = new_object(chk, ex)
            if o is None:
                continue
            chk.ok()
            lab = ex.field(o, "scc_Clustering", "cluster_label")
            if lab is not None and lab[0] == "p" and lab[1] == src and isnull(ex, lab) is not True:
                chk.bad(ex, "label-copy", f"{chk.fname} shares the labels of the original")
    return fname, a, [post]


@scenario("get")
def s_get(sc, st, what):
    old_record(sc, st)
    e, z = sc.eng, sc.p["sz__scc_Clabel"]
    if what == "version":
        outs = [sc.out(st, "out_" + x, 4) for x in ("major", "minor", "patch")]

        def post(chk, exs):
            for ex in exs:
                for o, x in zip(outs, ("MAJOR", "MINOR", "PATCH")):
                    if ex.st.regs[o].null != "yes":
                        chk.ok()
                        if wrong(ex, ex.cell(o, 0, 4), I(sc.p["k__" + x])):
                            chk.bad(ex, "accessor", f"{chk.fname} reports another {x.lower()} version than the header")
        return "scc_get_compiled_version", [P(o) for o in outs], [post]
    if what == "info":
        cl, lr = sc.clustering(st, const=True)
        outs = [sc.out(st, "out_" + x, 8) for x in ("num_data_points", "num_clusters")]
        vals = [sc.fieldval(st, cl, *CL(x)) for x in ("num_data_points", "num_clusters")]

        def post(chk, exs):
            for ex in ok_exits(chk, exs):
                for o, v in zip(outs, vals):
                    if ex.st.regs[o].null != "yes":
                        chk.ok()
                        if wrong(ex, ex.cell(o), v):
                            chk.bad(ex, "accessor", f"{chk.fname} does not report the number the clustering holds")
        return "scc_get_clustering_info", [P(cl)] + [P(o) for o in outs], [post]
    cl, src = good_clustering(sc, st, empty=False)
    fname, a = _cl_fn("labels")(sc, st, cl)
    n, ln, dst = sc.fieldval(st, cl, *CL("num_data_points"))[1], a[1][1], a[2][1]
    j = AT.get(("arg", "label index"), 0, 2 ** 64 - 1)
    x = AT.get(("arg", "label"), 0, 2 ** (8 * z) - 1)
    e.stable |= {j, x}
    if what == "beyond":
        # nothing outside the given length is written
        st.regs[dst] = st.regs[dst].upd(size=None)
        le(st, ln, at(j))
    else:
        lt(st, at(j), ln)
    if what == "label":
        lt(st, at(j), n)
        single(sc, st, src, [(at(j, z), z, atom_val(x), "src")], j)
    elif what == "pad":
        le(st, n, at(j))
    track(sc, st, dst, at(j, z), z, "dst")
    if j not in TEMPLATE:
        TEMPLATE.append(j)
    na = sc.p["k__CLABEL_NA"]
    want = {"label": at(x), "pad": K(na), "beyond": None}[what]

    def post(chk, exs):
        for ex in ok_exits(chk, exs):
            chk.ok()
            if want is None:
                if ex.st.ghost.get(("tv", "dst")) != ("u",):
                    chk.bad(ex, "accessor", f"{chk.fname} writes past the length it was given")
            elif tracked_ok(ex, "dst", want, 8 * z) is False:
                chk.bad(ex, "accessor", f"{chk.fname} does not " + ("report every label at its place" if what == "label" else "pad the buffer with the unassigned label"))
    return fname, a, [post]


OBJECTS = [f"new:{x}" for x in ("init_ds", "empty0", "empty1", "shallow", "deep", "copy")] \
    + ["is:cl:good"] + [f"is:cl:{x}" for x in CL_CONDS] + [f"is:ds:{x}" for x in ("good", "null", "version", "num_data_points", "num_dimensions", "matrix")] \
    + ["release:cl:0", "release:cl:1", "release:cl:1:no", "release:ds"] + [f"release-null:{w}:{l}" for w in ("cl", "ds") for l in "01"]
LABELS = ["dup:deep", "dup:copy", "dup-empty", "new:shallow", "new:deep", "new:copy", "new:empty0", "new:empty1", "release:cl:0", "release:cl:1", "release:cl:1:no"]
ACCESS = ["get:version", "get:info", "get:label", "get:pad", "get:beyond"]
