"""The built-in distance functions, called as the library calls them."""
from engine.dom import *
from engine.state import *
from engine.scen import P
from .scenarios import scenario

DRV = {"check": "vp_drv_check", "points": "vp_drv_points", "matrix": "vp_drv_matrix", "rows": "vp_drv_rows", "max": "vp_drv_max", "nn": "vp_drv_nn"}


def le(st, a, b):
    st.facts.assume_le(l_sub(a, b))


def data_set(sc, st):
    e, p = sc.eng, sc.p
    e.spi = "table"
    r = e.input_region(st, "data_set", null="no", const=True, size=(p["sz__scc_DataSet"], ()))
    n, d = sc.atom("num_data_points"), sc.atom("num_dimensions", 16)
    st.facts.assume_le(l_sub((1, ()), n[1]))
    st.facts.assume_le(l_sub((1, ()), d[1]))
    st.facts.assume_le(l_sub(n[1], (p["k__POINTINDEX_MAX"], ())))
    m = e.input_region(st, "data_matrix", null="no", const=True, size=l_scale(e.l_mul(st, n[1], d[1]), 8))
    S = "scc_DataSet"
    sc.field(st, r, S, "data_set_version", I(p["k__DATASET_VERSION"]))
    sc.field(st, r, S, "num_data_points", n)
    z = sc.off(S, "num_dimensions")[1]
    sc.field(st, r, S, "num_dimensions", d)
    sc.field(st, r, S, "data_matrix", P(m))
    return P(r), n[1], d[1]


def indices(sc, st, name, given, n, least=1):
    """an index array and its length; without an array the first points are meant"""
    ln = sc.atom("len_" + name)
    st.facts.assume_le(l_sub((least, ()), ln[1]))
    z = sc.p["sz__scc_PointIndex"]
    r = sc.eng.input_region(st, name, null="no" if given == "1" else "yes", const=True, size=l_scale(ln[1], z))
    if given == "1":
        # every element names a point
        def el(eng, s, off, v):
            if v[0] == "i":
                s.facts.assume_le(l_sub((0, ()), v[1]))
                s.facts.assume_le(l_add(l_sub(v[1], n), (1, ())))
        sc.eng.elem[r] = el
    else:
        le(st, ln[1], n)
    return (P(r) if given == "1" else ZERO), ln


def truth(ex):
    """the returned truth value, or None when it may be either"""
    v = ex.chk.eng.decide(ex.st, ex.ret) if ex.ret is not None and ex.ret[0] in ("i", "c") else None
    if v is None and ex.ret is not None and ex.ret[0] == "i":
        lo, hi = ex.st.facts.range(ex.ret[1])
        v = True if lo > 0 or hi < 0 else False if lo == hi == 0 else None
    return v


def answers(chk, exs):
    """false exactly when memory ran out"""
    for ex in exs:
        chk.ok()
        t = truth(ex)
        if ex.pend and t is True:
            chk.bad(ex, "builtin", "reports success although a memory request failed")
        if not ex.pend and t is False:
            chk.bad(ex, "builtin", "reports failure although nothing failed")


@scenario("imp")
def s_imp(sc, st, which, *opt):
    e, p = sc.eng, sc.p
    fn = DRV[which]
    if fn not in e.mod.funcs:
        from .contracts import Vacuous
        raise Vacuous()
    z = p["sz__scc_PointIndex"]
    if which == "check":
        kind, = opt
        if kind == "null":
            e.spi = "table"
            return fn, [ZERO], [says(0, "accepts a missing data set")]
        ds, n, d = data_set(sc, st)
        if kind == "version":
            v = AT.get(("arg", "version"), 0, 2 ** 32 - 1)
            st.facts.assume_ne((-p["k__DATASET_VERSION"], ((v, 1),)))
            sc.field(st, ds[1], "scc_DataSet", "data_set_version", atom_val(v))
            return fn, [ds], [says(0, "accepts something that is no data set")]
        return fn, [ds], [says(1, "refuses a proper data set")]
    ds, n, d = data_set(sc, st)
    if which == "points":
        def post(chk, exs):
            for ex in exs:
                chk.ok()
                if ex.differ(ex.ret, ("i", n)):
                    chk.bad(ex, "builtin", "the number of points reported is not the data set's")
        return fn, [ds], [post]
    if which == "matrix":
        q, lq = indices(sc, st, "points", opt[0], n, 2)
        pr = e.l_mul(st, lq[1], l_add(lq[1], (-1, ())))
        o = e.out_region(st, "distances", l_scale(pr, 4))
        return fn, [ds, lq, q, P(o)], [answers]
    if which == "rows":
        q, lq = indices(sc, st, "queries", opt[0], n)
        c, lc = indices(sc, st, "columns", opt[1], n)
        o = e.out_region(st, "distances", l_scale(e.l_mul(st, lq[1], lc[1]), 8))
        return fn, [ds, lq, q, lc, c, P(o)], [answers]
    if which == "max":
        s, ls = indices(sc, st, "search points", opt[0], n)
        q, lq = indices(sc, st, "queries", opt[1], n)
        oi, od = e.out_region(st, "indices", l_scale(lq[1], z)), e.out_region(st, "distances", l_scale(lq[1], 8))
        return fn, [ds, ls, s, lq, q, P(oi), P(od)], [answers]
    s, ls = indices(sc, st, "search points", opt[0], n)
    q, lq = indices(sc, st, "queries", opt[1], n)
    k = sc.atom("k", 32)
    st.facts.assume_le(l_sub((1, ()), k[1]))
    le(st, k[1], ls[1])
    rs = opt[2] == "1"
    ok = sc.out(st, "num_ok_queries", 8, null="no")
    oq = e.out_region(st, "answered queries", l_scale(lq[1], z))
    st.regs[oq] = st.regs[oq].upd(null="no")
    onn = e.out_region(st, "neighbours", l_scale(e.l_mul(st, lq[1], k[1]), z))

    def post(chk, exs):
        for ex in exs:
            if truth(ex) is not True:
                continue
            chk.ok(2)
            c = ex.cell(ok)
            if c is None:
                chk.bad(ex, "builtin", "success without a number of answered queries")
            elif c[0] == "i":
                lo, hi = ex.st.facts.range(l_sub(c[1], lq[1]))
                if lo > 0:
                    chk.bad(ex, "builtin", "more queries answered than asked")
                elif not rs and hi < 0:
                    chk.bad(ex, "builtin", "queries left unanswered without a radius")
    return fn, [ds, ls, s, lq, q, k, I(1 if rs else 0), ("f", AT.get(("arg", "radius"))), P(ok), P(oq) if opt[3] == "1" else ZERO, P(onn)], [answers, post]


def says(want, why):
    def post(chk, exs):
        for ex in exs:
            chk.ok()
            t = truth(ex)
            if t is False and want or t is not False and not want:
                chk.bad(ex, "builtin", why)
    return post


@scenario("imp-el")
def s_imp_el(sc, st, which, *opt):
    """any one element of an answer: has it been written when success is reported?"""
    from .objects import track, at
    from .contracts import TEMPLATE, lt
    e, z = sc.eng, sc.p["sz__scc_PointIndex"]
    fn, a, posts = s_imp(sc, st, which, *opt[:-1])
    j = AT.get(("arg", "answer index"), 0, 2 ** 64 - 1)
    e.stable.add(j)
    pos, size, what = WHERE[which, opt[-1]]
    size = z if size is None else size
    lt(st, at(j), a[3][1])
    if j not in TEMPLATE:
        TEMPLATE.append(j)
    track(sc, st, a[pos][1], at(j, size), size, "dst")

    def post(chk, exs):
        for ex in exs:
            if truth(ex) is not True:
                continue
            if which == "nn":
                c = ex.cell(a[8][1])
                if c is None or c[0] != "i" or ex.st.facts.range(l_sub(at(j), c[1]))[0] >= 0:
                    continue
            chk.ok()
            if ex.st.ghost.get(("tv", "dst")) == ("u",):
                chk.bad(ex, "builtin", f"success without {what}")
    return fn, a, [post]


WHERE = {("max", "index"): (5, None, "the farthest point of every query"), ("max", "dist"): (6, 8, "the distance to the farthest point of every query"),
         ("nn", "query"): (9, None, "the place of every answered query")}
IMP = ["imp:check:null", "imp:check:version", "imp:check:good", "imp:points"]
IMP += [f"imp:matrix:{a}" for a in "01"] + [f"imp:rows:{a}:{b}" for a in "01" for b in "01"]
IMP += [f"imp:max:{a}:{b}" for a in "01" for b in "01"]
IMP += [f"imp:nn:{a}:{b}:{r}:{o}" for a in "01" for b in "01" for r, o in (("0", "0"), ("0", "1"), ("1", "1"))]
ELEM = [f"imp-el:max:{a}:{b}:{w}" for a in "01" for b in "01" for w in ("index", "dist")]
ELEM += [f"imp-el:nn:{a}:{b}:{r}:1:query" for a in "01" for b in "01" for r in "01"]
