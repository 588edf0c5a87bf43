"""Abstract callers: one scenario per public function and option family. A scenario returns
(function name, arguments, post) where post(check) examines every abstract exit."""
from engine.dom import *
from engine.state import *
from engine.interp import LNULL, NULP, AnalysisError, _N
from engine.scen import P, cell

SCEN = {}
ERRNAMES = {0: "OK", 1: "UNKNOWN_ERROR", 2: "INVALID_INPUT", 3: "NO_MEMORY", 4: "NO_SOLUTION", 5: "TOO_LARGE_PROBLEM",
            6: "DIST_SEARCH_ERROR", 7: "NOT_IMPLEMENTED"}


def scenario(name):
    def deco(f):
        SCEN[name] = f
        return f
    return deco


def get(name):
    from . import contracts, approve, builtin, objects, spi, errors, usage, statsout  # noqa: F401  (registers their scenarios)
    base, _, par = name.partition(":")
    f = SCEN[base]
    if par:
        ps = par.split(":")
        return lambda sc, st: f(sc, st, *ps)
    return f


_LOC = {}


def err_global(mod, probe=None):
    """(variable, offset) that records the code of the latest error"""
    g = mod.globals.get("iscc_error_code")
    if g is not None and g.size == 4:
        return "iscc_error_code", 0
    if id(mod) not in _LOC:
        _LOC[id(mod)] = find_record(mod, probe)
    return _LOC[id(mod)]


def find_record(mod, probe):
    """the static variable (or part of one) that holds the code after calls that can only fail in one way"""
    from engine import interp, scen, dom, state
    found = None
    for n, code in ((0, 2), (probe["k__POINTINDEX_MAX"] + 1, 5)):
        if n >= 2 ** 64:
            continue
        e = interp.Engine(mod, probe, max_states=200, time_limit=60)
        sc = scen.Scen(e)
        st = sc.state()
        lr = e.input_region(st, "labels", null="no", const=True)
        ex = e.run("scc_init_empty_clustering", st, [I(n), P(lr), P(sc.out(st, "out_clustering", 8, null="no"))])
        for s, rv in ex:
            if rv != I(code):
                raise AnalysisError("cannot identify the variable holding the latest error code")
            here = {(g.name, o) for g in mod.globals.values() if not g.const and ("g", g.name) in s.mem
                    for o, (z, v) in s.mem[("g", g.name)].cells.items() if z == 4 and e.canon(s, v) == I(code)}
            found = here if found is None else found & here
    dom.reset_atoms()
    state.clear_caches()
    if not found or len(found) != 1:
        raise AnalysisError("cannot identify the variable holding the latest error code")
    return found.pop()


class Exit:
    """one abstract exit of the analysed call"""

    def __init__(self, chk, st, ret):
        self.chk, self.st, self.ret = chk, st, ret
        self.pend = st.ghost.get("pend", NOFS)
        self.retry = st.ghost.get("retry", False)
        self.retry_lost = st.ghost.get("rejected")

    def code(self):
        """returned error code when it is one definite constant, else None"""
        v = self.ret
        if v is not None and v[0] == "i":
            lo, hi = self.st.facts.range(v[1])
            if lo == hi:
                return lo
        return None

    def may(self, c):
        v = self.ret
        if v is None or v[0] != "i":
            return True
        lo, hi = self.st.facts.range(v[1])
        return lo <= c <= hi and not self.st.facts.ne_has(l_add(v[1], (-c, ())))

    def cell(self, r, off=0, size=8):
        m = self.st.mem.get(r)
        c = m.cells.get(off) if m is not None else None
        return self.chk.eng.canon(self.st, c[1]) if c is not None and c[0] == size else None

    def field(self, r, s, f):
        o, z = self.chk.sc.off(s, f)
        return self.cell(r, o, z)

    def same(self, v, w):
        """are the two values certainly equal in this state?"""
        if v is None or w is None:
            return False
        if v == w:
            return True
        if v[0] == "i" and w[0] == "i":
            return self.st.facts.range(l_sub(v[1], w[1])) == (0, 0)
        return False

    def differ(self, v, w):
        """are the two values certainly different in this state?"""
        if v is None or w is None:
            return False
        v, w = self.chk.eng.canon(self.st, v), self.chk.eng.canon(self.st, w)
        if v[0] == "i" and w[0] == "i":
            lo, hi = self.st.facts.range(l_sub(v[1], w[1]))
            return lo > 0 or hi < 0
        if v[0] == "p" and w[0] == "p":
            return v[1] != w[1]
        if (v[0] == "p") != (w[0] == "p") and "?" not in (v[0], w[0]):
            return True
        return False


class Check:
    def __init__(self, eng, sc, fname):
        self.eng, self.sc, self.fname = eng, sc, fname
        fn = eng.mod.funcs[fname]
        i = _N()
        i.fn, i.id, i.file, i.line = fname, 0, "", 0
        for b in fn.blocks:
            for x in b.insts:
                if x.line:
                    i.file, i.line = x.file, x.line
                    break
            if i.line:
                break
        self.ins = i

    def bad(self, ex, rule, msg):
        self.eng.cur = ex.st if ex is not None else None
        self.eng.report(rule, self.ins, (), msg)

    def ok(self, n=1):
        self.eng.obligations = getattr(self.eng, "obligations", 0) + n


def run_post(eng, sc, fname, exits, post):
    chk = Check(eng, sc, fname)
    exs = [Exit(chk, st, rv) for st, rv in exits]
    for p in post if isinstance(post, (list, tuple)) else [post]:
        p(chk, exs)


# -- exit rules shared by all functions that return an error code ------------------------------------
def exit_codes(chk, exs):
    K = chk.sc.p
    OK, MEM, DIST = K["k__SCC_ER_OK"], K["k__SCC_ER_NO_MEMORY"], K["k__SCC_ER_DIST_SEARCH_ERROR"]
    eg, eo = ("g", chk.eng.err_global[0]), chk.eng.err_global[1]
    for ex in exs:
        c = ex.code()
        chk.ok()
        if ex.pend:
            good = set()
            if "mem" in ex.pend:
                good.add(MEM)
                if chk.eng.spi != "stub":
                    good.add(DIST)
            if "dist" in ex.pend:
                good.add(DIST)
            why = " and ".join({"mem": "a memory request failed", "dist": "a distance callback reported failure"}[x] for x in sorted(ex.pend))
            if c is not None and c not in good:
                chk.bad(ex, "failure-code", f"{chk.fname} returns {ERRNAMES.get(c, c)} although {why}")
            elif c is None and ex.may(OK):
                chk.bad(ex, "failure-code", f"{chk.fname} may return OK although {why}")
        if ex.retry and c == OK:
            chk.bad(ex, "failure-code", f"{chk.fname} returns OK although a memory request failed and was not retried")
        # the record the caller can ask for afterwards
        rec = ex.cell(eg, eo, 4)
        if c is not None and c != OK:
            if rec is None or not ex.same(rec, I(c)):
                if rec is not None and ex.differ(rec, I(c)):
                    chk.bad(ex, "error-record", f"{chk.fname} returns {ERRNAMES.get(c, c)} but the recorded error is "
                            + (ERRNAMES.get(rec[1][0], str(rec[1][0])) if rec[0] == "i" and not rec[1][1] else "another one"))
                elif rec is not None and rec == ("i", (0, ((chk.eng.rec_atom, 1),))):
                    chk.bad(ex, "error-record", f"{chk.fname} returns {ERRNAMES.get(c, c)} without recording an error")
            for g, o in chk.eng.rec_ptrs:
                v = ex.cell(g, o)
                if v is not None and v[0] == "p" and v[1] == chk.eng.rec_old:
                    chk.bad(ex, "error-record", f"{chk.fname} returns {ERRNAMES.get(c, c)} but leaves {g[1]} of an earlier error in the record")
        if c is not None and c not in ERRNAMES:
            chk.bad(ex, "error-code-range", f"{chk.fname} returns {c}, which is no error code")


def sizes_kept(cl, n, k):
    """a failed clustering call leaves the object as it was; a successful one reports clusters"""
    def post(chk, exs):
        for ex in exs:
            rg = ex.st.regs.get(cl)
            if rg is None or rg.null == "yes":
                continue
            c = ex.code()
            nn, kk = ex.field(cl, "scc_Clustering", "num_data_points"), ex.field(cl, "scc_Clustering", "num_clusters")
            lab, old = ex.field(cl, "scc_Clustering", "cluster_label"), chk.sc.lr
            chk.ok()
            if nn is not None and nn[0] != "?" and not ex.same(nn, n):
                chk.bad(ex, "object-sizes", f"{chk.fname} changes the number of data points of the clustering")
            if lab is not None and lab[0] == "p" and lab[1] in ex.st.regs:
                r = ex.st.regs[lab[1]]
                if r.status == "freed" and not r.many:
                    chk.bad(ex, "object-sizes", f"{chk.fname} leaves the clustering with a label array that has been released")
                elif lab[1][0] == "stack" or r.kind == "stack":
                    chk.bad(ex, "object-sizes", f"{chk.fname} leaves the clustering with a label array that ends with the call")
            o = ex.st.regs.get(old)
            if o is not None and o.null == "no" and (lab is None or lab[0] == "i" or lab[0] == "p" and lab[1] != old):
                chk.bad(ex, "object-sizes", f"{chk.fname} replaces the label array the clustering already had")
            if c is not None and c != 0:
                if kk is not None and kk[0] == "i" and not ex.same(kk, k):
                    chk.bad(ex, "object-sizes", f"{chk.fname} returns {ERRNAMES.get(c, c)} but changes the number of clusters the clustering reports")
            elif c == 0 and kk is not None and kk[0] == "i" and ex.st.facts.range(kk[1])[0 if chk.eng.none_found else 1] <= 0:
                chk.bad(ex, "object-sizes", f"{chk.fname} returns OK but the clustering reports no clusters")
    return post


def old_record(sc, st):
    """whatever an earlier call left in the error record"""
    e = sc.eng
    a = AT.get(("arg", "earlier error"), 0, 7)
    e.rec_atom = a
    cell(st, ("g", e.err_global[0]), e.err_global[1], 4, atom_val(a))
    e.rec_old = r = e.input_region(st, "text of an earlier error", null="no", const=True)
    e.rec_ptrs = []
    for g in record_vars(e.mod):
        for o in pointers(e.mod.globals[g]):
            cell(st, ("g", g), o, 8, P(r))
            e.rec_ptrs.append((("g", g), o))


_REC = {}


def record_vars(mod):
    """mutable variables the latest-error query reads"""
    if id(mod) not in _REC:
        from . import effects
        gr = effects.Graph(mod)
        fs = gr.reach(["scc_get_latest_error"])
        _REC[id(mod)] = sorted(g.name for g in mod.globals.values() if not g.const and g.init is not None
                               and any(f in fs for f in gr.reads.get(g.name, {})) and g.name != "iscc_dist_functions")
    return _REC[id(mod)]


def pointers(g):
    def walk(off, ty):
        if ty.kind == "struct":
            for o, t in zip(ty.offsets, ty.fields):
                yield from walk(off + o, t)
        elif ty.kind == "ptr":
            yield off
    return list(walk(0, g.init.ty))


def setnull(st, r, yes):
    st.regs[r] = st.regs[r].upd(null="yes" if yes else "no")


def sizes(sc, st, cl):
    return [sc.fieldval(st, cl, "scc_Clustering", f) for f in ("num_data_points", "num_clusters")]


# -- clustering functions -----------------------------------------------------------------------------
@scenario("sc")
def s_sc(sc, st, T="*", M="*", Pr="*", L="*"):
    old_record(sc, st)
    ds = sc.data_set(st)
    wild = (T, M, Pr, L) == ("*",) * 4
    cl, lr = sc.clustering(st, null="maybe" if wild else "no", label={"*": "maybe", "0": "yes", "1": "no"}[L])
    op = sc.options(st, null="maybe" if wild else "no")
    S = "scc_ClusterOptions"
    if not wild:
        nt = sc.fieldval(st, op, S, "num_types")[1]
        if T == "0":
            st.facts.assume_le((nt[0] - 1, nt[1]))
        else:
            st.facts.assume_le((2 - nt[0], ((nt[1][0][0], -1),)))
        for x in ("type_constraints", "type_labels"):
            setnull(st, sc.fieldval(st, op, S, x)[1], T == "0")
        setnull(st, sc.fieldval(st, op, S, "primary_data_points")[1], Pr == "0")
        if M != "*":
            sc.field(st, op, S, "seed_method", I(int(M)))
        sc.field(st, op, S, "options_version", I(sc.p["k__OPTIONS_VERSION"]))
        sc.field(st, cl, "scc_Clustering", "clustering_version", I(sc.p["k__CLUSTERING_VERSION"]))
        sc.field(st, cl, "scc_Clustering", "num_clusters", ZERO)
        if sc.eng.bounds and Pr == "1":
            # increasing indices below the number of points (P07) are at most that many
            st.facts.assume_le(l_sub(sc.fieldval(st, op, S, "len_primary_data_points")[1], sc.fieldval(st, cl, "scc_Clustering", "num_data_points")[1]))
    sc.cl, sc.lr, sc.op = cl, lr, op
    return "scc_sc_clustering", [ds, P(op), P(cl)], [exit_codes, sizes_kept(cl, *sizes(sc, st, cl))]


@scenario("sc-again")
def s_again(sc, st):
    """the clustering already has clusters"""
    r = s_sc(sc, st)
    k = sc.fieldval(st, sc.cl, "scc_Clustering", "num_clusters")[1]
    st.facts.assume_le((1 - k[0], tuple((a, -c) for a, c in k[1])))
    return r


@scenario("none-found")
def s_none(sc, st, T, M, Pr, L):
    """no query of a radius search gets an answer"""
    sc.eng.none_found = True
    r = s_sc(sc, st, T, M, Pr, L)
    sc.field(st, sc.op, "scc_ClusterOptions", "seed_radius", I(sc.p["k__SCC_RM_USE_SUPPLIED"]))
    return r


@scenario("hi")
def s_hi(sc, st, refine="*"):
    old_record(sc, st)
    ds = sc.data_set(st)
    cl, lr = sc.clustering(st, null="maybe" if refine == "*" else "no")
    if refine == "0":
        sc.field(st, cl, "scc_Clustering", "num_clusters", ZERO)
    sc.cl, sc.lr = cl, lr
    return ("scc_hierarchical_clustering", [ds, sc.atom("size_constraint", 32), atom_val(AT.get(("arg", "batch_assign"), 0, 1)), P(cl)],
            [exit_codes, sizes_kept(cl, *sizes(sc, st, cl))])


@scenario("chk")
def s_chk(sc, st):
    old_record(sc, st)
    cl, lr = sc.clustering(st, const=True)
    op = sc.options(st)
    o = sc.out(st, "out_is_OK", 1)
    return "scc_check_clustering", [P(cl), P(op), P(o)], [exit_codes]


@scenario("stats")
def s_stats(sc, st):
    old_record(sc, st)
    ds = sc.data_set(st)
    cl, lr = sc.clustering(st, const=True)
    o = sc.out(st, "out_stats", sc.p["sz__scc_ClusteringStats"])
    return "scc_get_clustering_stats", [ds, P(cl), P(o)], [exit_codes]


# -- objects --------------------------------------------------------------------------------------------
def handle(sc, st, name):
    """the caller's pointer variable that receives a new object"""
    return sc.out(st, name, 8)


@scenario("init_ds")
def s_init_ds(sc, st):
    old_record(sc, st)
    dm = sc.eng.input_region(st, "data_matrix", null="maybe", const=True)
    o = handle(sc, st, "out_data_set")
    n, d, ln = sc.atom("num_data_points"), sc.atom("num_dimensions", 32), sc.atom("len_data_matrix")
    return "scc_init_data_set", [n, d, ln, P(dm), P(o)], [exit_codes]


def held(sc, st, name, obj):
    r = sc.eng.input_region(st, name, null="maybe", const=False, size=(8, ()))
    cell(st, r, 0, 8, P(obj))
    return r


@scenario("free_ds")
def s_free_ds(sc, st):
    e, p = sc.eng, sc.p
    d = e.input_region(st, "data_set object", null="maybe", const=False, size=(p["sz__scc_DataSet"], ()), extra=("owned",))
    dm = e.input_region(st, "data_matrix", null="maybe", const=True)
    sc.field(st, d, "scc_DataSet", "data_matrix", P(dm))
    h = held(sc, st, "data_set", d)
    return "scc_free_data_set", [P(h)], []


@scenario("is_ds")
def s_is_ds(sc, st):
    d = sc.eng.input_region(st, "data_set object", null="maybe", const=True, size=(sc.p["sz__scc_DataSet"], ()))
    return "scc_is_initialized_data_set", [P(d)], []


@scenario("init_empty")
def s_init_empty(sc, st):
    old_record(sc, st)
    lr = sc.eng.input_region(st, "external_cluster_labels", null="maybe", const=True)
    o = handle(sc, st, "out_clustering")
    return "scc_init_empty_clustering", [sc.atom("num_data_points"), P(lr), P(o)], [exit_codes]


@scenario("init_existing")
def s_init_existing(sc, st):
    old_record(sc, st)
    lr = sc.eng.input_region(st, "current_cluster_labels", null="maybe", const=True)
    n = sc.atom("num_data_points")
    st.regs[lr] = st.regs[lr].upd(size=l_scale(n[1], sc.p["sz__scc_Clabel"]))
    o = handle(sc, st, "out_clustering")
    return ("scc_init_existing_clustering", [n, sc.atom("num_clusters"), P(lr), atom_val(AT.get(("arg", "deep"), 0, 1)), P(o)], [exit_codes])


@scenario("free_cl")
def s_free_cl(sc, st, owned="1"):
    cl, lr = sc.clustering(st, owned=owned == "1")
    st.regs[cl] = st.regs[cl].upd(extra=("owned",))
    h = held(sc, st, "clustering handle", cl)
    return "scc_free_clustering", [P(h)], []


@scenario("is_cl")
def s_is_cl(sc, st):
    cl, lr = sc.clustering(st, const=True)
    return "scc_is_initialized_clustering", [P(cl)], []


@scenario("copy")
def s_copy(sc, st):
    old_record(sc, st)
    cl, lr = sc.clustering(st, const=True)
    o = handle(sc, st, "out_clustering")
    return "scc_copy_clustering", [P(cl), P(o)], [exit_codes]


@scenario("info")
def s_info(sc, st):
    old_record(sc, st)
    cl, lr = sc.clustering(st, const=True)
    return "scc_get_clustering_info", [P(cl), P(sc.out(st, "out_num_data_points", 8)), P(sc.out(st, "out_num_clusters", 8))], [exit_codes]


@scenario("labels")
def s_labels(sc, st):
    old_record(sc, st)
    cl, lr = sc.clustering(st, const=True)
    ln = sc.atom("len_out_label_buffer")
    o = sc.out(st, "out_label_buffer", 0)
    st.regs[o] = st.regs[o].upd(size=l_scale(ln[1], sc.p["sz__scc_Clabel"]))
    return "scc_get_cluster_labels", [P(cl), ln, P(o)], [exit_codes]


@scenario("version")
def s_version(sc, st):
    return "scc_get_compiled_version", [P(sc.out(st, "out_" + x, 4)) for x in ("major", "minor", "patch")], []


@scenario("latest")
def s_latest(sc, st):
    ln = sc.atom("len_error_message_buffer")
    o = sc.out(st, "error_message_buffer", 0)
    st.regs[o] = st.regs[o].upd(size=ln[1])
    old_record(sc, st)
    return "scc_get_latest_error", [ln, P(o)], []


@scenario("defaults")
def s_defaults(sc, st):
    o = sc.out(st, "result", sc.p["sz__scc_ClusterOptions"], null="no")
    return "scc_get_default_options", [P(o)], []


@scenario("reset_fns")
def s_reset(sc, st):
    return "scc_reset_dist_functions", [], []


SLOTS = ["check_data_set", "num_data_points", "get_dist_matrix", "get_dist_rows", "init_max_dist_object",
         "get_max_dist", "close_max_dist_object", "init_nn_search_object", "nearest_neighbor_search",
         "close_nn_search_object"]


@scenario("set_fns")
def s_set(sc, st):
    return "scc_set_dist_functions", [P(sc.eng.input_region(st, "callback " + s, null="maybe", const=True)) for s in SLOTS], []
