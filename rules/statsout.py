"""The statistics handed out: nothing after an error, everything after success."""
from engine.scen import P
from .scenarios import scenario, old_record, ERRNAMES

STATS = ["stats-out"]
WORDS = ["num_data_points", "num_assigned", "num_clusters", "num_populated_clusters", "min_cluster_size", "max_cluster_size", "avg_cluster_size", "sum_dists",
         "min_dist", "max_dist", "avg_min_dist", "avg_max_dist", "avg_dist_weighted", "avg_dist_unweighted"]


def zero(ex, v):
    """True / False / None (unknown)"""
    if v is None:
        return None
    if v[0] == "f":
        return v[1] == 0 if isinstance(v[1], float) else None
    if v[0] == "i":
        lo, hi = ex.st.facts.range(v[1])
        return True if (lo, hi) == (0, 0) else False if lo > 0 or hi < 0 else None
    return None


@scenario("stats-out")
def s_stats_out(sc, st):
    old_record(sc, st)
    ds = sc.data_set(st)
    cl, lr = sc.clustering(st, const=True)
    o = sc.out(st, "out_stats", sc.p["sz__scc_ClusteringStats"], null="no")
    n0, k0 = (cell_of(st, cl, sc, f) for f in ("num_data_points", "num_clusters"))

    def post(chk, exs):
        for ex in exs:
            c = ex.code()
            m = ex.st.mem.get(o)
            vals = {w: ex.field(o, "scc_ClusteringStats", w) for w in WORDS}
            if c is not None and c != 0:
                for w in WORDS:
                    chk.ok()
                    v = vals[w]
                    if v is None or zero(ex, v) is not True:
                        chk.bad(ex, "stats-out", f"{chk.fname} returns {ERRNAMES.get(c, c)} and leaves {w} " + ("unset" if v is None else "not zero"))
            elif c == 0:
                for w in WORDS:
                    chk.ok()
                    if vals[w] is None:
                        chk.bad(ex, "stats-out", f"{chk.fname} returns OK without setting {w}")
                for w, x in (("num_data_points", n0), ("num_clusters", k0)):
                    chk.ok()
                    if x is not None and vals[w] is not None and not ex.same(vals[w], x):
                        chk.bad(ex, "stats-out", f"{chk.fname} returns OK and {w} is not the clustering's")
                for a, b in (("num_assigned", "num_data_points"), ("num_populated_clusters", "num_clusters")):
                    chk.ok()
                    if above(ex, vals[a], vals[b]):
                        chk.bad(ex, "stats-out", f"{chk.fname} returns OK with {a} above {b}")
                if zero(ex, vals["num_populated_clusters"]) is False:
                    chk.ok()
                    if zero(ex, vals["max_cluster_size"]) is True:
                        chk.bad(ex, "stats-out", f"{chk.fname} returns OK with populated clusters but no largest cluster")
    return "scc_get_clustering_stats", [ds, P(cl), P(o)], [post]


def above(ex, a, b):
    from engine.dom import l_sub
    if a is None or b is None or a[0] != "i" or b[0] != "i":
        return False
    return ex.st.facts.range(l_sub(a[1], b[1]))[0] > 0


def cell_of(st, r, sc, f):
    o, z = sc.off("scc_Clustering", f)
    c = st.mem[r].cells.get(o)
    return c[1] if c is not None and c[0] == z else None
