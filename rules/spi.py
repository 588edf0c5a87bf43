"""The table of distance functions: what installing and resetting leave in it."""
from engine.dom import *
from engine.state import *
from engine.interp import AnalysisError
from engine.scen import P, cell
from .scenarios import scenario, SLOTS
from .objects import isnull

GROUPS = (("init_max_dist_object", "get_max_dist", "close_max_dist_object"),
          ("init_nn_search_object", "nearest_neighbor_search", "close_nn_search_object"))
SINGLES = SLOTS[:4]


def table(sc, st):
    """any functions an earlier caller may have installed"""
    e = sc.eng
    e.spi = "table"
    t = ("g", e.table)
    if t not in st.mem:
        raise AnalysisError("the table of distance functions is not found")
    sc.table = t
    old = {}
    for off, s in e.slot_off.items():
        old[s] = e.input_region(st, "installed " + s, null="no", const=True)
        cell(st, t, off, 8, P(old[s]))
    sc.slot = {s: o for o, s in e.slot_off.items()}
    return old


def holds(ex, sc, s):
    return ex.cell(sc.table, sc.slot[s])


def isit(v, r):
    """True / False / None: the slot holds region r"""
    if v is None or v[0] in ("?", "j"):
        return None
    return v[0] == "p" and v[1] == r


@scenario("install")
def s_install(sc, st, mask):
    """which of the callbacks are given: one digit per slot"""
    old = table(sc, st)
    new = {s: sc.eng.input_region(st, "callback " + s, null="no" if m == "1" else "yes", const=True) for s, m in zip(SLOTS, mask)}

    def post(chk, exs):
        for ex in exs:
            r = ex.ret
            ok = None
            if r is not None and r[0] in ("i", "c"):
                ok = chk.eng.decide(ex.st, r)
            nul = {s: isnull(ex, P(new[s])) for s in SLOTS}
            v = {s: holds(ex, sc, s) for s in SLOTS}
            for s in SINGLES:
                chk.ok()
                if nul[s] is True and isit(v[s], old[s]) is False:
                    chk.bad(ex, "install", f"{chk.fname} changes {s} although none was given")
                elif nul[s] is False and ok is True and isit(v[s], new[s]) is False:
                    chk.bad(ex, "install", f"{chk.fname} does not install the given {s}")
                elif nul[s] is not True and isit(v[s], old[s]) is False and isit(v[s], new[s]) is False:
                    chk.bad(ex, "install", f"{chk.fname} installs something else as {s}")
                elif nul[s] is None and isit(v[s], new[s]) is True:
                    chk.bad(ex, "install", f"{chk.fname} installs {s} even if none was given")
            for g in GROUPS:
                chk.ok()
                given = [nul[s] is False for s in g]
                some, missing = any(given), any(nul[s] is True for s in g)
                if some and missing:
                    if ok is True:
                        chk.bad(ex, "install", f"{chk.fname} accepts an incomplete group ({', '.join(g)})")
                    for s in g:
                        if isit(v[s], old[s]) is False:
                            chk.bad(ex, "install", f"{chk.fname} changes {s} although its group was not given completely")
                elif all(nul[s] is True for s in g):
                    for s in g:
                        if isit(v[s], old[s]) is False:
                            chk.bad(ex, "install", f"{chk.fname} changes {s} although none was given")
                elif all(given):
                    inst = [isit(v[s], new[s]) for s in g]
                    if ok is True and False in inst:
                        chk.bad(ex, "install", f"{chk.fname} does not install the given {g[inst.index(False)]}")
                    if True in inst and False in inst:
                        chk.bad(ex, "install", f"{chk.fname} installs only a part of a group ({', '.join(g)})")
                else:
                    for s in g:
                        if isit(v[s], old[s]) is False:
                            chk.bad(ex, "install", f"{chk.fname} changes {s} without looking at its whole group")
            if ok is not True and all(all(nul[s] is False for s in g) or all(nul[s] is True for s in g) for g in GROUPS) and ok is False:
                chk.bad(ex, "install", f"{chk.fname} refuses callbacks with complete groups")
    return "scc_set_dist_functions", [P(new[s]) for s in SLOTS], [post]


@scenario("reset")
def s_reset(sc, st):
    from engine.interp import Engine
    fresh = sc.eng.new_state().mem[("g", sc.eng.table)].cells
    want = {o: fresh.get(o) for o in sc.eng.slot_off}
    table(sc, st)

    def post(chk, exs):
        for ex in exs:
            for o, s in sc.eng.slot_off.items():
                chk.ok()
                w, v = want[o], ex.cell(sc.table, o)
                if w is None or w[1][0] != "fn":
                    chk.bad(ex, "reset", f"the built-in table has no {s}")
                elif v is not None and v[0] != "?" and v != w[1]:
                    chk.bad(ex, "reset", f"{chk.fname} does not restore the built-in {s}")
            if ex.ret is not None and ex.ret[0] in ("i", "c") and chk.eng.decide(ex.st, ex.ret) is False:
                chk.bad(ex, "reset", f"{chk.fname} reports failure")
    return "scc_reset_dist_functions", [], [post]


def masks(tier):
    if tier != "quick":
        return [f"{i:010b}" for i in range(1024)]
    r = {s + f"{g:06b}" for g in range(64) for s in ("0000", "1111")}
    r |= {f"{s:04b}" + g for s in range(16) for g in ("000000", "111111")}
    return sorted(r)
