"""What the library promises to the installed distance functions about the arguments it passes (rule spi-contract)."""
from .dom import *
from .state import *
from .witness import fails

FREE = ("arg", "in", "spi")     # quantities that come from the caller


def lin(eng, v):
    return eng.as_lin(v)


def caller_only(l, more=()):
    """made of nothing but the caller's quantities, so every value the facts allow can really occur"""
    def ok(a, depth=0):
        n = AT.name[a]
        if not isinstance(n, tuple):
            return False
        if n[0] in FREE or n[0] in more:
            return True
        if n[0] in ("prod",):
            return all(ok(x, depth + 1) for x in n[1])
        return False
    return all(ok(a) for a, _ in l[1])


def at_least(eng, st, l, what, slot, ins, ctx, more=()):
    """l >= 0 has to hold"""
    lo, hi = st.facts.range(l)
    key = (slot, ins.fn.split(".")[0], " > ".join(x[0] for x in ctx[-2:]), what)
    eng.stats.setdefault("contract", set()).add(key)
    # a state in which it certainly fails counts only if no other state reaches this call: such a state may itself be
    # impossible for reasons (non-empty seed lists, ...) that lie in array contents
    eng.must_report("spi-contract", hi < 0, ins, ctx, f"{slot} is asked {what}", what)
    if lo < 0:
        if l[1] and fails(st, l, more + ("in",)):
            eng.report("spi-contract", ins, ctx, f"{slot} may be asked {what}")
        else:
            eng.stats.setdefault("contract_open", set()).add(key + ((DEBUG(l, st),) if DEBUG else ()))


DEBUG = None


def room(eng, st, buf, need, what, slot, ins, ctx):
    """the buffer has room for `need` bytes"""
    if buf[0] != "p" or need is None:
        return
    rg = st.regs.get(buf[1])
    if rg is None or rg.size is None or buf[2] is None or rg.null == "yes" or rg.many:
        return
    have = l_sub(rg.size, buf[2])
    at_least(eng, st, l_sub(have, need), f"for more than its {what} has room for", slot, ins, ctx)


def times(eng, st, a, b):
    if a is None or b is None:
        return None
    if not a[1]:
        return l_scale(b, a[0])
    if not b[1]:
        return l_scale(a, b[0])
    return eng.l_mul(st, a, b)


def contract(eng, st, slot, args, ins, ctx):
    z = eng.probe["sz__scc_PointIndex"]
    c = eng.canon
    if slot not in ("get_max_dist", "nearest_neighbor_search", "close_max_dist_object", "close_nn_search_object") and eng.opaque_data is not None:
        d = c(st, args[0])
        eng.stats.setdefault("contract", set()).add((slot, ins.fn.split(".")[0], " > ".join(x[0] for x in ctx[-2:]), "data set"))
        if d[0] == "p" and d[1] in st.regs and d[1] != eng.opaque_data or d == ZERO:
            eng.report("spi-contract", ins, ctx, f"{slot} is given something else than the caller's data set")

    def at1(v, what, n=1, more=()):
        l = lin(eng, v)
        if l is not None:
            at_least(eng, st, l_add(l, (-n, ())), what, slot, ins, ctx, more)
        return l

    def isnull(v):
        v = c(st, v)
        return v == ZERO or (v[0] == "p" and v[1] in st.regs and st.regs[v[1]].null == "yes")

    def all_points(v, l, what):
        """without an index array the first points are meant: there have to be so many"""
        if isnull(v) and l is not None:
            n = (0, ((AT.get(("spi", "num_data_points"), 0, 2 ** 64 - 1), 1),))
            d = l_sub(n, l)
            lo, hi = st.facts.range(d)
            if lo < 0 and d[1] and fails(st, d, ("in",)):
                eng.report("spi-contract", ins, ctx, f"{slot} is given more {what} than there are points")
        elif l is not None:
            room(eng, st, v, l_scale(l, z), "index array", slot, ins, ctx)

    if slot == "get_dist_matrix":
        l = at1(args[1], "for the distances between fewer than two points", 2, ("ld",))   # counted by the caller's labels
        all_points(args[2], l, "points")
        if l is not None:
            p = times(eng, st, l, l_add(l, (-1, ())))
            if p is not None:
                rg = st.regs.get(args[3][1]) if args[3][0] == "p" else None
                if rg is not None and rg.size is not None and args[3][2] is not None and not rg.many:
                    # half of l(l-1) distances of 8 bytes
                    at_least(eng, st, l_sub(l_sub(rg.size, args[3][2]), l_scale(p, 4)), "for more than its distance buffer has room for", slot, ins, ctx)
    elif slot == "get_dist_rows":
        q = at1(args[1], "without queries")
        k = at1(args[3], "without columns")
        all_points(args[2], q, "queries")
        all_points(args[4], k, "columns")
        room(eng, st, args[5], l_scale(times(eng, st, q, k), 8) if q is not None and k is not None and times(eng, st, q, k) is not None else None,
             "distance buffer", slot, ins, ctx)
    elif slot in ("init_max_dist_object", "init_nn_search_object"):
        l = at1(args[1], "to search among no points")
        all_points(args[2], l, "search points")
    elif slot == "get_max_dist":
        q = at1(args[1], "without queries")
        all_points(args[2], q, "queries")
        if q is not None:
            room(eng, st, args[3], l_scale(q, z), "index buffer", slot, ins, ctx)
            room(eng, st, args[4], l_scale(q, 8), "distance buffer", slot, ins, ctx)
    elif slot == "nearest_neighbor_search":
        q = at1(args[1], "without queries")
        k = at1(args[3], "for no neighbours")
        all_points(args[2], q, "queries")
        rad = eng.decide(st, args[4]) if args[4][0] in ("i", "c") else None
        c4 = args[4]
        if rad is None and isnull(args[7]) and c4[0] == "c" and c4[1] in ("eq", "ne", "le") and c4[2][1] and caller_only(c4[2]):
            eng.report("spi-contract", ins, ctx, f"{slot} may be given a radius without an output for the answered queries")
        if rad is True:
            r = args[5]
            bad = r[0] == "f" and isinstance(r[1], float) and not r[1] > 0.0
            eng.stats.setdefault("contract", set()).add((slot, ins.fn.split(".")[0], " > ".join(x[0] for x in ctx[-2:]), "radius"))
            if bad or r[0] == "u":
                eng.report("spi-contract", ins, ctx, f"{slot} is given a radius that is not positive")
        o = c(st, args[0])
        if o[0] == "p" and o[1] in st.regs and st.regs[o[1]].kind == "obj" and not st.regs[o[1]].many:
            s = st.regs[o[1]].size
            if s is not None and k is not None:
                at_least(eng, st, l_sub(s, k), "for more neighbours than there are search points", slot, ins, ctx)
        if q is not None:
            if not isnull(args[7]):
                room(eng, st, args[7], l_scale(q, z), "query output buffer", slot, ins, ctx)
            qk = times(eng, st, q, k) if k is not None else None
            if qk is not None:
                room(eng, st, args[8], l_scale(qk, z), "neighbour buffer", slot, ins, ctx)
