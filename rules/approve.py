"""Abstract callers of the clustering check that single out one way in which a clustering breaks (or meets) the rules."""
from engine.dom import *
from engine.state import *
from engine.interp import ANY
from .scenarios import scenario, ERRNAMES, old_record
from .contracts import (options_call, lt, le, K, single, bad_label, below, CL, Vacuous, matching)


def answer(chk, ex):
    """what the caller finds in the answer: True, False or None when either is possible"""
    v = ex.cell(chk.sc.out_ok, 0, 1)
    if v is None:
        return None
    t = chk.eng.decide(ex.st, v)
    return t


def never(why):
    def post(chk, exs):
        if chk.sc.counted is False:
            return  # the counters are not kept in an array the scenario recognises: nothing is decided
        for ex in exs:
            chk.ok()
            if answer(chk, ex) is not False:
                chk.bad(ex, "approved", f"{chk.fname} {'may answer' if answer(chk, ex) is None else 'answers'} 'valid' although {why}")
    return post


def always(why):
    def post(chk, exs):
        seen = False
        if chk.sc.counted is False:
            return
        for ex in exs:
            chk.ok()
            if ex.code() == 0:
                seen = True
                if answer(chk, ex) is not True:
                    chk.bad(ex, "not-approved", f"{chk.fname} {'may answer' if answer(chk, ex) is None else 'answers'} 'not valid' although {why}")
        if not seen:
            chk.bad(None, "not-approved", f"{chk.fname} never answers although {why}")
    return post


def na_of(sc):
    z = sc.p["sz__scc_Clabel"]
    na = sc.p["k__CLABEL_NA"]
    return na if na >= 0 else na + 2 ** (8 * z)


def at(a, c=1):
    return (0, ((a, c),))


class Call:
    """a call of the check on an arbitrary initialised, non-empty clustering"""

    def __init__(self, sc, st, types=None):
        self.sc, self.st, self.p = sc, st, sc.p
        self.o, self.fn, self.args = options_call(sc, st, "chk")
        self.k = sc.fieldval(st, sc.cl, *CL("num_clusters"))[1]
        self.n = self.o.n
        self.z = self.p["sz__scc_Clabel"]
        if types == 0:
            le(st, self.o.l("num_types"), K(1))
        elif types:
            self.o.set("num_types", I(types))
            sc.eng.peel = types + 1
        self.types = types
        self.sc.counted = None
        self.c = AT.get(("arg", "cluster"), 0, 2 ** 64 - 1)
        lt(st, at(self.c), self.k)

    def valid(self):
        """options that pass the option rules"""
        o, st, k = self.o, self.st, self.p
        o.set("options_version", I(k["k__OPTIONS_VERSION"]))
        le(st, K(2), o.l("size_constraint"))
        le(st, o.l("size_constraint"), o.n)
        if self.types:
            o.null("type_constraints", False)
            o.null("type_labels", False)
            le(st, o.n, o.l("len_type_labels"))
            self.sc.eng.elem[o.f("type_labels")[1]] = lambda e, s, off, v: below(s, v[1], K(self.types)) if v[0] == "i" else None
        else:
            o.null("type_constraints", True)
            o.null("type_labels", True)
            o.set("len_type_labels", ZERO)
        o.set("seed_method", I(k["k__SCC_SM_LEXICAL"]))
        o.set("primary_unassigned_method", I(k["k__SCC_UM_IGNORE"]))
        o.set("secondary_unassigned_method", I(k["k__SCC_UM_IGNORE"]))
        for w in ("seed", "primary", "secondary"):
            o.set(w + "_radius", I(k["k__SCC_RM_NO_RADIUS"]))
        o.null("primary_data_points", True)
        o.set("len_primary_data_points", ZERO)

    def counts(self, mk):
        self.sc.counted = False
        """mk(width, size of the block in counters per cluster) -> special entries of a block of counters"""
        eng, k = self.sc.eng, self.k
        tracked = []

        def hook(e, st, r, size, init):
            if size is None:
                return
            for z in (8, 4):
                for per in (1, self.types or 1):
                    if l_sub(size, l_scale(k, z * per)) == (0, ()):
                        ents, el = mk(z, per)
                        self.sc.counted = self.sc.counted or bool(ents) or el is not None
                        if ents:
                            e.special[r] = ents
                            for so, zz, v, tag in ents:
                                st.ghost[("sp", tag)] = "before"
                                if v == "track":
                                    e.tracked.add(r)
                                    st.ghost[("tv", tag)] = ZERO if init == "zero" else ("u",)
                        if el is not None:
                            e.elem[r] = el
                            st.mem[r] = RegMem("havoc")
                        return
        eng.special_alloc = hook


@scenario("appr")
def s_appr(sc, st, kind):
    return KINDS[kind](sc, st)


KINDS = {}


def kind(name):
    def deco(f):
        KINDS[name] = f
        return f
    return deco


@kind("label")
def _(sc, st):
    c = Call(sc, st)
    bad_label(sc, st, sc.cl, sc.lr)
    return c.fn, c.args, [never("a point carries the label of a cluster that does not exist")]


@kind("label-negative")
def _(sc, st):
    if not sc.p["k__CLABEL_SIGNED"]:
        raise Vacuous()
    c = Call(sc, st)
    j = AT.get(("arg", "bad label index"), 0, 2 ** 64 - 1)
    b = AT.get(("arg", "bad label"), -2 ** (8 * c.z - 1), -1)
    st.facts.assume_ne((-sc.p["k__CLABEL_NA"], ((b, 1),)))
    lt(st, at(j), c.n)
    single(sc, st, sc.lr, [(at(j, c.z), c.z, atom_val(b), "label")], j)
    return c.fn, c.args, [never("a point carries a negative label")]


@kind("primary")
def _(sc, st):
    c = Call(sc, st)
    o = c.o
    z = sc.p["sz__scc_PointIndex"]
    o.null("primary_data_points", False)
    j = AT.get(("arg", "primary index"), 0, 2 ** 64 - 1)
    p = AT.get(("arg", "primary point"), 0, sc.p["k__POINTINDEX_MAX"])
    lt(st, at(j), o.l("len_primary_data_points"))
    lt(st, at(p), c.n)
    single(sc, st, o.f("primary_data_points")[1], [(at(j, z), z, atom_val(p), "primary")], j)
    single(sc, st, sc.lr, [(at(p, c.z), c.z, I(sc.p["k__CLABEL_NA"]), "label")], p)
    return c.fn, c.args, [never("a primary point is not assigned")]


@kind("size")
def _(sc, st):
    c = Call(sc, st, 0)
    s = AT.get(("arg", "small size"), 0, 2 ** 32 - 1)
    lt(st, at(s), c.o.l("size_constraint"))
    TEMPLATE.append(c.c)
    c.counts(lambda z, per: ([(at(c.c, z), z, atom_val(s), "count")], None))
    return c.fn, c.args, [never("a cluster has fewer points than the size constraint")]


def typed(t):
    def f(sc, st):
        c = Call(sc, st, 2)
        s = AT.get(("arg", "small count"), 0, 2 ** 32 - 1)
        tc = AT.get(("arg", "type constraint"), 1, 2 ** 32 - 1)
        lt(st, at(s), at(tc))
        single(sc, st, c.o.f("type_constraints")[1], [((4 * t, ()), 4, atom_val(tc), "tc")])
        TEMPLATE.append(c.c)
        c.counts(lambda z, per: ([((z * t, ((c.c, z * 2),)), z, atom_val(s), "count")] if per == 2 else [], None))
        return c.fn, c.args, [never("a cluster has too few points of a type")]
    return f


KINDS["type0"] = typed(0)
KINDS["type1"] = typed(1)


@kind("total")
def _(sc, st):
    c = Call(sc, st, 2)
    s0, s1 = (AT.get(("arg", f"count {i}"), 0, 2 ** 31 - 1) for i in (0, 1))
    tot = (0, tuple(sorted(((s0, 1), (s1, 1)))))
    lt(st, tot, c.o.l("size_constraint"))
    TEMPLATE.append(c.c)

    def mk(z, per):
        if per == 2:
            return [((0, ((c.c, z * 2),)), z, atom_val(s0), "count0"), ((z, ((c.c, z * 2),)), z, atom_val(s1), "count1")], None
        return [(at(c.c, z), z, ("i", tot), "count")], None
    c.counts(mk)
    return c.fn, c.args, [never("a cluster has fewer points than the size constraint")]


def members(sc, st, c, k):
    """exactly k points belong to cluster c"""
    js = [AT.get(("arg", f"member {i}"), 0, 2 ** 64 - 1) for i in range(k)]
    for a, b in zip(js, js[1:]):
        lt(st, at(a), at(b))
    if js:
        lt(st, at(js[-1]), c.n)
        single(sc, st, sc.lr, [(at(j, c.z), c.z, ("i", at(c.c)), f"member{i}") for i, j in enumerate(js)], *js)
    na = na_of(sc)

    def el(e, s, off, v):
        if v[0] != "i":
            return None
        if not s.facts.assume_ne(l_sub(v[1], at(c.c))):
            return False
        if sc.p["k__CLABEL_SIGNED"] and not s.facts.assume_le(l_sub(v[1], K(sc.p["k__CLABEL_MAX"]))):
            return False  # signed labels: only clusterings whose other points are all assigned
    sc.eng.elem[sc.lr] = el
    le(st, at(c.c), K(min(sc.p["k__CLABEL_MAX"], 2 ** (8 * c.z) - 1)))
    st.facts.assume_ne((-na, at(c.c)[1]))


def few(k, types):
    def f(sc, st):
        c = Call(sc, st, types)
        members(sc, st, c, k)
        TEMPLATE.append(c.c)
        if types == 0:
            c.counts(lambda z, per: ([(at(c.c, z), z, "track", "count")], None))
        else:
            c.counts(lambda z, per: ([((z * t, ((c.c, z * 2),)), z, "track", f"count{t}") for t in (0, 1)] if per == 2
                                     else [(at(c.c, z), z, "track", "count")], None))
        return c.fn, c.args, [never(f"a cluster has only {k} point{'s' if k != 1 else ''}")]
    return f


KINDS["empty0"] = few(0, 0)
KINDS["single0"] = few(1, 0)


def good(types, unassigned=False):
    def f(sc, st):
        c = Call(sc, st, types)
        c.valid()
        sc.eng.elem[sc.lr] = lambda e, s, off, v: below(s, v[1], c.k) if v[0] == "i" else None
        size = c.o.l("size_constraint")
        if types:
            sc.eng.elem[c.o.f("type_constraints")[1]] = lambda e, s, off, v: s.facts.assume_le(l_sub(v[1], size)) if v[0] == "i" else None

        TEMPLATE.append(size[1][0][0])

        def enough(e, s, off, v):
            if v[0] == "i" and v[1][1]:
                return s.facts.assume_le(l_sub(size, v[1]))
        c.counts(lambda z, per: ([], enough))
        return c.fn, c.args, [always("every rule is met")]
    return f


KINDS["good0"] = good(0)


def error_answer(chk, exs):
    """every error leaves the answer at 'not valid'"""
    for ex in exs:
        rg = ex.st.regs.get(chk.sc.out_ok)
        if rg is not None and rg.null == "yes":
            continue
        if ex.code() != 0 and ex.ret is not None:
            chk.ok()
            if rg is not None and rg.null == "no" and answer(chk, ex) is not False:
                chk.bad(ex, "approved", f"{chk.fname} returns {ERRNAMES.get(ex.code(), 'an error')} without answering 'not valid'")


@scenario("chk2")
def s_chk2(sc, st):
    old_record(sc, st)
    cl, lr = sc.clustering(st, const=True)
    op = sc.options(st)
    sc.out_ok = sc.out(st, "out_is_OK", 1)
    return "scc_check_clustering", [("p", cl, (0, ())), ("p", op, (0, ())), ("p", sc.out_ok, (0, ()))], [error_answer]


APPROVE = ["chk2"] + [f"appr:{k}" for k in KINDS]
