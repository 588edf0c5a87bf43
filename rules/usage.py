"""Which searches a clustering call makes, and with which settings: the options that govern each search."""
from engine.dom import *
from engine.state import *
from engine.scen import P
from engine.spicontract import caller_only
from .scenarios import scenario, s_sc, setnull

S = "scc_ClusterOptions"
NORAD, SUPPLIED, SEEDRAD, ESTIMATED = range(4)
IGNORE, ANYNB, ASSIGNED, SEED = range(4)


class Searches:
    def __init__(self, sc, T, M, seed, prim, sec, named):
        self.sc, self.T, self.M, self.seed, self.named = sc, T, M, seed, named
        self.prim, self.sec = prim, sec         # (method, radius setting)
        self.seen = set()
        self.backs = {}

    # a radius setting: None (no radius), the name of the option holding it, or "estimate"
    def want(self, who):
        if who == "seed":
            return "seed" if self.seed == SUPPLIED else None
        r = (self.prim if who == "primary" else self.sec)[1]
        if r == SEEDRAD:
            return self.want("seed")
        return {NORAD: None, SUPPLIED: who, ESTIMATED: "estimate"}[r]

    def given(self, eng, st, args):
        """the radius setting of this search; "?" when it is not decided"""
        f = eng.decide(st, args[4]) if args[4][0] in ("i", "c") else None
        if f is None:
            return "?"
        if f is False:
            return None
        v = args[5]
        if v[0] != "f":
            return "?"
        if isinstance(v[1], float):
            return "constant"
        n = AT.name[v[1]]
        if n[0] == "arg" and n[1].startswith("opt.") and n[1].endswith("_supplied_radius"):
            return n[1][4:-16]
        if n[0] in ("phi", "in"):
            return "?"
        return "estimate"

    def spi(self, eng, st, slot, args, ins, ctx):
        if slot != "nearest_neighbor_search":
            return
        eng.stats.setdefault("searches", set()).add((ins.fn, ins.id, ctx))
        o = eng.canon(st, args[0])
        rg = st.regs.get(o[1]) if o[0] == "p" else None
        if rg is None or rg.kind != "obj" or rg.many:
            return
        b = st.regs.get(rg.extra[1]) if rg.extra[1] is not None else None
        everything = rg.extra[1] is None or b is not None and b.null == "yes"
        k = eng.as_lin(args[3])
        one = k == (1, ())
        if self.T == "0" and not everything and not one and k is not None:
            lo, hi = st.facts.range(l_add(k, (-1, ())))
            if lo > 0 or hi < 0 or caller_only(k):
                self.bad(eng, ins, ctx, "an assignment search asks for more than the closest point")
            return
        if everything or (self.T == "1" and not one):
            self.seed_search(eng, st, args, ins, ctx, k, everything)
        else:
            self.assign_search(eng, st, args, ins, ctx, rg)

    def bad(self, eng, ins, ctx, msg):
        eng.report("option-use", ins, ctx, msg)

    def seed_search(self, eng, st, args, ins, ctx, k, everything):
        self.seen.add("seed")
        st.ghost["seeded"] = True
        g, w = self.given(eng, st, args), self.want("seed")
        if g != "?" and g != w:
            self.bad(eng, ins, ctx, f"the seed search uses {say(g)} where the options say {say(w)}")
        c = self.sc.size_constraint[1]
        if k is not None:
            d = l_sub(k, c)
            lo, hi = st.facts.range(d)
            if everything and (lo, hi) != (0, 0) and (lo > 0 or hi < 0 or caller_only(d)):
                self.bad(eng, ins, ctx, "the seed search does not ask for as many neighbours as the size constraint says")
            elif lo > 0:
                self.bad(eng, ins, ctx, "the seed search asks for more neighbours than the size constraint says")
        q = eng.canon(st, args[2])
        qn = q == ZERO or q[0] == "p" and q[1] in st.regs and st.regs[q[1]].null == "yes"
        if self.named and qn and st.facts.range(l_sub(self.sc.len_primary[1], self.sc.n[1])) != (0, 0):
            self.bad(eng, ins, ctx, "the seed search queries all points although the options name the primary points")
        if self.M != "1" and self.T == "0":
            l = eng.as_lin(args[1])
            w = self.sc.len_primary[1] if self.named else self.sc.n[1]
            if l is not None:
                d = l_sub(l, w)
                lo, hi = st.facts.range(d)
                if (lo, hi) != (0, 0) and (lo > 0 or hi < 0 or caller_only(d)):
                    self.bad(eng, ins, ctx, "the seed search does not query exactly " + ("the primary points" if self.named else "all points"))

    def assign_search(self, eng, st, args, ins, ctx, rg):
        g = self.given(eng, st, args)
        here = [w for w in ("primary", "secondary") if (self.prim if w == "primary" else self.sec)[0] in (ASSIGNED, SEED)]
        # with types or named points the primary step may be left out, so only what fits neither is an error
        if not here:
            self.bad(eng, ins, ctx, "an assignment search is made although the options leave unassigned points alone")
            return
        if g == "?":
            eng.stats.setdefault("undecided", set()).add((ins.fn, ins.id))
            self.seen.update(here)
            return
        fit = [w for w in here if self.want(w) == g]
        if not fit:
            self.bad(eng, ins, ctx, f"an assignment search uses {say(g)} where the options say " + " or ".join(say(self.want(w)) for w in here))
            return
        if fit == ["primary"] and st.ghost.get("asg") == "secondary":
            self.bad(eng, ins, ctx, "the primary radius is used after the secondary one")
        if len(fit) == 1:
            st.ghost["asg"] = fit[0]
        self.seen.update(fit)
        if len(here) == 1:
            m = (self.prim if here[0] == "primary" else self.sec)[0]
            b = st.regs.get(rg.extra[1])
            if b is not None:
                eng.stats.setdefault("search_sets", set()).add((m, b.site))


def say(g):
    return {None: "no radius", "estimate": "an estimated radius", "constant": "a fixed radius"}.get(g, f"the supplied {g} radius")


@scenario("use")
def s_use(sc, st, T, M, Pr, sr, pm, pr, sm, s2):
    fname, args, post = s_sc(sc, st, T, M, Pr, "1")
    sc.eng.alts = True
    op, e = sc.op, sc.eng
    for f, v in (("seed_radius", sr), ("primary_unassigned_method", pm), ("primary_radius", pr), ("secondary_unassigned_method", sm),
                 ("secondary_radius", s2)):
        if v != "*":
            sc.field(st, op, S, f, I(int(v)))
    sc.size_constraint = sc.fieldval(st, op, S, "size_constraint")
    sc.len_primary = sc.fieldval(st, op, S, "len_primary_data_points")
    sc.n = sc.fieldval(st, sc.cl, "scc_Clustering", "num_data_points")
    num = lambda x: int(x) if x != "*" else None
    h = e.hook = Searches(sc, T, M, int(sr), (int(pm), num(pr)), (int(sm), num(s2)), Pr == "1")

    def done(chk, exs):
        for ex in exs:
            chk.ok()
            if T == "0" and ex.code() == 0 and not ex.st.ghost.get("seeded"):
                chk.bad(ex, "option-use", f"{chk.fname} succeeds without a seed search")
        if M == "1":
            return
        for w, (m, _) in (("primary", h.prim), ("secondary", h.sec)):
            if m in (ASSIGNED, SEED) and w not in h.seen:
                chk.bad(None, "option-use", f"{chk.fname} never searches for the {w} points' clusters although the options ask for it")
    return fname, args, [done]


def USE(tier="quick"):
    r = []
    prim = [(IGNORE, "*"), (ANYNB, "*")] + [(m, x) for m in (ASSIGNED, SEED) for x in range(4)]
    sec = [(IGNORE, "*")] + [(m, x) for m in (ASSIGNED, SEED) for x in range(4)]
    for named in "01":
        for sr in "01":
            for pm, pr in prim:
                for sm, s2 in sec:
                    for M in "0" if tier == "quick" else "02345":
                        r.append((f"use:0:{M}:{named}:{sr}:{pm}:{pr}:{sm}:{s2}", 2))
            for pm in (IGNORE, ANYNB):
                r.append((f"use:0:1:{named}:{sr}:{pm}:2:0:*", 1))
    for named, sr in ("00", "11") if tier == "quick" else ("00", "01", "10", "11"):
        for pm, pr, sm, s2 in [(IGNORE, "*", IGNORE, "*"), (SEED, 1, ASSIGNED, 0)] + ([(ASSIGNED, 0, SEED, 1), (ASSIGNED, 2, IGNORE, "*")] if tier != "quick" else []):
            r.append((f"use:1:0:{named}:{sr}:{pm}:{pr}:{sm}:{s2}", 20))
    return r
