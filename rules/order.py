"""The ordering functions handed to the C library: the sign of the answer for every relation between two elements."""
from itertools import product
from engine.dom import *
from engine.state import *
from engine.ir import Const
from engine import interp, scen
from . import runner
from .effects import Graph, consts, finding
from .runner import Job

SORTS = {"qsort": (2, 3), "bsearch": (3, 4), "qsort_r": (2, 3)}
INV = {"lt": "gt", "gt": "lt", "eq": "eq", "an": "bn", "bn": "an", "nn": "nn"}
NAN = (INF, False, -INF, False, True)
REL = {"lt": "smaller than", "gt": "larger than", "eq": "equal to", "an": "NaN against", "bn": "against NaN", "nn": "NaN against NaN"}


def sites(mod, lib):
    """calls that sort or search: (caller, instruction, comparison functions, element size)"""
    out = []
    for f in sorted(lib):
        for b in mod.funcs[f].blocks:
            for i in b.insts:
                if i.op == "call" and isinstance(i.x, Const) and i.x.kind == "func" and i.x.val in SORTS:
                    z, c = SORTS[i.x.val]
                    zs = i.ops[z]
                    out.append((f, i, {x.val for x in consts(i.ops[c]) if x.kind == "func"},
                                zs.val if isinstance(zs, Const) and zs.kind == "int" else None))
    return out


DEBUG = False


class Compare:
    """one comparison function and the parts of the elements it looks at"""

    def __init__(self, mod, probe, fn, size):
        self.mod, self.probe, self.fn, self.size = mod, probe, fn, size
        self.keys, self.lost = {}, False
        for _ in range(4):
            seen = dict(self.keys)
            for r in product(*[self.rels(k) for k in sorted(self.keys)]) if len(self.keys) < 4 else []:
                self.sign(dict(zip(sorted(self.keys), r)), look=True)
            if not self.keys:
                self.sign({}, look=True)
            if self.keys == seen:
                break
        self.lost = self.lost or not self.keys or len(self.keys) > 3
        self.table = {}
        if not self.lost:
            ks = sorted(self.keys)
            for r in product(*[self.rels(k) for k in ks]):
                self.table[r] = self.sign(dict(zip(ks, r)))

    def rels(self, k):
        return ("lt", "eq", "gt", "an", "bn", "nn") if k[1] == "fp" else ("lt", "eq", "gt")

    def sign(self, rel, look=False):
        """the signs the answer may have, or None when the analysis cannot tell"""
        reset_atoms()
        clear_caches()
        e = interp.Engine(self.mod, self.probe, max_states=300, time_limit=60, alloc_fail=False, spi_fail=False)
        sc = scen.Scen(e)
        st = sc.state()
        st.ghost["pend"] = NOFS
        rs = [e.input_region(st, n, null="no", const=True, size=(self.size, ()) if self.size else None) for n in ("element a", "element b")]
        for (off, kind, sz), r in rel.items():
            vs = []
            for n in "ab":
                top = 2 ** (8 * sz) - 1
                if sz == self.probe["sz__scc_PointIndex"]:
                    top = min(top, self.probe["k__POINTINDEX_MAX"])      # indices are never negative
                a = AT.get(("arg", f"{n}+{off}"), -INF if kind == "fp" else 0, INF if kind == "fp" else top)
                vs.append(("f", a) if kind == "fp" else atom_val(a))
            if kind == "fp":
                low, high, num = (-INF, True, 1.0, False, False), (1.0, True, INF, True, False), (-INF, True, INF, True, False)
                x, y = vs[0][1], vs[1][1]
                if r == "eq":
                    vs[1] = vs[0]
                st.ff[x] = {"lt": low, "gt": high, "eq": num, "an": NAN, "bn": num, "nn": NAN}[r]
                if r != "eq":
                    st.ff[y] = {"lt": high, "gt": low, "an": num, "bn": NAN, "nn": NAN}[r]
            elif r == "eq":
                vs[1] = vs[0]
            else:
                lo, hi = (vs[0][1], vs[1][1]) if r == "lt" else (vs[1][1], vs[0][1])
                st.facts.assume_le(l_add(l_sub(lo, hi), (1, ())))
            for reg, v in zip(rs, vs):
                scen.cell(st, reg, off, sz, v)
        if look:
            me = self

            def el(eng, s, off, v):
                if off is None or off[1]:
                    me.lost = True
                return True
            for reg in rs:
                e.elem[reg] = el
            old = e.load0

            def load0(s, p, ty, ins, ctx):
                if p[0] == "p" and p[1] in rs and p[2] is not None and not p[2][1] and ty.kind in ("int", "fp"):
                    me.keys.setdefault((p[2][0], ty.kind, ty.size), ins)
                return old(s, p, ty, ins, ctx)
            e.load0 = load0
        try:
            ex = e.run(self.fn, st, [P2(rs[0]), P2(rs[1])])
        except interp.AnalysisError:
            self.lost = True
            return None
        self.reports = e.findings() if callable(getattr(e, "findings", None)) else getattr(e, "findings", None)
        outs = []
        for s, v in ex:
            if v is None or v[0] not in "ic":
                return None
            if v[0] == "c":
                d = e.decide(s, v)
                if d is None:
                    return None
                outs.append({1 if d else 0})
                continue
            lo, hi = s.facts.range(v[1])
            if DEBUG and lo < hi:
                print(self.fn, rel, lo, hi, [AT.name[a] for a, _ in v[1][1]])
            sg = set()
            for k in (-1, 0, 1) if hi - lo < 2 ** 33 else ():
                # the answer is an int: what lies outside its range wraps
                l, h = max(lo, k * 2 ** 32 - 2 ** 31) - k * 2 ** 32, min(hi, k * 2 ** 32 + 2 ** 31 - 1) - k * 2 ** 32
                sg |= {x for x, t in ((-1, l < 0), (0, l <= 0 <= h), (1, h > 0)) if t and l <= h}
            sg = sg or {-1, 0, 1}
            if len(sg) > 1 and any(AT.name[a][0] not in ("arg", "f2i") for a, _ in v[1][1]):
                return None
            outs.append(sg)
        # different answers on different ways through: which way is taken is not known
        return outs[0] if outs and all(x == outs[0] for x in outs) else None


def P2(r):
    return ("p", r, (0, ()))


def relation(c1, c2, kind):
    """how two classes of one key relate: ranks 0..2, or None for NaN"""
    if c1 is None or c2 is None:
        return "nn" if c1 is c2 else "an" if c1 is None else "bn"
    return "lt" if c1 < c2 else "gt" if c1 > c2 else "eq"


def one(s):
    return next(iter(s)) if s is not None and len(s) == 1 else None


def judge(c):
    """the first way in which the answers are no ordering, or None"""
    ks = sorted(c.keys)
    for r, s in c.table.items():
        if s is not None and len(s) > 1:
            return f"the answer for an element {', '.join(REL[x] for x in r)} another may have either sign"
    t = {r: one(s) for r, s in c.table.items()}
    for r, s in t.items():
        if s is None:
            continue
        if all(x in ("eq", "nn") for x in r) and s != 0:
            return "an element is not equal to itself"
        o = t[tuple(INV[x] for x in r)]
        if o is not None and o != -s:
            return f"the answer for an element {', '.join(REL[x] for x in r)} another is not reversed when the two are exchanged"
    classes = [((0, 1, 2, None) if k[1] == "fp" else (0, 1, 2)) for k in ks]
    els = list(product(*classes))

    def sg(x, y):
        return t[tuple(relation(a, b, k[1]) for a, b, k in zip(x, y, ks))]
    for x in els:
        for y in els:
            s = sg(x, y)
            if s is None or s > 0:
                continue
            for z in els:
                u, v = sg(y, z), sg(x, z)
                if u is None or v is None or u > 0:
                    continue
                if v > 0 or (v == 0 and (s < 0 or u < 0)):
                    nan = any(None in e for e in (x, y, z))
                    return "the answers do not order three elements" + (" when one of the keys is not a number" if nan else "")
    return None


def scan(mod, probe, cfg):
    g = Graph(mod)
    public = sorted(f.name for f in mod.funcs.values() if not f.decl and not f.internal and f.name.startswith("scc_"))
    lib = {f for f in g.reach(public) if f in mod.funcs and not mod.funcs[f].decl}
    out, cov = [], []
    done = {}
    for caller, ins, fns, size in sites(mod, lib):
        if not fns:
            cov.append({"sorted_by": caller, "comparison": None, "decided": False})
        for fn in sorted(fns):
            if fn not in mod.funcs or mod.funcs[fn].decl:
                continue
            if (fn, size) not in done:
                done[fn, size] = c = Compare(mod, probe, fn, size)
                at = next((i for b in mod.funcs[fn].blocks for i in b.insts if i.line), ins)
                if c.lost:
                    why = None
                else:
                    why = judge(c)
                    if why:
                        out.append(finding("ordering", at, f"{fn}: {why}", g.path(public, caller) , cfg))
                for (off, kind, sz), i in c.keys.items():
                    if size is not None and off + sz > size:
                        out.append(finding("ordering", i, f"{fn} looks at bytes {off}..{off + sz - 1} of elements of {size} bytes", g.path(public, caller), cfg))
            c = done[fn, size]
            cov.append({"sorted_by": caller, "comparison": fn, "element_size": size, "decided": not c.lost,
                        "keys": [f"{k[1]} of {k[2]} bytes at {k[0]}" for k in sorted(c.keys)],
                        "relations": len(c.table), "relations_decided": sum(v is not None for v in c.table.values())})
    return out, cov


def order(tier):
    cfgs = [("default", ()), ("default", ("-DSCC_STABLE_NNG", "-DSCC_STABLE_FINDSEED"))]
    if tier == "thorough":
        cfgs += [(c, ("-DSCC_STABLE_NNG", "-DSCC_STABLE_FINDSEED")) for c in ("ann", "wide", "int_min", "int_mna")]
    fs, cov = {}, {}
    for c, d in cfgs:
        name = c + ("+stable" if d else "")
        mods = runner.lower_all([Job("none", config=c, defs=d)])
        m = mods[(c, d)]
        f, cov[name] = scan(m[0], m[1], name)
        for x in f:
            fs.setdefault((x["rule"], x["function"], x["what"]), x)
    n = sum(len(v) for v in cov.values())
    if not n:
        raise interp.AnalysisError("no call that sorts was found")
    return list(fs.values()), {"orderings": cov, "functions_analysed": len({x["comparison"] for v in cov.values() for x in v})}
