"""Effects of the whole library on anything that outlives a call: which variables with static storage its functions
read and write, and which functions outside the library they call."""
from engine.ir import Const, Ref
from . import runner
from .runner import Job

# functions of the C library that only compute on their arguments, or manage memory
PURE = {"malloc", "calloc", "realloc", "free", "aligned_alloc", "memcpy", "memmove", "memset", "memcmp", "memchr", "qsort", "bsearch",
        "snprintf", "vsnprintf", "strlen", "strnlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "strncat", "strchr",
        "strrchr", "strstr", "abs", "labs", "llabs", "imaxabs", "div", "ldiv", "lldiv"}
MATH = {"sqrt", "pow", "exp", "exp2", "log", "log2", "log10", "log1p", "expm1", "fabs", "floor", "ceil", "round", "trunc", "fmod", "fmin", "fmax",
        "hypot", "cbrt", "sin", "cos", "tan", "lround", "llround", "rint", "nearbyint", "ldexp", "frexp", "copysign", "fma", "remainder",
        "nextafter", "logb", "ilogb", "scalbn"}
PURE |= MATH | {m + "f" for m in MATH} | {m + "l" for m in MATH}
INTRINSIC_BAD = ("llvm.trap", "llvm.debugtrap", "llvm.readcyclecounter", "llvm.eh.sjlj")


def consts(o):
    """constants below an operand"""
    if isinstance(o, Const):
        yield o
        for x in o.ops or ():
            yield from consts(x)
    elif isinstance(o, tuple):
        for x in o:
            yield from consts(x)


def uses(ins):
    for o in ins.ops:
        yield from consts(o)
    if isinstance(ins.x, Const):
        yield from consts(ins.x)


class Graph:
    def __init__(self, mod):
        self.mod = mod
        self.calls = {}       # function -> functions it may run
        self.sites = {}       # (function, callee) -> instruction
        self.reads, self.writes = {}, {}    # global -> {function: instruction}
        self.local = {}
        for f in mod.funcs.values():
            if f.decl:
                continue
            cs = self.calls.setdefault(f.name, set())
            for b in f.blocks:
                for i in b.insts:
                    for c in uses(i):
                        if c.kind == "func":
                            cs.add(c.val)
                            self.sites.setdefault((f.name, c.val), i)
            self.effects(f)
        # functions a table refers to are run by whoever reads the table
        self.tables = {}
        for g in mod.globals.values():
            if g.init is not None:
                fs = {c.val for c in consts(g.init) if c.kind == "func"}
                if fs:
                    self.tables[g.name] = fs
        for g, fs in self.tables.items():
            for f in self.reads.get(g, {}):
                self.calls[f] |= fs

    def effects(self, f):
        """which globals f reads and writes; an address that goes anywhere else counts as both"""
        base = {}      # SSA id -> globals it may point into

        def of(o):
            if isinstance(o, Ref):
                return base.get(o.id, frozenset())
            if isinstance(o, Const):
                return frozenset(c.val for c in consts(o) if c.kind == "global")
            return frozenset()

        changed = True
        while changed:
            changed = False
            for b in f.blocks:
                for i in b.insts:
                    g = frozenset()
                    if i.op in ("gep", "bitcast", "addrspacecast", "freeze"):
                        g = of(i.ops[0])
                    elif i.op == "phi":
                        g = frozenset().union(*[of(v) for _, v in i.ops]) if i.ops else g
                    elif i.op == "select":
                        g = of(i.ops[1]) | of(i.ops[2])
                    if g and not g <= base.get(i.id, frozenset()):
                        base[i.id] = base.get(i.id, frozenset()) | g
                        changed = True

        def rd(gs, i):
            for g in gs:
                self.reads.setdefault(g, {}).setdefault(f.name, i)

        def wr(gs, i):
            for g in gs:
                self.writes.setdefault(g, {}).setdefault(f.name, i)
        for b in f.blocks:
            for i in b.insts:
                if i.op == "load":
                    rd(of(i.ops[0]), i)
                elif i.op == "store":
                    wr(of(i.ops[1]), i)
                    rd(of(i.ops[0]), i)
                    wr(of(i.ops[0]), i)
                elif i.op == "call":
                    n = i.x.val if isinstance(i.x, Const) and i.x.kind == "func" else ""
                    if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
                        wr(of(i.ops[0]), i)
                        rd(of(i.ops[1]), i)
                    elif n.startswith("llvm.memset") or n == "memset":
                        wr(of(i.ops[0]), i)
                    elif n.startswith("llvm.dbg"):
                        continue
                    else:
                        for o in i.ops:
                            rd(of(o), i)
                            wr(of(o), i)
                elif i.op in ("cmpxchg", "atomicrmw"):
                    rd(of(i.ops[0]), i)
                    wr(of(i.ops[0]), i)
                elif i.op in ("ret", "ptrtoint", "insertvalue"):
                    for o in i.ops:
                        rd(of(o), i)
                        wr(of(o), i)

    def reach(self, roots):
        seen, todo = set(), [r for r in roots]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += self.calls.get(x, ())
        return seen

    def path(self, roots, target):
        prev = {r: None for r in roots}
        todo = list(roots)
        while todo:
            x = todo.pop(0)
            if x == target:
                p = []
                while x is not None:
                    p.append(x)
                    x = prev[x]
                return " > ".join(reversed(p))
            for y in sorted(self.calls.get(x, ())):
                if y not in prev:
                    prev[y] = x
                    todo.append(y)
        return target


def finding(rule, ins, what, path, cfg):
    return {"rule": rule, "function": ins.fn if ins is not None else "-", "file": ins.file if ins is not None else "",
            "line": ins.line if ins is not None else 0, "what": what, "call_path": path, "after_failure": [], "scenario": f"effect scan [{cfg}]"}


ERR = {"scc_get_latest_error"}
INSTALL = {"scc_set_dist_functions", "scc_reset_dist_functions"}


def difference(f, i):
    """is the number only used for the distance between two addresses, or to test for null?"""
    defs = {j.id: j for b in f.blocks for j in b.insts}
    for b in f.blocks:
        for j in b.insts:
            os = [o for o in (j.ops if j.op != "phi" else [v for _, v in j.ops])]
            if not any(isinstance(o, Ref) and o.id == i.id for o in os):
                continue
            if j.op == "sub" and all(isinstance(o, Ref) and o.id in defs and defs[o.id].op == "ptrtoint" for o in os):
                continue
            if j.op == "icmp" and j.x in ("eq", "ne"):
                continue
            return False
    return True


def scan(mod, cfg):
    g = Graph(mod)
    public = sorted(f.name for f in mod.funcs.values() if not f.decl and not f.internal and f.name.startswith("scc_"))
    out = []
    if not public:
        raise runner.interp.AnalysisError("no public functions found")
    lib = g.reach(public)
    # 1. external calls
    ext = set()
    for f in sorted(lib):
        if f in mod.funcs and not mod.funcs[f].decl:
            for b in mod.funcs[f].blocks:
                for i in b.insts:
                    if i.op == "ptrtoint" and not difference(mod.funcs[f], i):
                        out.append(finding("address-value", i, f"{f} turns an address into a number: results can depend on where memory happens to lie", g.path(public, f), cfg))
                    if i.op == "call" and isinstance(i.x, Const) and i.x.kind in ("meta", "unknown"):
                        out.append(finding("external-effect", i, f"{f} contains inline assembly", g.path(public, f), cfg))
            continue
        ext.add(f)
        if f.startswith("llvm."):
            if not f.startswith(INTRINSIC_BAD):
                continue
        elif f in PURE:
            continue
        callers = [c for c in sorted(lib) if f in g.calls.get(c, ())]
        for c in callers:
            out.append(finding("external-effect", g.sites.get((c, f)), f"{c} calls {f}, which acts on or depends on something outside the library", g.path(public, c), cfg))
    # 2. state between calls
    only_err = g.reach([p for p in public if p in ERR]) - g.reach([p for p in public if p not in ERR])
    only_inst = g.reach([p for p in public if p in INSTALL]) - g.reach([p for p in public if p not in INSTALL])
    mut = []
    for gv in sorted(mod.globals.values(), key=lambda v: v.name):
        if gv.const or gv.name.startswith("llvm."):
            continue
        rs = {f: i for f, i in g.reads.get(gv.name, {}).items() if f in lib}
        ws = {f: i for f, i in g.writes.get(gv.name, {}).items() if f in lib}
        if gv.init is None:
            for f, i in {**rs, **ws}.items():
                out.append(finding("external-effect", i, f"{f} uses the variable {gv.name} of the environment", g.path(public, f), cfg))
            continue
        mut.append(gv.name)
        bad_r = [f for f in rs if f not in only_err]
        bad_w = [f for f in ws if f not in only_inst]
        if not bad_r or not bad_w:
            continue
        f = sorted(bad_w)[0]
        out.append(finding("hidden-state", ws[f], f"{f} writes {gv.name}, which {sorted(bad_r)[0]} reads: a call can depend on earlier calls", g.path(public, f), cfg))
    cov = {"public_functions": public, "functions_reachable": len([f for f in lib if f in mod.funcs and not mod.funcs[f].decl]),
           "external_functions": sorted(e for e in ext if not e.startswith("llvm.")), "mutable_variables": mut}
    return out, cov


def effects(tier):
    cfgs = ["default"] if tier != "thorough" else ["default", "ann", "wide", "int_min", "int_mna"]
    fs, cov = [], {}
    for c in cfgs:
        mods = runner.lower_all([Job("none", config=c)])
        f, v = scan(mods[(c, ())][0], c)
        fs += f
        cov[c] = v
    seen = {}
    for f in fs:
        seen.setdefault((f["rule"], f["function"], f["what"]), f)
    return list(seen.values()), {"effect_scan": cov, "configurations": cfgs,
                                 "functions_analysed": cov["default"]["functions_reachable"]}
