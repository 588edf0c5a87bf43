"""Assertions only observe: the library compiled with assertions is compared with the library compiled without them.

Both are lowered from the same source without any optimisation, so an instruction of one that has no counterpart at the same
place in the other stems from an assertion or from code that depends on NDEBUG. Such instructions must not do anything the rest could
notice: no stores except to variables nothing else uses, no calls except of functions that only read, no way out of the code around them
other than the one taken without assertions."""
import re
from collections import Counter
from engine import build
from engine.ir import Const, Ref
from . import runner
from .effects import MATH, Graph, finding

READERS = MATH | {m + "f" for m in MATH} | {"strlen", "strnlen", "strcmp", "strncmp", "memcmp", "memchr", "strchr", "strrchr", "strstr", "abs", "labs", "llabs",
                                            "__assert_fail", "vp_assert_failed", "__isnan", "__isinf", "__finite", "isnan", "isinf", "finite"}
QUERIES = ("check_data_set", "num_data_points")


def base(n):
    return re.sub(r"(\.\d+)+$", "", n)


def harmless_intrinsic(n):
    return n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.fabs", "llvm.sqrt", "llvm.is.fpclass", "llvm.expect", "llvm.assume", "llvm.floor", "llvm.ceil",
                         "llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.abs", "llvm.fmuladd", "llvm.fma", "llvm.ctpop",
                         "llvm.umul.with", "llvm.uadd.with", "llvm.smul.with", "llvm.sadd.with", "llvm.usub.with", "llvm.ssub.with", "llvm.copysign"))


def callee(i):
    return i.x.val if isinstance(i.x, Const) and i.x.kind == "func" else None


def key(i):
    """what an instruction does, and where it stands in the source"""
    k = i.op
    if i.op == "call":
        n = callee(i)
        k = "call " + (base(n) if n else "through a pointer")
    return (i.line, i.col, k)


def roots(f):
    """stack slots an address may lie in, per value; None among them: somewhere else"""
    r = {}
    for b in f.blocks:
        for i in b.insts:
            if i.op == "alloca":
                r[i.id] = {i.id}
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            for i in b.insts:
                if i.op in ("gep", "bitcast", "freeze"):
                    os = i.ops[:1]
                elif i.op == "phi":
                    os = [v for _, v in i.ops]
                elif i.op == "select":
                    os = i.ops[1:]
                else:
                    continue
                n = set()
                for o in os:
                    n |= r.get(o.id, set() if i.op == "phi" else {None}) if isinstance(o, Ref) else {None}
                if n != r.get(i.id):
                    r[i.id] = n
                    ch = True
    return r


def target(r, o):
    return r.get(o.id, {None}) if isinstance(o, Ref) else {None}


def written(i):
    """operand an instruction writes through, if it writes"""
    if i.op == "store":
        return i.ops[1]
    if i.op in ("cmpxchg", "atomicrmw"):
        return i.ops[0]
    if i.op == "call":
        n = callee(i) or ""
        if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or n in ("memcpy", "memmove", "memset"):
            return i.ops[0]
    return None


class Readers:
    """functions that only read"""

    def __init__(self, mod, table_off):
        self.mod, self.memo, self.table_off = mod, {}, table_off
        self.slots = {}

    def query(self, f, i):
        """a call of one of the two callbacks that only answer questions"""
        if not isinstance(i.x, Ref):
            return False
        d = {j.id: j for b in f.blocks for j in b.insts}
        ld = d.get(i.x.id)
        if ld is None or ld.op != "load":
            return False
        a = ld.ops[0]
        if isinstance(a, Const) and a.kind == "global" and a.val == "iscc_dist_functions":
            return 0 in self.table_off
        if isinstance(a, Const) and a.kind == "expr" and a.val[0] == "gep" and a.ops[0].kind == "global" and a.ops[0].val == "iscc_dist_functions":
            idx = [o.val for o in a.ops[1:]]
            ty = a.val[1]
            if ty.kind == "struct" and len(idx) == 2:
                return ty.offsets[idx[1]] in self.table_off
            if len(idx) == 1:
                return idx[0] * ty.size in self.table_off
        return False

    def why_not(self, name):
        """why a function may do more than read, or None"""
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = None          # recursion: judged by the rest of its body
        self.memo[name] = w = self.judge(name)
        return w

    def judge(self, name):
        f = self.mod.funcs.get(name)
        if f is None or f.decl:
            return None if name in READERS or harmless_intrinsic(name) else f"{name} is called"
        r = roots(f)
        for b in f.blocks:
            for i in b.insts:
                w = written(i)
                if w is not None:
                    if None in target(r, w):
                        return f"{base(name)} writes memory at {i.file}:{i.line}"
                    continue
                if i.op == "call":
                    n = callee(i)
                    if n is None:
                        if not self.query(f, i):
                            return f"{base(name)} calls through a pointer at {i.file}:{i.line}"
                    else:
                        x = self.why_not(n)
                        if x:
                            return x
        return None


def where(f):
    for b in f.blocks:
        for i in b.insts:
            if i.line:
                return i.file
    return ""


def by_place(mod):
    return {(base(f.name), where(f)): f for f in mod.funcs.values() if not f.decl}


def compare(dbg, rel, probe, cfg, public, g):
    out, cov = [], Counter()
    offs = {probe.get(f"off__iscc_dist_functions_struct__{s}") for s in QUERIES}
    rd, rr = Readers(dbg, offs), Readers(rel, offs)
    df, rf = by_place(dbg), by_place(rel)
    for k in sorted(rf):
        if k not in df and rf[k].name in g.calls:
            continue    # only called from extra code, which is looked at where it is called

    def one(a, b, readers, extra_is):
        """instructions of a without a counterpart in b"""
        f = b.name if b is not None else a.name
        cb = Counter(key(i) for bl in b.blocks for i in bl.insts)
        lines_b = {i.line for bl in b.blocks for i in bl.insts}
        # left-over counterparts: which of several equal ones is extra does not matter for stores and calls
        extra = set()
        for bl in a.blocks:
            for i in bl.insts:
                k = key(i)
                if i.line and cb[k] > 0:
                    cb[k] -= 1
                elif i.line:
                    extra.add(i.id)
        if not extra:
            return
        cov["functions with differences"] += 1
        r = roots(a)
        # variables only the extra code uses
        used = {}
        for bl in a.blocks:
            for i in bl.insts:
                if i.op == "call" and (callee(i) or "").startswith("llvm.dbg"):
                    continue
                for o in i.ops:
                    if isinstance(o, Ref):
                        for t in r.get(o.id, ()):
                            if t is not None:
                                used.setdefault(t, []).append(i)
        private = {t for t, us in used.items() if all(u.id in extra or u.line == 0 for u in us)}

        def report(i, what):
            out.append(finding("assert-effect", i, f"{a.name}: {extra_is}: {what}", g.path(public, base(a.name)), cfg))
        for bl in a.blocks:
            for i in bl.insts:
                if i.id not in extra:
                    continue
                cov["instructions compared away"] += 1
                w = written(i)
                if w is not None:
                    if not target(r, w) <= private:
                        report(i, "a variable or memory is changed")
                elif i.op == "call":
                    n = callee(i)
                    if n is None:
                        if not readers.query(a, i):
                            report(i, "a callback that does work is called")
                    else:
                        cov["calls in assertions"] += 1
                        x = readers.why_not(n)
                        if x:
                            report(i, f"{base(n)} is called, which does more than look ({x})")
                elif i.op == "ret":
                    report(i, "the function returns")
                elif i.op == "alloca" and not (isinstance(i.ops[0], Const) and i.ops[0].kind == "int"):
                    report(i, "a stack block of run-time size is taken")
                elif i.op in ("br", "switch") and len(set(bl.succs)) > 1 and i.line not in lines_b:
                    cov["conditions in assertions"] += 1
                    outs, seen, todo = set(), set(), list(bl.succs)
                    while todo:
                        s = todo.pop()
                        if s in seen:
                            continue
                        seen.add(s)
                        sb = a.blocks[s]
                        body = [j for j in sb.insts if not (j.op == "call" and (callee(j) or "").startswith("llvm.dbg"))]
                        if body and body[-1].op == "unreachable":
                            continue
                        if all(j.id in extra or j.line == 0 for j in body):
                            todo += sb.succs
                        else:
                            outs.add(s)
                    # jumps without any work of their own lead to the same place
                    ends = set()
                    for s in outs:
                        hop = 0
                        while hop < 50 and [j.op for j in a.blocks[s].insts if not (j.op == "call" and (callee(j) or "").startswith("llvm.dbg"))] == ["br"] and len(a.blocks[s].succs) == 1:
                            s = a.blocks[s].succs[0]
                            hop += 1
                        ends.add(s)
                    if len(ends) > 1:
                        report(i, "the code around it continues elsewhere depending on a condition")

    for k in sorted(df):
        if k in rf:
            cov["functions compared"] += 1
            one(df[k], rf[k], rd, "only with assertions compiled in")
            one(rf[k], df[k], rr, "only without assertions compiled in")
    gd = {n: v for n, v in dbg.globals.items() if not v.const and not n.startswith("llvm.")}
    gr = {n: v for n, v in rel.globals.items() if not v.const and not n.startswith("llvm.")}
    for n in sorted(set(gd) ^ set(gr)):
        if any(n in x for x in (g.reads, g.writes)):
            f = sorted({**g.reads.get(n, {}), **g.writes.get(n, {})})[0]
            out.append(finding("assert-effect", g.reads.get(n, {}).get(f) or g.writes[n][f], f"the variable {n} exists only with or only without assertions", f, cfg))
    return out, dict(cov)


def asserts(tier):
    cfgs = [("default", ())] if tier != "thorough" else [(c, ()) for c in ("default", "ann", "wide", "int_min", "int_mna")]
    cfgs.append(("default", ("-DSCC_STABLE_NNG", "-DSCC_STABLE_FINDSEED")))
    fs, cov = {}, {}
    for c, defs in cfgs:
        dbg, probe, _ = build.lower(c, list(defs), ndebug=False, mem2reg=False)
        rel, _, _ = build.lower(c, list(defs), ndebug=True, mem2reg=False)
        g = Graph(dbg)
        public = sorted(f.name for f in dbg.funcs.values() if not f.decl and not f.internal and f.name.startswith("scc_"))
        name = " ".join((c,) + defs)
        f, cov[name] = compare(dbg, rel, probe, name, public, g)
        if cov[name].get("functions compared", 0) < 30:
            raise runner.interp.AnalysisError("the two builds have few functions in common")
        for x in f:
            fs.setdefault((x["rule"], x["function"], x["line"], x["what"]), x)
    return list(fs.values()), {"assertion_scan": cov, "configurations": [" ".join((c,) + d) for c, d in cfgs],
                               "functions_analysed": cov["default"]["functions compared"]}
