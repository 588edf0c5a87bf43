"""Stack use: recursion in the call graph, stack blocks of run-time size, and the deepest chain of fixed frames."""
from engine.ir import Const
from . import runner
from .effects import Graph, consts, finding
from .runner import Job

LIMIT = 256 * 1024
FRAME = 256           # registers, spills and return address of one call, generously


def cycles(g, nodes):
    """strongly connected components with a cycle (Tarjan, iterative)"""
    index, low, on, stack, out = {}, {}, set(), [], []
    for root in sorted(nodes):
        if root in index:
            continue
        work = [(root, iter(sorted(g.calls.get(root, set()) & nodes)))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            nxt = next(it, None)
            if nxt is None:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in g.calls.get(v, ()):
                        out.append(sorted(comp))
            elif nxt not in index:
                index[nxt] = low[nxt] = len(index)
                stack.append(nxt)
                on.add(nxt)
                work.append((nxt, iter(sorted(g.calls.get(nxt, set()) & nodes))))
            elif nxt in on:
                low[v] = min(low[v], index[nxt])
    return out


def scan(mod, cfg):
    g = Graph(mod)
    public = sorted(f.name for f in mod.funcs.values() if not f.decl and not f.internal and f.name.startswith("scc_"))
    if not public:
        raise runner.interp.AnalysisError("no public functions found")
    lib = {f for f in g.reach(public) if f in mod.funcs and not mod.funcs[f].decl}
    # a call through a pointer may run any function whose address is taken and that takes as many arguments
    taken = set().union(*g.tables.values()) if g.tables else set()
    for f in lib:
        for b in mod.funcs[f].blocks:
            for i in b.insts:
                for o in i.ops:
                    taken |= {c.val for c in consts(o) if c.kind == "func"}
    through = 0
    for f in lib:
        for b in mod.funcs[f].blocks:
            for i in b.insts:
                if i.op == "call" and not isinstance(i.x, Const):
                    through += 1
                    g.calls[f] |= {t for t in taken if t in lib and len(mod.funcs[t].params) == len(i.ops)}
    out = []
    for comp in cycles(g, lib):
        f = comp[0]
        nxt = next(x for x in comp if x in g.calls[f])
        ring = " > ".join(comp + [f]) if len(comp) > 1 else f"{f} > {f}"
        out.append(finding("recursion", g.sites.get((f, nxt)), f"recursion: {ring}", g.path(public, f), cfg))
    frame, blocks = {}, 0
    for f in sorted(lib):
        size = FRAME
        for b in mod.funcs[f].blocks:
            for i in b.insts:
                if i.op != "alloca":
                    continue
                blocks += 1
                n = i.ops[0]
                if isinstance(n, Const) and n.kind == "int":
                    size += n.val * i.x.size
                else:
                    out.append(finding("stack-block", i, f"{f} takes a block of run-time size from the stack", g.path(public, f), cfg))
        frame[f] = size
    deepest, chain = 0, []
    if not any(x["rule"] == "recursion" for x in out):
        memo = {}

        def deep(f):
            if f not in memo:
                below = [deep(c) for c in g.calls[f] if c in lib]
                memo[f] = frame[f] + max([d for d, _ in below], default=0), f
            return memo[f]
        for p in public:
            d = deep(p)[0]
            if d > deepest:
                deepest, chain = d, [p]
        while chain:
            nx = [c for c in g.calls[chain[-1]] if c in lib]
            if not nx:
                break
            chain.append(max(nx, key=lambda c: memo[c][0]))
        if deepest > LIMIT:
            big = max(chain, key=lambda c: frame[c])
            i = max((i for b in mod.funcs[big].blocks for i in b.insts if i.op == "alloca"), key=lambda i: i.ops[0].val * i.x.size)
            out.append(finding("stack-depth", i, f"{big} takes {frame[big]} bytes of the stack; the chain of calls takes {deepest}", " > ".join(chain), cfg))
    return out, {"public_functions": public, "functions_reachable": len(lib), "call_edges": sum(len(g.calls[f] & lib) for f in lib),
                 "calls_through_pointers": through, "stack_blocks": blocks, "deepest_chain_bytes": deepest, "deepest_chain": chain}


def stack(tier):
    cfgs = ["default"] if tier != "thorough" else ["default", "ann", "wide", "int_min", "int_mna"]
    fs, cov = {}, {}
    for c in cfgs:
        mods = runner.lower_all([Job("none", config=c)])
        f, cov[c] = scan(mods[(c, ())][0], c)
        for x in f:
            fs.setdefault((x["rule"], x["function"], x["what"]), x)
    return list(fs.values()), {"stack_scan": cov, "configurations": cfgs, "functions_analysed": cov["default"]["functions_reachable"]}
