"""Abstract program states: memory regions, cells, facts, ghosts; n-ary join and loop-header widening."""
from math import gcd
from .dom import *
from . import dom

NOFS = frozenset()
TEMPLATE = []      # atoms related to loop counters at every loop head
RELATE = []        # non-empty: joined quantities inherit candidate relations from the values they join


class RegMem:
    """Contents of one region (treated as immutable; use clone())."""
    __slots__ = ("cells", "summ", "cache", "init", "late")

    def __init__(self, init, cells=None, summ=None, cache=None, late=False):
        self.init = init            # 'uninit' | 'zero' | 'input' | 'havoc'
        self.cells = cells or {}    # off -> (size, val)
        self.summ = summ or {}      # (g, r, size) -> frozenset(vals)  (ANY means anything)
        self.cache = cache or {}    # (lin, size) -> val
        self.late = late            # everything stored so far lies behind the first element

    def clone(self):
        return RegMem(self.init, dict(self.cells), dict(self.summ), dict(self.cache), self.late)


class Reg:
    """Static+dynamic attributes of a region (immutable; replaced on change)."""
    __slots__ = ("kind", "status", "many", "size", "const", "site", "null", "extra")

    def __init__(self, kind, status="live", many=False, size=None, const=False, site=None, null="no", extra=()):
        self.kind = kind        # stack heap global input obj code
        self.status = status    # live freed
        self.many = many
        self.size = size        # linear form or None
        self.const = const
        self.site = site
        self.null = null        # 'no' | 'maybe' | 'yes'   (input regions)
        self.extra = extra

    def upd(self, **kw):
        r = Reg(self.kind, self.status, self.many, self.size, self.const, self.site, self.null, self.extra)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def key(self):
        return (self.kind, self.status, self.many, self.null, self.extra if self.kind == "obj" else ())


class State:
    __slots__ = ("env", "regs", "mem", "facts", "ff", "ghost", "tau")

    def __init__(self):
        self.env = {}
        self.regs = {}
        self.mem = {}
        self.facts = Facts()
        self.ff = {}
        self.ghost = {}
        self.tau = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.regs = dict(self.regs)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.ff = dict(self.ff)
        s.ghost = dict(self.ghost)
        s.tau = self.tau
        return s

    def own(self, r):
        m = self.mem[r].clone()
        self.mem[r] = m
        return m


def val_atoms(v, out):
    t = v[0]
    if t == "i":
        for a, _ in v[1][1]:
            out.add(a)
    elif t == "p":
        for a, _ in v[2][1]:
            out.add(a)
    elif t == "f":
        if isinstance(v[1], int) and not isinstance(v[1], float):
            out.add(v[1])
    elif t == "c":
        if v[1] in ("le", "eq", "ne"):
            for a, _ in v[2][1]:
                out.add(a)
        elif v[1] == "f":
            for x in v[3:5]:
                if isinstance(x, int):
                    out.add(x)


def val_subst(v, m):
    t = v[0]
    if t == "i":
        n = l_subst(v[1], m)
        return v if n is v[1] else ("i", n)
    if t == "p":
        n = l_subst(v[2], m)
        return v if n is v[2] else ("p", v[1], n)
    if t == "c" and v[1] in ("le", "eq", "ne"):
        n = l_subst(v[2], m)
        return v if n is v[2] else ("c", v[1], n)
    return v


_born_cache = {}


def born_in(atom, ctx, body):
    """Was this quantity produced (or last re-defined) inside the loop with the given blocks in context ctx?"""
    k = (atom, ctx, body)
    r = _born_cache.get(k)
    if r is not None:
        return r
    o = AT.origin[atom]
    r = False
    if o is not None:
        octx, blk = o
        if octx == ctx:
            r = blk in body
        elif len(octx) > len(ctx) and octx[:len(ctx)] == ctx:
            r = octx[len(ctx)][2] in body
    if not r:
        for p in AT.parts[atom]:
            if born_in(p, ctx, body):
                r = True
                break
    _born_cache[k] = r
    return r


def clear_caches():
    _born_cache.clear()
    del TEMPLATE[:]
    del RELATE[:]


# --- slots ---------------------------------------------------------------------------------------
def vclass(v, typed1, small):
    """the part of a value that keeps states apart"""
    t = v[0]
    if t == "p":
        return ("p", v[1] if not (isinstance(v[1], tuple) and v[1][0] == "str") else "str")
    if t == "i":
        if not v[1][1]:
            c = v[1][0]
            if typed1 or (small and -1 <= c <= 8):
                return ("k", c)
        return "i"
    if t == "fn":
        return v
    if t == "f":
        return "f"
    if t == "c":
        return "i"
    return t


def state_key(st, types, header_phis=(), keep_env=True):
    k = []
    regs = st.regs
    for r, rg in regs.items():
        kind = rg.kind
        if kind == "heap" or kind == "obj":
            if not rg.many:
                k.append((r, rg.key()))
        elif kind == "input" and rg.null != "no":
            k.append((r, rg.null))
    for r, m in st.mem.items():
        rg = regs.get(r)
        if rg is None or rg.const:
            continue
        isg = rg.kind == "global"
        if rg.many:
            continue
        for off, (sz, v) in m.cells.items():
            t = v[0]
            if t == "i":
                if not v[1][1] and (sz == 1 or (isg and -1 <= v[1][0] <= 16)):
                    k.append((r, off, v[1][0]))
            elif t == "p" or t == "u" or t == "fn":
                k.append((r, off, vclass(v, False, False)))
        if m.cache:
            other = None
            for ck, v in m.cache.items():
                # what is known to be held in a particular array element right now
                if v[0] == "p" and v[1] != r and v[1][0] != "str":
                    if v[1] == ("null",):
                        if other is None:
                            other = any(x != r and x != v[1] for x in ptrs_in(m))
                        if not other:
                            continue
                    k.append((r, ck, v[1]))
    if keep_env:
        for i, v in st.env.items():
            ty = types.get(i)
            t = v[0]
            if t == "i":
                if not v[1][1] and ty is not None:
                    if ty.kind == "int":
                        if ty.bits <= 8:
                            k.append((i, v[1][0]))
                        elif ty.bits == 32 and i not in header_phis and 0 <= v[1][0] <= 8:
                            k.append((i, v[1][0]))
                    elif ty.kind == "ptr":
                        k.append((i, "null"))
            elif t == "p" or t == "fn" or t == "u":
                k.append((i, vclass(v, False, False)))
    for g, v in st.ghost.items():
        k.append(("g", g, v))
    return frozenset(k)


def default_cell(st, r, off, size, mk):
    m = st.mem[r]
    if m.init == "zero":
        return ZERO
    if m.init == "uninit":
        return U
    return mk(st, r, off, size)


class Joiner:
    """n-ary join of states with equal keys at a program point."""

    def __init__(self, ctx, block, states, header=None, taus=None, old=None, types=None, at=None):
        self.ctx, self.block, self.states = ctx, block, states
        # at: block the joined quantities are attributed to when asking whether they vary inside a loop
        self.org = (ctx, block if at is None else at)
        self.header = header
        self.taus = taus
        self.old = old
        self.types = types or {}
        self.memo = {}
        self.fits = set()
        self.js = {}     # atom -> list of per-state linear values
        self.n = len(states)
        self.tau_atom = None
        if header is not None:
            if all(not t[1] for t in taus) and len({t[0] for t in taus}) == 1:
                self.T = taus[0]
            else:
                self.tau_atom = AT.get(("tau", ctx, header), 0, INF, (ctx, header))
                self.T = (0, ((self.tau_atom, 1),))
                self.js[self.tau_atom] = list(taus)

    def jlin(self, slot, vals):
        first = vals[0]
        for v in vals[1:]:
            if v != first:
                break
        else:
            return first
        if self.tau_atom is not None:
            f = self.fit(vals)
            if f is not None:
                if TEMPLATE and len(f[1]) > 1:
                    self.fits.add(l_key(f)[0])
                return f
        g = 0
        for v in vals:
            g = gcd(g, abs(v[0]))
            for _, co in v[1]:
                g = gcd(g, abs(co))
            if g == 1:
                break
        if g > 1:
            # the same quantity counted in other units (elements and bytes)
            vals = [(v[0] // g, tuple((at, co // g) for at, co in v[1])) for v in vals]
        else:
            g = 1
        key = tuple(l_sub(v, vals[0]) for v in vals)
        w = self.memo.get(key)
        if w is None:
            a = AT.get(("J", self.ctx, self.block, slot), -INF, INF, self.org)
            self.memo[key] = (a, vals[0])
            self.js[a] = list(vals)
            return (0, ((a, g),))
        a, v0 = w
        # differs from an already joined quantity by the same amount in every state
        return l_scale(l_add((0, ((a, 1),)), l_sub(vals[0], v0)), g)

    def fit(self, vals):
        """linear in the loop counter?"""
        ta = self.tau_atom
        f = None
        for t, v in zip(self.taus, vals):
            if t[1]:
                for at, co in v[1]:
                    if at == ta:
                        f = v
                        break
                break
        if f is None:
            base = None
            for t, v in zip(self.taus, vals):
                if t[1]:
                    continue
                if base is None:
                    base = (t, v)
                elif t[0] != base[0][0]:
                    d = l_sub(v, base[1])
                    if d[1]:
                        return None
                    dt = t[0] - base[0][0]
                    if d[0] % dt:
                        return None
                    b = d[0] // dt
                    f = l_add(l_add(base[1], (-b * base[0][0], ())), (0, ((ta, b),)) if b else (0, ()))
                    break
            if f is None:
                return None
        for t, v in zip(self.taus, vals):
            if l_subst(f, {ta: t}) != v:
                return None
        return f

    def jval(self, slot, vals):
        first = vals[0]
        for v in vals[1:]:
            if v != first:
                break
        else:
            return first
        kinds = {v[0] for v in vals}
        if "?" in kinds:
            return ANY
        if kinds == {"i"}:
            return ("i", self.jlin(slot, [v[1] for v in vals]))
        if kinds == {"p"}:
            rs = {v[1] for v in vals}
            if len(rs) == 1:
                return ("p", first[1], self.jlin((slot, "o"), [v[2] for v in vals]))
            if all(isinstance(r, tuple) and r[0] == "str" for r in rs):
                return ("p", ("str", "*"), (0, ()))
            return ANY
        if kinds == {"f"}:
            key = ("f",) + tuple(vals)
            a = self.memo.get(key)
            if a is None:
                a = AT.get(("JF", self.ctx, self.block, slot), -INF, INF, self.org)
                self.memo[key] = a
                self.fj[a] = [v[1] for v in vals]
            return ("f", a)
        if kinds <= {"c", "i"}:
            key = ("b",) + tuple(vals)
            a = self.memo.get(key)
            if a is None:
                a = AT.get(("JB", self.ctx, self.block, slot), 0, 1, self.org)
                self.memo[key] = a
            return atom_val(a)
        if "u" in kinds:
            rest = [v for v in vals if v[0] != "u"]
            if len(set(rest)) == 1:
                return rest[0]
            return ANY
        if kinds <= {"p", "i"}:
            return ANY
        return ANY

    def run(self, mk):
        self.fj = {}
        S = self.states
        n = self.n
        out = State()
        base = S[0]
        # env
        ids = set(base.env)
        for s in S[1:]:
            ids &= set(s.env)
        for i in ids:
            out.env[i] = self.jval(("e", i), [s.env[i] for s in S])
        # summary blocks present in some of the states
        for s in S:
            for r, rg in s.regs.items():
                if rg.many and r not in out.regs and not all(r in x.regs for x in S):
                    out.regs[r] = rg
                    u = {}
                    for x in S:
                        mx = x.mem.get(r)
                        if mx is not None:
                            for kx, vs in mx.summ.items():
                                u[kx] = summ_norm(u.get(kx, NOFS) | vs)
                    out.mem[r] = RegMem("havoc", None, u)
        # regions
        for r in base.regs:
            if not all(r in s.regs for s in S):
                continue
            rg = base.regs[r]
            sizes = [s.regs[r].size for s in S]
            if any(x is None for x in sizes):
                size = None
            else:
                size = self.jlin(("size", r), sizes)
            if size != rg.size:
                rg = rg.upd(size=size)
            out.regs[r] = rg
            if r not in base.mem:
                continue
            ms = [s.mem[r] for s in S]
            m0 = ms[0]
            if all(m is m0 for m in ms):
                out.mem[r] = m0
                continue
            if rg.const and rg.kind == "global":
                out.mem[r] = m0
                continue
            nm = RegMem(m0.init)
            nm.late = any(x.late for x in ms) and not any((x.cells or x.summ) and not x.late for x in ms)
            inits = {m.init for m in ms}
            if len(inits) > 1:
                nm.init = "havoc"
            offs = set()
            for m in ms:
                offs |= set(m.cells)
            for off in offs:
                szs = {m.cells[off][0] for m in ms if off in m.cells}
                if len(szs) > 1:
                    continue
                sz = szs.pop()
                vals = []
                for s, m in zip(S, ms):
                    c = m.cells.get(off)
                    if c is not None:
                        vals.append(c[1])
                    elif m.summ:
                        vals.append(ANY)
                    else:
                        vals.append(default_cell(s, r, off, sz, mk))
                nm.cells[off] = (sz, self.jval(("m", r, off), vals))
            sk = set()
            for m in ms:
                sk |= set(m.summ)
            for kx in sk:
                u = NOFS
                for m in ms:
                    if kx in m.summ:
                        u |= m.summ[kx]
                nm.summ[kx] = summ_norm(u)
            c0 = m0.cache
            if c0:
                for ck, cv in c0.items():
                    if all(m.cache.get(ck) == cv for m in ms[1:]):
                        nm.cache[ck] = cv
            out.mem[r] = nm
        # ghosts equal by key
        out.ghost = dict(base.ghost)
        if self.header is not None:
            out.tau = self.T
        self.join_facts(out)
        return out

    def join_facts(self, out):
        S = self.states
        cand = set()
        hdr = self.header is not None
        for s in S:
            cand |= set(s.facts.d)
        if hdr and self.old is not None:
            cand |= set(self.old.facts.d)
        if hdr and self.tau_atom is not None:
            # quantities the scenario singles out are always compared with the loop counter
            for j in TEMPLATE:
                cand.add(l_key(l_sub((0, ((self.tau_atom, 1),)), (0, ((j, 1),))))[0])
        if hdr and TEMPLATE:
            for x in self.fits:
                for j in TEMPLATE:
                    if (j, 1) not in x:
                        cand.add(l_key(l_sub((0, x), (0, ((j, 1),))))[0])
            for x in self.js:
                for j in TEMPLATE:
                    if x != j:
                        cand.add(l_key(l_sub((0, ((x, 1),)), (0, ((j, 1),))))[0])
        if not hdr and TEMPLATE:
            # a joined quantity is compared with what it may be (minimum, maximum, clipped values)
            for x, vals in self.js.items():
                ds = set(vals)
                for j in TEMPLATE:
                    if x != j:
                        cand.add(l_key(l_sub((0, ((x, 1),)), (0, ((j, 1),))))[0])
                if len(ds) <= 3:
                    for v in ds:
                        if 0 < len(v[1]) <= 2 and len(v[1]) * 2 <= 4:
                            cand.add(l_key(l_sub((0, ((x, 1),)), v))[0])
        if RELATE:
            # what is known of the values a joined quantity may have, as candidates for the quantity itself
            for x, vals in self.js.items():
                for s, v in zip(S, vals):
                    if len(v[1]) == 1:
                        at = v[1][0][0]
                        for K in s.facts.idx.get(at, ()):
                            if len(K) == 2:
                                cand.add(l_key((0, tuple(sorted((x if y == at else y, c) for y, c in K))))[0] if all(y != x for y, _ in K) else K)
        res = {}
        for K in cand:
            isj = False
            for a, _ in K:
                if a in self.js:
                    isj = True
                    break
            if not isj:
                f0 = S[0].facts.d.get(K)
                if f0 is not None:
                    for s in S[1:]:
                        if s.facts.d.get(K) != f0:
                            break
                    else:
                        if not (len(K) == 1 and f0[0] <= AT.lo[K[0][0]] and f0[1] >= AT.hi[K[0][0]] and not f0[2]):
                            res[K] = f0
                        continue
            lo, hi, ne = INF, -INF, set()
            for i, s in enumerate(S):
                if isj:
                    e = (0, K)
                    m = {a: self.js[a][i] for a, _ in K if a in self.js}
                    e = l_subst(e, m)
                    l, h = s.facts.range(e)
                else:
                    f = s.facts.d.get(K)
                    l, h = s.facts._range_key(K, 1)
                    if f and f[2]:
                        ne |= f[2]
                if l < lo:
                    lo = l
                if h > hi:
                    hi = h
            if not isj and 2 <= hi - lo <= 12:
                ne |= set(range(lo + 1, hi))
            if ne:
                if isj:
                    ne = NOFS
                else:
                    ne = frozenset(x for x in ne if lo <= x <= hi and all(s.facts.excl(K, x) for s in S))
            if lo == -INF and hi == INF and not ne:
                continue
            if len(K) == 1 and lo <= AT.lo[K[0][0]] and hi >= AT.hi[K[0][0]] and not ne:
                continue
            res[K] = (lo, hi, ne or NOFS)
        for a, vals in self.js.items():
            K = ((a, 1),)
            lo, hi = INF, -INF
            ne = None
            for s, v in zip(S, vals):
                l, h = s.facts.range(v)
                lo = min(lo, l)
                hi = max(hi, h)
                # values this quantity cannot have
                if ne is None:
                    if not v[1]:
                        continue
                    if len(v[1]) == 1 and v[1][0][1] == 1:
                        f = s.facts.d.get(v[1])
                        ne = {x + v[0] for x in f[2]} if f else set()
                    else:
                        ne = set()
            if ne:
                ne = frozenset(x for x in ne if all(s.facts.test_eq((v[0] - x, v[1])) is False for s, v in zip(S, vals)))
            if lo != -INF or hi != INF or ne:
                res[K] = (lo, hi, ne or NOFS)
        if hdr and self.old is not None:
            # widening against the previous header state
            od = self.old.facts
            for K in list(res):
                lo, hi, ne = res[K]
                o = od.d.get(K)
                if o is None:
                    if self.widen > 2:
                        # no new facts in late rounds unless already implied
                        l2, h2 = od._range_key(K, 2)
                        lo, hi = (l2 if l2 <= lo else -INF), (h2 if h2 >= hi else INF)
                        ne = NOFS
                        if lo == -INF and hi == INF:
                            del res[K]
                            continue
                        res[K] = (lo, hi, ne)
                    continue
                ol, oh, one = o
                if lo >= ol:
                    lo = ol
                else:
                    lo = 2 if (lo >= 2 and self.widen < 6) else 1 if (lo >= 1 and self.widen < 6) else 0 if (lo >= 0 and self.widen < 8) else -INF
                if hi <= oh:
                    hi = oh
                else:
                    hi = 0 if (hi <= 0 and self.widen < 8) else INF
                ne = ne & one
                if lo == -INF and hi == INF and not ne:
                    del res[K]
                else:
                    res[K] = (lo, hi, ne)
        F = Facts()
        for K, (lo, hi, ne) in res.items():
            F.set(K, lo, hi, ne)
        out.facts = F
        ff = {}
        for a in set().union(*[set(s.ff) for s in S]):
            vs = [s.ff.get(a) for s in S]
            if any(v is None for v in vs):
                continue
            ff[a] = fhull(vs)
        for a, vals in self.fj.items():
            vs = [frange(s, v) for s, v in zip(S, vals)]
            ff[a] = fhull(vs)
        out.ff = ff

    widen = 0


def fhull(vs):
    lo = min((v[0], not v[1]) for v in vs)
    hi = max((v[2], v[3]) for v in vs)
    return (lo[0], not lo[1], hi[0], hi[1], any(v[4] for v in vs))


FTOP = (-INF, True, INF, True, True)


def frange(st, x):
    if isinstance(x, float):
        if x != x:
            return (INF, False, -INF, False, True)
        return (x, True, x, True, False)
    return st.ff.get(x, FTOP)


def summ_norm(u):
    if ANY in u:
        # pointers stay visible: whoever asks what is still reachable needs them
        return frozenset([ANY] + [("p", v[1], None) for v in u if v[0] == "p"])
    ints = [v for v in u if v[0] in ("i", "f", "c")]
    nonp = [v for v in ints if not (v[0] == "i" and v[1] == (0, ()))]
    if nonp:
        if any(v[0] == "p" for v in u):
            return frozenset([ANY] + [("p", v[1], None) for v in u if v[0] == "p"])
        cs = [v for v in ints if v[0] == "i" and not v[1][1]]
        if len(cs) == len(u) and len(u) <= 4:
            return u
        return frozenset([ANY])
    # pointers: one per region
    byr = {}
    keep = set()
    for v in u:
        if v[0] == "p":
            if v[1] in byr and byr[v[1]] != v:
                byr[v[1]] = ("p", v[1], None)
            else:
                byr[v[1]] = v
        else:
            keep.add(v)
    return frozenset(keep | set(byr.values()))


def ptrs_in(m):
    """regions the contents may point to"""
    out = set()
    for _, v in m.cells.values():
        if v[0] == "p":
            out.add(v[1])
    for vs in m.summ.values():
        for v in vs:
            if v[0] == "p":
                out.add(v[1])
    for v in m.cache.values():
        if v[0] == "p":
            out.add(v[1])
    return out


def rename_region(st, r, nr):
    """gives a block another name everywhere in this state (frames of callers must not mention it)"""
    st.regs[nr] = st.regs.pop(r)
    st.mem[nr] = st.mem.pop(r)

    def sub(v):
        return ("p", nr, v[2]) if v[0] == "p" and v[1] == r else v
    for i, v in st.env.items():
        if v[0] == "p" and v[1] == r:
            st.env[i] = sub(v)
    for x, m in list(st.mem.items()):
        if r not in ptrs_in(m):
            continue
        m = st.own(x)
        for o, (sz, v) in list(m.cells.items()):
            if v[0] == "p" and v[1] == r:
                m.cells[o] = (sz, sub(v))
        for k, vs in list(m.summ.items()):
            m.summ[k] = summ_norm(frozenset(sub(v) for v in vs))
        for k, v in list(m.cache.items()):
            if v[0] == "p" and v[1] == r:
                m.cache[k] = sub(v)
    for x, rg in list(st.regs.items()):
        if rg.kind == "obj" and len(rg.extra) > 1 and rg.extra[1] == r:
            st.regs[x] = rg.upd(extra=(rg.extra[0], nr))


def name_by_owner(st, ctx, renamed=None):
    """Blocks created during the call that just ended are told apart by the place that holds them, not by the
    statement that created them: states that differ only in the latter describe the same situation."""
    n = len(ctx)
    cands = [r for r, rg in st.regs.items()
             if rg.kind == "heap" and not rg.many and rg.status == "live" and r[0] == "h" and len(r[1]) > n and r[1][:n] == ctx]
    if not cands:
        return
    own = {}
    for x, m in st.mem.items():
        if st.regs[x].many:
            continue
        for o, (sz, v) in m.cells.items():
            if v[0] == "p" and v[2] == (0, ()):
                k = (x, o)
                c = own.get(v[1])
                if c is None or repr(k) < repr(c):
                    own[v[1]] = k
        for ck, v in m.cache.items():
            if v[0] == "p" and v[2] == (0, ()):
                rs = st.regs[x].size
                g = 0
                for _, co in ck[0][1] + (rs[1] if rs is not None else ()):
                    g = gcd(g, abs(co))
                k = (x, "[]", ck[0][0] % g if g else ck[0][0])
                c = own.get(v[1])
                if c is None or repr(k) < repr(c):
                    own[v[1]] = k
    rv = st.env.get(-1)
    for r in cands:
        k = own.get(r)
        if rv is not None and rv[0] == "p" and rv[1] == r:
            k = ("ret", 0)
        if k is None:
            continue
        nr = ("h", ctx + (("#" + repr(k), 0, 0),))
        if nr == r or nr in st.regs:
            continue
        rename_region(st, r, nr)
        if renamed is not None:
            renamed(r, nr)


def pool_name(r):
    return ("pool",) + r[1:] if r[0] == "h" else r


def pool_region(st, r):
    """recency abstraction: the block becomes one of the older blocks of its allocation site"""
    pn = pool_name(r)
    if pn == r:
        return
    old = st.regs[r]
    om = st.mem[r]
    u = {(1, 0, 1): frozenset([ANY] + [("p", x, None) for x in ptrs_in(om)])}
    if pn in st.regs:
        for k, vs in st.mem[pn].summ.items():
            u[k] = summ_norm(u.get(k, NOFS) | vs)
    st.regs[pn] = Reg("heap", many=True, size=None, site=old.site, extra=old.extra)
    st.mem[pn] = RegMem("havoc", None, u)
    del st.regs[r]
    del st.mem[r]

    def sub(v):
        return ("p", pn, v[2]) if v[0] == "p" and v[1] == r else v
    for i, v in st.env.items():
        if v[0] == "p" and v[1] == r:
            st.env[i] = sub(v)
    for x, m in list(st.mem.items()):
        if r not in ptrs_in(m):
            continue
        m = st.own(x)
        for o, (sz, v) in list(m.cells.items()):
            if v[0] == "p" and v[1] == r:
                m.cells[o] = (sz, sub(v))
        for k, vs in list(m.summ.items()):
            m.summ[k] = summ_norm(frozenset(sub(v) for v in vs))
        for k, v in list(m.cache.items()):
            if v[0] == "p" and v[1] == r:
                m.cache[k] = sub(v)


def pool_old(st, ctx, body):
    """blocks of the finished iteration that are only held in arrays join the older ones"""
    n = len(ctx)
    cands = []
    for r, rg in st.regs.items():
        if rg.kind == "heap" and not rg.many and r[0] == "h":
            c = r[1]
            if len(c) > n and c[:n] == ctx and c[n][2] in body:
                cands.append(r)
    if not cands:
        return
    direct = set()
    weak = set()
    for v in st.env.values():
        if v[0] == "p":
            direct.add(v[1])
    for x, m in st.mem.items():
        rg = st.regs[x]
        for _, v in m.cells.values():
            if v[0] == "p":
                (weak if rg.many else direct).add(v[1])
        for vs in m.summ.values():
            for v in vs:
                if v[0] == "p":
                    weak.add(v[1])
    for r in cands:
        if r in weak and r not in direct and r in st.regs:
            pool_region(st, r)


def ptr_elems(st):
    """array elements whose current pointer value is known"""
    return {(r, ck) for r, m in st.mem.items() for ck, v in m.cache.items() if v[0] == "p"}


def normalise_back(st, ctx, h, body, types, elems=frozenset()):
    """Re-express a back-edge state in terms of the next iteration: no quantity of the finished iteration survives."""
    for g in [g for g in st.ghost if g[0] == "alt"]:
        del st.ghost[g]
    ta = AT.by_name.get(("tau", ctx, h))
    t = st.tau
    m = {}
    if ta is not None and any(a == ta for a, _ in t[1]):
        # t is tau_old + 1  =>  tau_old = tau - 1
        m = {ta: (-1, ((ta, 1),))}
        st.tau = (0, ((ta, 1),))
    else:
        st.tau = (t[0], t[1])
    pool_old(st, ctx, body)
    js = {}
    memo = {}
    lmemo = {}

    def bad(v):
        s = set()
        val_atoms(v, s)
        for a in s:
            if a != ta and born_in(a, ctx, body):
                return True
        return False

    def freshlin(slot, l):
        g = abs(l[0])
        for _, co in l[1]:
            g = gcd(g, abs(co))
        u = (l[0] // g, tuple((x, co // g) for x, co in l[1])) if g > 1 else l
        a = lmemo.get(u)
        if a is None:
            a = AT.get(("J", ctx, h, slot), -INF, INF, (ctx, h))
            js[a] = u
            lmemo[u] = a
        return (0, ((a, max(g, 1)),))

    def fresh(slot, v):
        key = v
        if key in memo:
            return memo[key]
        if v[0] == "i":
            r = ("i", freshlin(slot, v[1]))
        elif v[0] == "p":
            r = ("p", v[1], freshlin((slot, "o"), v[2]))
        elif v[0] == "f":
            a = AT.get(("JF", ctx, h, slot), -INF, INF, (ctx, h))
            fjs[a] = v[1]
            r = ("f", a)
        elif v[0] == "c":
            a = AT.get(("JB", ctx, h, slot), 0, 1, (ctx, h))
            r = atom_val(a)
        else:
            r = ANY
        memo[key] = r
        return r

    fjs = {}

    def conv(slot, v):
        if bad(v):
            return fresh(slot, v)
        return val_subst(v, m) if m else v

    for i in list(st.env):
        st.env[i] = conv(("e", i), st.env[i])
    for r in list(st.regs):
        rg = st.regs[r]
        if rg.size is not None and rg.size[1]:
            nv = conv(("size", r), ("i", rg.size))
            if nv[1] != rg.size:
                st.regs[r] = rg.upd(size=nv[1])
    for r, mm in list(st.mem.items()):
        if st.regs[r].const and st.regs[r].kind == "global":
            continue
        ch = None
        for off, (sz, v) in mm.cells.items():
            nv = conv(("m", r, off), v)
            if nv is not v and nv != v:
                if ch is None:
                    ch = mm.clone()
                ch.cells[off] = (sz, nv)
        cur = ch or mm
        if cur.cache:
            newc = {}
            pooled = any(x[0] == "pool" for x in ptrs_in(cur))
            for (ln, sz), v in cur.cache.items():
                if v[0] == "p" and ((r, (ln, sz)) not in elems or v[1][0] == "pool" or (v[1] == ("null",) and pooled)):
                    continue
                if bad(("i", ln)) or bad(v):
                    continue
                newc[(l_subst(ln, m) if m else ln, sz)] = val_subst(v, m) if m else v
            if newc != cur.cache:
                if ch is None:
                    ch = mm.clone()
                ch.cache = newc
        cur = ch or mm
        if cur.summ:
            ns = {}
            dirty = False
            for k, vs in cur.summ.items():
                nvs = set()
                for v in vs:
                    if v[0] == "p" and v[2] is None:
                        nvs.add(v)
                    elif bad(v):
                        nvs.add(("p", v[1], None) if v[0] == "p" else ANY)
                        dirty = True
                    else:
                        nv = val_subst(v, m) if m else v
                        dirty = dirty or nv != v
                        nvs.add(nv)
                ns[k] = summ_norm(frozenset(nvs))
            if dirty:
                if ch is None:
                    ch = mm.clone()
                ch.summ = ns
        if ch is not None:
            st.mem[r] = ch
    # facts
    nf = Facts()
    old = st.facts
    for K, (lo, hi, ne) in old.d.items():
        if any(a != ta and born_in(a, ctx, body) for a, _ in K):
            continue
        if m:
            e = l_subst((0, K), m)
            c = e[0]
            nf.set(e[1], lo - c, hi - c, frozenset(x - c for x in ne))
        else:
            nf.set(K, lo, hi, ne)
    for a, v in js.items():
        lo, hi = old.range(v)
        if lo != -INF or hi != INF:
            nf.set(((a, 1),), lo, hi)
        for j in TEMPLATE:
            # what is known of it relative to a quantity the scenario singles out survives the iteration
            lo, hi = old.range(l_sub(v, (0, ((j, 1),))))
            if lo != -INF or hi != INF:
                K, sg = l_key(l_sub((0, ((a, 1),)), (0, ((j, 1),))))[:2]
                nf.set(K, lo, hi) if sg > 0 else nf.set(K, -hi, -lo)
    ff = {}
    for a, f in st.ff.items():
        if not born_in(a, ctx, body):
            ff[a] = f
    for a, x in fjs.items():
        ff[a] = frange(st, x)
    st.ff = ff
    st.facts = nf
    return st
