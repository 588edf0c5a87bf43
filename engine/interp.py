"""Disjunctive, context-sensitive abstract interpreter over LLVM IR.

States with the same discrete part (ownership/typestate of every region, pointer targets, truth of flags,
pending failures) are joined at every control-flow join; loops are solved by widening at their headers.
Nothing of the analysed program is executed.
"""
import time
from math import gcd
from .dom import *
from .ir import Ref, Const, Inst
from .state import *
from . import state as S_
from . import spicontract, witness

U64 = 2 ** 64


class AnalysisError(Exception):
    pass


class TooBig(AnalysisError):
    pass


SLOTS = ["check_data_set", "num_data_points", "get_dist_matrix", "get_dist_rows", "init_max_dist_object",
         "get_max_dist", "close_max_dist_object", "init_nn_search_object", "nearest_neighbor_search",
         "close_nn_search_object"]


class Finding:
    __slots__ = ("rule", "file", "line", "fn", "msg", "ctx", "detail", "pend")

    def __init__(self, rule, ins, ctx, msg, detail="", pend=()):
        self.pend = tuple(sorted(pend))
        self.rule = rule
        self.file = ins.file if ins is not None else ""
        self.line = ins.line if ins is not None else 0
        self.fn = ins.fn if ins is not None else ""
        self.msg = msg
        self.ctx = " > ".join([f"{c[0]}" for c in ctx]) if ctx else ""
        self.detail = detail

    def key(self):
        return (self.rule, self.fn, self.msg, self.pend)

    def as_dict(self):
        return {"rule": self.rule, "file": self.file, "line": self.line, "function": self.fn, "what": self.msg,
                "call_path": self.ctx, "detail": self.detail, "after_failure": list(self.pend)}


class Engine:
    def __init__(self, mod, probe, spi="stub", max_states=400, time_limit=800, alloc_fail=True, spi_fail=True,
                 max_pending=1, contract=False, bounds=False, uninit=False):
        self.mod = mod
        self.probe = probe
        self.spi = spi
        self.findings = {}
        self.max_states = max_states
        self.deadline = time.time() + time_limit
        self.alloc_fail = alloc_fail
        self.spi_fail = spi_fail
        self.max_pending = max_pending   # failures that may be outstanding at once on one path
        self.pool_freed = set()
        self.must = {}            # (rule, site, ctx) -> [bad, good, Finding]
        self.types = {}
        self.stats = {"steps": 0, "calls": 0, "joins": 0, "loops": 0, "allocs": set(), "frees": set(), "spi": set(),
                      "funcs": set(), "stores": set(), "loads": set(), "deref": set()}
        self.spi_events = []
        self.hook = None          # object with optional methods spi(eng, st, slot, args, ins, ctx)
        self.on_store = None
        self.on_load = None
        self.no_inline = {}
        self.table = "iscc_dist_functions"
        self.slot_off = {}
        for s in SLOTS:
            k = f"off__iscc_dist_functions_struct__{s}"
            if k in probe:
                self.slot_off[probe[k]] = s
        self.err_global = None
        self.opaque_data = None   # region of the caller's data set in stub mode
        self.contract = contract  # check the arguments of every callback call
        self.bounds = bounds      # report accesses that leave a block for some values of the caller's quantities
        self.alts = "alloc" if contract or bounds else None   # keep choices between the caller's quantities apart (until the next loop iteration)
        self.writers = {}         # block -> places that write to it
        self.unw = {}             # reads of blocks nothing was stored in
        self.uninit = uninit      # keep paths that leave a block unwritten apart from those that write to it
        self.none_found = False   # radius searches find nothing
        self.ds_answer = None     # what the installed data set test answers (None: either)
        self.special = {}         # region -> [(offset, size, value, tag)]: elements singled out by the scenario
        self.elem = {}            # region -> function(eng, st, off, value): facts every element satisfies
        self.stable = set()       # atoms of the abstract call itself, which mean the same throughout
        self.tracked = set()      # regions with elements whose stored value is tracked
        self.special_alloc = None  # function(eng, st, region, size): may single out elements of a new block
        self.trace = False

    # -- reporting -------------------------------------------------------------------------------
    def report(self, rule, ins, ctx, msg, detail=""):
        f = Finding(rule, ins, ctx, msg, detail, self.cur.ghost.get("pend", NOFS) if self.cur is not None else NOFS)
        k = f.key()
        if k not in self.findings:
            self.findings[k] = f

    def must_report(self, rule, bad, ins, ctx, msg, clause=None):
        """collected per site and call path; a finding only when every abstract state reaching the site is bad"""
        k = (rule, ins.fn, ins.id, ctx, clause)
        e = self.must.get(k)
        if e is None:
            e = self.must[k] = [0, 0, None]
        if bad:
            e[0] += 1
            if e[2] is None:
                e[2] = (ins, ctx, msg)
        else:
            e[1] += 1

    def flush_must(self):
        self.cur = None
        self.flush_unwritten()
        for (rule, fn, i, ctx, _), (bad, good, f) in self.must.items():
            if bad and not good:
                self.report(rule, f[0], f[1], f[2])

    # -- state construction ----------------------------------------------------------------------
    def new_state(self):
        st = State()
        for g in self.mod.globals.values():
            self.add_global(st, g)
        st.regs[NUL] = Reg("nul", null="yes", site="result of a failed allocation")
        st.mem[NUL] = RegMem("havoc")
        st.regs[NUL0] = Reg("nul0", null="yes", site="null")
        st.mem[NUL0] = RegMem("havoc")
        return st

    def add_global(self, st, g):
        r = ("g", g.name)
        if g.name.startswith(".str") or (g.const and g.init is not None and g.init.kind == "str"):
            return
        st.regs[r] = Reg("global", size=(g.size, ()), const=g.const, site=g.name)
        m = RegMem("zero" if g.init is not None and g.init.kind != "unknown" else "havoc")
        if g.init is not None:
            self.fill(m, 0, g.init, st)
        st.mem[r] = m

    def fill(self, m, off, c, st):
        k = c.kind
        if k in ("int", "fp", "null", "func", "global", "expr"):
            m.cells[off] = (c.ty.size, self.cval(c))
        elif k == "agg":
            if c.ty.kind == "struct":
                for o, e in zip(c.ty.offsets, c.ops):
                    self.fill(m, off + o, e, st)
            else:
                for i, e in enumerate(c.ops):
                    self.fill(m, off + i * c.ty.elem.size, e, st)
        elif k == "zero":
            self.fill_zero(m, off, c.ty)

    def fill_zero(self, m, off, ty):
        if ty.kind == "struct":
            for o, t in zip(ty.offsets, ty.fields):
                self.fill_zero(m, off + o, t)
        elif ty.kind == "array":
            if ty.length <= 64:
                for i in range(ty.length):
                    self.fill_zero(m, off + i * ty.elem.size, ty.elem)
        else:
            m.cells[off] = (ty.size, ("f", 0.0) if ty.kind == "fp" else LNULL if ty.kind == "ptr" else ZERO)

    def cval(self, c):
        k = c.kind
        if k == "int":
            return I(c.val)
        if k == "fp":
            return ("f", float(c.val))
        if k == "null":
            return LNULL
        if k == "func":
            return ("fn", "@" + c.val)
        if k == "global":
            g = self.mod.globals.get(c.val)
            if g is not None and (g.name.startswith(".str") or (g.const and g.init is not None and g.init.kind == "str")):
                return ("p", ("str", g.name), (0, ()))
            return ("p", ("g", c.val), (0, ()))
        if k == "undef":
            return U
        if k == "zero":
            return LNULL if c.ty.kind == "ptr" else ZERO
        if k == "expr":
            op, x = c.val
            vs = [self.cval(o) for o in c.ops]
            if op == "gep" and vs[0][0] == "p":
                off = self.gep_off(x, vs[1:])
                if off is not None:
                    return ("p", vs[0][1], l_add(vs[0][2], off))
            if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
                return vs[0]
            return ANY
        return ANY

    def input_region(self, st, name, null="no", const=True, size=None, extra=()):
        r = ("in", name)
        st.regs[r] = Reg("input", size=size, const=const, site=str(name), null=null, extra=extra)
        st.mem[r] = RegMem("input")
        return r

    def out_region(self, st, name, size=None):
        """caller-provided memory with no promised contents"""
        r = ("out", name)
        st.regs[r] = Reg("input", size=size, const=False, site=str(name))
        st.mem[r] = RegMem("uninit")
        return r

    def lazy(self, st, r, off, size, ty=None):
        """value of a not-yet-touched cell of an input region"""
        kind = ty.kind if ty is not None else ("int" if size != 8 else None)
        if kind == "ptr":
            nr = ("in", (r, off))
            if nr not in st.regs:
                st.regs[nr] = Reg("input", const=True, site=f"*{r}+{off}", null="maybe")
                st.mem[nr] = RegMem("input")
            return ("p", nr, (0, ()))
        if kind == "fp":
            return ("f", AT.get(("in", r, off, "f")))
        a = AT.get(("in", r, off, size), 0, 2 ** (8 * size) - 1)
        return atom_val(a)

    def mk(self, st, r, off, size):
        m = st.mem[r]
        if m.init == "havoc":
            return ANY
        return self.lazy(st, r, off, size)

    # -- values ----------------------------------------------------------------------------------
    def ev(self, st, o):
        if type(o) is Ref:
            v = st.env.get(o.id)
            if v is None:
                return ANY
            return v
        return self.cval(o)

    def as_lin(self, v, bits=64, signed=False):
        """linear form of an integer value or None"""
        t = v[0]
        if t == "i":
            return v[1]
        if t == "c":
            return (0, ((AT.get(("bool", v), 0, 1, parts=self._cparts(v)), 1),))
        return None

    def _cparts(self, v):
        s = set()
        val_atoms(v, s)
        return tuple(sorted(s))

    def opaque(self, name, ty, origin, lo=None, hi=None):
        if ty.kind == "fp":
            return ("f", AT.get(name, -INF, INF, origin))
        if ty.kind == "ptr":
            return ANY
        if lo is None:
            lo, hi = 0, 2 ** ty.bits - 1
        return atom_val(AT.get(name, lo, hi, origin))

    def canon(self, st, v):
        """pointers into regions known to be null are null"""
        if v[0] == "p":
            rg = st.regs.get(v[1])
            if rg is not None and rg.null == "yes":
                return ZERO
        return v

    def gep_off(self, ty, idx):
        off = (0, ())
        first = True
        cur = ty
        for v in idx:
            l = self.as_lin(v)
            if first:
                if l is None:
                    return None
                off = l_add(off, l_scale(l, cur.size))
                first = False
                continue
            if cur.kind == "struct":
                if l is None or l[1]:
                    return None
                off = (off[0] + cur.offsets[l[0]], off[1])
                cur = cur.fields[l[0]]
            elif cur.kind in ("array", "vector"):
                if l is None:
                    return None
                cur = cur.elem
                off = l_add(off, l_scale(l, cur.size))
            else:
                return None
        return off

    # -- memory ----------------------------------------------------------------------------------
    def deref(self, st, p, ins, ctx, what, size=None):
        """checks a pointer about to be dereferenced; returns (region, off) or None when nothing is known"""
        if p[0] == "i":
            if p[1] == (0, ()):
                self.must_report("null-deref", True, ins, ctx, f"{what} through a null pointer")
            return None
        if p[0] == "u":
            self.report("uninit", ins, ctx, f"{what} through an uninitialised pointer")
            return None
        if p[0] != "p":
            return None
        r = p[1]
        rg = st.regs.get(r)
        if rg is None:
            return None
        self.stats["deref"].add((ins.fn, ins.id))
        if rg.null == "yes":
            if rg.kind == "nul0":
                self.must_report("null-deref", True, ins, ctx, f"{what} through a null pointer")
                return None
            if rg.kind == "nul":
                self.report("null-alloc", ins, ctx, f"{what} through the result of a failed allocation")
            else:
                self.report("null-arg", ins, ctx, f"{what} through a null pointer ({rg.site})")
            return "dead"
        self.must_report("null-deref", False, ins, ctx, "")
        if r == self.opaque_data:
            self.report("opaque-data", ins, ctx, f"{what} inside the caller's data set instead of asking the installed functions")
            return None
        if rg.null == "maybe":
            self.report("null-arg", ins, ctx, f"{what} through possibly-null argument {rg.site}")
            st.regs[r] = rg = rg.upd(null="no")
        if rg.status == "freed" and not rg.many:
            self.report("use-after-free", ins, ctx, f"{what} of released block ({self.rname(r)})")
        if p[2] is None:
            return None
        if size and rg.size is not None and rg.kind in ("heap", "stack", "global", "input"):
            room = l_sub(l_sub(rg.size, p[2]), (size, ()))
            lo, hi = st.facts.range(room)
            self.must_report("oob", hi < 0, ins, ctx, f"{what} past the end of {self.rname(r)}")
            if self.bounds and lo < 0 and (room[1] or rg.size[1] if hi < 0 else any(AT.name[a][0] == "tau" for a, _ in p[2][1])):
                self.may_oob(st, rg.size, l_add(p[2], (size, ())), ins, ctx, f"{what} past the end of {self.rname(r)}", "oob")
            lo2, hi2 = st.facts.range(p[2])
            self.must_report("oob-low", hi2 < 0, ins, ctx, f"{what} before the start of {self.rname(r)}")
        else:
            self.must_report("oob", False, ins, ctx, "")
            self.must_report("oob-low", False, ins, ctx, "")
        return r, p[2]

    def rname(self, r):
        if isinstance(r, tuple) and r[0] == "h":
            for c in reversed(r[1]):
                if not c[0].startswith("#"):
                    return f"block allocated in {c[0]}"
            return "block"
        if isinstance(r, tuple) and r[0] == "stk":
            return f"local of {r[2]}"
        if isinstance(r, tuple) and r[0] in ("in", "out"):
            return f"caller's {r[1]}"
        if isinstance(r, tuple) and r[0] == "obj":
            return f"search object {r[1]}"
        return str(r)

    def pend_note(self, st):
        p = st.ghost.get("pend", NOFS)
        return f" (after {'/'.join(sorted(p))} failure)" if p else ""

    def cls(self, off, size):
        g = 0
        for _, co in off[1]:
            g = gcd(g, abs(co))
        if g < size:
            g = size if g == 0 or size % g == 0 else g
        return g, off[0] % g, size

    @staticmethod
    def overlap(k1, k2):
        g = gcd(k1[0], k2[0])
        r1, s1 = k1[1] % g, k1[2]
        r2, s2 = k2[1] % g, k2[2]
        d = (r2 - r1) % g
        return d < s1 or (g - d) < s2 or d == 0

    def load(self, st, p, ty, ins, ctx):
        """returns list of (state, value)"""
        if p[0] == "p" and p[2] is not None and (p[1] in self.special or p[1] in self.elem):
            return self.load_special(st, p, ty, ins, ctx)
        return self.load0(st, p, ty, ins, ctx)

    def split_special(self, st, r, off, size):
        """an access to an array some of whose elements the scenario singles out is either to such an element, or
        to one before or after it; the cases are followed separately. Returns [(state, entry or None)]"""
        work, res = [st], []
        for ent in self.special.get(r, ()):
            so, esize, val, tag = ent
            if esize != size:
                continue
            nxt = []
            for s in work:
                d = l_sub(off, so)
                t = s.facts.test_eq(d)
                if t is True:
                    s.ghost[("sp", tag)] = "at"
                    res.append((s, ent))
                    continue
                lo, hi = s.facts.range(d)
                cs = []
                if lo < 0:
                    cs.append(("before", (d[0] + size, d[1])))
                if hi > 0:
                    cs.append(("after", (size - d[0], tuple((a, -c) for a, c in d[1]))))
                if t is None:
                    cs.append(("at", None))
                for i, (w, c) in enumerate(cs):
                    s2 = s if i == len(cs) - 1 else s.copy()
                    if w == "at":
                        if s2.facts.assume_eq(d):
                            s2.ghost[("sp", tag)] = "at"
                            res.append((s2, ent))
                    elif s2.facts.assume_le(c):
                        s2.ghost[("sp", tag)] = w
                        nxt.append(s2)
            work = nxt
        return res + [(s, None) for s in work]

    def load_special(self, st, p, ty, ins, ctx):
        r, off = p[1], p[2]
        el = self.elem.get(r)
        res = []
        for s, ent in self.split_special(st, r, off, ty.size):
            if ent is None:
                for s2, v in self.load0(s, p, ty, ins, ctx):
                    if el is None or el(self, s2, off, v) is not False:
                        res.append((s2, v))
                continue
            rg = s.regs.get(r)
            if rg is not None and (rg.null == "maybe" or rg.status == "freed"):
                self.load0(s.copy(), p, ty, ins, ctx)
            self.stats["deref"].add((ins.fn, ins.id))
            self.stats["loads"].add((ins.fn, ins.id))
            val = ent[2]
            if val == "track":
                val = s.ghost.get(("tv", ent[3]), ANY)
                if val[0] in "?w":
                    val = self.opaque(("ld", ctx, ins.id), ty, (ctx, ins.block))
            res.append((s, val))
        return res

    def store_special(self, st, p, v, size, ins, ctx):
        """returns the states after the store; the value of tracked elements is kept exactly while it is a small constant"""
        r, off = p[1], p[2]
        res = []
        for s, ent in self.split_special(st, r, off, size):
            if not self.store(s, p, v, size, ins, ctx):
                continue
            if ent is not None and ent[2] == "track":
                s.ghost[("tv", ent[3])] = self.track_val(s, v)
            res.append(s)
        return res

    def track_val(self, st, v):
        """what is remembered of a value stored in a tracked element"""
        v = self.canon(st, v)
        if v[0] == "i":
            if not v[1][1]:
                return v if self.stable or -1 <= v[1][0] <= 4 else ANY
            if all(a in self.stable for a, _ in v[1][1]):
                return v
            return ("w",) if self.stable and all(AT.name[a][0] != "J" for a, _ in v[1][1]) else ANY
        return v if v[0] == "u" else ANY

    def bulk(self, st, dst, n, src=None, val=None):
        """a bulk copy or fill covers each tracked element of the destination or does not; the cases are followed separately"""
        if dst[0] != "p" or dst[1] not in self.tracked or dst[2] is None:
            return [st]
        work = [st]
        for so, size, kind, tag in self.special.get(dst[1], ()):
            if kind != "track":
                continue
            nxt = []
            for s in work:
                if n is None:
                    s.ghost[("tv", tag)] = ANY
                    nxt.append(s)
                    continue
                lo = l_sub(dst[2], so)                                    # <= 0 when not before the start
                hi = l_sub(l_add(so, (size, ())), l_add(dst[2], n))       # <= 0 when not past the end
                a, b = s.copy(), s.copy()
                if s.facts.assume_le(lo) and s.facts.assume_le(hi):
                    s.ghost[("tv", tag)] = self.bulk_val(s, dst, so, size, src, val)
                    nxt.append(s)
                if a.facts.assume_le((1 - lo[0], l_scale(lo, -1)[1])):
                    nxt.append(a)
                if b.facts.assume_le((1 - hi[0], l_scale(hi, -1)[1])):
                    nxt.append(b)
            work = nxt
        return work

    def bulk_val(self, st, dst, so, size, src, val):
        if val is not None:
            if val[0] == "i" and not val[1][1]:
                b = val[1][0] & 255
                return ("i", (sum(b << (8 * i) for i in range(size)), ()))
            return ANY
        if src[0] != "p" or src[2] is None:
            return ANY
        at = l_add(src[2], l_sub(so, dst[2]))
        for so2, size2, v2, tag2 in self.special.get(src[1], ()):
            t = st.facts.test_eq(l_sub(so2, at))
            if t is True and size2 == size:
                return st.ghost.get(("tv", tag2), ANY) if v2 == "track" else self.track_val(st, v2)
            if t is None:
                return ANY
        return ("w",)

    def load0(self, st, p, ty, ins, ctx):
        """returns list of (state, value)"""
        size = ty.size
        d = self.deref(st, p, ins, ctx, "read", size)
        if d == "dead":
            return []
        self.stats["loads"].add((ins.fn, ins.id))
        if d is None:
            return [(st, self.opaque(("ld", ctx, ins.id), ty, (ctx, ins.block)))]
        r, off = d
        if isinstance(r, tuple) and r[0] == "str":
            return [(st, self.opaque(("ld", ctx, ins.id), ty, (ctx, ins.block)))]
        if self.on_load is not None:
            self.on_load(self, st, r, off, size, ins, ctx)
        if r[0] == "g" and r[1] == self.table and self.spi == "stub" and not off[1] and off[0] in self.slot_off:
            c = st.mem[r].cells.get(off[0])
            if st.ghost.get("table") is None:
                return [(st, ("fn", "slot:" + self.slot_off[off[0]]))]
        m = st.mem.get(r)
        if m is None:
            return [(st, self.opaque(("ld", ctx, ins.id), ty, (ctx, ins.block)))]
        if not off[1]:
            c = m.cells.get(off[0])
            if c is not None and c[0] == size:
                v = c[1]
                if v[0] == "u":
                    self.unset(st, r, ins, ctx)
                    return [(st, self.opaque(("ld", ctx, ins.id), ty, (ctx, ins.block)))]
                self.must_report("uninit", False, ins, ctx, "")
                if v is ANY or v[0] == "?":
                    v = self.opaque(("ld", ctx, ins.id), ty, (ctx, ins.block))
                    if v[0] != "?":
                        mm = st.own(r)
                        mm.cells[off[0]] = (size, v)
                return [(st, self.retype(v, ty, ctx, ins))]
            # partial overlap with other cells
            hit = [o for o, (sz, _) in m.cells.items() if o < off[0] + size and off[0] < o + sz]
            if hit:
                if len(hit) == 1 and hit[0] <= off[0] and off[0] + size <= hit[0] + m.cells[hit[0]][0]:
                    hv = m.cells[hit[0]][1]
                    if hv == ZERO:
                        return [(st, ZERO if ty.kind != "fp" else ("f", 0.0))]
                    if hv[0] == "i" and not hv[1][1] and ty.kind == "int":
                        sh = (off[0] - hit[0]) * 8
                        return [(st, I((hv[1][0] >> sh) & (2 ** ty.bits - 1)))]
                if all(m.cells[h][1] == ZERO for h in hit) and sum(m.cells[h][0] for h in hit) >= size:
                    return [(st, ZERO)]
                return [(st, self.opaque(("ld", ctx, ins.id), ty, (ctx, ins.block)))]
            if m.late and off[0] == 0 and m.init == "uninit":
                self.report("uninit", ins, ctx, f"read of the first element, which was never written ({self.rname(r)})")
            if m.summ:
                return self.load_sym(st, r, off, ty, ins, ctx, const=True)
            if m.init == "zero":
                return [(st, ZERO if ty.kind != "fp" else ("f", 0.0))]
            if m.init == "uninit":
                self.unset(st, r, ins, ctx)
                return [(st, self.opaque(("ld", ctx, ins.id), ty, (ctx, ins.block)))]
            if m.init == "input":
                v = self.lazy(st, r, off[0], size, ty)
                if ty.kind == "ptr":
                    mm = st.own(r)
                    mm.cells[off[0]] = (size, v)
                return [(st, v)]
            return [(st, self.opaque(("ld", ctx, ins.id), ty, (ctx, ins.block)))]
        return self.load_sym(st, r, off, ty, ins, ctx)

    def unset(self, st, r, ins, ctx):
        rs = st.regs[r].size
        msg = f"read of memory that was never written ({self.rname(r)})"
        if rs is None or rs[1]:
            # element of an array: what other elements hold is not told apart, so only a site that never sees a written one
            self.must_report("uninit", True, ins, ctx, msg)
        else:
            self.report("uninit", ins, ctx, msg)

    def retype(self, v, ty, ctx, ins):
        if ty.kind == "fp" and v[0] == "i":
            if v == ZERO:
                return ("f", 0.0)
            return self.opaque(("ld", ctx, ins.id), ty, (ctx, ins.block))
        if ty.kind == "int" and v[0] == "f":
            if v[1] == 0.0 and isinstance(v[1], float):
                return ZERO
            return self.opaque(("ld", ctx, ins.id), ty, (ctx, ins.block))
        return v

    def load_sym(self, st, r, off, ty, ins, ctx, const=False):
        m = st.mem[r]
        size = ty.size
        cv = m.cache.get((off, size))
        if cv is not None and cv[0] != "?":
            self.must_report("uninit", False, ins, ctx, "")
            return [(st, self.retype(cv, ty, ctx, ins))]
        k = self.cls(off, size) if not const else None
        cands = set()
        for o, (sz, v) in m.cells.items():
            if const:
                if o < off[0] + size and off[0] < o + sz:
                    cands.add(v)
            elif self.overlap(k, (10 ** 9, o, sz)) if False else ((o - k[1]) % k[0] < size or (k[1] - o) % k[0] < sz):
                cands.add(v)
        for sk, vs in m.summ.items():
            if const:
                if (off[0] - sk[1]) % sk[0] < sk[2] or (sk[1] - off[0]) % sk[0] < size:
                    cands |= vs
            elif self.overlap(k, sk):
                cands |= vs
        cands.discard(U)
        wrote = bool(cands)
        if m.init == "zero":
            cands.add(ZERO)
        if size:
            if self.uninit:
                self.unwritten_read(st, r, ins, ctx)
            self.must_report("uninit", m.init == "uninit" and not wrote, ins, ctx,
                             f"read of an array that was never written ({self.rname(r)})")
        name = ("ld", ctx, ins.id)
        org = (ctx, ins.block)
        if ty.kind == "ptr":
            if m.init == "input" and not wrote:
                nr = ("in", (r, "*"))
                if nr not in st.regs:
                    st.regs[nr] = Reg("input", const=True, site=f"*{r}", null="no")
                    st.mem[nr] = RegMem("input")
                cands.add(("p", nr, None))
            if ANY in cands or not cands:
                return [(st, ANY)]
            res = []
            hs = {v[1] for v in cands if v[0] == "p" and v[1] in st.regs and st.regs[v[1]].kind == "heap"}
            if len(hs) > 1:
                # which of the blocks is meant is not known: none of them is tracked individually any more
                ren = {}
                for x in sorted(hs, key=repr):
                    if not st.regs[x].many and not any(v[0] == "p" and v[1] == x for env in self.envstack for v in env.values()):
                        pool_region(st, x)
                        ren[x] = pool_name(x)
                cands = {("p", ren[v[1]], v[2]) if v[0] == "p" and v[1] in ren else v for v in cands}
            cl = sorted(cands, key=repr)
            if m.init == "zero" and any(v[0] == "p" for v in cl):
                # an element read back through an index: the zero default is the unwritten remainder
                cl = [v for v in cl if v[0] == "p"] or cl
            for i, v in enumerate(cl):
                s2 = st if i == len(cl) - 1 else st.copy()
                if v[0] == "p" and v[2] is None:
                    v = ("p", v[1], (0, ((AT.get(("lo",) + name, -INF, INF, org), 1),)))
                if v[0] == "p":
                    mm = s2.own(r)
                    mm.cache[(off, size)] = v
                res.append((s2, v))
            return res
        if ty.kind == "fp":
            if cands == {ZERO}:
                v = ("f", 0.0)
            else:
                v = ("f", AT.get(name, -INF, INF, org))
                if AT.by_name[name] in st.ff:
                    del st.ff[AT.by_name[name]]
        else:
            cs = [v for v in cands]
            lo, hi = 0, 2 ** ty.bits - 1
            if cs and all(v[0] == "i" and not v[1][1] for v in cs) and m.init != "input" and m.init != "havoc":
                vals = {v[1][0] for v in cs}
                if len(vals) == 1 and m.init in ("zero", "uninit"):
                    v = I(vals.pop())
                    return [(st, v)]
                lo, hi = min(vals), max(vals)
            a = AT.get(name, 0, 2 ** ty.bits - 1, org)
            st.facts.drop_if(lambda K: any(x == a or a in AT.parts[x] for x, _ in K))
            if (lo, hi) != (0, 2 ** ty.bits - 1) and lo >= 0:
                st.facts.set(((a, 1),), lo, hi)
            v = atom_val(a)
        mm = st.own(r)
        mm.cache[(off, size)] = v
        return [(st, v)]

    def store(self, st, p, v, size, ins, ctx):
        d = self.deref(st, p, ins, ctx, "write", size)
        if d == "dead":
            return False
        self.stats["stores"].add((ins.fn, ins.id))
        if d is None:
            if self.uninit:
                self.blur(st, p)
            return True
        r, off = d
        rg = st.regs[r]
        if rg.const:
            self.report("const-write", ins, ctx, f"write to {self.rname(r)}, which the caller handed over as read-only")
        if self.on_store is not None:
            self.on_store(self, st, r, off, size, v, ins, ctx)
        if r[0] == "g":
            self.note_global_write(st, r, off, v, ins, ctx)
        if self.uninit and rg.kind == "heap" and not rg.many:
            self.note_heap_write(st, r, off, ins, ctx)
        self.put(st, r, off, size, v)
        return True

    def note_heap_write(self, st, r, off, ins, ctx):
        self.writers.setdefault(r, set()).add((ctx, ins.fn, ins.id, ins.block))
        st.ghost.pop(("unw", r), None)
        m = st.mem[r]
        if m.init == "uninit":
            behind = off is not None and st.facts.range(off)[0] > 0
            if not m.cells and not m.summ:
                if behind:
                    st.own(r).late = True
            elif m.late and not behind:
                st.own(r).late = False

    def note_bulk(self, st, args, ins, ctx):
        """a callee may write to every block it is given"""
        for v in args:
            if v[0] == "p" and v[1] in st.regs and st.regs[v[1]].kind == "heap":
                self.writers.setdefault(v[1], set()).add((ctx, ins.fn, ins.id, ins.block))
                if v[1] in st.mem and st.mem[v[1]].late:
                    st.own(v[1]).late = False

    def renamed(self, r, nr):
        if r in self.writers:
            self.writers.setdefault(nr, set()).update(self.writers[r])

    def unwritten_read(self, st, r, ins, ctx):
        m = st.mem[r]
        if m.init == "uninit" and not m.cells and not m.summ:
            msg = f"read of a block that was never written ({self.rname(r)})"
            if ("unw", r) in st.ghost:
                self.report("uninit", ins, ctx, msg)
            else:
                self.unw.setdefault((ins.fn, ins.id, ctx, r), (ins, ctx, msg))

    def flush_unwritten(self):
        """a read that comes before everything that ever writes to the block"""
        for (fn, i, ctx, r), (ins, _, msg) in self.unw.items():
            if all(self.precedes((ctx, fn, i, ins.block), w) for w in self.writers.get(r, ())):
                self.report("uninit", ins, ctx, msg)

    def precedes(self, s, w):
        a, b = s[0] + (s[1:],), w[0] + (w[1:],)
        for x, y in zip(a, b):
            (f, ix, bx), (g, iy, by) = x, y
            if x == y:
                continue
            if f != g:
                return False
            if bx == by:
                for q in self.mod.funcs[f].blocks[bx].insts:
                    if q.id == ix:
                        return True
                    if q.id == iy:
                        return False
            return self.mod.funcs[f].cache["dom"](bx, by)
        return False

    def blur(self, st, p):
        """a write whose place is not known: blocks it may reach no longer count as never written"""
        for r, m in list(st.mem.items()):
            if m.init == "uninit" and r in st.regs and st.regs[r].kind == "heap" and (p[0] != "p" or p[1] == r or p[1] not in st.regs):
                m = st.own(r)
                m.init = "havoc"
                m.cache = {}

    def untouched(self, st):
        """blocks in which nothing has been stored yet"""
        return frozenset(r for r, m in st.mem.items() if m.init == "uninit" and not m.cells and not m.summ and r in st.regs
                         and st.regs[r].kind == "heap" and st.regs[r].status == "live" and not st.regs[r].many) \
            | frozenset(("late", r) for r, m in st.mem.items() if m.late)

    def note_global_write(self, st, r, off, v, ins, ctx):
        if self.err_global is not None and r == ("g", self.err_global[0]) and off == (self.err_global[1], ()) and v == ZERO:
            # the error record is cleared on purpose. For a failed memory request that is the announcement of a
            # retry, which is complete once a later request succeeds; a failed callback is never made good this way
            pe = st.ghost.get("pend")
            if pe and "mem" in pe:
                st.ghost["pend"] = pe - {"mem"}
                st.ghost["retry"] = True

    def put(self, st, r, off, size, v):
        m = st.own(r)
        rs = st.regs[r].size
        dyn = ((rs is None or rs[1]) and st.regs[r].kind in ("heap", "input")) or st.regs[r].many
        if not off[1] and not dyn:
            o = off[0]
            for x in [x for x, (sz, _) in m.cells.items() if x != o and x < o + size and o < x + sz]:
                del m.cells[x]
            m.cells[o] = (size, v)
            if m.cache:
                # exact write may alias symbolic reads
                m.cache = {k: c for k, c in m.cache.items() if not self.may_alias(k, off, size)}
            return
        if not off[1]:
            # element of an array of unknown length: kept with the other elements at the same place in the element
            g = 0
            for _, co in (rs[1] if rs is not None else ()):
                g = gcd(g, abs(co))
            if g < size:
                g = size
            k = (g, off[0] % g, size)
        else:
            k = self.cls(off, size)
        # forget exact cells that may be hit
        for x, (sz, cv) in list(m.cells.items()):
            if (x - k[1]) % k[0] < size or (k[1] - x) % k[0] < sz:
                del m.cells[x]
                if cv[0] != "u":
                    kk = (k[0], x % k[0], sz)
                    m.summ[kk] = summ_norm(m.summ.get(kk, NOFS) | {cv})
        m.summ[k] = summ_norm(m.summ.get(k, NOFS) | {v})
        if m.cache:
            m.cache = {c: x for c, x in m.cache.items() if not self.may_alias(c, off, size)}
        m.cache[(off, size)] = v

    @staticmethod
    def may_alias(ck, off, size):
        """can the remembered element ck = (offset, size) overlap a write of size bytes at off?"""
        d = l_sub(ck[0], off)
        if not d[1]:
            return -ck[1] < d[0] < size
        g = 0
        for _, co in d[1]:
            g = gcd(g, abs(co))
        r = d[0] % g
        return r < size or g - r < ck[1]

    def havoc_ints(self, st, r):
        """the contents of an array are overwritten by a callee with values we do not know"""
        if r not in st.mem:
            return
        m = st.own(r)
        ps = ptrs_in(m)
        m.cells = {}
        m.summ = {(1, 0, 1): frozenset([ANY] + [("p", x, None) for x in ps])}
        m.cache = {}
        if m.init == "uninit":
            m.init = "havoc"

    # -- allocation ------------------------------------------------------------------------------
    def alloc(self, st, ins, ctx, size, init, n_elems=None):
        """success state"""
        r = ("h", ctx + ((ins.fn, ins.id, ins.block),))
        old = st.regs.get(r)
        if old is not None and not old.many:
            held = any(v[0] == "p" and v[1] == r for env in self.envstack for v in env.values())
            if not held:
                self.check_lost(st, r, "allocated again in a loop")
                if old.status == "live":
                    pool_region(st, r)
                else:
                    inuse = any(v[0] == "p" and v[1] == r for v in st.env.values()) or \
                        any(r in ptrs_in(m) for m in st.mem.values())
                    if inuse:
                        pool_region(st, r)
                old = None
        if old is not None and (old.status == "live" or old.many):
            st.regs[r] = old.upd(many=True, status="live", size=None)
            m = st.own(r)
            m.cells = {}
            m.cache = {}
            if not m.summ:
                m.summ = {(1, 0, 1): frozenset([ANY])}
            m.init = "havoc"
        else:
            st.regs[r] = Reg("heap", size=size, site=f"{ins.file}:{ins.line}", extra=(ins.fn,))
            st.mem[r] = RegMem(init)
            if self.special_alloc is not None:
                self.special_alloc(self, st, r, size, init)
        return ("p", r, (0, ()))

    def check_lost(self, st, r, when):
        """a live block or search object nothing points to any more"""
        rg = st.regs[r]
        if rg.status != "live" or rg.many or st.ghost.get("anyfree"):
            return
        for env in (st.env,) + tuple(self.envstack):
            for v in env.values():
                if v[0] == "p" and v[1] == r:
                    return
        for x, m in st.mem.items():
            if x != r and r in ptrs_in(m):
                return
        self.lost(r, rg, when)

    def lost(self, r, rg, when):
        i = _N()
        i.fn = rg.extra[-1] if rg.kind == "heap" else r[1][-1][0]
        i.id = 0
        f = rg.site.rsplit(":", 1) if rg.site else ["", "0"]
        i.file, i.line = f[0], int(f[1]) if len(f) > 1 and f[1].isdigit() else 0
        what = "search object" if rg.kind == "obj" else "block"
        self.report("leak", i, r[1][:-1], f"{what} created here is never released ({when})")

    def do_alloc(self, st, ins, ctx, size, init):
        self.stats["allocs"].add((ins.fn, ins.id))
        self.check_size(st, ins, ctx, size)
        if size is not None:
            lo, hi = st.facts.range(size)
            if lo == hi == 0 and False:
                pass
        res = []
        if self.alloc_fail and self.may_fail(st):
            s2 = st.copy()
            self.add_pend(s2, "mem", f"{ins.fn}")
            res.append((s2, NULP))
        v = self.alloc(st, ins, ctx, size, init)
        st.ghost.pop("retry", None)
        res.append((st, v))
        return res

    def may_fail(self, st):
        return len(st.ghost.get("pend", NOFS)) < self.max_pending

    def add_pend(self, st, what, where):
        st.ghost["pend"] = st.ghost.get("pend", NOFS) | {what if not self.trace else what + "@" + where}

    def check_size(self, st, ins, ctx, size):
        if size is None:
            return
        for a, _ in size[1]:
            if self.wrapped(a):
                self.report("size-wrap", ins, ctx, "allocation size computed with arithmetic that can wrap in a narrower type")

    def wrapped(self, a, depth=0):
        if AT.nz[a]:
            return True
        nm = AT.name[a]
        if isinstance(nm, tuple) and nm and nm[0] in ("prod", "div", "trunc", "rem"):
            return any(self.wrapped(p, depth + 1) for p in AT.parts[a])
        return False

    def free(self, st, p, ins, ctx):
        self.stats["frees"].add((ins.fn, ins.id))
        p = self.canon(st, p)
        if p == ZERO:
            return True
        if p[0] == "?":
            st.ghost["anyfree"] = True
            return True
        if p[0] == "u":
            self.report("free-bad", ins, ctx, "release of an uninitialised pointer")
            return True
        if p[0] != "p":
            return True
        r = p[1]
        rg = st.regs.get(r)
        if rg is None:
            return True
        if rg.kind == "heap" and rg.many:
            self.pool_freed.add(r)
        elif rg.kind == "heap":
            if p[2] is not None and p[2] != (0, ()):
                lo, hi = st.facts.range(p[2])
                if lo > 0 or hi < 0:
                    self.report("free-bad", ins, ctx, "release of a pointer into the middle of a block")
            if rg.status == "freed" and not rg.many:
                self.report("double-free", ins, ctx, f"second release of {self.rname(r)}")
                return True
            st.regs[r] = rg.upd(status="freed")
            m = st.mem[r]
            if not rg.many:
                st.mem[r] = RegMem("havoc")
        elif rg.kind == "obj":
            self.report("free-bad", ins, ctx, f"search object released with free()")
        elif rg.kind == "input" and "owned" in rg.extra:
            if rg.status == "freed":
                self.report("double-free", ins, ctx, f"second release of {self.rname(r)}")
            st.regs[r] = rg.upd(status="freed", null="no" if rg.null == "maybe" else rg.null)
        elif rg.kind == "input" and rg.null == "maybe" and False:
            pass
        else:
            self.report("free-bad", ins, ctx, f"release of memory the library does not own ({self.rname(r)})")
        return True

    # -- conditions ------------------------------------------------------------------------------
    def icmp(self, st, pred, a, b, bits, ins, ctx):
        a = self.canon(st, a)
        b = self.canon(st, b)
        if a[0] == "u" or b[0] == "u":
            return self.opaque(("cmp", ctx, ins.id), BOOL, (ctx, ins.block), 0, 1)
        if a[0] == "p" or b[0] == "p" or a[0] == "fn" or b[0] == "fn":
            if a[0] == "p" and b[0] == "p":
                if a[1] == b[1] and a[2] is not None and b[2] is not None and not (a[1] in st.regs and st.regs[a[1]].many):
                    return self.cmp_lin(st, pred, a[2], b[2])
                ra, rb = st.regs.get(a[1]), st.regs.get(b[1])
                if pred in ("eq", "ne") and a[1] != b[1] and not (ra and ra.null == "maybe" and rb and rb.null == "maybe"):
                    if not (ra and ra.many and rb and rb.many and a[1] == b[1]):
                        return ZERO if pred == "eq" else ONE
                return self.opaque(("cmp", ctx, ins.id), BOOL, (ctx, ins.block), 0, 1)
            if a[0] == "fn" or b[0] == "fn":
                if a[0] == b[0] and pred in ("eq", "ne"):
                    if a == b:
                        return ONE if pred == "eq" else ZERO
                    return self.opaque(("cmp", ctx, ins.id), BOOL, (ctx, ins.block), 0, 1)
                f, z = (a, b) if a[0] == "fn" else (b, a)
                if z == ZERO and pred in ("eq", "ne"):
                    if f[1].startswith("arg:"):
                        nl = st.ghost.get(("fnnull", f[1]))
                        if nl is None:
                            return ("c", "fnull" if pred == "eq" else "fnonnull", f[1])
                        return ONE if (nl == (pred == "eq")) else ZERO
                    return ZERO if pred == "eq" else ONE
                return self.opaque(("cmp", ctx, ins.id), BOOL, (ctx, ins.block), 0, 1)
            p, z = (a, b) if a[0] == "p" else (b, a)
            if z == ZERO:
                rg = st.regs.get(p[1])
                if rg is not None and rg.null == "maybe" and (p[2] is None or not p[2][1]):
                    if pred == "eq":
                        return ("c", "null", p[1])
                    if pred == "ne":
                        return ("c", "nonnull", p[1])
                if pred == "eq":
                    return ZERO
                if pred == "ne":
                    return ONE
                if pred == "ugt":
                    return ONE if p is a else ZERO
            return self.opaque(("cmp", ctx, ins.id), BOOL, (ctx, ins.block), 0, 1)
        # boolean against constant
        for x, y in ((a, b), (b, a)):
            if x[0] == "c" and y[0] == "i" and not y[1][1] and pred in ("eq", "ne"):
                if y[1][0] == 0:
                    return x if pred == "ne" else neg(x)
                if y[1][0] in (1, -1):
                    return x if pred == "eq" else neg(x)
        la, lb = self.as_lin(a), self.as_lin(b)
        if la is None or lb is None:
            return self.opaque(("cmp", ctx, ins.id), BOOL, (ctx, ins.block), 0, 1)
        # constants in the interpretation the comparison asks for
        mod = 2 ** bits
        if pred[0] == "u":
            if not la[1] and la[0] < 0:
                la = (la[0] % mod, ())
            if not lb[1] and lb[0] < 0:
                lb = (lb[0] % mod, ())
            # a quantity known to be negative is a huge one here
            if la[1] and st.facts.range(la, 1)[1] < 0:
                la = (la[0] + mod, la[1])
            if lb[1] and st.facts.range(lb, 1)[1] < 0:
                lb = (lb[0] + mod, lb[1])
        elif pred in ("eq", "ne"):
            if not lb[1] and lb[0] < 0 and la[1]:
                lo, hi = st.facts.range(la)
                if lo >= 0:
                    lb = (lb[0] % mod, ())
            elif not la[1] and la[0] < 0 and lb[1]:
                lo, hi = st.facts.range(lb)
                if lo >= 0:
                    la = (la[0] % mod, ())
            elif not la[1] and not lb[1]:
                la, lb = (la[0] % mod, ()), (lb[0] % mod, ())
        else:
            la, lb = self.signed(st, la, bits), self.signed(st, lb, bits)
        return self.cmp_lin(st, pred, la, lb)

    def signed(self, st, l, bits):
        half = 2 ** (bits - 1)
        if not l[1]:
            c = l[0] % (2 * half)
            return (c - 2 * half if c >= half else c, ())
        lo, hi = st.facts.range(l)
        if lo >= -half and hi < half:
            return l
        if len(l[1]) == 1 and l[1][0][1] == 1 and l[0] == 0:
            at = l[1][0][0]
            if AT.hi[at] < 2 * half:
                a = AT.get(("sx", bits, at), -half, half - 1, AT.origin[at], (at,))
                return (0, ((a, 1),))
        return l

    def cmp_lin(self, st, pred, la, lb):
        d = l_sub(la, lb)
        p = pred
        if p in ("eq", "ne"):
            t = st.facts.test_eq(d)
            if t is not None:
                return ONE if t == (p == "eq") else ZERO
            return ("c", p, d)
        k = p[1:]
        if k == "lt":
            e = (d[0] + 1, d[1])
        elif k == "le":
            e = d
        elif k == "gt":
            n = l_scale(d, -1)
            e = (n[0] + 1, n[1])
        else:
            e = l_scale(d, -1)
        t = st.facts.test_le(e)
        if t is not None:
            return ONE if t else ZERO
        return ("c", "le", e)

    def assume(self, st, c, truth):
        """refines st in place; False if contradictory"""
        if c[0] == "i":
            if not c[1][1]:
                return (c[1][0] % 2 != 0) == truth if c[1][0] in (0, 1, -1) else (c[1][0] != 0) == truth
            if truth:
                return st.facts.assume_ne(c[1]) if False else st.facts.assume_eq((c[1][0] - 1, c[1][1])) if self.is_bool(c[1]) else st.facts.assume_ne(c[1])
            return st.facts.assume_eq(c[1])
        if c[0] != "c":
            return True
        if not truth:
            c = neg(c)
        k = c[1]
        if k == "le":
            ok = st.facts.assume_le(c[2])
            return ok
        if k == "eq":
            return st.facts.assume_eq(c[2])
        if k == "ne":
            return st.facts.assume_ne(c[2])
        if k in ("null", "nonnull"):
            rg = st.regs.get(c[2])
            if rg is None:
                return True
            want = "yes" if k == "null" else "no"
            if rg.null == "maybe":
                st.regs[c[2]] = rg.upd(null=want)
                return True
            return rg.null == want
        if k in ("fnull", "fnonnull"):
            g = ("fnnull", c[2])
            cur = st.ghost.get(g)
            w = k == "fnull"
            if cur is None:
                st.ghost[g] = w
                return True
            return cur == w
        if k == "f":
            return self.fassume(st, c[2], c[3], c[4])
        return True

    def is_bool(self, l):
        return len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1 and AT.lo[l[1][0][0]] == 0 and AT.hi[l[1][0][0]] == 1

    def ftest(self, st, pred, x, y):
        """possible outcomes of a float comparison"""
        if pred == "true":
            return True
        if pred == "false":
            return False
        a, b = frange(st, x), frange(st, y)
        nan = a[4] or b[4]
        anum = a[0] < a[2] or (a[0] == a[2] and a[1] and a[3])
        bnum = b[0] < b[2] or (b[0] == b[2] and b[1] and b[3])
        outs = set()
        if nan:
            outs.add("nan")
        if anum and bnum:
            if x == y and not isinstance(x, float):
                outs.add("eq")
            else:
                if a[0] < b[2]:
                    outs.add("lt")
                if a[2] > b[0]:
                    outs.add("gt")
                lo = max(a[0], b[0])
                hi = min(a[2], b[2])
                if lo < hi or (lo == hi and inside(a, lo) and inside(b, lo)):
                    outs.add("eq")
        tr = FT[pred]
        res = {o in tr for o in outs}
        if len(res) == 1:
            return res.pop()
        return None

    def fassume(self, st, pred, x, y):
        t = self.ftest(st, pred, x, y)
        if t is not None:
            return t
        tr = FT[pred]
        for p, q, flip in ((x, y, False), (y, x, True)):
            if isinstance(q, float) and not isinstance(p, float):
                cur = frange(st, p)
                if q != q:
                    continue
                allowed = {FLIP[o] if flip else o for o in tr}
                lo, li, hi, hn, nan = cur
                if "nan" not in allowed:
                    nan = False
                num = allowed - {"nan"}
                if not num:
                    st.ff[p] = (INF, False, -INF, False, True)
                    return nan
                if num == {"lt"}:
                    if (q, False) < (hi, hn) or hi > q or (hi == q and hn):
                        hi, hn = q, False
                elif num == {"lt", "eq"}:
                    if hi > q:
                        hi, hn = q, True
                elif num == {"gt"}:
                    if lo < q or (lo == q and li):
                        lo, li = q, False
                elif num == {"gt", "eq"}:
                    if lo < q:
                        lo, li = q, True
                elif num == {"eq"}:
                    lo, li, hi, hn = q, True, q, True
                st.ff[p] = (lo, li, hi, hn, nan)
        return True

    # -- arithmetic ------------------------------------------------------------------------------
    def binop(self, st, ins, a, b, ctx):
        op = ins.op
        ty = ins.ty
        bits = ty.bits
        org = (ctx, ins.block)
        if a[0] == "u" or b[0] == "u":
            return U if a[0] == b[0] else ANYINT(self, ins, ctx)
        if op in ("and", "or", "xor") and bits == 1 or (op == "xor" and bits == 1):
            return self.boolop(st, op, a, b, ins, ctx)
        if op == "sub" and a[0] == "p" and b[0] == "p":
            if a[1] == b[1] and a[2] is not None and b[2] is not None:
                return ("i", l_sub(a[2], b[2]))
            return ANYINT(self, ins, ctx)
        if a[0] == "p" or b[0] == "p":
            return ANYINT(self, ins, ctx)
        la, lb = self.as_lin(a), self.as_lin(b)
        if la is None or lb is None:
            return ANYINT(self, ins, ctx)
        if op == "add":
            r = l_add(la, lb)
            return ("i", self.fit_bits(st, r, bits, ins, ctx, la, lb))
        if op == "sub":
            return ("i", l_sub(la, lb))
        if op == "shl" and not lb[1]:
            r = l_scale(la, 2 ** lb[0])
            return ("i", self.fit_bits(st, r, bits, ins, ctx, la, lb, True))
        if op == "mul":
            if not la[1] or not lb[1]:
                k, l = (la[0], lb) if not la[1] else (lb[0], la)
                r = l_scale(l, k)
                return ("i", self.fit_bits(st, r, bits, ins, ctx, la, lb, True))
            r = (la[0] * lb[0], ())
            r = l_add(r, l_scale((0, lb[1]), la[0]))
            r = l_add(r, l_scale((0, la[1]), lb[0]))
            for x, cx in la[1]:
                for y, cy in lb[1]:
                    r = l_add(r, (0, ((self.prod(st, x, y), cx * cy),)))
            return ("i", self.fit_bits(st, r, bits, ins, ctx, la, lb, True))
        if op in ("udiv", "sdiv", "lshr", "ashr"):
            if lb[1]:
                lo, hi = st.facts.range(lb)
                al, ah = st.facts.range(la)
                pa = self.lparts(la, lb)
                at = AT.get(("div", la, lb), 0, INF, None, pa)
                if al >= 0 and lo >= 1:
                    st.facts.set(((at, 1),), 0, ah)
                return atom_val(at)
            k = lb[0] if op in ("udiv", "sdiv") else 2 ** lb[0]
            if k <= 0:
                return ANYINT(self, ins, ctx)
            if la[0] % k == 0 and all(c % k == 0 for _, c in la[1]):
                return ("i", (la[0] // k, tuple((x, c // k) for x, c in la[1])))
            if not la[1]:
                return I(la[0] // k)
            at = AT.get(("div", la, k), -INF, INF, None, self.lparts(la))
            lo, hi = st.facts.range(la)
            st.facts.set(((at, 1),), lo if lo == -INF else lo // k, hi if hi == INF else hi // k)
            if lo >= 0:
                d = l_sub((0, ((at, k),)), la)        # k * quotient <= dividend < k * quotient + k
                st.facts.assume_le(d)
                st.facts.assume_le((-d[0] - k + 1, tuple((x, -c) for x, c in d[1])))
            return atom_val(at)
        if op in ("urem", "srem"):
            if not lb[1] and lb[0] > 0:
                if not la[1]:
                    return I(la[0] % lb[0])
                at = AT.get(("rem", la, lb[0]), 0, lb[0] - 1, None, self.lparts(la))
                return atom_val(at)
            return ANYINT(self, ins, ctx)
        if op in ("and", "or", "xor"):
            if not la[1] and not lb[1]:
                v = {"and": la[0] & lb[0], "or": la[0] | lb[0], "xor": la[0] ^ lb[0]}[op]
                return I(v)
            if op == "and" and not lb[1] and lb[0] >= 0:
                at = AT.get(("and", la, lb[0]), 0, lb[0], None, self.lparts(la))
                return atom_val(at)
            if op == "xor" and not lb[1] and lb[0] == -1:
                return ("i", (-la[0] - 1, tuple((x, -c) for x, c in la[1])))
        return ANYINT(self, ins, ctx)

    def lparts(self, *ls):
        s = set()
        for l in ls:
            for a, _ in l[1]:
                s.add(a)
        return tuple(sorted(s))

    def l_mul(self, st, la, lb):
        """product of two linear forms (distributed)"""
        r = (la[0] * lb[0], ())
        for x, cx in la[1]:
            r = l_add(r, (0, ((x, cx * lb[0]),)) if lb[0] else (0, ()))
        for y, cy in lb[1]:
            r = l_add(r, (0, ((y, cy * la[0]),)) if la[0] else (0, ()))
        for x, cx in la[1]:
            for y, cy in lb[1]:
                r = l_add(r, (0, ((self.prod(st, x, y), cx * cy),)))
        return r

    def prod(self, st, x, y):
        fx = flat(x)
        fy = flat(y)
        fs = tuple(sorted(fx + fy))
        lo1, hi1 = st.facts._range_key(((x, 1),), 1)
        lo2, hi2 = st.facts._range_key(((y, 1),), 1)
        a = AT.get(("prod", fs), -INF, INF, None, fs)
        if lo1 >= 0 and lo2 >= 0:
            st.facts.set(((a, 1),), lo1 * lo2, INF if INF in (hi1, hi2) else hi1 * hi2)
        return a

    def fit_bits(self, st, r, bits, ins, ctx, la, lb, mul=False):
        if bits >= 64 or not mul or not r[1]:
            if bits < 64 and not r[1] and mul:
                c = r[0] % 2 ** bits
                return r
            return r
        lo, hi = st.facts.range(r)
        if lo >= -(2 ** (bits - 1)) and hi < 2 ** bits:
            return r
        a = AT.get(("wrap", bits, r), 0, 2 ** bits - 1, None, self.lparts(r), True)
        return (0, ((a, 1),))

    def boolop(self, st, op, a, b, ins, ctx):
        if op == "xor":
            for x, y in ((a, b), (b, a)):
                if y[0] == "i" and not y[1][1]:
                    if y[1][0] in (1, -1):
                        return neg(x)
                    return x
        for x, y in ((a, b), (b, a)):
            if x[0] == "i" and not x[1][1]:
                t = x[1][0] != 0
                if op == "and":
                    return y if t else ZERO
                if op == "or":
                    return ONE if t else y
        if a == b:
            return a
        return self.opaque(("bo", ctx, ins.id), BOOL, (ctx, ins.block), 0, 1)

    def cast(self, st, ins, v, sty, ctx):
        op = ins.op
        dty = ins.ty
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            return v
        if op in ("uitofp", "sitofp"):
            l = self.as_lin(v)
            if l is not None and not l[1]:
                return ("f", float(l[0]))
            if l is None:
                return ("f", AT.get(("cv", ctx, ins.id), -INF, INF, (ctx, ins.block)))
            lo, hi = st.facts.range(l)
            a = AT.get(("i2f", l), -INF, INF, None, self.lparts(l))
            st.ff[a] = (float(lo), True, float(hi), True, False)
            return ("f", a)
        if op in ("fptoui", "fptosi"):
            if v[0] == "f" and isinstance(v[1], float) and v[1] == v[1] and abs(v[1]) < 1e18:
                return I(int(v[1]))
            if v[0] == "f" and not isinstance(v[1], float):
                return atom_val(AT.get(("f2i", v[1]), 0 if op == "fptoui" else -(2 ** 63), 2 ** dty.bits - 1, None, (v[1],)))
            return ANYINT(self, ins, ctx)
        if op in ("fptrunc", "fpext"):
            return v if v[0] == "f" else ("f", AT.get(("cv", ctx, ins.id), -INF, INF, (ctx, ins.block)))
        if v[0] == "u":
            return U
        if v[0] == "c":
            return v if op != "sext" else ANYINT(self, ins, ctx)
        if v[0] == "p":
            return v
        l = self.as_lin(v)
        if l is None:
            return ANYINT(self, ins, ctx)
        sb = sty.bits
        if op == "zext":
            if not l[1]:
                return I(l[0] % 2 ** sb)
            lo, hi = st.facts.range(l)
            if lo < 0 and hi < 0:
                return ("i", (l[0] + 2 ** sb, l[1]))
            return v
        if op == "sext":
            return ("i", self.signed(st, l, sb))
        if op == "trunc":
            db = dty.bits
            if not l[1]:
                c = l[0] % 2 ** db
                if c >= 2 ** (db - 1) and db > 1:
                    c -= 2 ** db
                return I(c)
            lo, hi = st.facts.range(l)
            if lo >= -(2 ** (db - 1)) and hi < 2 ** db:
                return v
            # the value may not fit: a different quantity unless the caller bounded it
            a = AT.get(("trunc", db, l), 0, 2 ** db - 1, None, self.lparts(l))
            return atom_val(a)
        return v

    def fbin(self, st, ins, a, b, ctx):
        xa = a[1] if a[0] == "f" else None
        xb = b[1] if b[0] == "f" else None
        if xa is None or xb is None:
            return ("f", AT.get(("fo", ctx, ins.id), -INF, INF, (ctx, ins.block)))
        if isinstance(xa, float) and isinstance(xb, float):
            try:
                r = {"fadd": xa + xb, "fsub": xa - xb, "fmul": xa * xb}.get(ins.op)
                if ins.op == "fdiv" and xb != 0:
                    r = xa / xb
                if r is not None:
                    return ("f", float(r))
            except Exception:
                pass
        parts = tuple(x for x in (xa, xb) if not isinstance(x, float))
        at = AT.get((ins.op, xa, xb), -INF, INF, None, parts)
        return ("f", at)

    # -- execution -------------------------------------------------------------------------------
    def run(self, fname, st, args):
        fn = self.mod.funcs[fname]
        return self.call(fn, st, args, (), None)

    def fn_types(self, fn):
        t = fn.cache.get("types")
        if t is None:
            t = {}
            for p in fn.params:
                t[p.id] = p.ty
            for b in fn.blocks:
                for i in b.insts:
                    t[i.id] = i.ty
            fn.cache["types"] = t
            fn.cache["phis"] = {b.idx: frozenset(i.id for i in b.insts if i.op == "phi") for b in fn.blocks}
        return t

    def call(self, fn, st, args, ctx, ins):
        """analyses fn from state st; returns list of (state, retval) with the caller's env restored"""
        if len(ctx) > 40 or sum(1 for c in ctx if c[0] == fn.name) > 3:
            raise AnalysisError(f"recursion through {fn.name}")
        self.stats["calls"] += 1
        self.stats["funcs"].add(fn.name)
        types = self.fn_types(fn)
        saved = st.env
        st.env = {}
        for i, p in enumerate(fn.params):
            v = args[i] if i < len(args) else ANY
            if i in fn.byval and v[0] == "p":
                v = self.byval_copy(st, v, fn.byval[i], fn, i, ctx)
            st.env[p.id] = v
        rets = []
        exits = self.region(fn, ctx, frozenset(fn.rpo), 0, [st], None, rets)
        if exits:
            raise AnalysisError("edge out of function")
        out = self.merge_exits(fn, ctx, rets, saved)
        return out

    def byval_copy(self, st, v, ty, fn, i, ctx):
        r = ("stk", ctx, fn.name, ("bv", i))
        st.regs[r] = Reg("stack", size=(ty.size, ()))
        st.mem[r] = RegMem("uninit")
        self.copy_mem(st, ("p", r, (0, ())), v, (ty.size, ()), None, ctx)
        return ("p", r, (0, ()))

    def merge_exits(self, fn, ctx, rets, saved):
        groups = {}
        fctx = ctx
        for st, rv in rets:
            self.cur = st
            st.env = {}
            # the frame disappears
            for r in [r for r in st.regs if r[0] == "stk" and r[1] == ctx and r[2] == fn.name]:
                del st.regs[r]
                st.mem.pop(r, None)
            if rv is not None:
                st.env[-1] = rv
            self.gc(st, saved, ctx)
            if ctx:
                name_by_owner(st, ctx, self.renamed if self.uninit else None)
            if self.uninit:
                for x in [x for x in st.ghost if x[0] == "unw" and (x[1] not in st.regs or st.regs[x[1]].status != "live")]:
                    del st.ghost[x]
            k = state_key(st, {-1: fn.ret})
            groups.setdefault(k, []).append(st)
        out = []
        for k, sts in groups.items():
            if len(sts) == 1:
                s = sts[0]
            else:
                self.stats["joins"] += 1
                s = Joiner(ctx, ("x", fn.name), sts, at="exit").run(self.mk)
            rv = s.env.get(-1)
            s.env = dict(saved)
            out.append((s, rv))
        if len(out) > self.max_states:
            raise TooBig(f"{len(out)} exit states in {fn.name}")
        return out

    def gc(self, st, saved, ctx):
        """forget released blocks nobody points to, and facts about quantities that no longer exist"""
        refs = set()
        atoms = set()
        for env in (st.env, saved) + tuple(self.envstack):
            for v in env.values():
                if v[0] == "p":
                    refs.add(v[1])
                val_atoms(v, atoms) if v[0] != "p" or v[2] is not None else None
        for r, m in st.mem.items():
            rg = st.regs.get(r)
            if rg is not None and rg.const and rg.kind == "global":
                continue
            for o, (sz, v) in m.cells.items():
                if v[0] == "p":
                    refs.add(v[1])
                    if v[2] is None:
                        continue
                val_atoms(v, atoms)
            for vs in m.summ.values():
                for v in vs:
                    if v[0] == "p":
                        refs.add(v[1])
                        if v[2] is None:
                            continue
                    val_atoms(v, atoms)
            for (ln, sz), v in m.cache.items():
                val_atoms(("i", ln), atoms)
                if v[0] == "p":
                    refs.add(v[1])
                    if v[2] is None:
                        continue
                val_atoms(v, atoms)
        for r, rg in st.regs.items():
            if rg.kind in ("heap", "obj") and r not in refs and rg.status == "live" and not rg.many and not st.ghost.get("anyfree"):
                self.lost(r, rg, "lost when " + (ctx[-1][0] + "'s callee" if ctx else "the call") + " returned" + self.pend_note(st))
        for r in [r for r, rg in st.regs.items() if rg.status == "freed" and r not in refs and rg.kind in ("heap", "obj")
                  and not (rg.many and False)]:
            del st.regs[r]
            st.mem.pop(r, None)
        for r, rg in st.regs.items():
            if rg.size is not None:
                for a, _ in rg.size[1]:
                    atoms.add(a)
        n = len(ctx)

        def dead(K):
            for a, _ in K:
                if a in atoms:
                    continue
                o = AT.origin[a]
                if o is not None and o[0][:n] == ctx and len(o[0]) >= n and a not in self.pinned:
                    return True
                ps = AT.parts[a]
                if ps and not any(p in atoms or AT.origin[p] is None for p in ps):
                    return True
            return False
        st.facts.drop_if(dead)
        for a in list(st.ff):
            o = AT.origin[a]
            if a not in atoms and o is not None and o[0][:n] == ctx:
                del st.ff[a]

    envstack = ()
    cur = None
    pinned = frozenset()

    def region(self, fn, ctx, blocks, entry, states, header, rets):
        """runs one acyclic region (inner loops are solved recursively).
        returns list of (pred, succ, state): edges leaving the region, and back edges when header is given"""
        pend = {entry: list(states)}
        out = []
        loops = fn.loops
        types = self.fn_types(fn)
        done = set()
        for b in fn.rpo:
            if b not in blocks or b in done:
                continue
            sts = pend.pop(b, None)
            if b in loops and b != header:
                body = frozenset(loops[b])
                done |= body
                if not sts:
                    continue
                sts = self.merge(fn, ctx, b, sts)
                exits = self.loop(fn, ctx, b, body, sts, rets)
                for (p, s, st2) in exits:
                    if s == header and header is not None:
                        out.append((p, s, st2))
                    elif s in blocks:
                        pend.setdefault(s, []).append(st2)
                    else:
                        out.append((p, s, st2))
                continue
            if not sts:
                continue
            if b != entry or len(sts) > 1:
                sts = self.merge(fn, ctx, b, sts)
            for st in sts:
                for (s, st2) in self.block(fn, ctx, b, st, rets):
                    if s == header and header is not None:
                        out.append((b, s, st2))
                    elif s in blocks:
                        pend.setdefault(s, []).append(st2)
                    else:
                        out.append((b, s, st2))
        return out

    def merge(self, fn, ctx, b, sts):
        live = fn.live_in[b]
        for st in sts:
            env = st.env
            if len(env) > len(live):
                st.env = {i: v for i, v in env.items() if i in live}
        if len(sts) == 1:
            return sts
        types = self.fn_types(fn)
        groups = {}
        for st in sts:
            groups.setdefault(state_key(st, types), []).append(st)
        if self.uninit and b not in fn.loops:
            groups = self.keep_unwritten(groups)
        if self.alts and b not in fn.loops and fn.cache["phis"][b]:
            groups = self.keep_alts(fn, b, groups, types)
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
            else:
                self.stats["joins"] += 1
                out.append(Joiner(ctx, ("m", b), g, at=self.outer_block(fn, b)).run(self.mk))
        if len(out) > self.max_states:
            if self.trace:
                dump_keys(groups)
            raise TooBig(f"{len(out)} states in {fn.name} block {b}")
        if time.time() > self.deadline:
            raise TooBig("time limit")
        return out

    def keep_unwritten(self, groups):
        """paths that leave a block unwritten stay apart from those that write to it when it is the caller's
        arguments that tell them apart"""
        res = {}
        for k, g in groups.items():
            parts = {}
            if len(g) > 1:
                for st in g:
                    parts.setdefault(self.untouched(st), []).append(st)
            if len(parts) < 2:
                res[k] = g
                continue
            for u, sts in parts.items():
                rest = [x for v, xs in parts.items() if u - v for x in xs]
                if rest and all(self.opposed(x, y) for x in sts for y in rest):
                    for r in frozenset().union(*[u - v for v in parts]):
                        for st in sts:
                            if r[0] != "late":
                                st.ghost[("unw", r)] = True
                    res[(k, u)] = sts
                else:
                    res.setdefault(k, []).extend(sts)
        return res

    @staticmethod
    def opposed(x, y):
        """is there a quantity of the caller's that the two states disagree about?"""
        for K, (lo, hi, _) in x.facts.d.items():
            f = y.facts.d.get(K)
            if f is not None and (f[0] > hi or f[1] < lo) and all(AT.name[a][0] in ("arg", "in") for a, _ in K):
                return True
        return False

    def keep_alts(self, fn, b, groups, types):
        res = {}
        for k, g in groups.items():
            if len(g) > 1:
                for i in fn.cache["phis"][b]:
                    if self.alts == "alloc" and i not in self.sizing(fn):
                        continue
                    vs = {st.env.get(i) for st in g}
                    if 2 <= len(vs) <= 3 and all(v is not None and v[0] == "i" and spicontract.caller_only(v[1]) for v in vs) \
                            and any(v[1][1] for v in vs) and sum(1 for x in g[0].ghost if x[0] == "alt") < 3:
                        for st in g:
                            st.ghost[("alt", fn.name, b, i)] = st.env[i][1]
                for st in g:
                    res.setdefault(state_key(st, types), []).append(st)
            else:
                res[k] = g
        return res

    def sizing(self, fn):
        """values of fn that sizes of its memory requests are computed from"""
        r = fn.cache.get("sizing")
        if r is None:
            defs = {i.id: i for b in fn.blocks for i in b.insts}
            todo = [o for i in defs.values() if i.op == "call" and type(i.x) is Const and i.x.val in ("malloc", "calloc", "realloc")
                    for o in i.ops]
            r = set()
            while todo:
                o = todo.pop()
                if type(o) is not Ref or o.id in r:
                    continue
                r.add(o.id)
                d = defs.get(o.id)
                if d is not None and d.op not in ("load", "call", "icmp", "gep"):
                    todo += [v for _, v in d.ops] if d.op == "phi" else d.ops
            fn.cache["sizing"] = r
        return r

    def outer_block(self, fn, b):
        """a block with the loop membership of the edge into b from outside the loop b heads"""
        if b not in fn.loops:
            return b
        best = None
        for h, body in fn.loops.items():
            if h != b and b in body and (best is None or len(body) < len(fn.loops[best])):
                best = h
        return 0 if best is None else best

    peel = 0                  # first iterations of counting loops kept apart

    def const_bound(self, fn, h, body, st):
        """does the loop count up to a constant in this state?"""
        last = fn.blocks[h].insts[-1]
        defs = fn.cache.get("defs")
        if defs is None:
            defs = fn.cache["defs"] = {i.id: i for b in fn.blocks for i in b.insts}
        if last.op != "br" or not last.ops or type(last.ops[0]) is not Ref:
            return False
        c = defs.get(last.ops[0].id)
        if c is None or c.op != "icmp":
            return False

        def const(o, d=0):
            if type(o) is not Ref:
                return o.kind == "int"
            if o.id in fn.cache["phis"][h]:
                return False
            v = st.env.get(o.id)
            if v is not None:
                return v[0] == "i" and not v[1][1]
            i = defs.get(o.id)
            if i is None or d > 4 or i.block not in body and False:
                return False
            if i.op in ("zext", "sext", "trunc"):
                return const(i.ops[0], d + 1)
            if i.op == "load":
                p = i.ops[0]
                if type(p) is Ref and st.env.get(p.id) is None:
                    g = defs.get(p.id)
                    if g is None or g.op != "gep":
                        return False
                    base = self.ev(st, g.ops[0])
                    off = self.gep_off(g.x, [self.ev(st, x) for x in g.ops[1:]])
                    if base[0] != "p" or off is None or base[2] is None:
                        return False
                    pv = ("p", base[1], l_add(base[2], off))
                else:
                    pv = self.ev(st, p)
                if pv[0] != "p" or pv[2] is None or pv[2][1] or pv[1] not in st.mem:
                    return False
                cc = st.mem[pv[1]].cells.get(pv[2][0])
                return cc is not None and cc[1][0] == "i" and not cc[1][1][1]
            return False
        return any(const(o) for o in c.ops)

    def hkey(self, st, types, phis, peel):
        k = state_key(st, types, phis)
        if peel:
            c = tuple((i, st.env[i][1][0]) for i in sorted(phis) if i in st.env and st.env[i][0] == "i" and not st.env[i][1][1]
                      and 0 <= st.env[i][1][0] <= self.peel)
            return (k, c)
        return k

    def loop(self, fn, ctx, h, body, entry_states, rets):
        self.stats["loops"] += 1
        types = self.fn_types(fn)
        phis = fn.cache["phis"][h]
        live = fn.live_in[h]
        E = {}
        peel = bool(self.peel) and bool(entry_states) and all(self.const_bound(fn, h, body, st) for st in entry_states)
        for st in entry_states:
            st.env = {i: v for i, v in st.env.items() if i in live}
            E.setdefault(self.hkey(st, types, phis, peel), []).append(st)
        H = {}
        exits = {}
        brets = {}
        backs = {}
        dirty = []
        rounds = {}
        srcs = {}
        elems = set()
        for g in E.values():
            for s0 in g:
                elems |= ptr_elems(s0)
        for k, g in E.items():
            j = Joiner(ctx, ("e", h), g, at=self.outer_block(fn, h)) if len(g) > 1 else None
            H[k] = j.run(self.mk) if j else g[0]
            H[k].tau = (0, ())
            E[k] = H[k]
            dirty.append(k)
            rounds[k] = 0
        it = 0
        while dirty:
            it += 1
            if it > 60:
                raise TooBig(f"loop in {fn.name} block {h} does not stabilise")
            touched = set()
            for k in dirty:
                hs = H[k].copy()
                tau = H[k].tau
                myrets = []
                edges = self.region(fn, ctx, body, h, [hs], h, myrets)
                brets[k] = myrets
                ex = []
                for kk in backs.pop(k, {}):
                    touched.add(kk)
                bk = {}
                for (p, s, st2) in edges:
                    if s == h:
                        st2.env = {i: v for i, v in st2.env.items() if i in live}
                        st2.tau = (tau[0] + 1, tau[1])
                        normalise_back(st2, ctx, h, body, types, elems)
                        kk = self.hkey(st2, types, phis, peel)
                        bk.setdefault(kk, []).append(st2)
                        touched.add(kk)
                    else:
                        ex.append((p, s, st2))
                backs[k] = bk
                exits[k] = ex
            dirty = []
            for kk in touched:
                contrib = []
                if kk in E:
                    contrib.append(E[kk])
                now = set()
                for src, bk in backs.items():
                    if kk in bk:
                        contrib.extend(bk[kk])
                        now.add(src)
                old = H.get(kk)
                if old is not None and srcs.get(kk, NOFS) - now:
                    # a contribution went elsewhere: what was found before stays (no shrinking, so no oscillation)
                    if now <= srcs[kk] and rounds.get(kk, 0) > 2:
                        continue
                    if rounds.get(kk, 0) > 2:
                        contrib.append(old)
                srcs[kk] = srcs.get(kk, NOFS) | now
                if not contrib:
                    continue
                rounds[kk] = rounds.get(kk, 0) + 1
                j = Joiner(ctx, h, contrib, header=h, taus=[c.tau for c in contrib], old=old)
                j.widen = rounds[kk]
                new = j.run(self.mk)
                if old is None or not same_state(old, new):
                    if old is not None and rounds[kk] > 25:
                        raise TooBig(f"loop in {fn.name} block {h} does not stabilise")
                    H[kk] = new
                    dirty.append(kk)
            if len(H) > self.max_states:
                if self.trace:
                    dump_keys(H)
                raise TooBig(f"{len(H)} header states in {fn.name} block {h}")
        res = []
        for k in H:
            res.extend(exits.get(k, ()))
            rets.extend(brets.get(k, ()))
        for (_, _, st2) in res:
            st2.tau = None
        return res

    # one basic block; returns successor states
    def block(self, fn, ctx, b, st, rets):
        blk = fn.blocks[b]
        work = [(0, st)]
        out = []
        insts = blk.insts
        n = len(insts)
        while work:
            i, st = work.pop()
            alive = True
            while i < n:
                self.cur = st
                ins = insts[i]
                self.stats["steps"] += 1
                op = ins.op
                i += 1
                if op == "phi":
                    continue
                if op == "ret":
                    rets.append((st, self.ev(st, ins.ops[0]) if ins.ops else None))
                    alive = False
                    break
                if op == "br":
                    if not ins.ops:
                        self.edge(fn, b, blk.succs[0], st, out)
                    else:
                        c = self.ev(st, ins.ops[0])
                        self.branch(fn, ctx, b, blk, st, c, ins, out)
                    alive = False
                    break
                if op == "switch":
                    self.switch(fn, ctx, b, st, ins, out)
                    alive = False
                    break
                if op == "unreachable":
                    alive = False
                    break
                if op == "call":
                    rs = self.do_call(st, ins, ctx, fn)
                    if not rs:
                        alive = False
                        break
                    for s2, v in rs[1:]:
                        if v is not None:
                            s2.env[ins.id] = v
                        work.append((i, s2))
                    st, v = rs[0]
                    if v is not None:
                        st.env[ins.id] = v
                    continue
                if op == "load":
                    p = self.ev(st, ins.ops[0])
                    rs = self.load(st, p, ins.ty, ins, ctx)
                    if ins.ty.kind == "ptr":
                        rs = [(s2, LNULL if v == ZERO else v) for s2, v in rs]
                    if not rs:
                        alive = False
                        break
                    for s2, v in rs[1:]:
                        s2.env[ins.id] = v
                        work.append((i, s2))
                    st, v = rs[0]
                    st.env[ins.id] = v
                    continue
                if op == "store":
                    v = self.ev(st, ins.ops[0])
                    p = self.ev(st, ins.ops[1])
                    if self.tracked and p[0] == "p" and p[1] in self.tracked and p[2] is not None:
                        ss = self.store_special(st, p, v, ins.ops[0].ty.size, ins, ctx)
                        if not ss:
                            alive = False
                            break
                        work.extend((i, s2) for s2 in ss[1:])
                        st = ss[0]
                        continue
                    if not self.store(st, p, v, ins.ops[0].ty.size, ins, ctx):
                        alive = False
                        break
                    continue
                if op == "select":
                    c = self.ev(st, ins.ops[0])
                    t = self.decide(st, c)
                    if t is None:
                        s2 = st.copy()
                        if self.assume(s2, c, False):
                            s2.env[ins.id] = self.ev(s2, ins.ops[2])
                            work.append((i, s2))
                        if not self.assume(st, c, True):
                            alive = False
                            break
                        t = True
                    st.env[ins.id] = self.ev(st, ins.ops[1 if t else 2])
                    continue
                st.env[ins.id] = self.simple(st, ins, ctx, fn)
        return out

    def decide(self, st, c):
        if c[0] == "i":
            if not c[1][1]:
                return c[1][0] != 0
            t = st.facts.test_eq(c[1])
            if t is True:
                return False
            if t is False:
                return True
            return None
        if c[0] == "c":
            k = c[1]
            if k == "le":
                return st.facts.test_le(c[2])
            if k == "eq":
                return st.facts.test_eq(c[2])
            if k == "ne":
                t = st.facts.test_eq(c[2])
                return None if t is None else not t
            if k in ("null", "nonnull"):
                rg = st.regs.get(c[2])
                if rg is None or rg.null == "maybe":
                    return None
                return (rg.null == "yes") == (k == "null")
            if k in ("fnull", "fnonnull"):
                cur = st.ghost.get(("fnnull", c[2]))
                if cur is None:
                    return None
                return cur == (k == "fnull")
            if k == "f":
                return self.ftest(st, c[2], c[3], c[4])
        if c[0] == "p":
            return True
        return None

    def branch(self, fn, ctx, b, blk, st, c, ins, out):
        if c[0] == "u":
            self.report("uninit", ins, ctx, "branch on a value that was never set")
        t = self.decide(st, c)
        if t is not None:
            self.edge(fn, b, blk.succs[0 if t else 1], st, out)
            return
        s2 = st.copy()
        if self.assume(st, c, True):
            self.edge(fn, b, blk.succs[0], st, out)
        if self.assume(s2, c, False):
            self.edge(fn, b, blk.succs[1], s2, out)

    def switch(self, fn, ctx, b, st, ins, out):
        v = self.ev(st, ins.ops[0])
        dflt, cases = ins.x
        l = self.as_lin(v)
        if l is None:
            for tgt in {dflt} | {t for _, t in cases}:
                self.edge(fn, b, tgt, st.copy(), out)
            return
        bits = ins.ops[0].ty.bits
        for cv, tgt in cases:
            s2 = st.copy()
            if l[1] and cv < 0 and st.facts.range(l)[0] >= 0:
                cv %= 2 ** bits
            if s2.facts.assume_eq((l[0] - cv, l[1])):
                self.edge(fn, b, tgt, s2, out)
            if not st.facts.assume_ne((l[0] - cv, l[1])):
                return
        self.edge(fn, b, dflt, st, out)

    def edge(self, fn, b, s, st, out):
        blk = fn.blocks[s]
        new = None
        for ins in blk.insts:
            if ins.op != "phi":
                break
            for pb, v in ins.ops:
                if pb == b:
                    if new is None:
                        new = {}
                    new[ins.id] = self.ev(st, v)
                    break
        if new:
            st.env.update(new)
        out.append((s, st))

    def simple(self, st, ins, ctx, fn):
        op = ins.op
        if op == "alloca":
            r = ("stk", ctx, fn.name, ins.id)
            n = self.as_lin(self.ev(st, ins.ops[0]))
            size = l_scale(n, ins.x.size) if n is not None else None
            st.regs[r] = Reg("stack", size=size, site=f"{ins.file}:{ins.line}")
            st.mem[r] = RegMem("uninit")
            return ("p", r, (0, ()))
        if op == "gep":
            base = self.ev(st, ins.ops[0])
            off = self.gep_off(ins.x, [self.ev(st, o) for o in ins.ops[1:]])
            if base[0] == "p":
                if off is None or base[2] is None:
                    a = AT.get(("go", ctx, ins.id), -INF, INF, (ctx, ins.block))
                    return ("p", base[1], (0, ((a, 1),)))
                return ("p", base[1], l_add(base[2], off))
            if base == ZERO:
                return ZERO       # arithmetic on null stays null for the purpose of the checks
            if base[0] == "u":
                return U
            return ANY
        if op == "icmp":
            ty = ins.ops[0].ty
            bits = ty.bits if ty.kind == "int" else 64
            return self.icmp(st, ins.x, self.ev(st, ins.ops[0]), self.ev(st, ins.ops[1]), bits, ins, ctx)
        if op == "fcmp":
            a, b = self.ev(st, ins.ops[0]), self.ev(st, ins.ops[1])
            if a[0] != "f" or b[0] != "f":
                return self.opaque(("cmp", ctx, ins.id), BOOL, (ctx, ins.block), 0, 1)
            t = self.ftest(st, ins.x, a[1], b[1])
            if t is not None:
                return ONE if t else ZERO
            return ("c", "f", ins.x, a[1], b[1])
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            return self.binop(st, ins, self.canon(st, self.ev(st, ins.ops[0])), self.canon(st, self.ev(st, ins.ops[1])), ctx)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi",
                  "fptrunc", "fpext", "addrspacecast", "freeze"):
            return self.cast(st, ins, self.ev(st, ins.ops[0]), ins.ops[0].ty, ctx)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return self.fbin(st, ins, self.ev(st, ins.ops[0]), self.ev(st, ins.ops[1]), ctx)
        if op == "fneg":
            a = self.ev(st, ins.ops[0])
            if a[0] == "f" and isinstance(a[1], float):
                return ("f", -a[1])
            return ("f", AT.get(("fo", ctx, ins.id), -INF, INF, (ctx, ins.block)))
        if op in ("extractvalue", "insertvalue"):
            return ANY
        raise AnalysisError(f"instruction {op} in {ins.fn}")

    # -- calls -----------------------------------------------------------------------------------
    def do_call(self, st, ins, ctx, fn):
        tgt = ins.x
        if type(tgt) is Const and tgt.kind == "func":
            name = tgt.val
        else:
            v = self.ev(st, tgt) if type(tgt) is Ref else self.cval(tgt)
            if v[0] == "fn":
                name = v[1]
                if name.startswith("@"):
                    name = name[1:]
            else:
                v = self.canon(st, v)
                if v == ZERO or v[0] == "u":
                    self.report("null-deref", ins, ctx, "call through a null function pointer")
                    return []
                name = "?"
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.assume"):
            return [(st, None)]
        args = [self.ev(st, a) if not (type(a) is Const and a.kind == "meta") else ANY for a in ins.ops]
        if name.startswith("slot:"):
            if self.uninit:
                self.note_bulk(st, args, ins, ctx)
            return self.spi_call(st, name[5:], args, ins, ctx)
        f = self.mod.funcs.get(name)
        if f is not None and not f.decl:
            if self.hook is not None and hasattr(self.hook, "enter"):
                self.hook.enter(self, st, name, args, ins, ctx)
            if name in self.no_inline:
                return self.no_inline[name](self, st, args, ins, ctx)
            self.envstack = self.envstack + (st.env,)
            try:
                return self.call(f, st, args, ctx + ((ins.fn, ins.id, ins.block),), ins)
            finally:
                self.envstack = self.envstack[:-1]
        return self.extern(st, name, args, ins, ctx)

    def extern(self, st, name, args, ins, ctx):
        if self.uninit and name != "free":
            self.note_bulk(st, args, ins, ctx)
        org = (ctx, ins.block)
        if name == "malloc":
            return self.do_alloc(st, ins, ctx, self.as_lin(args[0]), "uninit")
        if name == "calloc":
            a, b = self.as_lin(args[0]), self.as_lin(args[1])
            size = None
            if a is not None and b is not None:
                for l in (a, b):
                    self.check_size(st, ins, ctx, l)
                if not a[1] or not b[1]:
                    size = l_scale(b, a[0]) if not a[1] else l_scale(a, b[0])
            return self.do_alloc(st, ins, ctx, size, "zero")
        if name == "realloc":
            return self.realloc(st, args, ins, ctx)
        if name == "free":
            self.free(st, args[0], ins, ctx)
            return [(st, None)]
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
            res = []
            for s in self.bulk(st, args[0], self.as_lin(args[2]), args[1]):
                if self.copy_mem(s, args[0], args[1], self.as_lin(args[2]), ins, ctx):
                    res.append((s, args[0] if not name.startswith("llvm") else None))
            return res
        if name.startswith("llvm.memset") or name == "memset":
            res = []
            for s in self.bulk(st, args[0], self.as_lin(args[2]), None, args[1]):
                if self.set_mem(s, args[0], args[1], self.as_lin(args[2]), ins, ctx):
                    res.append((s, args[0] if not name.startswith("llvm") else None))
            return res
        if name == "qsort":
            if args[0][0] == "p":
                d = self.deref(st, args[0], ins, ctx, "sort")
                if d == "dead":
                    return []
                if d is not None:
                    if st.regs[d[0]].const:
                        self.report("const-write", ins, ctx, f"write to {self.rname(d[0])}, which the caller handed over as read-only")
                    cnt, sz = self.as_lin(args[1]), self.as_lin(args[2])
                    if cnt is not None and sz is not None and not sz[1]:
                        self.bulk_bound(st, d[0], d[1], l_scale(cnt, sz[0]), ins, ctx, "sort")
                    self.scramble(st, d[0])
            return [(st, None)]
        if name.startswith("llvm.is.fpclass") and args[0][0] == "f" and args[1][0] == "i" and args[1][1] == (3, ()):
            t = self.ftest(st, "uno", args[0][1], args[0][1])
            return [(st, I(int(t)) if t is not None else ("c", "f", "uno", args[0][1], args[0][1]))]
        if name in ("sqrt", "log2", "fabs", "floor", "ceil", "pow", "log", "exp") or name.startswith("llvm.f") or name.startswith("llvm.sqrt"):
            xs = tuple(a[1] if a[0] == "f" else None for a in args)
            if None in xs:
                return [(st, ("f", AT.get(("fo", ctx, ins.id), -INF, INF, org)))]
            return [(st, ("f", AT.get((name,) + xs, -INF, INF, None, tuple(x for x in xs if not isinstance(x, float)))))]
        if name in ("snprintf",):
            if args[0][0] == "p":
                d = self.deref(st, args[0], ins, ctx, "write")
                if d not in ("dead", None):
                    self.havoc_ints(st, d[0])
            if self.hook is not None and hasattr(self.hook, "extern"):
                self.hook.extern(self, st, name, args, ins, ctx)
            a = AT.get(("xr", ctx, ins.id), -(2 ** 31), 2 ** 31 - 1, org)
            return [(st, atom_val(a))]
        if name.startswith("llvm.umin") or name.startswith("llvm.umax") or name.startswith("llvm.smax") or name.startswith("llvm.smin") or name.startswith("llvm.abs"):
            return [(st, ANYINT(self, ins, ctx))]
        if self.hook is not None and hasattr(self.hook, "extern"):
            self.hook.extern(self, st, name, args, ins, ctx)
        # any other external function: arguments' memory may change, result unknown
        for a in args:
            if a[0] == "p" and a[1] in st.regs and not st.regs[a[1]].const:
                self.havoc_ints(st, a[1])
        if ins.ty.kind == "void":
            return [(st, None)]
        return [(st, self.opaque(("xr", ctx, ins.id), ins.ty, org))]

    def scramble(self, st, r):
        """order of elements changes"""
        m = st.own(r)
        for o, (sz, v) in list(m.cells.items()):
            if v[0] != "u":
                m.summ[(sz, o % sz, sz)] = frozenset([ANY]) if v[0] != "p" else summ_norm(m.summ.get((sz, o % sz, sz), NOFS) | {("p", v[1], None)})
        m.cells = {}
        m.cache = {}
        for k in list(m.summ):
            m.summ[k] = frozenset(("p", v[1], None) if v[0] == "p" else (v if v == ZERO else ANY) for v in m.summ[k])
            m.summ[k] = summ_norm(m.summ[k])

    def realloc(self, st, args, ins, ctx):
        p = self.canon(st, args[0])
        size = self.as_lin(args[1])
        if p == ZERO:
            return self.do_alloc(st, ins, ctx, size, "uninit")
        self.stats["allocs"].add((ins.fn, ins.id))
        self.check_size(st, ins, ctx, size)
        res = []
        if p[0] != "p":
            return [(st, ANY)]
        r = p[1]
        rg = st.regs.get(r)
        if rg is None:
            return [(st, ANY)]
        if rg.status == "freed" and not rg.many:
            self.report("use-after-free", ins, ctx, f"resize of released block ({self.rname(r)})")
        if rg.kind != "heap":
            self.report("free-bad", ins, ctx, f"resize of memory the library does not own ({self.rname(r)})")
            return [(st, p)]
        if self.alloc_fail and self.may_fail(st):
            s2 = st.copy()
            shrink = False
            if rg.size is not None and size is not None:
                lo, hi = st.facts.range(l_sub(size, rg.size))
                shrink = hi <= 0
            if not shrink:
                self.add_pend(s2, "mem", ins.fn)
            # failing to shrink costs nothing: the caller may keep the old block and go on
            res.append((s2, NULP if not shrink else LNULL))
        st.ghost.pop("retry", None)
        old = st.mem[r]
        m = old.clone()
        st.regs[r] = rg.upd(status="freed") if not rg.many else rg
        if not rg.many:
            st.mem[r] = RegMem("havoc")
        v = self.alloc(st, ins, ctx, size, "uninit")
        if not st.regs[v[1]].many:
            m.cache = {}
            st.mem[v[1]] = m
        res.append((st, v))
        return res

    def copy_mem(self, st, dst, src, n, ins, ctx):
        if n is not None and not n[1] and n[0] == 0:
            return True
        dd = self.deref(st, dst, ins or NOINS, ctx, "copy to", n[0] if n is not None and not n[1] else None)
        sd = self.deref(st, src, ins or NOINS, ctx, "copy from", n[0] if n is not None and not n[1] else None)
        if dd == "dead" or sd == "dead":
            return False
        if self.hook is not None and hasattr(self.hook, "memcpy") and ins is not None:
            self.hook.memcpy(self, st, dst, src, n, ins, ctx)
        if dd is None:
            return True
        dr, do = dd
        if ins is not None:
            if st.regs[dr].const:
                self.report("const-write", ins, ctx, f"write to {self.rname(dr)}, which the caller handed over as read-only")
            self.stats["stores"].add((ins.fn, ins.id))
            if n is not None and n[1]:
                self.bulk_bound(st, dr, do, n, ins, ctx, "copy to")
                if sd is not None:
                    self.bulk_bound(st, sd[0], sd[1], n, ins, ctx, "copy from")
            if self.on_store is not None:
                self.on_store(self, st, dr, do, n, ("copy", sd), ins, ctx)
        if sd is None or sd[0] not in st.mem:
            if n is not None and not n[1] and n[0] <= 256 and not do[1]:
                m = st.own(dr)
                for x in [x for x, (sz, _) in m.cells.items() if x < do[0] + n[0] and do[0] < x + sz]:
                    del m.cells[x]
                m.cells[do[0]] = (n[0], ANY)
            else:
                self.havoc_ints(st, dr)
            return True
        sr, so = sd
        sm = st.mem[sr]
        if n is not None and not n[1] and n[0] <= 512:
            N = n[0]
            # struct-like copy
            items = []
            if not so[1]:
                for o, (sz, v) in sm.cells.items():
                    if so[0] <= o and o + sz <= so[0] + N:
                        items.append((o - so[0], sz, v))
                covered = sum(sz for _, sz, _ in items)
                dflt = sm.init
                rest_sum = [(k, vs) for k, vs in sm.summ.items()]
            else:
                # element of an array of structs
                g = 0
                for _, co in so[1]:
                    g = gcd(g, abs(co))
                seen = {}
                for (off, sz), v in sm.cache.items():
                    d = l_sub(off, so)
                    if not d[1] and 0 <= d[0] and d[0] + sz <= N:
                        seen[d[0]] = (sz, v)
                for k, vs in sm.summ.items():
                    if k[0] == g or (k[0] and g % k[0] == 0):
                        o = (k[1] - so[0]) % k[0]
                        if o + k[2] <= N and o not in seen:
                            if len(vs) == 1:
                                v = next(iter(vs))
                                if v[0] == "p" and v[2] is None:
                                    v = ANY
                                seen[o] = (k[2], v)
                            else:
                                ps = [v for v in vs if v[0] == "p" and v[2] is not None]
                                seen[o] = (k[2], ANY)
                for o, (sz, v) in sm.cells.items():
                    oo = (o - so[0]) % g if g else o
                    if oo + sz <= N and oo not in seen:
                        seen[oo] = (sz, v if v[0] != "i" else ANY)
                items = [(o, sz, v) for o, (sz, v) in seen.items()]
                dflt = sm.init
                covered = sum(sz for _, sz, _ in items)
                rest_sum = []
            rs = st.regs[dr].size
            dyn = ((rs is None or rs[1]) and st.regs[dr].kind in ("heap", "input")) or st.regs[dr].many
            if not do[1] and not dyn:
                m = st.own(dr)
                for x in [x for x, (sz, _) in m.cells.items() if x < do[0] + N and do[0] < x + sz]:
                    del m.cells[x]
                m.cache = {}
                if dflt == "zero" or dflt == "uninit" or dflt == "input" or dflt == "havoc":
                    if covered < N:
                        self.default_fill(st, m, do[0], N, items, dflt, sr, so)
                for o, sz, v in items:
                    m.cells[do[0] + o] = (sz, v)
                    if dr[0] == "g":
                        self.note_global_write(st, dr, (do[0] + o, ()), v, ins, ctx)
            else:
                for o, sz, v in items:
                    if v[0] != "u":
                        self.put(st, dr, (do[0] + o, do[1]), sz, v)
            return True
        # array-like copy
        vals = set()
        ptrs = False
        m = st.own(dr)
        m.cells = {}
        m.cache = {}
        src_uninit = sm.init == "uninit" and not sm.cells and not sm.summ
        if src_uninit and ins is not None:
            self.report("uninit", ins, ctx, f"copy of memory that was never written ({self.rname(sr)})")
        m.summ = dict(m.summ)
        m.summ[(1, 0, 1)] = frozenset([ANY] + [("p", x, None) for x in ptrs_in(sm)])
        if m.init == "uninit":
            m.init = "havoc"
        return True

    def default_fill(self, st, m, off, N, items, dflt, sr, so):
        taken = sorted((o, sz) for o, sz, _ in items)
        pos = 0
        gaps = []
        for o, sz in taken:
            if o > pos:
                gaps.append((pos, o))
            pos = max(pos, o + sz)
        if pos < N:
            gaps.append((pos, N))
        if dflt == "uninit":
            return  # padding or never-written fields stay without a cell; region default decides
        for a, b in gaps:
            if dflt == "zero":
                if m.init != "zero":
                    o = a
                    while o < b:
                        step = 8 if (o % 8 == 0 and o + 8 <= b) else 4 if (o % 4 == 0 and o + 4 <= b) else 1
                        m.cells[off + o] = (step, ZERO)
                        o += step
            elif dflt == "input" and not so[1]:
                o = a
                while o < b:
                    step = 8 if (o % 8 == 0 and o + 8 <= b) else 4 if (o % 4 == 0 and o + 4 <= b) else 1
                    m.cells[off + o] = (step, ANY)
                    o += step
            else:
                o = a
                while o < b:
                    step = 8 if (o % 8 == 0 and o + 8 <= b) else 4 if (o % 4 == 0 and o + 4 <= b) else 1
                    m.cells[off + o] = (step, ANY)
                    o += step

    def bulk_bound(self, st, r, off, n, ins, ctx, what):
        rg = st.regs[r]
        if rg.size is None:
            return
        lo, hi = st.facts.range(l_sub(l_sub(rg.size, off), n))
        self.must_report("oob-bulk", hi < 0, ins, ctx, f"{what} past the end of {self.rname(r)}")
        if self.bounds and lo < 0:
            self.may_oob(st, rg.size, l_add(off, n), ins, ctx, f"{what} past the end of {self.rname(r)}", "oob-bulk")

    def may_oob(self, st, size, used, ins, ctx, msg, rule):
        room = l_sub(size, used)
        w = witness.fails(st, room, ("tau",)) if room[1] else witness.fails(st, l_sub(l_sub(room, size), (1, ())), ("tau",))
        self.stats.setdefault("bounds_open", set()).add((ins.fn, ins.id))
        if w:
            self.report(rule, ins, ctx, msg + " (" + ", ".join(f"{k}={v}" for k, v in sorted(w.items())) + ")")

    def set_mem(self, st, dst, val, n, ins, ctx):
        if n is not None and not n[1] and n[0] == 0:
            return True
        dd = self.deref(st, dst, ins, ctx, "fill", n[0] if n is not None and not n[1] else None)
        if dd == "dead":
            return False
        if dd is None:
            return True
        dr, do = dd
        if st.regs[dr].const:
            self.report("const-write", ins, ctx, f"write to {self.rname(dr)}, which the caller handed over as read-only")
        if self.on_store is not None:
            self.on_store(self, st, dr, do, n, ("set", val), ins, ctx)
        m = st.own(dr)
        whole = n is not None and st.regs[dr].size is not None and l_sub(st.regs[dr].size, n) == (0, ()) and do == (0, ())
        if val == ZERO:
            if whole:
                m.cells, m.summ, m.cache = {}, {}, {}
                m.init = "zero"
                return True
            if n is not None and not n[1] and n[0] <= 512 and not do[1]:
                for x in [x for x, (sz, _) in m.cells.items() if x < do[0] + n[0] and do[0] < x + sz]:
                    del m.cells[x]
                m.cache = {}
                if m.init != "zero":
                    o = do[0]
                    e = do[0] + n[0]
                    while o < e:
                        step = 8 if (o % 8 == 0 and o + 8 <= e) else 4 if (o % 4 == 0 and o + 4 <= e) else 1
                        m.cells[o] = (step, ZERO)
                        o += step
                return True
        self.havoc_ints(st, dr)
        return True

    # -- the distance/search interface, as promised to the library ---------------------------------
    def spi_call(self, st, slot, args, ins, ctx):
        self.stats["spi"].add((slot, ins.fn, ins.id))
        org = (ctx, ins.block)
        if self.hook is not None and hasattr(self.hook, "spi"):
            if self.hook.spi(self, st, slot, args, ins, ctx) == "dead":
                return []
        if self.contract:
            spicontract.contract(self, st, slot, args, ins, ctx)

        def nullish(v, what, need, index=False):
            rg = st.regs.get(v[1]) if v[0] == "p" else None
            isnul = v == ZERO or (rg is not None and rg.null == "yes")
            if isnul and rg is not None and rg.kind == "nul":
                # the result of a failed allocation; as an index array it would silently mean "all points"
                self.report("spi-null-buffer", ins, ctx, f"{what} passed to {slot} is the result of a failed allocation")
            elif need:
                self.must_report("spi-null-buffer", isnul, ins, ctx, f"null {what} passed to {slot}", what)
            return isnul

        def touch(st, v, what, need=True):
            """callee writes into the buffer v"""
            if nullish(v, what, need):
                return
            if v[0] == "u":
                self.report("uninit", ins, ctx, f"uninitialised {what} passed to {slot}")
                return
            if v[0] != "p":
                return
            rg = st.regs.get(v[1])
            if rg is None:
                return
            if rg.status == "freed" and not rg.many:
                self.report("use-after-free", ins, ctx, f"released {what} passed to {slot}")
            if rg.null == "maybe":
                self.report("null-arg", ins, ctx, f"possibly-null {what} passed to {slot}")
            if rg.const:
                self.report("const-write", ins, ctx, f"read-only {self.rname(v[1])} passed to {slot} as output")
            m = st.own(v[1])
            m.cells = {} if not (rg.size is not None and not rg.size[1]) else m.cells
            m.summ = dict(m.summ)
            m.summ[(1, 0, 1)] = frozenset([ANY])
            m.cache = {}
            if m.init == "uninit":
                m.init = "havoc"

        def look(st, v, what, need=False):
            """callee reads the index array v (null means all points)"""
            if nullish(v, what, need, True):
                return
            if v[0] == "u":
                self.report("uninit", ins, ctx, f"uninitialised {what} passed to {slot}")
                return
            if v[0] != "p":
                return
            rg = st.regs.get(v[1])
            if rg is None:
                return
            if rg.status == "freed" and not rg.many:
                self.report("use-after-free", ins, ctx, f"released {what} passed to {slot}")
            m = st.mem.get(v[1])
            if m is not None:
                self.must_report("uninit", m.init == "uninit" and not m.cells and not m.summ, ins, ctx,
                                 f"{what} passed to {slot} was never written", what)

        def fail(st):
            s2 = st.copy()
            self.add_pend(s2, "dist", slot)
            return s2

        if slot == "check_data_set":
            if self.ds_answer is not None:
                st.ghost["ds_ok"] = self.ds_answer
                return [(st, ONE if self.ds_answer else ZERO)]
            s2 = st.copy()
            st.ghost["ds_ok"] = True
            s2.ghost["ds_ok"] = False
            return [(s2, ZERO), (st, ONE)]
        if slot == "num_data_points":
            a = AT.get(("spi", "num_data_points"), 0, 2 ** 64 - 1)
            return [(st, atom_val(a))]
        if slot == "get_dist_matrix":
            look(st, args[2], "index array")
            touch(st, args[3], "distance buffer")
            r = [(st, ONE)]
            if self.spi_fail and self.may_fail(st):
                r.insert(0, (fail(st), ZERO))
            return r
        if slot == "get_dist_rows":
            look(st, args[2], "index array")
            look(st, args[4], "index array")
            touch(st, args[5], "distance buffer")
            r = [(st, ONE)]
            if self.spi_fail and self.may_fail(st):
                r.insert(0, (fail(st), ZERO))
            return r
        if slot in ("init_max_dist_object", "init_nn_search_object"):
            kind = "max" if "max" in slot else "nn"
            look(st, args[2], "search index array")
            out = args[3]
            res = []
            if self.spi_fail and self.may_fail(st):
                s2 = fail(st)
                # on failure nothing is promised about the output
                self.poke(s2, out, LNULL, ins, ctx)
                res.append((s2, ZERO))
            r = ("obj", ctx + ((ins.fn, ins.id, ins.block),), kind)
            old = st.regs.get(r)
            back = args[2][1] if args[2][0] == "p" else None
            many = old is not None and old.status == "live"
            st.regs[r] = Reg("obj", many=many, site=f"{ins.file}:{ins.line}", extra=(kind, back), size=self.as_lin(args[1]))
            st.mem[r] = RegMem("havoc")
            self.poke(st, out, ("p", r, (0, ())), ins, ctx)
            res.append((st, ONE))
            return res
        if slot in ("get_max_dist", "nearest_neighbor_search"):
            kind = "max" if slot == "get_max_dist" else "nn"
            o = args[0]
            self.obj_check(st, o, kind, slot, ins, ctx, use=True)
            if slot == "get_max_dist":
                look(st, args[2], "query index array")
                touch(st, args[3], "index buffer")
                touch(st, args[4], "distance buffer")
            else:
                look(st, args[2], "query index array")
                nok = self.canon(st, args[6])
                if nok == ZERO:
                    self.report("spi-null-buffer", ins, ctx, "null count output passed to nearest_neighbor_search")
                rad = self.decide(st, args[4]) if args[4][0] != "u" else None
                touch(st, args[7], "query output buffer", need=(rad is True))
                touch(st, args[8], "neighbour buffer")
                if nok[0] == "p":
                    # number of answered queries: between 0 and the number asked; all of them without a radius
                    a = AT.get(("nok", ctx, ins.id), 0, 2 ** 64 - 1, org)
                    st.facts.drop_if(lambda K: any(x == a for x, _ in K))
                    ln = self.as_lin(args[1])
                    if self.none_found and rad is not False:
                        val = ZERO
                    elif rad is False and ln is not None:
                        val = ("i", ln)
                    else:
                        val = atom_val(a)
                        if ln is not None:
                            st.facts.assume_le(l_sub((0, ((a, 1),)), ln))
                    self.put(st, nok[1], nok[2], 8, val)
            r = [(st, ONE)]
            if self.spi_fail and self.may_fail(st):
                r.insert(0, (fail(st), ZERO))
            return r
        if slot in ("close_max_dist_object", "close_nn_search_object"):
            kind = "max" if "max" in slot else "nn"
            pp = self.canon(st, args[0])
            if pp == ZERO:
                return [(st, ONE)]
            if pp[0] == "p":
                d = self.deref(st, pp, ins, ctx, "read", 8)
                if d not in ("dead", None):
                    rr, off = d
                    vs = []
                    m = st.mem[rr]
                    c = m.cells.get(off[0]) if not off[1] else None
                    if c is None:
                        o = None
                        if not off[1] and m.init == "uninit":
                            self.report("spi-object", ins, ctx, f"{slot} on an object that was never created")
                    else:
                        o = self.canon(st, c[1])
                        if o[0] == "u":
                            self.report("spi-object", ins, ctx, f"{slot} on an object that was never created")
                        elif o[0] == "p":
                            self.obj_check(st, o, kind, slot, ins, ctx, use=False)
                            if o[1] in st.regs and st.regs[o[1]].kind == "obj":
                                st.regs[o[1]] = st.regs[o[1]].upd(status="freed")
                            self.put(st, rr, off, 8, LNULL)
            a = AT.get(("closed", ctx, ins.id), 0, 1, org)
            st.facts.drop_if(lambda K: any(x == a for x, _ in K))
            return [(st, atom_val(a))]
        raise AnalysisError("unknown slot " + slot)

    def poke(self, st, p, v, ins, ctx):
        p = self.canon(st, p)
        if p[0] != "p":
            if p == ZERO:
                self.report("spi-null-buffer", ins, ctx, "null object output")
            return
        d = self.deref(st, p, ins, ctx, "write", 8)
        if d in ("dead", None):
            return
        self.put(st, d[0], d[1], 8, v)

    def obj_check(self, st, o, kind, slot, ins, ctx, use):
        o = self.canon(st, o)
        if o == ZERO:
            if use:
                self.report("spi-object", ins, ctx, f"{slot} without a search object" + self.pend_note(st))
            return
        if o[0] == "u":
            self.report("spi-object", ins, ctx, f"{slot} on an object that was never created")
            return
        if o[0] != "p":
            return
        rg = st.regs.get(o[1])
        if rg is None:
            return
        if rg.kind != "obj":
            self.report("spi-object", ins, ctx, f"{slot} on something that is not a search object")
            return
        if rg.extra[0] != kind:
            self.report("spi-object", ins, ctx, f"{slot} on a search object of the other kind")
        if rg.status == "freed" and not rg.many:
            self.report("spi-object", ins, ctx, f"{slot} on a closed search object")
        back = rg.extra[1]
        if use and back is not None:
            b = st.regs.get(back)
            if b is None and back[0] == "h" or (b is not None and b.status == "freed" and not b.many):
                self.report("spi-object", ins, ctx, f"{slot} after the index array the search object was built on has been released")


NUL0 = ("null",)
LNULL = ("p", NUL0, (0, ()))
NUL = ("nul",)
NULP = ("p", NUL, (0, ()))


class _B:
    kind = "int"
    bits = 1
    size = 1


BOOL = _B()


class _N:
    file = ""
    line = 0
    fn = ""
    id = -1
    block = -1


NOINS = _N()
FT = {"oeq": {"eq"}, "ogt": {"gt"}, "oge": {"gt", "eq"}, "olt": {"lt"}, "ole": {"lt", "eq"}, "one": {"lt", "gt"},
      "ord": {"lt", "gt", "eq"}, "uno": {"nan"}, "ueq": {"eq", "nan"}, "ugt": {"gt", "nan"}, "uge": {"gt", "eq", "nan"},
      "ult": {"lt", "nan"}, "ule": {"lt", "eq", "nan"}, "une": {"lt", "gt", "nan"}, "true": {"lt", "gt", "eq", "nan"}, "false": set()}
FLIP = {"lt": "gt", "gt": "lt", "eq": "eq", "nan": "nan"}
FNEG = {"oeq": "une", "ogt": "ule", "oge": "ult", "olt": "uge", "ole": "ugt", "one": "ueq", "ord": "uno", "uno": "ord",
        "ueq": "one", "ugt": "ole", "uge": "olt", "ult": "oge", "ule": "ogt", "une": "oeq", "true": "false", "false": "true"}


def inside(a, x):
    if x < a[0] or x > a[2]:
        return False
    if x == a[0] and not a[1]:
        return False
    if x == a[2] and not a[3]:
        return False
    return True


def flat(a):
    n = AT.name[a]
    if isinstance(n, tuple) and n[0] == "prod":
        return n[1]
    return (a,)


def neg(c):
    if c[0] == "i":
        if not c[1][1]:
            return ZERO if c[1][0] else ONE
        # boolean quantity
        return ("c", "eq", c[1])
    if c[0] != "c":
        return c
    k = c[1]
    if k == "le":
        l = c[2]
        return ("c", "le", (1 - l[0], tuple((a, -x) for a, x in l[1])))
    if k == "eq":
        return ("c", "ne", c[2])
    if k == "ne":
        return ("c", "eq", c[2])
    if k == "null":
        return ("c", "nonnull", c[2])
    if k == "nonnull":
        return ("c", "null", c[2])
    if k == "fnull":
        return ("c", "fnonnull", c[2])
    if k == "fnonnull":
        return ("c", "fnull", c[2])
    if k == "f":
        return ("c", "f", FNEG[c[2]], c[3], c[4])
    return c


def ANYINT(eng, ins, ctx):
    if ins.ty.kind == "ptr":
        return ANY
    if ins.ty.kind == "fp":
        return ("f", AT.get(("fo", ctx, ins.id), -INF, INF, (ctx, ins.block)))
    return atom_val(AT.get(("an", ctx, ins.id), -INF, INF, (ctx, ins.block)))


def dump_keys(H):
    from collections import Counter
    c = Counter(x for k in H for x in k)
    for x, n in c.most_common():
        if n < len(H):
            print(n, x)


def same_state(a, b):
    if a.env != b.env or a.tau != b.tau or a.ghost != b.ghost:
        return False
    if set(a.regs) != set(b.regs):
        return False
    for r in a.regs:
        x, y = a.regs[r], b.regs[r]
        if x is not y and (x.key() != y.key() or x.size != y.size):
            return False
    for r in a.mem:
        x, y = a.mem[r], b.mem.get(r)
        if x is y:
            continue
        if y is None or x.cells != y.cells or x.summ != y.summ or x.cache != y.cache or x.init != y.init:
            return False
    if a.facts.d != b.facts.d:
        return False
    if a.ff != b.ff:
        return False
    return True
