"""The latest-error query: what it writes, where, and for which code."""
from engine.dom import *
from engine.state import *
from engine.interp import LNULL
from engine.scen import P, cell
from .scenarios import scenario, old_record, setnull, ERRNAMES
from .contracts import le, K
from .objects import isnull

FORMAT = {"snprintf", "vsnprintf", "strlcpy", "strlcat"}
UNBOUNDED = {"sprintf", "vsprintf", "strcpy", "strcat", "stpcpy", "gets"}
OPEN = {"strncpy", "stpncpy", "memcpy", "memmove"}


class Writes:
    """watches everything that reaches the caller's buffer"""

    def __init__(self, buf, ln):
        self.buf, self.ln, self.texts = buf, ln, []

    def extern(self, eng, st, name, args, ins, ctx):
        if not args or args[0][0] != "p" or args[0][1] != self.buf:
            return
        off = args[0][2]
        if name in UNBOUNDED:
            eng.report("error-buffer", ins, ctx, f"{name} writes to the message buffer whatever its length")
        n = {"snprintf": 1, "vsnprintf": 1, "strlcpy": 2, "strlcat": 2, "strncpy": 2, "stpncpy": 2}.get(name)
        if n is not None:
            l = eng.as_lin(args[n])
            if l is not None and off is not None:
                d = l_sub(l_add(l, off), self.ln)
                lo, hi = st.facts.range(d)
                if hi > 0 and (lo > 0 or all(AT.name[a][0] == "arg" for a, _ in d[1])):
                    eng.report("error-buffer", ins, ctx, f"{name} is told the message buffer is longer than it is")
        if name in FORMAT or name in UNBOUNDED:
            st.ghost["msg"] = "done"
        elif name in OPEN:
            st.ghost["msg"] = "open"
        if name == "snprintf":
            t = tuple(a[1] for a in args[2:] if a[0] == "p")
            self.texts.append((st.ghost.get("code"), t))

    def store(self, eng, st, r, off, size, v, ins, ctx):
        if r != self.buf:
            return
        if v[0] == "copy":
            st.ghost["msg"] = "open"
        elif v == ZERO or (v[0] == "set" and v[1] == ZERO):
            st.ghost["msg"] = "done"


def watch(sc, st, ln, o):
    h = Writes(o, ln)
    sc.eng.hook = h
    sc.eng.on_store = h.store
    return h


def query(sc, st, null="no"):
    ln = sc.atom("len_error_message_buffer")
    o = sc.out(st, "error_message_buffer", 0, null=null)
    st.regs[o] = st.regs[o].upd(size=ln[1])
    return ln, o


def answer(chk, ex):
    r = ex.ret
    return chk.eng.decide(ex.st, r) if r is not None and r[0] in ("i", "c") else None


@scenario("latest-error")
def s_latest_error(sc, st, kind):
    old_record(sc, st)
    e = sc.eng
    ln, o = query(sc, st, "yes" if kind == "null" else "no")
    if kind == "empty":
        ln = ZERO
        st.regs[o] = st.regs[o].upd(size=None)
    else:
        le(st, K(1), ln[1])
    h = watch(sc, st, ln[1], o)
    if kind in ("null", "empty"):
        def post(chk, exs):
            for ex in exs:
                chk.ok()
                if answer(chk, ex) is not False:
                    chk.bad(ex, "error-buffer", f"{chk.fname} does not refuse {'a missing' if kind == 'null' else 'an empty'} buffer")
                if "msg" in ex.st.ghost:
                    chk.bad(ex, "error-buffer", f"{chk.fname} writes to {'a missing' if kind == 'null' else 'an empty'} buffer")
        return "scc_get_latest_error", [ln, P(o)], [post]

    def post(chk, exs):
        for ex in exs:
            chk.ok()
            a, m = answer(chk, ex), ex.st.ghost.get("msg")
            if a is True and m is None:
                chk.bad(ex, "error-buffer", f"{chk.fname} reports success without writing a message")
            if a is True and m == "open":
                chk.bad(ex, "error-buffer", f"{chk.fname} may leave the message without its end")
            if a is False and m is None:
                chk.bad(ex, "error-buffer", f"{chk.fname} refuses a usable buffer")
    return "scc_get_latest_error", [ln, P(o)], [post]


def literal(e, r):
    g = e.mod.globals.get(r[1]) if isinstance(r, tuple) and r[0] == "g" else None
    return g is not None and (g.name.startswith(".str") or (g.const and g.init is not None and g.init.kind == "str"))


@scenario("error-text")
def s_error_text(sc, st):
    """each code has a text of its own"""
    old_record(sc, st)
    e = sc.eng
    ln, o = query(sc, st)
    le(st, K(1), ln[1])
    h = watch(sc, st, ln[1], o)
    base = st.copy()

    def post(chk, exs):
        by = {}
        for c in sorted(ERRNAMES):
            s = base.copy()
            cell(s, ("g", e.err_global[0]), e.err_global[1], 4, I(c))
            for g, off in e.rec_ptrs:
                cell(s, g, off, 8, LNULL)
            s.ghost["code"] = c
            h.texts = []
            for x, rv in e.call(e.mod.funcs[chk.fname], s, [ln, P(o)], (("code", c, 0),), None):
                pass
            chk.ok()
            ts = {t for _, t in h.texts if t and t[-1] is not None}
            # a text counts as known only when it is one constant string: "some entry of a table" says nothing
            if len(ts) == 1 and all(literal(e, r) for r in next(iter(ts))):
                by.setdefault(ts.pop(), []).append(c)
        for t, cs in by.items():
            if len(cs) > 1:
                chk.bad(None, "error-text", f"{chk.fname} reports {' and '.join(ERRNAMES[c] for c in cs)} with the same text")
    return "scc_get_latest_error", [ln, P(o)], [post]


ERRORS = ["latest-error:any", "latest-error:null", "latest-error:empty", "error-text"]
