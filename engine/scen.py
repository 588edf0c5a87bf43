"""Abstract callers: for every public function, the initial states that cover all of its possible calls."""
from .dom import *
from .state import *
from .interp import Engine

U64M = 2 ** 64 - 1


def cell(st, r, off, size, v):
    st.own(r).cells[off] = (size, v)


def P(r):
    return ("p", r, (0, ()))


class Scen:
    """helper collecting the regions of one abstract call"""

    def __init__(self, eng):
        self.eng = eng
        self.p = eng.probe

    def state(self):
        return self.eng.new_state()

    def off(self, s, f):
        return self.p[f"off__{s}__{f}"], self.p[f"siz__{s}__{f}"]

    def field(self, st, r, s, f, v):
        o, z = self.off(s, f)
        cell(st, r, o, z, v)

    def fieldval(self, st, r, s, f):
        o, z = self.off(s, f)
        c = st.mem[r].cells.get(o)
        return c[1] if c else None

    def atom(self, name, bits=64):
        return atom_val(AT.get(("arg", name), 0, 2 ** bits - 1))

    def data_set(self, st):
        """the caller's data set: only the installed search functions know what is behind the pointer"""
        r = self.eng.input_region(st, "data_set", null="no", const=False, size=(0, ()))
        self.eng.opaque_data = r
        return P(r)

    def clustering(self, st, name="clustering", const=False, null="maybe", label="maybe", owned=None, label_const=None):
        """a clustering object the caller holds"""
        e, p = self.eng, self.p
        r = e.input_region(st, name, null=null, const=const, size=(p["sz__scc_Clustering"], ()))
        lr = e.input_region(st, name + " labels", null=label, const=const if label_const is None else label_const,
                            extra=("owned",) if owned else ())
        n = self.atom(name + ".n")
        k = self.atom(name + ".k")
        self.field(st, r, "scc_Clustering", "clustering_version", self.atom(name + ".version", 32))
        self.field(st, r, "scc_Clustering", "num_data_points", n)
        self.field(st, r, "scc_Clustering", "num_clusters", k)
        self.field(st, r, "scc_Clustering", "cluster_label", P(lr))
        self.field(st, r, "scc_Clustering", "external_labels",
                   atom_val(AT.get(("arg", name + ".external"), 0, 1)) if owned is None else (ZERO if owned else ONE))
        # the label array, when there is one, has one label per data point
        st.regs[lr] = st.regs[lr].upd(size=l_scale(n[1], p["sz__scc_Clabel"]))
        return r, lr

    def options(self, st, null="maybe"):
        e, p = self.eng, self.p
        r = e.input_region(st, "options", null=null, const=True, size=(p["sz__scc_ClusterOptions"], ()))
        S = "scc_ClusterOptions"
        for f in ("type_constraints", "type_labels", "primary_data_points"):
            a = e.input_region(st, "options." + f, null="maybe", const=True)
            self.field(st, r, S, f, P(a))
        for f in ("options_version", "size_constraint", "seed_method", "primary_unassigned_method",
                  "secondary_unassigned_method", "seed_radius", "primary_radius", "secondary_radius", "batch_size"):
            self.field(st, r, S, f, self.atom("opt." + f, 32))
        for f in ("num_types", "len_type_labels", "len_primary_data_points"):
            self.field(st, r, S, f, self.atom("opt." + f, 64))
        for f in ("seed_supplied_radius", "primary_supplied_radius", "secondary_supplied_radius"):
            self.field(st, r, S, f, ("f", AT.get(("arg", "opt." + f))))
        return r

    def out(self, st, name, size, null="maybe"):
        r = self.eng.out_region(st, name, (size, ()))
        st.regs[r] = st.regs[r].upd(null=null)
        return r
