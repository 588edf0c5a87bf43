"""Runs abstract-interpretation jobs in parallel and turns their results into a verdict and an evidence file."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import build, dom, interp, state  # noqa: E402
from engine import scen  # noqa: E402

_MODS = {}


class Job:
    """one abstract call: scenario + library configuration + engine settings"""

    def __init__(self, scenario, config="default", defs=(), cost=1, **eng):
        self.scenario, self.config, self.defs, self.cost, self.eng = scenario, config, tuple(defs), cost, eng

    def name(self):
        s = self.scenario
        if self.config != "default":
            s += f" [{self.config}]"
        if self.defs:
            s += " [" + " ".join(self.defs) + "]"
        for k in sorted(self.eng):
            s += f" {k}={self.eng[k]}"
        return s


def _work(job):
    from . import contracts, scenarios
    t0 = time.time()
    mod, probe, units = _MODS[(job.config, job.defs)]
    dom.reset_atoms()
    state.clear_caches()
    res = {"job": job.name(), "findings": [], "error": None, "complete": False}
    kw = dict(job.eng)
    kw.setdefault("max_states", 1500)
    kw.setdefault("time_limit", 700)
    post_args = {k: kw.pop(k) for k in list(kw) if k.startswith("x_")}
    eng = None
    try:
        build_fn = scenarios.get(job.scenario)
        eng = interp.Engine(mod, probe, **kw)
        eng.err_global = scenarios.err_global(mod, probe)
        sc = scen.Scen(eng)
        st = sc.state()
        st.ghost["pend"] = state.NOFS
        fname, args, post = build_fn(sc, st)
        if fname not in mod.funcs or mod.funcs[fname].decl:
            raise interp.AnalysisError(f"public function {fname} is not defined")
        exits = eng.run(fname, st, args)
        eng.flush_must()
        res["complete"] = True
        res["exits"] = len(exits)
        if post is not None:
            scenarios.run_post(eng, sc, fname, exits, post)
    except interp.AnalysisError as e:
        res["error"] = f"{type(e).__name__}: {e}"
    except contracts.Vacuous:
        res["complete"], res["exits"], res["vacuous"] = True, 0, True
    except Exception as e:  # engine bug: never a verdict
        res["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    if eng is not None:
        res["findings"] = [dict(f.as_dict(), scenario=job.name()) for f in eng.findings.values()]
        res["stats"] = {k: (v if isinstance(v, int) else len(v)) for k, v in eng.stats.items()}
        res["sites"] = {k: [list(map(str, x)) if isinstance(x, tuple) else x for x in eng.stats[k]] for k in ("allocs", "frees", "spi", "funcs")}
        res["contract"] = [sorted(map(list, eng.stats.get(k, ()))) for k in ("contract", "contract_open")]
        res["search_sets"] = sorted(eng.stats.get("search_sets", ()))
        res["obligations"] = getattr(eng, "obligations", 0)
        res["must_sites"] = len(eng.must)
    res["wall"] = round(time.time() - t0, 2)
    return res


def lower_all(jobs):
    for j in jobs:
        k = (j.config, j.defs)
        if k not in _MODS:
            _MODS[k] = m = build.lower(j.config, list(j.defs))
            m[1]["k__OPTIONS_VERSION"] = options_version(m[0], m[1])
    return _MODS


def options_version(mod, probe):
    """the version stamp that valid options carry, as the library itself hands it out"""
    dom.reset_atoms()
    state.clear_caches()
    e = interp.Engine(mod, probe, max_states=50, time_limit=60)
    sc = scen.Scen(e)
    st = sc.state()
    o = sc.out(st, "result", probe["sz__scc_ClusterOptions"], null="no")
    ex = e.run("scc_get_default_options", st, [("p", o, (0, ()))])
    vs = {s.mem[o].cells.get(probe["off__scc_ClusterOptions__options_version"]) for s, _ in ex}
    v = vs.pop() if len(vs) == 1 else None
    if v is None or v[1][0] != "i" or v[1][1][1]:
        raise interp.AnalysisError("the default options carry no constant version stamp")
    return v[1][1][0]


def run_jobs(jobs, procs=None):
    lower_all(jobs)
    jobs = sorted(jobs, key=lambda j: -j.cost)
    procs = procs or min(len(jobs), max(2, os.cpu_count() or 8))
    if len(jobs) == 1:
        return [_work(jobs[0])]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        return list(pool.imap_unordered(_work, jobs, chunksize=1))
