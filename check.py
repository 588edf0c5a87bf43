#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property of /repo's current source by static analysis.
Exit 0: held on everything analysed; exit 1 + VIOLATION line: broken; exit 2: the analysis itself could not be done."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from rules import runner  # noqa: E402
from rules.props import PROPS  # noqa: E402
from engine import build  # noqa: E402


def known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: "):
                d = dict(x.split("=", 1) for x in ln[7:].split(" | ")[0].split() if "=" in x)
                d["text"] = ln[7:]
                out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = PROPS[pid]
    t0 = time.time()
    jobs = (prop.thorough if tier == "thorough" else prop.quick)()
    results = []
    findings = []
    extra_cov = {}
    try:
        if jobs:
            results = runner.run_jobs(jobs)
        if prop.extra:
            fs, extra_cov = prop.extra(tier)
            findings += fs
        if prop.cross:
            findings += prop.cross(results)
    except build.BuildError as e:
        print(f"ERROR property={pid}: cannot lower /repo: {e}")
        return 2
    except runner.interp.AnalysisError as e:
        print(f"ERROR property={pid}: {e}")
        return 2
    incomplete = [r for r in results if not r["complete"]]
    broken = [r for r in incomplete if r["error"] and not r["error"].startswith("TooBig")]
    for r in incomplete:
        print(f"INCOMPLETE {r['job']}: {r['error']}")
    seen = {}
    for r in results:
        for f in r["findings"]:
            if prop.select(f):
                k = (f["rule"], f["function"], f["what"])
                if k not in seen:
                    seen[k] = f
    findings += list(seen.values())
    stats = {}
    sites = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r.get("sites", {}).items():
            sites.setdefault(k, set()).update(tuple(x) if isinstance(x, list) else x for x in v)
    stat_max = {k: len(v) for k, v in sites.items()}
    for k in ("stores", "loads", "deref"):
        stat_max[k] = max([r.get("stats", {}).get(k, 0) for r in results] or [0])
    kn = [k for k in known() if k.get("property") == pid]
    new, old = [], []
    for f in findings:
        hit = next((k for k in kn if k.get("rule") == f["rule"] and k.get("function") == f["function"]
                    and (k.get("match", "").replace("_", " ") in f["what"])), None)
        (old if hit else new).append((f, hit))
    explored = [r for r in results if r["complete"]]
    status = 0
    if new:
        status = 1
    elif results and 3 * len(broken) > len(results):
        status = 2
    elif results and not explored:
        status = 2
    if status == 0:
        for k, v in prop.floor.items():
            if stat_max.get(k, 0) < v and not incomplete:
                print(f"ERROR property={pid}: only {stat_max.get(k, 0)} {k} sites found, expected at least {v}: the analysis no longer sees the code")
                status = 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    vf = os.path.join("evidence", f"{pid}.violations.json")
    if new:
        with open(os.path.join(HERE, vf), "w") as fh:
            json.dump([f for f, _ in new], fh, indent=1)
    elif os.path.exists(os.path.join(HERE, vf)):
        os.remove(os.path.join(HERE, vf))
    units = []
    for m in runner._MODS.values():
        units = m[2]
    cov = {
        "explanation": f"{prop.technique}. Rule: {prop.rule}. {prop.note}",
        "rule": prop.rule,
        "configurations": sorted({j.config + ("" if not j.defs else " " + " ".join(j.defs)) for j in jobs}),
        "translation_units": units,
        "scenarios": [{"name": r["job"], "complete": r["complete"], "abstract_exits": r.get("exits"), "wall_s": r["wall"],
                       "functions": r.get("stats", {}).get("funcs"), "abstract_steps": r.get("stats", {}).get("steps"),
                       "exit_obligations": r.get("obligations", 0)} for r in sorted(results, key=lambda r: r["job"])],
        "functions_analysed": sorted(x if isinstance(x, str) else x[0] for x in sites.get("funcs", ())),
        "call_sites": {"allocation": stat_max.get("allocs", 0), "release": stat_max.get("frees", 0), "callback": stat_max.get("spi", 0)},
        "dereferences_checked": stat_max.get("deref", 0),
        "exit_obligations": sum(r.get("obligations", 0) for r in results),
        "incomplete": [{"name": r["job"], "why": r["error"]} for r in incomplete],
        "violations": len(new), "known_findings": len(old),
    }
    cl = {tuple(x) for r in results for x in r.get("contract", [[], []])[0]}
    if cl:
        op = {tuple(x[:4]) for r in results for x in r["contract"][1]}
        cov["callback_clauses"] = {"checked": len(cl), "proved_in_every_state": len(cl - op), "open": [" / ".join(x) for x in sorted(op)]}
    cov.update(extra_cov)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for f, hit in old:
        print(f"KNOWN-FINDING: property={pid} {hit['text']}")
    for f, _ in new:
        print(f"  {f['file'].split('src_tree/')[-1].split('out/')[-1]}:{f['line']} in {f['function']}: [{f['rule']}] {f['what']}"
              + (f" (after {', '.join(f['after_failure'])} failure)" if f.get("after_failure") else "")
              + (f" path: {f['call_path']}" if f.get("call_path") else "") + f" scenario: {f.get('scenario', '-')}")
    if status == 1:
        print(f"VIOLATION property={pid} replay={vf}")
    elif status == 0:
        print(f"OK property={pid}: {len(explored)} scenarios, {stat_max.get('funcs', 0)} functions, {cov['exit_obligations']} exit obligations, {ev['wall_s']} s")
    return status


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
