"""development aid: run1.py PROP [scenario regex] analyses the tree in $SCC_REPO with a part of a check's scenarios"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from rules import runner
from rules.props import PROPS
pr = PROPS[sys.argv[1]]
rx = re.compile(sys.argv[2] if len(sys.argv) > 2 else "")
jobs = [j for j in pr.quick() if rx.search(j.scenario) and (j.config == "default" or not os.environ.get("DEFAULT"))]
fs, inc = {}, []
if jobs:
    rs = runner.run_jobs(jobs)
    if pr.cross:
        for f in pr.cross(rs):
            fs[f["what"]] = f
    for r in rs:
        if not r["complete"]:
            inc.append((r["job"], r["error"]))
        for f in r["findings"]:
            if pr.select(f):
                fs.setdefault((f["rule"], f["function"], f["what"]), f)
if pr.extra and len(sys.argv) <= 2:
    for f in pr.extra("quick")[0]:
        fs.setdefault((f["rule"], f["function"], f["what"]), f)
print(f"{len(jobs)} jobs, {len(fs)} findings" + "".join(f" | {f['function']}:{f['line']} [{f['rule']}] {f['what']} ({f['scenario']})" for f in list(fs.values())[:12])
      + "".join(f" INCOMPLETE {i}" for i in inc[:3]))
