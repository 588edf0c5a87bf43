import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules.props import PROPS
NA = {
 "N01": "whether clusters reach the required sizes depends on the arcs present in graphs built from run-time data; no static argument in reach bounds them, only the constraint values' flow (P12) and the checker's structure (P18) are decided",
 "N02": "disjointness and maximality of seeds quantify over run-time neighbour lists; they need a proof over array contents (another technique family)",
 "N03": "numerical correctness of searches over arbitrary real data is a run-time value property",
 "N04": "the arc sets computed by the graph operations depend on run-time marker contents; needs functional verification of array programs",
 "N05": "numerical result of floating-point accumulations",
 "N06": "optimality over all partitions of the data; a mathematical theorem about run-time values, with no clause visible in the code's shape",
 "N07": "termination depends on run-time sizes shrinking; no ranking function is derivable from the shape of the code alone",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        c = {"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
             "technique": "static analysis: " + q.technique, "level": q.level, "level_note": q.note}
        checks.append(c)
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q engine rules check.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
