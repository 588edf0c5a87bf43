#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids]: builds, tests and confirms planted bugs in a scratch copy, then stores them under /verif/seeded."""
import json, os, shutil, subprocess, sys, tempfile
KIT = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(os.path.dirname(KIT)), "seeded")


def sh(cmd, cwd, t=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def one(spec):
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        r = os.path.join(w, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        subprocess.call(["cp", "-a", "/repo/_build", r + "/_build"])
        for s in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + s).read().replace("/repo", r)
            open(os.path.join(w, s), "w").write(t)
        d = os.path.join(w, "demo")
        os.makedirs(d)
        open(d + "/demo.c", "w").write(spec["demo"])
        shutil.copy(KIT + "/harness.h", d)
        shutil.copy(KIT + "/demo.sh", d)
        if spec.get("flags"):
            open(d + "/flags", "w").write(spec["flags"])
        rc, o = sh(["bash", w + "/build.sh"], r)
        if rc:
            return "base build failed\n" + o[-800:]
        rc, o = sh(["bash", d + "/demo.sh"], r)
        if rc:
            return f"demo fails on base: {rc}\n" + o[-1500:]
        for f, old, new in spec["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"edit anchor occurs {s.count(old)} times in {f}"
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], r)
        # lines added by our own fix commits must not be what is changed
        rc, o = sh(["bash", w + "/build.sh"], r)
        if rc:
            return "build failed\n" + o[-1500:]
        rc, o = sh(["bash", d + "/demo.sh"], r)
        if rc == 0 or rc == 99:
            return f"demo does not fail with the change ({rc})\n" + o[-600:]
        demo_out = o[-300:]
        out = os.path.join(w, "t.json")
        rc, o = sh(["bash", w + "/test.sh", out], r, 900)
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open(out))
        bp = set(base.get("passed") or base.get("tests") or base.get("stable") or [])
        ps = set(res.get("passed") or [])
        if not bp or bp - ps:
            return f"tests fail: {sorted(bp - ps)[:8]} (baseline {len(bp)}, passed {len(ps)})"
        dst = os.path.join(SEED, spec["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        return "kept: " + demo_out.replace("\n", " | ")
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    for s in ns["SPECS"]:
        if ids and s["id"] not in ids:
            continue
        print(s["id"], "->", one(s), flush=True)
