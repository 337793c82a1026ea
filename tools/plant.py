"""plant.py FILE.py: create /verif/seeded/<id>/ from a description and confirm the demonstration.

FILE.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new)], DEMO (source using demo_lib)."""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def plant(d):
    sc = "/tmp/plant/repo"
    shutil.rmtree("/tmp/plant", ignore_errors=True)
    os.makedirs("/tmp/plant")
    sh("cp", "-a", "/repo", sc)
    out = os.path.join(V, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "demo.py"), "w").write("from demo_lib import main, near\n" + d["DEMO"].strip() + "\n")
    shutil.copy(os.path.join(V, "tools/demo_lib.py"), out)
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    base = sh("bash", os.path.join(out, "demo.sh"), cwd=sc)
    for path, old, new in d["EDITS"]:
        p = os.path.join(sc, path)
        s = open(p).read()
        assert s.count(old) == 1, (d["ID"], path, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "diff", cwd=sc).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    bad = sh("bash", os.path.join(out, "demo.sh"), cwd=sc)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    ok = base.returncode == 0 and bad.returncode != 0
    print(d["ID"], "demo base", base.returncode, "patched", bad.returncode, "" if ok else "NOT OK\n" + base.stderr[-1500:] + bad.stderr[-500:])
    if not ok:
        shutil.rmtree(out)
        return
    if "--check" in sys.argv:
        r = sh("/opt/venv/bin/python", "check.py", d["PROPERTY"], cwd=V, env=dict(os.environ, SYMX_REPO=sc))
        print("   check:", r.returncode, [l for l in r.stdout.splitlines() if not l.startswith("INCON")][-3:][0][:300] if r.stdout else r.stderr[-800:])
        inc = [l for l in r.stdout.splitlines() if l.startswith("INCON")]
        if inc:
            print("   inconclusive:", len(inc), inc[0][:200])


for f in sys.argv[1:]:
    if f.endswith(".py"):
        m = runpy.run_path(f)
        for d in m["BUGS"]:
            plant(d)
shutil.rmtree("/tmp/plant", ignore_errors=True)
