"""mutate.py [ID ...]: run each planted bug's check against a patched copy of /repo; prints caught / missed"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
sc = f"/tmp/mut{os.getpid()}/repo"
os.makedirs(os.path.dirname(sc))
subprocess.run(["cp", "-a", "/repo", sc], check=True)
RES = os.path.join(V, "tools/caught.json")
res = json.load(open(RES)) if os.path.exists(RES) else {}
try:
    for b in sys.argv[1:] or sorted(os.listdir(S)):
        m = json.load(open(f"{S}/{b}/meta.json"))
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=sc, check=True)
        subprocess.run(["git", "apply", f"{S}/{b}/patch.diff"], cwd=sc, check=True)
        r = subprocess.run(["/opt/venv/bin/python", "check.py", m["property"]], cwd=V, env=dict(os.environ, SYMX_REPO=sc), capture_output=True, text=True)
        w = [l for l in r.stdout.splitlines() if "tier=" in l]
        res[b] = out = "caught" if r.returncode == 1 and "VIOLATION" in r.stdout else "missed"
        print(b, m["property"], "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else f"MISSED rc={r.returncode}", w[-1].split("wall")[-1] if w else r.stderr[-300:], flush=True)
finally:
    shutil.rmtree(os.path.dirname(sc))
    json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
