"""screen.py [ids]: run the repository's own tests against each planted bug (in a private mount
namespace where a patched copy lies over /repo) and record in tools/screened.json whether they
notice it."""
import hashlib
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, "tools/screened.json")
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    p = os.path.join(V, "seeded", i, "patch.diff")
    h = hashlib.sha256(open(p, "rb").read()).hexdigest()[:16] if i != "BASE" else "base"
    if res.get(i, {}).get("patch") == h:
        continue
    sc = "/tmp/screen/repo"
    shutil.rmtree("/tmp/screen", ignore_errors=True)
    os.makedirs("/tmp/screen/reports")
    subprocess.run(["cp", "-a", "/repo", sc], check=True)
    if i != "BASE":
        subprocess.run(["git", "apply", p], cwd=sc, check=True)
    cmd = "mount --bind /tmp/screen/repo /repo && mkdir -p /opt/vp/reports && mount -t tmpfs none /opt/vp/reports && bash /opt/vp/test.sh /tmp/screen/out.json"
    subprocess.run(["unshare", "-m", "bash", "-c", cmd], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    o = json.load(open("/tmp/screen/out.json"))
    bad = set(o.get("failed") or o.get("fail") or [])
    good = set(o.get("passed") or o.get("pass") or [])
    miss = sorted(stable - good)
    # some tests hang now and then, also on the unchanged tree: give the lost ones two more chances
    for t in range(2):
        if not miss:
            break
        mods = sorted({".".join(m.split(".")[:2]) for m in miss})
        rt = "export PYTHONHASHSEED=0 PYTHONPATH=/repo PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 GLOO_SOCKET_IFNAME=lo PYTHONDONTWRITEBYTECODE=1; cd /repo; R=/opt/vp/reports; "
        rt += "/opt/venv/bin/python /opt/vp/run_tests.py $R -j 5 " + " ".join(mods) + "; cp $R/results.txt /tmp/screen/again.txt"
        cmd2 = cmd.split("&& bash")[0] + "; " + rt
        subprocess.run(["unshare", "-m", "bash", "-c", cmd2], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ok = {l.split()[1] for l in open("/tmp/screen/again.txt") if l.startswith("PASS ")}
        miss = [m for m in miss if m not in ok]
    res[i] = {"patch": h, "stable_tests_lost": miss}
    print(i, "survives the tests" if not miss else f"CAUGHT BY TESTS {miss[:4]}", flush=True)
    json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)
shutil.rmtree("/tmp/screen", ignore_errors=True)
