"""DESIGN.md = tools/DESIGN.in.md with the generated tables filled in"""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
s = open(V + "/tools/DESIGN.in.md").read()
rows = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    f = f"{V}/checks/{p['id'].lower()}.py"
    if os.path.exists(f):
        m = importlib.import_module("checks." + p["id"].lower())
        b = "; ".join(f"{k}: {v}" for k, v in m.BOUNDS.items())
        rows.append(f"| {p['id']} | {p['title']}: {m.EXPLAIN} | {getattr(m, 'ORACLE', 'plain torch on the decrypted values')} | {b}. Assumes: {'; '.join(m.ASSUMPTIONS)} |")
    else:
        rows.append(f"| {p['id']} | {p['title']} | - | not claimed, see section 5 / MANIFEST.json |")
kf = json.load(open(V + "/known_findings.json"))
fx = "\n".join("* " + f for f in kf["fixed"]) + "\n\nKnown findings (not repaired):\n" + ("\n".join(f"* {k['property']} {k['what']}" for k in kf["findings"]) or "* none")
res = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
bl = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = d.split("/")[-2]
    bl.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(i, '?')} |")
bugs = "| bug | property | breaks | needs | outcome |\n|---|---|---|---|---|\n" + "\n".join(bl)
open(V + "/DESIGN.md", "w").write(s.replace("@@TABLE@@", "\n".join(rows)).replace("@@FIXES@@", fx).replace("@@BUGS@@", bugs))
