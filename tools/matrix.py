#!/usr/bin/env python3
"""Development tool: runs each planted bug's own check (quick) on a scratch copy of /repo with the bug applied.

matrix.py OUT.json [ID...]   appends what was found, ID by ID
matrix.py OUT.json --table   prints the table for DESIGN.md
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]
done = json.load(open(out)) if os.path.exists(out) else {}
if sys.argv[2:] == ["--table"]:
    print("| Bug | Property | Needs | Caught by (facet) |")
    print("|---|---|---|---|")
    for i in sorted(done, key=lambda k: (done[k]["property"], k)):
        d = done[i]
        print("| `%s` | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "\\|"), ", ".join("`%s`" % f for f in d["facets"]) or ("rc %d" % d["rc"])))
    sys.exit()
for i in sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded"))):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    scratch = tempfile.mkdtemp(prefix="matrix", dir="/tmp")
    try:
        r = os.path.join(scratch, "r")
        subprocess.check_call(["cp", "-a", "/repo", r])
        subprocess.check_call(["git", "-C", r, "apply", os.path.join(d, "patch.diff")])
        env = dict(os.environ, PBT_REPO=r, PBT_BUILD=os.path.join(scratch, "b"), VERIF_SEED="1", VERIF_TIER="quick")
        p = subprocess.run([sys.executable, os.path.join(V, "run.py"), meta["property"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        facets = sorted(set(re.findall(r"VIOLATION property=\S+ replay=\S*/C\d+-([A-Za-z0-9_]+?)-[0-9a-f]+\.json", p.stdout)))
        done[i] = dict(property=meta["property"], needs=meta["needs"], rc=p.returncode, facets=facets)
        print(i, done[i]["property"], p.returncode, facets, flush=True)
        json.dump(done, open(out, "w"), indent=1)
    finally:
        shutil.rmtree(scratch)
