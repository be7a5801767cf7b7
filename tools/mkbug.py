#!/usr/bin/env python3
"""Development tool: turns the specs of a file into /verif/seeded/<id>/ and confirms them in a scratch copy of /repo.

A spec file is Python defining BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks, flags)].
mkbug.py SPECFILE [ID...]
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
exe=$(mktemp)
g++ -std=gnu++14 -w %s -pthread -I"$PWD" "$here/demo.cpp" -o "$exe" -latomic || { rm -f "$exe"; exit 3; }
timeout 250 "$exe"
rc=$?
unlink "$exe"
exit $rc
'''
PRE = '''#include <functional>
#include <array>
#include <iterator>
#include <algorithm>
#include <vector>
#include <string>
#include <sstream>
#include <thread>
#include <iostream>
#include <map>
#include <set>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
#define EXPECT(c) do { if (!(c)) { std::cerr << "broken: " << #c << std::endl; return 1; } } while (0)
'''
specs = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
stable = json.load(open("/opt/vp/BASELINE.json"))
for b in specs:
    if only and b["id"] not in only:
        continue
    scratch = tempfile.mkdtemp(prefix="bug", dir="/tmp")
    r = os.path.join(scratch, "r")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["cp", "-a", "/repo", r])
    msgs = []
    for f, old, new in b["edits"]:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            msgs.append("%s: %d occurrences of %r" % (f, s.count(old), old))
            continue
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
    # which removed lines are the original's?
    blame_base = 0
    for f in set(e[0] for e in b["edits"]):
        removed = [l for l in subprocess.check_output(["git", "-C", r, "diff", "-U0", f], text=True).splitlines() if l.startswith("@@")]
        for h in removed:
            a = h.split()[1][1:]
            start, n = (a.split(",") + ["1"])[:2] if "," in a else (a, "1")
            if int(n):
                out = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", "-L", "%s,+%s" % (start, n), "HEAD", "--", f], text=True)
                blame_base += sum(1 for l in out.splitlines() if l.lstrip("^").startswith(base[:30]))
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(b["demo"] if b.get("raw") else PRE + b["demo"])
    if b.get("units"):
        open(os.path.join(d, "other.cpp"), "w").write("\n".join(l for l in b["demo"].splitlines() if l.startswith("#include")) + "\nint other() { return 0; }\n")
    open(os.path.join(d, "demo.sh"), "w").write((DEMO.replace('"$here/demo.cpp"', '"$here/demo.cpp" "$here/other.cpp"') if b.get("units") else DEMO) % b.get("flags", "-O1"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    clean = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(b["id"], b["property"], "| original lines changed:", blame_base, "| clean:", clean.returncode, clean.stdout.strip()[-200:], "| patched:", bad.returncode, bad.stdout.strip()[-200:], "|", "; ".join(msgs), flush=True)
    shutil.rmtree(scratch)
