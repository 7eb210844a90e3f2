#!/usr/bin/env python3
"""plant.py SPEC.py : author and confirm planted bugs in a scratch copy of /repo (under /tmp).

SPEC.py defines PLANTS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ source)].
Each is kept under seeded/<id> once it compiles, passes the tests, and its demo separates the two trees."""
import json, os, re, shutil, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
DEMO = '''#!/bin/bash
# run in the repository: 0 when the property holds, nonzero when it is broken
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
g++ -std=gnu++%s %s -w -I. -pthread "$d/demo.cpp" -o "$t/demo" -latomic
timeout 120 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build_and_test():
    r = sh("cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_C_COMPILER=/usr/bin/gcc && ninja -C %s/_build -j8" % (W, W, W))
    if r.returncode: return "build: " + r.stdout[-1500:]
    r = sh("rm -rf {w}/_build/reports && mkdir -p {w}/_build/reports && cd {w}/_build && python3 /opt/vp/run_catch.py {w}/_build/reports '' test/cxxmetrics_test test/cxxmetrics_prometheus_test && python3 /opt/vp/results.py /tmp/plant.json 'junit:{w}/_build/reports/*.xml' 'lines:{w}/_build/reports/extra.txt'".format(w=W))
    res = json.load(open("/tmp/plant.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests")
    lost = [t for t in want if t not in res["passed"]]
    return "tests lost: %s" % lost if lost else None
def main():
    plants = runpy.run_path(sys.argv[1])["PLANTS"]
    only = sys.argv[2:]
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree(os.environ.get("PLANT_REPO", "/repo"), W, symlinks=True)
    shutil.rmtree(W + "/_build/CMakeFiles", ignore_errors=True)
    for f in ("CMakeCache.txt",):
        if os.path.exists(W + "/_build/" + f): os.remove(W + "/_build/" + f)
    for p in plants:
        if only and p["id"] not in only: continue
        sh("git -C %s checkout -q -- ." % W)
        d = os.path.join("/tmp/plant-out", p["id"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/demo.cpp", "w").write(p["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO % (p.get("std", "14"), p.get("flags", "-O1")))
        os.chmod(d + "/demo.sh", 0o755)
        r = sh("bash %s/demo.sh" % d, cwd=W)
        if r.returncode: print(p["id"], "BAD demo on clean tree", r.returncode, r.stdout[-800:]); continue
        ok = True
        for f, old, new in p["edits"]:
            s = open(W + "/" + f).read()
            if s.count(old) != 1: print(p["id"], "BAD edit", f, s.count(old), old[:60]); ok = False; break
            open(W + "/" + f, "w").write(s.replace(old, new))
        if not ok: continue
        e = build_and_test()
        if e: print(p["id"], "BAD", e); continue
        r = sh("bash %s/demo.sh" % d, cwd=W)
        if r.returncode == 0: print(p["id"], "BAD demo passes with the patch"); continue
        diff = sh("git -C %s diff" % W).stdout
        open(d + "/patch.diff", "w").write(diff)
        orig = False
        for f, old, new in p["edits"]:
            src = open("/repo/" + f).read(); a = src[:src.index(old)].count("\n") + 1; b = a + old.rstrip("\n").count("\n")
            bl = sh("git -C /repo blame -s -L %d,%d %s" % (a, b, f)).stdout.split("\n")
            ol = [x for x in bl if x.startswith("^76081c1") or x.startswith("76081c1")]
            gone = [x for x in ol if x.split(")", 1)[1].strip() and ("-" + x.split(") ", 1)[1].rstrip("\n")) in diff.split("\n")]
            orig = orig or bool(gone)
        if not orig: print(p["id"], "BAD: changes no line of the original repository"); continue
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(os.path.join(ROOT, "seeded", p["id"]), ignore_errors=True)
        shutil.copytree(d, os.path.join(ROOT, "seeded", p["id"]))
        print(p["id"], "ok", r.returncode, flush=True)
    shutil.rmtree(W, ignore_errors=True)
main()
