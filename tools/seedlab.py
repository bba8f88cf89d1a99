#!/usr/bin/env python3
"""Dev tool (not used by any check): turn a list of planted-bug descriptions into /verif/seeded/<id>/ after confirming each one in a
scratch copy of /repo: applies, builds, stable tests pass, demo passes on the clean tree and fails on the patched one; then runs the check.
usage: seedlab.py file.py [id...]      (file.py defines SEEDS = [dict(id,property,needs,breaks,edits=[(file,old,new)],demo,libs,flags)])
       seedlab.py --recheck [id...]    (only reruns the checks against the existing patches, on scratch copies)"""
import json, os, subprocess, sys, shutil, importlib.util
LAB = os.environ.get("LAB", "/tmp/seedlab"); R = LAB + "/repo"; VP = LAB + "/vp"
VERIF = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def setup():
    os.makedirs(LAB, exist_ok=True)
    if not os.path.isdir(R): sh("git clone -q /repo %s && cp -a /repo/_build %s/ 2>/dev/null" % (R, R))
    sh("cd %s && git checkout -q -f . && git fetch -q origin && git reset -q --hard origin/HEAD" % R)
    h1 = sh("git -C /repo rev-parse HEAD").stdout.strip(); h2 = sh("git -C %s rev-parse HEAD" % R).stdout.strip()
    assert h1 == h2, (h1, h2)
    shutil.rmtree(VP, ignore_errors=True); shutil.copytree("/opt/vp", VP)
    for f in os.listdir(VP):
        p = os.path.join(VP, f)
        if f.endswith((".sh", ".py")):
            t = open(p).read().replace("/opt/vp", VP).replace("/repo", R); open(p, "w").write(t)
DEMO = """#!/bin/bash
# exit 0: the property holds for the demonstrated case; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -g -O1 -w -march=x86-64-v2 -Iinclude %s "$d/demo.cpp" -o "$t/demo" %s -lpthread || exit 2
cd "$t" && timeout 120 ./demo
"""
def stable(out):
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]; t = json.load(open(out)); return sorted(set(b) - set(t["passed"]))
def check(pid):
    env = dict(os.environ, VERIF_REPO=R, VERIF_OUT=LAB + "/out", VERIF_EVID=LAB + "/evid", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    p = sh("python3 %s/run_check.py %s quick" % (VERIF, pid), env=env)
    v = [l for l in p.stdout.splitlines() if not l.startswith("VIOLATION")]
    return p.returncode, v[0][:200] if v else ""
def main():
    setup()
    if sys.argv[1] == "--recheck":
        ids = sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded"))
        for i in ids:
            sh("cd %s && git checkout -q -f ." % R); m = json.load(open("%s/seeded/%s/meta.json" % (VERIF, i)))
            a = sh("cd %s && git apply %s/seeded/%s/patch.diff" % (R, VERIF, i))
            if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); continue
            rc, l = check(m["property"]); print(i, m["property"], "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, l, flush=True)
        sh("cd %s && git checkout -q -f ." % R); return
    sp = importlib.util.spec_from_file_location("seeds", sys.argv[1]); mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
    for s in mod.SEEDS:
        i = s["id"]
        if len(sys.argv) > 2 and i not in sys.argv[2:]: continue
        sh("cd %s && git checkout -q -f . && git clean -fdq -e _build" % R)
        d = LAB + "/s/" + i; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/demo.cpp", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(DEMO % (s.get("flags", ""), s.get("libs", "")))
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        p = sh("cd %s && bash %s/demo.sh" % (R, d))
        if p.returncode: print(i, "DEMO FAILS ON CLEAN TREE", p.returncode, p.stdout[-1500:], flush=True); continue
        bad = False
        for f, old, new in s["edits"]:
            t = open(R + "/" + f).read()
            if t.count(old) != 1: print(i, "EDIT MATCHES %d in %s: %r" % (t.count(old), f, old[:80]), flush=True); bad = True; break
            open(R + "/" + f, "w").write(t.replace(old, new))
        if bad: continue
        open(d + "/patch.diff", "w").write(sh("cd %s && git diff" % R).stdout)
        p = sh("cd %s && bash %s/demo.sh" % (R, d))
        if p.returncode in (0, 2): print(i, "DEMO DOES NOT FAIL rc=%d" % p.returncode, p.stdout[-1500:], flush=True); continue
        demo = "demo rc=%d" % p.returncode
        p = sh("bash %s/test.sh %s/t.json" % (VP, LAB))
        miss = stable(LAB + "/t.json") if p.returncode == 0 else ["build/test rc %d %s" % (p.returncode, p.stdout[-600:])]
        if miss: print(i, "TESTS FAIL", miss[:5], flush=True); continue
        dst = VERIF + "/seeded/" + i; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        rc, l = check(s["property"]); print(i, s["property"], demo, "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, l, flush=True)
    sh("cd %s && git checkout -q -f ." % R)
main()
