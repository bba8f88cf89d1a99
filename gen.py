#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from specs.py."""
import json, os, subprocess
from specs import SPECS
R = os.path.dirname(os.path.abspath(__file__))
NA = []
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for pid in sorted(SPECS):
        s = SPECS[pid]
        a = dict(files=s["files"], mechanism=s["mech"], hook_needed=None)
        if s["observe"]: a["observe_at"] = s["observe"]
        f.write(json.dumps(dict(id=pid, title=s["title"], statement=s["statement"], quantifier=dict(over=s["over"], text=s["text"]), why_tests_cant=s["why"], anchors=a)) + "\n")
NOTE = "Exploration: every execution of the real headers is judged by the monitors named in technique; nothing is claimed beyond the executions counted in the evidence. Trusts the sanitizer runtimes and the oracle in /verif/harness. "
m = dict(version=1, setup_cmd="python3 -c 'import specs' && clang++ --version && g++ --version",
    checks=[dict(property=pid, quick_cmd="python3 run_check.py %s quick" % pid, thorough_cmd="python3 run_check.py %s thorough" % pid, technique=s["technique"], level="exploration", level_note=(NOTE + s["note"]).strip(), evidence_file="evidence/%s.json" % pid) for pid, s in sorted(SPECS.items())],
    hooks=dict(guard="none", enable="The checks compile /repo's headers unmodified; no hooks were needed (system calls are intercepted in the harness by interposition).", source_commits=[]),
    not_applicable=NA)
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
import sys
for l in open(os.path.join(R, "properties.jsonl")):
    d = json.loads(l)
    n = len([x for x in d["statement"].replace("e.g.", "").split(". ") if x])
    if n > 3: print(d["id"], "sentences", n)
for pid, s in SPECS.items():
    for fn in s["files"]:
        if not os.path.exists("/repo/" + fn): print(pid, "missing", fn)

# DESIGN.md sections
import glob, re
def hs(s): return "; ".join("`%s` (%s%s%s)" % (h["src"], h["variant"], ", " + " ".join(f for f in h["flags"] if f.startswith("-D")) if any(f.startswith("-D") for f in h.get("flags", [])) else "", ", thorough only" if h.get("tier") == "thorough" else "") for h in s["harness"])
o = []
for pid, s in sorted(SPECS.items()):
    o.append("### %s %s\n* Where: %s\n* Monitor/oracle: %s\n* Workload and counting: %s\n* Harness: %s\n* Reaches what tests cannot: %s%s%s\n" % (pid, s["title"], ", ".join("`%s`" % f for f in s["files"]), s["technique"], s["rule"], hs(s), s["why"], ("\n* Note: " + s["note"]) if s["note"] else "", ("\n* Assumptions: " + "; ".join(s["assumptions"])) if s["assumptions"] else ""))
t = ["| seed | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    m = json.load(open(d + "/meta.json")); t.append("| %s | %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m.get("caught_by", m["property"] + " quick")))
p = os.path.join(R, "DESIGN.md"); x = open(p).read()
x = re.sub(r"(<!-- PROPS -->\n).*?(<!-- /PROPS -->)", lambda q: q.group(1) + "\n".join(o) + q.group(2), x, flags=re.S)
x = re.sub(r"(<!-- SEEDS -->\n).*?(<!-- /SEEDS -->)", lambda q: q.group(1) + "\n".join(t) + "\n" + q.group(2), x, flags=re.S)
open(p, "w").write(x)
