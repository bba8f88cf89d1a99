#!/usr/bin/env python3
"""Dev tool (not used by any check): mutation survey. For a property, mutate the lines of its anchored files that the harness really
compiles, run the quick check on each mutant in a scratch copy, record survivors (to be read by hand: miss, equivalent, out of scope).
usage: mutlab.py [-w workers] [-n per-file] [-s seed] [-o outfile] Cxx[:file,...] ..."""
import os, random, re, shutil, subprocess, sys, threading, queue, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import importlib
LAB = "/tmp/mut"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def active(pid, files):
    import run_check as rc
    act = {f: set() for f in files}
    for h in rc.SPECS[pid]["harness"]:
        if h.get("tier") == "thorough": continue
        cmd = ["g++" if rc.VARIANTS[h["variant"]][0] == "g++" else "clang++"] + rc.COMMON + ["-w", "-E"] + h.get("flags", []) + [V + "/harness/" + h["src"]]
        cmd = [c for c in cmd if not c.startswith("-fsanitize")]
        o = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout
        cur, ln = None, 0
        for l in o.split("\n"):
            m = re.match(r'# (\d+) "([^"]*)"', l)
            if m: ln = int(m.group(1)); cur = m.group(2); continue
            if cur and l.strip():
                for f in files:
                    if cur.endswith("/" + f): act[f].add(ln)
            ln += 1
    return act
REL = {"<": ["<="], ">": [">="], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}
def mutants(lines, act):
    out = []
    for i, l in enumerate(lines):
        if i + 1 not in act: continue
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "assert", "template", "typedef", "using", "namespace", "class", "struct", "public", "private", "friend", "static_assert", "case ")): continue
        code = re.sub(r"//.*", "", l)
        nostr = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x01" * len(m.group(0)), code)
        nostr = re.sub(r"'(\\.|[^'\\])*'", lambda m: "\x01" * len(m.group(0)), nostr)
        def rep(a, b, t, k): out.append((i, l[:a] + t + l[b:], k))
        for m in re.finditer(r"(?<=\s)(<=|>=|==|!=|<|>)(?=\s)", nostr):
            for t in REL[m.group(1)]: rep(m.start(1), m.end(1), t, "rel")
        for m in re.finditer(r"(?<=\s)(&&|\|\|)(?=\s)", nostr): rep(m.start(1), m.end(1), "||" if m.group(1) == "&&" else "&&", "logic")
        for m in re.finditer(r"(?<=\s)([-+*/%&|^]|<<|>>)(?=\s\S)", nostr):
            t = {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/", "&": "|", "|": "&", "^": "|", "<<": ">>", ">>": "<<"}[m.group(1)]
            rep(m.start(1), m.end(1), t, "arith")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", nostr): rep(m.start(1), m.end(1), str(int(m.group(1)) + 1), "const"); 
        for m in re.finditer(r"(?<![\w.])([1-9]\d*)(?![\w.])", nostr): rep(m.start(1), m.end(1), str(int(m.group(1)) - 1), "const")
        for m in re.finditer(r"\b(true|false)\b", nostr): rep(m.start(1), m.end(1), "false" if m.group(1) == "true" else "true", "bool")
        m = re.match(r"^(\s*(?:\} else )?(?:if|while) \()(.*)(\)\s*(?:\{|return|break|continue|throw|[\w]+.*;).*)$", code)
        if m and "\x01" not in nostr: out.append((i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "neg")) if m.group(2).count("(") == m.group(2).count(")") else None
        if re.match(r"^\s*[\w\[\]\.\->\*\(\)&:]+(\s*([-+*/|&^]|<<|>>)?=\s.*|\(.*\)|\+\+|--);\s*$", code) and not re.match(r"^\s*(return|throw|delete|static|const|typedef|using)\b", code): out.append((i, re.sub(r"\S.*", ";", code), "del"))
        if re.match(r"^\s*if \(.*\) (return|throw|break|continue|goto)\b.*;\s*$", code): out.append((i, re.sub(r"\S.*", ";", code), "delif"))
        if re.match(r"^\s*(throw|break|continue)\b.*;\s*$", code): out.append((i, re.sub(r"\S.*", ";", code), "del"))
        for m in re.finditer(r"(\+\+|--)", nostr): rep(m.start(1), m.end(1), "--" if m.group(1) == "++" else "++", "incdec")
    return out
def main():
    a = sys.argv[1:]; w, n, seed, of = 3, 40, 1, "/tmp/mut/out.jsonl"; ps = []
    while a:
        x = a.pop(0)
        if x == "-w": w = int(a.pop(0))
        elif x == "-n": n = int(a.pop(0))
        elif x == "-s": seed = int(a.pop(0))
        elif x == "-o": of = a.pop(0)
        else: ps.append(x)
    import run_check as rc
    os.makedirs(LAB, exist_ok=True); q = queue.Queue()
    done = set()
    if os.path.exists(of):
        for l in open(of): j = json.loads(l); done.add((j["p"], j["f"], j["line"], j["new"]))
    for p in ps:
        pid, _, fl = p.partition(":")
        sp = rc.SPECS[pid]
        files = fl.split(",") if fl else sp["files"]
        files = [f if f.startswith("include") else "include/cybozu/" + f for f in files]
        act = active(pid, files)
        for f in files:
            lines = open("/repo/" + f).read().split("\n"); ms = mutants(lines, act[f])
            random.Random(seed).shuffle(ms); print(pid, f, "mutants", len(ms), flush=True)
            for i, new, k in ms[:n]:
                if (pid, f, i + 1, new.strip()) not in done: q.put((pid, f, i, lines[i], new, k))
    lock = threading.Lock(); stat = {}
    def work(k):
        R = LAB + "/w%d" % k; shutil.rmtree(R, ignore_errors=True); os.makedirs(R)
        sh("git -C /repo archive HEAD include | tar x -C %s" % R)
        while True:
            try: pid, f, i, old, new, kind = q.get_nowait()
            except queue.Empty: return
            P = R + "/" + f; t = open("/repo/" + f).read().split("\n")
            if t[i] != old: continue
            t[i] = new; open(P, "w").write("\n".join(t))
            env = dict(os.environ, VERIF_REPO=R, VERIF_OUT=R + "/out", VERIF_EVID=R + "/evid", VERIF_SEED="1", VERIF_TIER="quick")
            t0 = time.time()
            try: p = sh("timeout 700 python3 %s/run_check.py %s quick" % (V, pid), env=env); r = p.returncode; o = p.stdout
            except Exception as e: r, o = 99, str(e)
            shutil.copy("/repo/" + f, P)
            res = "killed" if r == 1 else "SURVIVED" if r == 0 else "nobuild" if "BUILD-ERROR" in o else "INCONCL"
            with lock:
                stat[(pid, res)] = stat.get((pid, res), 0) + 1
                open(of, "a").write(json.dumps(dict(p=pid, f=f, line=i + 1, old=old.strip(), new=new.strip(), kind=kind, res=res, t=round(time.time() - t0), why=o[:300] if res in ("killed", "INCONCL") else "")) + "\n")
    th = [threading.Thread(target=work, args=(k,)) for k in range(w)]
    [t.start() for t in th]; [t.join() for t in th]
    print({"%s %s" % k: v for k, v in sorted(stat.items())})
if __name__ == "__main__": main()
