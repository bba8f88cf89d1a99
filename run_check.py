#!/usr/bin/env python3
"""Runner: build the harnesses of one property against /repo's current tree,
run them sharded under sanitizers, judge what the monitors reported, write
/verif/evidence/<id>.json.   usage: run_check.py <id> [quick|thorough]
                                    run_check.py --replay <file>"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", os.path.join(ROOT, "out"))
EVID = os.environ.get("VERIF_EVID", os.path.join(ROOT, "evidence"))
sys.path.insert(0, ROOT)
from specs import SPECS

WARN = ["-w"]
COMMON = ["-std=gnu++17", "-g1", "-D_FILE_OFFSET_BITS=64", "-march=x86-64-v2", "-fno-operator-names",
          "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "harness")]
VARIANTS = {
    "asan": ["clang++", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-DVF_ASAN=1"],
    "tsan": ["clang++", "-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern", "-DVF_TSAN=1"],
    "opt":  ["g++", "-O2", "-DNDEBUG", "-DVF_OPT=1"],
    "gasan": ["g++", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DVF_ASAN=1"],
    "msan": ["clang++", "-O1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-DVF_MSAN=1"],
}
ENV = dict(os.environ,
    ASAN_OPTIONS="exitcode=77:detect_leaks=1:max_malloc_fill_size=2097152:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0:strict_string_checks=0:check_initialization_order=1",
    UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77",
    TSAN_OPTIONS="exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=4:suppressions=" + os.path.join(ROOT, "harness", "tsan.supp"),
    LSAN_OPTIONS="exitcode=77:suppressions=" + os.path.join(ROOT, "harness", "lsan.supp"),
    MSAN_OPTIONS="exitcode=77", LC_ALL="C", TZ="UTC")

RSS_LIMIT = 9000 << 20
STRICT = os.environ.get("VERIF_STRICT") == "1" # while developing: every configuration must build, every expected monitor must have fired

def build(job):
    src, variant, extra, libs, exe = job
    v = VARIANTS[variant]
    cmd = [v[0]] + COMMON + WARN + v[1:] + extra + [os.path.join(ROOT, "harness", src), "-o", exe] + libs + ["-lpthread"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, " ".join(cmd), p.stdout

def read_prog(path):
    try:
        b = open(path, "rb").read()
        ci, seq = struct.unpack("QQ", b[:16])
        return b[16:80].split(b"\0")[0].decode("latin1"), ci, b[80:592].split(b"\0")[0].decode("latin1")
    except Exception:
        return "?", 0, ""

def classify(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m: return "san:asan-" + m.group(1)
    if err.startswith("VERIF memory exhausted"): return "memory-exhausted"
    if "ERROR: LeakSanitizer" in err: return "san:leak"
    m = re.search(r"runtime error: ([^\n]{0,90})", err)
    if m: return "san:ubsan-" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:60].strip()
    m = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]+)", err)
    if m: return "san:tsan-" + m.group(1).strip().replace(" ", "-")
    if "WARNING: MemorySanitizer" in err: return "san:msan-uninitialized"
    if rc < 0:
        try: name = signal.Signals(-rc).name
        except Exception: name = str(-rc)
        if name in ("SIGSEGV", "SIGABRT", "SIGFPE", "SIGBUS", "SIGILL", "SIGPIPE", "SIGTRAP", "SIGINT", "SIGQUIT", "SIGTERM", "SIGALRM", "SIGUSR1", "SIGUSR2", "SIGHUP"): return "crash:" + name
    return None

def run_one(r):
    t0 = time.time()
    errp = r["out"] + ".err"
    with open(errp, "wb") as ef:
        p = subprocess.Popen(r["cmd"], stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=ENV, cwd=r["scratch"], start_new_session=True)
        to, rc, big, peak = False, None, False, 0
        while True:
            try: rc = p.wait(timeout=0.5); break
            except subprocess.TimeoutExpired: pass
            if time.time() - t0 > r["timeout"]: to = True; break
            try: rss = int(open("/proc/%d/statm" % p.pid).read().split()[1]) * 4096; peak = max(peak, rss); big = rss > RSS_LIMIT
            except Exception: big = False
            if big: break
        try: os.killpg(p.pid, signal.SIGKILL)
        except Exception: pass
        if to or big: p.wait()
    err = open(errp, "rb").read()
    if len(err) > 400000: err = err[:200000] + err[-200000:]
    err = err.decode("latin1")
    if big: rc = -9; err = "VERIF memory exhausted: the resident size passed %d MB\n" % (RSS_LIMIT >> 20) + err
    return dict(rc=rc, timeout=to, err=err, wall=time.time() - t0, peak=peak)

def load_known():
    known = []
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m: known.append(m.groups())
    except FileNotFoundError: pass
    return known

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        return check(rp["property"], rp["tier"], rp["seed"], only=rp)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return check(pid, tier, seed)

def check(pid, tier, seed, only=None):
    t0 = time.time()
    spec = SPECS[pid]
    bdir = os.path.join(OUT, "build", pid); os.makedirs(bdir, exist_ok=True)
    rdir = os.path.join(OUT, "replay"); os.makedirs(rdir, exist_ok=True)
    wdir = os.path.join(OUT, "run", pid); shutil.rmtree(wdir, ignore_errors=True); os.makedirs(wdir)
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    os.chmod(scratch, 0o755)
    try:
        jobs, hs = [], []
        for i, h in enumerate(spec["harness"]):
            if only and only["h"] != i: continue
            if h.get("tier") and h["tier"] != tier: continue
            exe = os.path.join(bdir, "%s_%d_%s" % (h["src"].split(".")[0], i, h["variant"]))
            jobs.append((h["src"], h["variant"], h.get("flags", []), h.get("libs", []), exe)); hs.append((i, h, exe))
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(build, jobs))
        skipped = []
        for (rc, cmd, out), (i, h, exe) in zip(res, list(hs)):
            if rc == 0: continue
            if i > 0 and any(f.startswith("-DCYBOZU_") for f in h.get("flags", [])) and not STRICT:
                # a secondary compile-time configuration that does not build says nothing about the property
                skipped.append(" ".join(h["flags"])); hs = [x for x in hs if x[0] != i]; print("NOT BUILT:", h["src"], h["flags"]); continue
            print("BUILD-ERROR", cmd); print(out[-6000:]); return 2
        tbuild = time.time() - t0
        runs = []
        for i, h, exe in hs:
            n = 1 if only else h.get("shards", 8)
            for k in range(n):
                out = os.path.join(wdir, "h%d_s%d" % (i, k))
                sc = os.path.join(scratch, "h%d_s%d" % (i, k)); os.makedirs(sc); os.chmod(sc, 0o777)
                cmd = [exe, "--seed", str(seed), "--tier", tier, "--shard", str(k), "--shards", str(n), "--out", out, "--scratch", sc, "--scale", str(h.get("scale", 1))]
                if only: cmd += ["--part", only["part"], "--case", str(only["case"])]
                runs.append(dict(h=i, variant=h["variant"], src=h["src"], cmd=cmd, out=out, scratch=sc, timeout=h.get("timeout", 420 if tier == "quick" else 5400)))
        with ThreadPoolExecutor(spec.get("par", 8)) as ex: outs = list(ex.map(run_one, runs))
        viols, inconclusive = [], []
        counts, hashes, samples, evals, perh = {}, set(), [], 0, {}
        for r, o in zip(runs, outs):
            vs = []
            try:
                for l in open(r["out"] + ".viol", errors="replace"):
                    try: vs.append(json.loads(l))
                    except Exception: pass
            except FileNotFoundError: pass
            if o["timeout"]:
                inconclusive.append("%s shard timed out" % r["src"])
            elif o["rc"] == 0 and not os.path.exists(r["out"] + ".json"):
                part, ci, note = read_prog(r["out"] + ".prog")
                vs.append(dict(key="premature-exit", part=part, case=ci, detail="the library ended the process: " + note))
            elif o["rc"] != 0:
                part, ci, note = read_prog(r["out"] + ".prog")
                key = classify(o["rc"], o["err"])
                if key: vs.append(dict(key=key, part=part, case=ci, detail=note + " | " + o["err"][max(0, min([m for m in (o["err"].find(x) for x in ("ERROR: ", "WARNING: ThreadSanitizer", "WARNING: MemorySanitizer", "runtime error:")) if m >= 0] or [200]) - 200):][:3000]))
                elif not vs: inconclusive.append("%s rc=%s %s" % (r["src"], o["rc"], o["err"][-800:]))
            hang = [v for v in vs if v["key"] == "hang"]
            if hang and not only and not hang[0].get("definite") and not any(v["key"] == "hang" for v in viols):
                # a case that ran out of wall-clock time while its threads were still being scheduled counts only if
                # the shard, run alone, blocks again; otherwise the second run's results are used
                r = dict(r, out=r["out"] + "_again", cmd=list(r["cmd"]))
                r["cmd"][r["cmd"].index("--out") + 1] = r["out"]
                o = run_one(r); vs = []
                try: vs = [json.loads(l) for l in open(r["out"] + ".viol", errors="replace")]
                except Exception: pass
                if o["timeout"]: inconclusive.append("%s shard timed out" % r["src"])
                elif o["rc"] != 0 or not os.path.exists(r["out"] + ".json"):
                    part, ci, note = read_prog(r["out"] + ".prog")
                    key = classify(o["rc"], o["err"]) or ("premature-exit" if o["rc"] == 0 else None)
                    if key: vs.append(dict(key=key, part=part, case=ci, detail=note + " | " + o["err"][:2000]))
                    elif not vs: inconclusive.append("%s rc=%s %s" % (r["src"], o["rc"], o["err"][-800:]))
            for v in vs: v["h"] = r["h"]; v["variant"] = r["variant"]; v["src"] = r["src"]
            viols += vs
            try:
                j = json.load(open(r["out"] + ".json"))
                evals += j["evaluations"]
                pk = "%s/%s" % (r["src"], r["variant"]); perh[pk] = perh.get(pk, 0) + j["evaluations"]
                for k, c in j["counts"].items(): counts[k] = counts.get(k, 0) + c
                samples += j["samples"]
                b = open(r["out"] + ".hash", "rb").read()
                hashes.update(struct.unpack("%dQ" % (len(b) // 8), b))
            except Exception: pass
        known = load_known()
        new, seen_known = {}, {}
        for v in viols:
            k = [x for x in known if x[0] == pid and x[1] == v["key"]]
            if k: seen_known[k[0][1]] = k[0][2]
            elif v["key"] not in new: new[v["key"]] = v
        for key, what in seen_known.items(): print("KNOWN-FINDING: property=%s key=%s %s" % (pid, key, what))
        # monitors must have been exercised
        missing = [m for m in spec.get("expect", []) if not counts.get(m)]
        n = 0
        for key, v in new.items():
            rp = os.path.join(rdir, "%s_%d.json" % (pid, n)); n += 1
            json.dump(dict(property=pid, tier=tier, seed=seed, h=v["h"], part=v["part"], case=v["case"], key=key, detail=v.get("detail", "")), open(rp, "w"), indent=1)
            print("  %s [%s/%s] part=%s case=%s: %s" % (key, v["src"], v["variant"], v["part"], v["case"], v.get("detail", "")[:700]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        if not only:
            import random
            random.Random(seed).shuffle(samples)
            ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
                coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=spec["rule"], samples=samples[:6],
                    monitor_events=counts, executions_per_harness=perh, sanitizers=sorted({r["variant"] for r in runs}), shards=len(runs), peak_rss_mb=max(o["peak"] for o in outs) >> 20, build_s=round(tbuild, 1),
                    inconclusive=inconclusive, configurations_not_built=skipped, monitors_not_exercised=missing, exhaustive=False),
                assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
            tmp = os.path.join(EVID, pid + ".json.tmp"); json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(EVID, pid + ".json"))
        print("%s %s seed=%d: evaluations=%d distinct=%d violations=%d wall=%.1fs build=%.1fs" % (pid, tier, seed, evals, len(hashes), len(new), time.time() - t0, tbuild))
        if new: return 1
        if inconclusive:
            print("INCONCLUSIVE:", "; ".join(inconclusive)[:3000]); return 2
        if missing and not only:
            print("MONITOR NOT EXERCISED:", missing)
            if STRICT: return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)
            shutil.rmtree(wdir, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
