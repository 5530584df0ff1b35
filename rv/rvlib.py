"""Build, run and judge runtime-monitoring workloads against /repo's working tree."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, ".build")
HARN = os.path.join(VERIF, "harness")
JOBS = 8
deadline = None     # wall-clock time after which no new work starts and running work is ended (quick tier)
CASE_LIMIT = {"asan": 120, "plain": 120, "tsan": 200, "vg": 400}  # seconds for one case, typically a fraction of one

class Inconclusive(Exception):
    pass

# ------------------------------------------------------------------ building
# The same macros as /repo/src/*/CMakeLists.txt: NDEBUG everywhere but in these directories.
ASSERTS_ON = ("Bounds", "CorrelationFunctions", "LinearAlgebra")
FLAVOURS = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
             "-fno-sanitize=float-divide-by-zero", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O2", "-g1"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "vg": ["-O1", "-g1"],
}
COMMON = ["-std=c++17", "-w", "-DOPENMP_SUPPORT", "-fopenmp"]
OPENBLAS_DIRS = ("LinearAlgebra",)

def _read(p):
    with open(p, "rb") as f:
        return f.read()

_hdr = None
def header_digest():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root, _, files in sorted(os.walk(SRC)):
            if "UnitTests" in root:
                continue
            for f in sorted(files):
                if f.endswith((".hpp", ".h")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(_read(p))
        for f in sorted(os.listdir(HARN)):
            if f.endswith(".hpp"):
                h.update(_read(os.path.join(HARN, f)))
        _hdr = h.hexdigest()
    return _hdr

def repo_sources(dirs=None, ext=True):
    """Implementation files per directory, as /repo's own build picks them (file lists are globbed there too)."""
    out = []
    alld = ["Bounds", "CorrelationFunctions", "Design", "Driver", "InternalOptimizers", "LinearAlgebra",
            "ObjectiveFunctions", "Optimizers", "SurrogateModels", "API"]
    for d in (dirs or alld):
        base = os.path.join(SRC, d)
        for f in sorted(os.listdir(base)):
            if f.endswith(".cpp") and f != "gradient_optimizer.cpp":
                out.append(os.path.join(base, f))
    if ext and (dirs is None or "ObjectiveFunctions" in dirs):
        ext = os.path.join(REPO, "externalFunctions")
        for f in sorted(os.listdir(ext)):
            if f.endswith(".cpp"):
                out.append(os.path.join(ext, f))
    return out

def _compile(flavour, src, extra=()):
    flags = COMMON + FLAVOURS[flavour] + list(extra)
    d = os.path.basename(os.path.dirname(src))
    if src.startswith(SRC):
        flags = flags + ["-DOPENBLAS"]
        if d not in ASSERTS_ON:
            flags = flags + ["-DNDEBUG"]
    else:
        flags = flags + ["-DOPENBLAS", "-I" + SRC, "-I" + HARN]
    cc = ["g++"]
    h = hashlib.sha256((" ".join(cc + flags) + header_digest() + src).encode() + _read(src)).hexdigest()[:24]
    obj = os.path.join(BUILD, flavour, h + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(cc + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise Inconclusive("compilation failed: %s\n%s" % (src, r.stderr[-4000:]))
        os.replace(tmp, obj)
    return obj

def build(flavour, mains, dirs=None, extra=(), name=None, shim=False, ext=True):
    """mains: harness sources (relative to harness/) or absolute paths."""
    srcs = [m if os.path.isabs(m) else os.path.join(HARN, m) for m in mains]
    reps = repo_sources(dirs, ext)
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda s: _compile(flavour, s, extra), srcs + reps))
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, flavour, (name or os.path.basename(srcs[0]).replace(".cpp", "")) + "-" + key)
    if not os.path.exists(exe):
        link = ["g++"] + FLAVOURS[flavour] + objs
        link += (["-lpthread"] if shim else ["-fopenmp"])
        link += ["-lopenblas", "-llapacke", "-lpthread", "-o", exe + ".tmp%d" % os.getpid()]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode and "llapacke" in r.stderr:
            link.remove("-llapacke")
            r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            raise Inconclusive("link failed: %s" % r.stderr[-4000:])
        os.replace(link[-1], exe)
    return exe

def build_tool(src):
    """A stand-alone helper program of the harness (uninstrumented)."""
    s = os.path.join(HARN, src)
    h = hashlib.sha256(_read(s) + _read(os.path.join(HARN, "fns.hpp"))).hexdigest()[:16]
    exe = os.path.join(BUILD, src.replace(".cpp", "") + "-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True); tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++", "-O1", "-w", "-std=c++17", "-static", s, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise Inconclusive("cannot compile %s: %s" % (src, r.stderr[-2000:]))
        os.replace(tmp, exe)
    return exe

# ------------------------------------------------------------------ running
def env_for(flavour, extra=None):
    e = dict(os.environ)
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["OMP_WAIT_POLICY"] = "passive"
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4"
    e["LC_ALL"] = "C"
    if extra:
        e.update(extra)
    return e

def crash_key(rc, err):
    """A stable name for an abnormal end of a workload process."""
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
    kind = None
    if m:
        kind = "asan-" + m.group(2)
    if not kind:
        m = re.search(r"runtime error: ([^\n]*)", err)
        if m:
            kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|[-+0-9.e]+", "", m.group(1).lower()))[:50].strip("-")
    if not kind and "WARNING: ThreadSanitizer" in err:
        kind = "tsan-" + re.sub(r"\W+", "-", re.search(r"ThreadSanitizer: ([^\n(]*)", err).group(1).strip())
    if not kind and rc == 97:
        m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid \w+|Mismatched free|Source and destination|Syscall param|\S+ bytes in .* definitely lost)", err)
        kind = "valgrind-" + re.sub(r"[^a-z]+", "-", (m.group(1) if m else "error").lower()).strip("-")
    if not kind and "Assertion '" in err:
        kind = "library-assertion"
    if not kind:
        m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
        if m:
            kind = "terminate-" + m.group(1)
        elif "terminate called" in err:
            kind = "terminate"
        elif rc < 0:
            try:
                kind = "signal-" + signal.Signals(-rc).name
            except ValueError:
                kind = "signal-%d" % -rc
        else:
            kind = "exit-%d" % rc
    # innermost frame inside the code under test
    at = max(0, *(err.find(w) for w in ("ERROR: AddressSanitizer", "runtime error", "WARNING: ThreadSanitizer", "== Invalid", "uninitialised")))
    fr = re.findall(r"(?: in|#\d+) (?:Rodop::)?([A-Za-z_][\w:~]*)[^\n]*?/src/", err[at:])
    return "crash:%s%s" % (kind, (":" + fr[0]) if fr else "")

def focus(err):
    """The part of the error output that tells what happened."""
    at = [i for i in (err.find(w) for w in ("ERROR: AddressSanitizer", "runtime error", "WARNING: ThreadSanitizer", "Invalid read", "Invalid write", "uninitialised", "definitely lost in")) if i >= 0]
    return err[max(0, min(at) - 200):][:3000] if at else err[-3000:]

def run_shards(exe, args, shards, cases, seed, scratch, flavour="asan", timeout=600, extra_env=None, max_restarts=6, wrapper=()):
    """Runs `exe` over cases 0..cases-1, split over processes; restarts after a crash behind the crashing case.
    Returns merged result."""
    res = {"viol": [], "counts": {}, "distinct": set(), "samples": [], "cases": 0, "hangs": []}

    def one(shard):
        out = {"viol": [], "counts": {}, "distinct": set(), "samples": [], "cases": 0, "inconclusive": []}
        start, restarts, hang_seen = 0, 0, set()
        while True:
            wd = tempfile.mkdtemp(prefix="s%d_" % shard, dir=scratch)
            cmd = list(wrapper) + [exe] + [str(a) for a in args] + ["--seed", str(seed), "--cases", str(cases),
                   "--shard", str(shard), "--shards", str(shards), "--start", str(start)]
            so = open(os.path.join(wd, "rv.out"), "w+"); se = open(os.path.join(wd, "rv.err"), "w+")
            timed = False
            p = subprocess.Popen(cmd, cwd=wd, stdout=so, stderr=se, stdin=subprocess.DEVNULL,
                                 env=env_for(flavour, extra_env), start_new_session=True)
            begun = last = time.time(); size = 0; late = False
            while True:
                try:
                    rc = p.wait(timeout=0.25); break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time(); sz = os.fstat(so.fileno()).st_size
                if sz != size: size, last = sz, now
                late = (deadline is not None and now > deadline) or now - begun > timeout
                timed = now - last > CASE_LIMIT[flavour]
                if late or timed:
                    os.killpg(p.pid, signal.SIGKILL); rc = p.wait(); break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            so.seek(0); se.seek(0)
            o = so.read(); err = se.read()[-60000:]
            so.close(); se.close()
            case, done = None, False
            for line in o.splitlines():
                if not line.startswith("RV"):
                    continue
                tag, _, rest = line.partition(" ")
                if tag == "RVCASE": case = int(rest); out["cases"] += 1
                elif tag == "RVVIOL":
                    try: v = json.loads(rest)
                    except ValueError: v = {"property": "?", "key": "unparsable", "detail": rest[:500]}
                    v["shard"] = shard; out["viol"].append(v)
                elif tag == "RVCOUNT":
                    k, n = rest.rsplit(" ", 1); out["counts"][k] = out["counts"].get(k, 0) + int(n)
                elif tag == "RVDISTINCT": out["distinct"].add(rest)
                elif tag == "RVSAMPLE" and len(out["samples"]) < 3:
                    try: out["samples"].append(json.loads(rest))
                    except ValueError: pass
                elif tag == "RVDONE": done = True
            shutil.rmtree(wd, ignore_errors=True)
            if done and rc == 0:
                return out
            if late:
                out["inconclusive"].append("out of time at case %s" % case); return out
            if timed:
                if case is None:
                    out["inconclusive"].append("timeout before the first case"); return out
                if case in hang_seen:
                    out["viol"].append({"property": "*", "key": "hang", "detail": "case %d does not end within %ds (seen twice)" % (case, CASE_LIMIT[flavour]), "case": case, "shard": shard})
                    out["inconclusive"].append("rest of the shard skipped after a hang"); return out
                else:
                    hang_seen.add(case); start = case
            elif rc in (3, 4):   # harness failure
                out["inconclusive"].append("harness error rc=%d: %s" % (rc, err[-800:])); return out
            elif case is None:
                out["inconclusive"].append("died before the first case rc=%d: %s" % (rc, err[-2000:])); return out
            else:
                if rc == -9:
                    out["inconclusive"].append("killed (memory?)"); return out
                out["viol"].append({"property": "*", "key": crash_key(rc, err), "detail": focus(err) or ("rc=%d" % rc), "case": case, "shard": shard})
                start = case + 1
            restarts += 1
            if restarts > max_restarts:
                out["inconclusive"].append("too many restarts"); return out

    with ThreadPoolExecutor(JOBS) as ex:
        parts = list(ex.map(one, range(shards)))
    inc = []
    for o in parts:
        res["viol"] += o["viol"]; res["distinct"] |= o["distinct"]; res["samples"] += o["samples"]; res["cases"] += o["cases"]
        for k, n in o["counts"].items(): res["counts"][k] = res["counts"].get(k, 0) + n
        inc += o["inconclusive"]
    res["inconclusive"] = inc
    return res

# ------------------------------------------------------------------ verdicts
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)

def verdict(pid, tier, seed, result, rule, t0, assumptions, replay_info, min_counts=None, extra_cov=None):
    known = [k for k in load_known().get("findings", []) if k["property"] == pid]
    viol, seen_known = [], {}
    for v in result["viol"]:
        if v.get("property") not in (pid, "*"):
            continue
        hit = next((k for k in known if re.fullmatch(k["match"], v["key"])), None)
        if hit: seen_known.setdefault(hit["id"], (hit, v))
        else: viol.append(v)
    inc = list(result.get("inconclusive", []))
    for name, n in (min_counts or {}).items():
        if result["counts"].get(name, 0) < n:
            inc.append("too few observations: %s = %d < %d" % (name, result["counts"].get(name, 0), n))
    cov = {"evaluations": result["cases"], "distinct_nontrivial": len(result["distinct"]), "rule": rule,
           "samples": result["samples"][:4] or ["(none)"], "observed": dict(sorted(result["counts"].items())),
           "inconclusive": inc[:10], "known_findings_seen": sorted(seen_known)}
    if extra_cov: cov.update(extra_cov)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": assumptions, "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    # every listed finding is announced; a listed finding is matched by its key only
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%d.json" % (pid, tier, seed))
        uniq = {}
        for v in viol: uniq.setdefault(v["key"], []).append(v)
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "how": replay_info,
                       "violations": [dict(vs[0], occurrences=len(vs)) for vs in uniq.values()]}, f, indent=1, default=str)
        for key, vs in list(uniq.items())[:12]:
            print("  %s (x%d, case %s): %s" % (key, len(vs), vs[0].get("case"), str(vs[0].get("detail", ""))[:400].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if inc:
        print("INCONCLUSIVE property=%s: %s" % (pid, "; ".join(inc)[:3000]))
        return 2
    print("OK property=%s: %d cases, %d distinct, %.1fs" % (pid, result["cases"], len(result["distinct"]), time.time() - t0))
    return 0

def merge(a, b):
    a["viol"] += b["viol"]; a["distinct"] |= b["distinct"]; a["samples"] += b["samples"]; a["cases"] += b["cases"]
    for k, n in b["counts"].items(): a["counts"][k] = a["counts"].get(k, 0) + n
    a.setdefault("inconclusive", []).extend(b.get("inconclusive", []))
    return a

def prune(max_mb=3000):
    """Keeps the object cache small; never needed for correctness."""
    try:
        files = []
        for root, _, fs in os.walk(BUILD):
            for f in fs:
                p = os.path.join(root, f); st = os.stat(p); files.append((st.st_mtime, st.st_size, p))
        tot = sum(s for _, s, _ in files)
        for _, s, p in sorted(files):
            if tot < max_mb * 1e6: break
            os.unlink(p); tot -= s
    except OSError:
        pass
