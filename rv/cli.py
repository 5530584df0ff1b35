"""Monitors of the command line program: R07 (external simulations), C01 (valid configurations), C02 (malformed ones)."""
import hashlib, json, math, os, random, re, shutil, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import rvlib

UDF = [lambda x: 2 * x[0] + 1, lambda x: 1 - x[0], lambda x: x[0] * x[0], lambda x: 3 * x[0] - 2]
FAULTS = ["exit1", "exit2", "exit42", "exit255", "signal9", "signal11", "signal15", "nothing", "empty", "blank", "text", "sign", "huge", "nan", "directory", "partial", "vanish", "unexec"]

def logged(text):
    """The text, if the program writes it to its logs at all."""
    for root, _, files in os.walk(rvlib.SRC):
        for f in files:
            if f.endswith((".cpp", ".hpp", ".h")) and "UnitTests" not in root and text.encode() in rvlib._read(os.path.join(root, f)): return text
    return None
LINEAR = logged("Linear model is active")

class Fn:
    def __init__(s, r, lb, ub, kind=None):
        s.kind = r.randint(0, 5) if kind is None else kind
        s.lo = list(lb); s.w = [u - l for l, u in zip(lb, ub)]; d = len(lb)
        s.c = [r.uniform(-0.2, 1.2) for _ in range(d)]; s.a = [r.uniform(0.2, 2) * r.choice([1, 1, -1]) for _ in range(d)]
        s.scale = 1.0 if r.random() < 0.6 else 10 ** r.uniform(-2, 3); s.off = 0.0 if r.random() < 0.5 else r.uniform(-20, 20) * s.scale
    def __call__(s, x):
        v = t = 0.0
        for i in range(len(s.lo)):
            z = (x[i] - s.lo[i]) / s.w[i]; q = z - s.c[i]
            if s.kind == 0: v += s.a[i] * q * q
            elif s.kind == 1: v += s.a[i] * z
            elif s.kind == 2: v += s.a[i] * math.sin(6 * q)
            elif s.kind == 3: t += s.a[i] * z
            elif s.kind == 4: v += q * q + 0.1 * (1 - math.cos(12 * q))
            else: v += abs(q)
        if s.kind == 3: v = math.floor(3 * t)
        return s.off + s.scale * v
    def text(s):
        return " ".join([str(s.kind), repr(s.off), repr(s.scale), str(len(s.lo))] + [repr(float(q)) for v in (s.lo, s.w, s.c, s.a) for q in v])

def num(r, v, integer=False):
    """Some notation of v that denotes exactly the double v."""
    if integer:
        return ("+" if r.random() < 0.1 else "") + str(v)
    t = r.choice(["r", "r", "e", "E", "+"])
    if t == "e": return "%.17e" % v
    if t == "E": return "%.17E" % v
    if t == "+" and v > 0: return "+" + repr(v)
    if v == int(v) and abs(v) < 1e6 and r.random() < 0.5: return str(int(v))
    return repr(v)

class Case:
    """A valid study for the program."""
    def __init__(s, r, pid):
        s.r = r; d = s.d = r.choice([1, 1, 2, 2, 3, 4])
        s.par = []
        for i in range(d):
            k = r.randint(0, 5)
            if k == 0: lb, w = 0.0, 1.0
            elif k == 1: lb, w = float(r.randint(-10, 10)), float(r.randint(1, 12))
            elif k == 2: w = 10 ** r.uniform(2, 4); lb = r.uniform(-2, 1) * w
            elif k == 3: w = 10 ** r.uniform(-2, -1); lb = r.uniform(-2, 1) * w
            else: w = 10 ** r.uniform(-1, 1.5); lb = r.uniform(-2, 1) * w
            ub = lb + w; typ = r.choice(["real", "continuous", "real", "discrete", "int"]); inc = None
            if typ == "int": lb, ub = float(round(lb)), float(round(lb)) + r.randint(1, 12); inc = float(r.randint(1, max(1, int(ub - lb) // 2)))
            if typ == "discrete": inc = (ub - lb) / r.choice([1, 2, 4, 5, 10, 3.5, 7.3])
            if inc is not None and inc > ub - lb: inc = ub - lb
            s.par.append({"name": "par%s%d" % (r.choice("ABxyz"), i), "type": typ, "lb": lb, "ub": ub, "inc": inc, "stray": typ in ("real", "continuous") and r.random() < 0.15})
        s.lb = [p["lb"] for p in s.par]; s.ub = [p["ub"] for p in s.par]
        s.N = r.randint(1, 5 if pid == "R07" else 4); s.inner = r.randint(20, 120); s.threads = r.choice([None, 1, 1, 2, 3])
        iters = r.sample([23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79], 6); models = ["", "kriging", "ordinary_kriging", "default", "universal_kriging", "Ordinary_Kriging", "UNIVERSAL_KRIGING", "DEFAULT"]
        shared = r.random() < 0.5; s.shared = shared; sub = r.choice(["", "", "bin/", "./"])
        nc = r.choice([0, 1, 1, 2, 3]); names = r.sample(["weight", "lift", "drag", "g_1", "c2", "stress"], nc)
        def function(i, name):
            return {"name": name, "dv": "dv.dat" if shared else "dv%d.dat" % i, "exe": sub + ("run%d" % i if r.random() < 0.7 else "run%d.py" % i if r.random() < 0.5 else "sim_%d.exe" % i), "abs": r.random() < 0.12, "train": name + r.choice([".csv", "_data.csv", ".dat"]), "out": "out%d.dat" % i, "iters": iters[i] if (i == 0 or r.random() < 0.6) else None,
                    "model": r.choice(models) if r.random() < 0.6 else None, "style": r.randint(0, 5), "fn": Fn(r, s.lb, s.ub), "udf": False}
        s.f = [function(0, r.choice(["objective", "cost", "Rosen"]))]
        for j in range(nc):
            f = function(j + 1, names[j]); f["udf"] = r.random() < (0.1 if pid == "R07" else 0.2); f["gt"] = r.random() < 0.5; s.f.append(f)
        # training data: corners, points just outside in one coordinate, random points
        pts = [list(s.lb), list(s.ub)]
        if nc and r.random() < 0.7:
            for i in range(d):
                for side in (0, 1):
                    x = [r.uniform(l, u) for l, u in zip(s.lb, s.ub)]; x[i] = s.lb[i] - 1e-3 * (s.ub[i] - s.lb[i]) if side == 0 else s.ub[i] + 1e-3 * (s.ub[i] - s.lb[i]); pts.append(x)
        while len(pts) < max(5, r.randint(4, 9)): pts.append([r.uniform(l, u) for l, u in zip(s.lb, s.ub)])
        r.shuffle(pts); s.pts = pts
        for j, f in enumerate(s.f):
            g = UDF[j - 1] if f["udf"] else f["fn"]
            f["g"] = g
            if j: f["thr"] = g(r.choice(pts)) if r.random() < 0.3 else g([r.uniform(l, u) for l, u in zip(s.lb, s.ub)])
            rows = [p + [g(p)] for p in pts]
            if j and r.random() < 0.5: r.shuffle(rows)
            f["rows"] = rows
        s.fault = None; s.lost = None; s.early = False
    def sections(s):
        r = s.r
        kw = lambda t: r.choice([t, t.upper(), t.capitalize()])
        gen = [("name", "study1"), ("type", kw("optimization")), ("dimension", num(r, s.d, True)), ("number_of_function_evaluations", num(r, s.N, True)), ("max_number_of_inner_iterations", num(r, s.inner, True))]
        if s.threads: gen.append(("number_of_threads", str(s.threads)))
        if r.random() < 0.3: gen.append(("display", "no"))
        if r.random() < 0.2: gen = [g for g in gen if g[0] != "name"]
        pars = []
        for p in s.par:
            q = [("name", p["name"]), ("type", kw(p["type"])), ("lower_bound", num(r, p["lb"])), ("upper_bound", num(r, p["ub"]))]
            if p["inc"] is not None: q.append(("increment", num(r, p["inc"])))
            if p["stray"]: q.append(("increment", num(r, (p["ub"] - p["lb"]) / 3)))
            pars.append(q)
        out = [["general_settings", gen], ["optimization_parameters", pars]]
        for j, f in enumerate(s.f):
            q = [("name", f["name"])]
            if not f["udf"] or r.random() < 0.2:
                q += [("design_vector_filename", f["dv"]), ("executable_filename", f["exe"]), ("training_data_filename", f["train"]), ("output_filename", f["out"])]
            if f["iters"]: q.append(("number_of_training_iterations", str(f["iters"])))
            if f["model"]: q.append(("surrogate_model_type", f["model"]))
            if j: q += [("constraint_type", kw("gt" if f["gt"] else "lt")), ("constraint_value", num(r, f["thr"]))]
            if j and f["udf"]: q.append(("user_defined_function", r.choice(["yes", "YES", "on", "true", "Y", "enabled"])))
            elif j and r.random() < 0.3: q.append(("user_defined_function", r.choice(["no", "off", "FALSE"])))
            out.append(["constraint_function" if j else "objective_function", q])
        return out
    def layout(s, secs):
        """Any order of entries and sections (constraints keep their order), any white space."""
        r = s.r; secs = [[n, list(q)] for n, q in secs]
        for n, q in secs:
            if n == "optimization_parameters":
                for p in q: r.shuffle(p)
            else: r.shuffle(q)
        if r.random() < 0.6:
            cons = [x for x in secs if x[0] == "constraint_function"]; order = secs[:]; r.shuffle(order); it = iter(cons)
            secs = [next(it) if x[0] == "constraint_function" else x for x in order]
        return secs
    def render(s, secs, loose=True):
        r = s.r; sp = lambda: r.choice(["", "", " ", "  ", "\t", "\n "]) if loose else ""
        nl = lambda: r.choice(["\n", "\n", "\n\n", " ", "\n\t", ""]) if loose else "\n"
        ent = lambda k, v: "<%s>%s%s%s</%s>%s" % (k, sp(), v, sp(), k, nl())
        t = "<optimization_study>" + nl()
        for n, q in secs:
            t += "<%s>%s" % (n, nl())
            if n == "optimization_parameters": t += "".join("<parameter>%s%s</parameter>%s" % (nl(), "".join(ent(*e) for e in p), nl()) for p in q)
            else: t += "".join(ent(*e) for e in q)
            t += "</%s>%s" % (n, nl())
        return t + "</optimization_study>\n"
    def write(s, d, sim):
        os.makedirs(os.path.join(d, "bin"), exist_ok=True); os.makedirs(os.path.join(d, "path")); os.link(sim, os.path.join(d, "path", "python"))   # the interpreter that is found in PATH
        for j, f in enumerate(s.f):
            if f["udf"]: continue
            newline = s.r.random() < 0.85
            with open(os.path.join(d, f["train"]), "w") as o: o.write("\n".join(",".join(repr(q) for q in row) for row in f["rows"]) + ("\n" if newline else ""))
            exe = os.path.join(d, f["exe"]); script = exe.endswith(".py")
            if f["abs"]: f["exe"] = exe
            if script: open(exe, "w").write("raise SystemExit(9)\n")
            elif s.fault is None or s.fault[2] not in ("unexec",): os.link(sim, exe)
            else: shutil.copy(sim, exe)
            fc, kind = (s.fault[1], s.fault[2]) if s.fault and s.fault[0] == j else (-1, "none")
            name = f["exe"] if "/" in f["exe"] or script else "./" + f["exe"]
            with open(os.path.join(d, name + ".cfg"), "w") as o: o.write("%d %s %s calls.log %d %d %s %d\n%s\n" % (j, f["dv"], f["out"], s.d, fc, kind, f["style"], f["fn"].text()))
    def text(s):
        return "d=%d N=%d rows=%d constraints=%s types=%s fault=%s" % (s.d, s.N, len(s.pts), "".join(("u" if f["udf"] else "p") + (">" if f["gt"] else "<") for f in s.f[1:]), ",".join(p["type"] for p in s.par), s.fault)

def read(p):
    try:
        with open(p) as f: return f.read()
    except OSError: return None

class Monitor:
    def __init__(s): s.viol = []; s.counts = {}; s.distinct = set(); s.samples = []; s.cases = 0; s.inconclusive = []; s.texts = set()
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def bad(s, p, key, detail, case): s.viol.append({"property": p, "key": key, "detail": detail, "case": case})

def csv_rows(t):
    rows = [l for l in (t or "").split("\n") if l.strip()]
    return rows

def run_program(exe, d, args, timeout=90, user=None, env=None):
    """exe: a program or a wrapper with a program; user: who runs it."""
    out = open(os.path.join(d, ".rv.out"), "w+", errors="replace"); err = open(os.path.join(d, ".rv.err"), "w+", errors="replace")
    p = subprocess.Popen((exe if isinstance(exe, list) else [exe]) + args, cwd=d, stdin=subprocess.DEVNULL, stdout=out, stderr=err, env=rvlib.env_for("asan", dict(env or {}, PATH=os.path.join(d, "path") + ":" + os.environ.get("PATH", ""))), start_new_session=True, user=user, group=user, extra_groups=[] if user else None)
    try: rc = p.wait(timeout)
    except subprocess.TimeoutExpired: rc = None
    try: os.killpg(p.pid, signal.SIGKILL)     # also what the program left running
    except (ProcessLookupError, PermissionError): pass
    p.wait(); out.seek(0); err.seek(0); r = rc, out.read(400000), err.read(400000); out.close(); err.close()
    os.unlink(out.name); os.unlink(err.name)
    return r if rc is not None else (None, "", "")

def abnormal(m, k, rc, err, what):
    if rc is None: m.bad("*", "hang", what + ": the program does not end within 90 s", k); return True
    if rc < 0 or rc in (97, 98, 99) or rc >= 128 or "terminate called" in err: m.bad("*", rvlib.crash_key(rc, err), what + ": " + rvlib.focus(err)[:1500], k); return True
    return False

def observe(m, c, d, k, pid, rc, err, what):
    """Compares calls, history, training files and optimum of a run with each other."""
    bad = lambda key, detail, p=None: m.bad(p or pid, key, what + detail, k)
    sim = [j for j, f in enumerate(c.f) if not f["udf"]]
    calls = []
    for l in csv_rows(read(os.path.join(d, "calls.log"))):
        a, b = l.split(" | "); a = a.split(" "); v, st = b.split(" ")
        calls.append({"f": int(a[0]), "n": int(a[1]), "good": a[2] == "1", "txt": a[4:], "v": float(v), "st": "lost" if int(a[0]) == c.lost else st})
    m.count("simulations executed", len(calls)); m.count("script executables", sum(c.f[j]["exe"].endswith(".py") for j in sim)); m.count("executables with absolute path", sum(c.f[j]["exe"].startswith("/") for j in sim)); ev, cur = [], None
    for q in calls:
        if not q["good"]: bad("design-vector-file", "function %d call %d: lines %s instead of %d numbers" % (q["f"], q["n"], q["txt"], c.d)); return None
        q["x"] = [float(t) for t in q["txt"]]
        for i, t in enumerate(q["txt"]):
            p = c.par[i]; x = q["x"][i]; w = p["ub"] - p["lb"]
            if not (p["lb"] - 1e-12 * w - 4e-16 * abs(p["lb"]) <= x <= p["ub"] + 1e-12 * w + 4e-16 * abs(p["ub"])): bad("outside-box", "entry %d = %s not in [%r, %r]" % (i, t, p["lb"], p["ub"]))
            m.count("design entries")
            if p["inc"] is not None:
                g = round((x - p["lb"]) / p["inc"]); m.count("grid entries")
                if abs(x - (p["lb"] + g * p["inc"])) > 1e-9 * p["inc"] + 1e-15 * abs(x) or g < 0 or g > math.floor(w / p["inc"] + 1e-9): bad("off-grid", "entry %d = %s, lower bound %r increment %r" % (i, t, p["lb"], p["inc"]))
            elif x not in (p["lb"], p["ub"]) and x != int(x):
                m.texts.add((k, t))
        if cur is None or q["f"] in cur["calls"]:
            if cur is not None and len(cur["calls"]) < len(sim): bad("function-skipped", "a new design is evaluated before all functions of the last one"); return None
            cur = {"x": q["x"], "calls": {}}; ev.append(cur)
        if q["x"] != cur["x"]: bad("other-design", "function %d gets %s, the design is %s" % (q["f"], q["x"], cur["x"]))
        cur["calls"][q["f"]] = q
    done = [e for e in ev if len(e["calls"]) == len(sim) and all(q["st"] in ("ok", "vanish", "unexec") for q in e["calls"].values())]
    for n, e in enumerate(ev[:-1]):
        if e not in done: bad("continued-after-failure", "evaluations after a failed one"); return None
    # expected history
    H = []
    for row in c.f[0]["rows"]:
        x = row[:-1]; cons = [f["g"](x) for f in c.f[1:]]
        inbox = all(p["lb"] <= v <= p["ub"] for p, v in zip(c.par, x))
        H.append((x, row[-1], cons, inbox or len(c.f) == 1))
    for e in done:
        H.append((e["x"], e["calls"][0]["v"], [e["calls"][j + 1]["v"] if not f["udf"] else f["g"](e["x"]) for j, f in enumerate(c.f[1:])], True))
    t = read(os.path.join(d, "optimizationHistory.csv"))
    if t is None and c.early and not calls: return calls, ev, done
    if t is None: bad("no-history", "no history file"); return None
    lines = csv_rows(t); head = [h.strip() for h in lines[0].split(",")]; want = [p["name"] for p in c.par] + ["Objective"] + [f["name"] for f in c.f[1:]] + ["Improvement", "Feasibility"]
    if head != want: bad("header", "history header %s instead of %s" % (head, want))
    rows = []
    for l in lines[1:]:
        try: rows.append([float(q) for q in l.split(",")])
        except ValueError: bad("history-row", "unreadable row " + l); return None
    if len(rows) != len(H): bad("history-rows", "%d rows in the history for %d samples and %d completed evaluations" % (len(rows), len(c.f[0]["rows"]), len(done))); return None
    same = lambda a, b: abs(a - b) <= 1e-6 + 1e-14 * abs(b)
    for n, (g, (x, f, cons, box)) in enumerate(zip(rows, H)):
        exp = x + [f] + cons; m.count("history rows compared")
        if len(g) != len(exp) + 2 or not all(same(a, b) for a, b in zip(g, exp)): bad("history-row", "row %d is %s instead of %s" % (n, g, exp)); break
        near = any(abs(v - q["thr"]) < 1e-9 * (1 + abs(v)) and v != q["thr"] for v, q in zip(cons, c.f[1:]))
        feas = box and all((v > q["thr"] if q["gt"] else v < q["thr"]) for v, q in zip(cons, c.f[1:]))
        if not near: 
            m.count("feasible rows" if feas else "infeasible rows")
            if g[-1] != (1.0 if feas else 0.0): bad("feasibility", "row %d: constraints %s, box %s, recorded %s (%s)" % (n, cons, box, g[-1], [(q["thr"], q["gt"]) for q in c.f[1:]]))
    # training files
    for j in sim:
        f = c.f[j]; t = read(os.path.join(d, f["train"])); L = csv_rows(t); base = len(f["rows"])
        stored = [[float(q) for q in l.split(",")] for l in L]
        if [r for r in stored[:base]] != f["rows"]: bad("training-data-changed", "first rows of " + f["train"]); continue
        pos = base; known = [list(r) for r in f["rows"]]
        for e in done:
            r = e["x"] + [e["calls"][j]["v"]]; dist = min(max(abs(a - b) for a, b in zip(q, r)) for q in known)
            hit = pos < len(stored) and len(stored[pos]) == len(r) and all(abs(a - b) <= 5.1e-11 + 3e-16 * abs(b) for a, b in zip(stored[pos], r))
            if hit: known.append(stored[pos]); pos += 1; m.count("training rows appended")
            elif dist > 1.001e-4: bad("training-row", "%s has no row for %s" % (f["train"], r)); break
        else:
            if pos != len(stored): bad("training-row", "%s has %d unexpected rows" % (f["train"], len(stored) - pos))
    x = read(os.path.join(d, "globalOptimalDesign.xml"))
    g = re.search(r"<DesignID>(\d+)</DesignID>", x or "")
    if not g or int(g.group(1)) >= len(H): bad("optimum", "no valid globalOptimalDesign.xml")
    return calls, ev, done

def c07(m, exe, sim, d, r, k):
    c = Case(r, "R07"); simf = [j for j, f in enumerate(c.f) if not f["udf"]]
    if r.random() < 0.75: c.fault = (r.choice(simf), r.randint(0, c.N - 1), r.choice(FAULTS))
    pre = r.random() < 0.4; special = None
    c.write(d, sim)
    if pre: # results of an earlier study lie around
        for f in c.f:
            if not f["udf"]: open(os.path.join(d, f["out"]), "w").write("-12345.5\n")
    if c.fault is None and r.random() < 0.35: special = r.choice(["no executable", "not executable", "no design directory", "no output directory"])
    j = r.choice(simf)
    if special == "not executable" and c.f[j]["exe"].endswith(".py"): special = "no executable"
    if special == "no executable": os.unlink(os.path.join(d, c.f[j]["exe"]))
    if special == "not executable": p = os.path.join(d, c.f[j]["exe"]); os.unlink(p); shutil.copy(sim, p); os.chmod(p, 0o644)
    if special == "no design directory": c.f[j]["dv"] = "nodir/dv.dat"
    if special == "no output directory": c.f[j]["out"] = "nodir/out.dat"; c.lost = j
    c.early = special == "no design directory"   # may be noticed before the history is written
    open(os.path.join(d, "config.xml"), "w").write(c.render(c.layout(c.sections())))
    rc, out, err = run_program(exe, d, ["config.xml"]); what = c.text() + (" special=%s" % special if special else "") + ": "
    if abnormal(m, k, rc, err, what): return
    o = observe(m, c, d, k, "R07", rc, err, what)
    if o is None: return
    calls, ev, done = o; kind = c.fault[2] if c.fault else special; must_fail = kind is not None
    if kind in ("vanish", "unexec"): must_fail = c.fault[1] + 1 < c.N
    m.count("failing simulations" if must_fail else "successful studies"); m.distinct.add("%s f%s call%s con%d d%d" % (kind, c.fault[0] if c.fault else "-", c.fault[1] if c.fault else "-", len(c.f) - 1, c.d))
    m.count("fault " + str(kind))
    if must_fail:
        if rc == 0: m.bad("R07", "failure-ignored", what + "exit code 0", k)
        elif not err.strip() and not re.search(r"[Ee]rror", out): m.bad("R07", "failure-silent", what + "no error message", k)
        at = c.fault[1] + (1 if kind in ("vanish", "unexec") else 0) if c.fault else 0
        if len(done) != at: m.bad("R07", "wrong-number-of-evaluations", what + "%d completed evaluations instead of %d" % (len(done), at), k)
        if c.fault and kind not in ("vanish", "unexec") and sum(1 for q in calls if q["f"] == c.fault[0]) != at + 1: m.bad("R07", "executed-again", what + "function %d was executed %d times" % (c.fault[0], sum(1 for q in calls if q["f"] == c.fault[0])), k)
    else:
        if rc != 0: m.bad("R07", "success-rejected", what + "exit code %d: %s" % (rc, err[-400:]), k)
        if len(done) != c.N: m.bad("R07", "wrong-number-of-evaluations", what + "%d completed evaluations instead of %d" % (len(done), c.N), k)
    if len(m.samples) < 3: m.samples.append({"study": c.text(), "exit": rc, "simulations": len(calls), "completed": len(done)})

def effort(m, c, d, k, what):
    """The numerical work done must fit the configured training iterations, inner iterations and number of threads. The training of a function with d
    parameters tries max(iterations, about 400 d) sets of hyperparameters, one factorisation each; without the setting it would try 10000 of them."""
    t = read(os.path.join(d, "rv.fact"))
    if t is None: return
    g = dict(x.split(" ", 1) for x in t.split("\n") if x and not x.startswith("size")); fact = sum(int(x.split()[2]) for x in t.split("\n") if x.startswith("size"))
    its = [f["iters"] or c.f[0]["iters"] for f in c.f if not f["udf"]]; threads = c.threads or 1
    used = max(int(g["threads"]), int(g["solvers"])); m.count("searches with %d of %d threads" % (used, threads))
    if used > threads or (used < 2 <= threads and c.inner >= 1000): m.bad("C01", "number-of-threads", what + "%d threads worked, %d are configured" % (used, threads), k)
    low, high = sum(its), 1.3 * sum(i + 450 * c.d for i in its) + 500 + 20 * len(its) * c.N
    m.count("trainings with monitored effort", len(its))
    if not low <= fact <= high: m.bad("C01", "training-effort", what + "%d factorisations for training iterations %s, expected %d to %d" % (fact, its, low, high), k)
    solves = int(g["solves"]); low, high = c.N * c.inner, 8 * fact + c.N * (12 * c.inner + 600 * (2 * c.d + 40)); m.count("studies with monitored candidate search")
    if not low <= solves <= high: m.bad("C01", "search-effort", what + "%d solves for %d inner iterations and %d evaluations, expected %d to %d" % (solves, c.inner, c.N, low, high), k)

def c01(m, exe, sim, d, r, k):
    c = Case(r, "C01")
    if r.random() < 0.2: c.inner = r.randint(2000, 5000)
    if r.random() < 0.25 and c.d <= 2: r.choice(c.f)["iters"] = r.randint(2000, 3500)
    c.write(d, sim); cfg = r.choice(["config.xml", "Study.XML", "a.b.xml"])
    secs = c.sections(); open(os.path.join(d, cfg), "w").write(c.render(c.layout(secs)))
    rc, out, err = run_program(exe, d, [cfg], env={"RV_FACT": os.path.join(d, "rv.fact")}); what = c.text() + ": "
    if abnormal(m, k, rc, err, what): return
    if rc != 0: m.bad("C01", "valid-configuration-rejected", what + "exit code %d: %s" % (rc, err[-500:]), k); return
    o = observe(m, c, d, k, "C01", rc, err, what)
    if o is None: return
    calls, ev, done = o; m.count("valid configurations"); effort(m, c, d, k, what)
    if len(done) != c.N: m.bad("C01", "budget", what + "%d evaluations instead of %d" % (len(done), c.N), k)
    for i, p in enumerate(c.par):   # a continuous parameter must not be moved to a grid
        if p["stray"] and len(ev) >= 3:
            inc = (p["ub"] - p["lb"]) / 3; z = [(e["x"][i] - p["lb"]) / inc for e in ev]
            if all(abs(q - round(q)) < 1e-9 and 0 < round(q) < 3 for q in z): m.bad("C01", "continuous-parameter-on-grid", what + "parameter %d" % i, k)
    # settings that only show in the logs: where they are logged at all they must be the configured ones
    log = read(os.path.join(d, "optimization.log")) or ""; default = c.f[0]["iters"]
    got = dict(re.findall(r"\nName : (\S+)\n(?:[^=\n][^\n]*\n)*?Number of iterations for model training : (\d+)\n", log))
    for f in c.f:
        if f["name"] in got:
            m.count("logged training settings")
            if not f["udf"] and got[f["name"]] != str(f["iters"] or default): m.bad("C01", "training-iterations", what + "function %s is trained with %s iterations, configured %s (objective %s)" % (f["name"], got[f["name"]], f["iters"], default), k)
    for rx, v, name in ((r"inner iterations is set to = (\d+)", c.inner, "inner iterations"), (r"Number of threads set to: (\d+)", c.threads, "threads"), (r"Maximum number of function evaluations\s*: (\d+)", c.N, "function evaluations"), (r"Dimension\s*: (\d+)", c.d, "dimension")):
        g = re.findall(rx, log)
        if g and v is not None:
            m.count("logged study settings")
            if g[-1] != str(v): m.bad("C01", "study-settings", what + "%s: %s, configured %s" % (name, g[-1], v), k)
    seg = re.split(r"Reading training data from file: (\S+)", read(os.path.join(d, "model.log")) or "")
    if LINEAR is not None:
        linear = {}
        for name, t in zip(seg[1::2], seg[2::2]): linear.setdefault(name, set()).add(LINEAR in t)
        for f in c.f:
            if f["udf"] or f["train"] not in linear: continue
            want = (f["model"] or "").lower() == "universal_kriging"; m.count("universal models" if want else "ordinary models")
            if linear[f["train"]] != {want}: m.bad("C01", "surrogate-model-type", what + "function %s, configured '%s': linear regression part %s" % (f["name"], f["model"], linear[f["train"]]), k)
    m.distinct.add("d%d N%d con%s %s" % (c.d, c.N, "".join("u" if f["udf"] else "p" for f in c.f[1:]), ",".join(p["type"] for p in c.par)))
    if len(m.samples) < 3: m.samples.append({"configuration": c.text(), "history_rows": len(c.pts) + len(done)})

def mutate(c, r, secs):
    """One change that makes the configuration invalid: (description, sections, text function, file action)."""
    S = {}
    for x in secs: S.setdefault(x[0], []).append(x)
    gen, pars, obj = S["general_settings"][0], S["optimization_parameters"][0], S["objective_function"][0]; cons = S.get("constraint_function", [])
    pc = [x for x, f in zip(cons, c.f[1:]) if not f["udf"]]
    val = lambda q, key, v: q.__setitem__(slice(None), [(a, v if a == key else b) for a, b in q])
    drop = lambda q, key: q.__setitem__(slice(None), [(a, b) for a, b in q if a != key])
    ident = lambda t: t
    def pick_section():
        return r.choice([("general_settings", gen[1]), ("objective_function", obj[1])] + [("parameter", p) for p in pars[1]] + [("constraint_function", x[1]) for x in cons])
    P = r.choice(pars[1]); disc = [p for p, q in zip(pars[1], c.par) if q["inc"] is not None]; kind = r.choice(KINDS)
    if kind == "missing":
        o = [("general_settings", gen[1], k) for k in ("type", "dimension", "number_of_function_evaluations")] + [("parameter", P, k) for k in ("name", "type", "lower_bound", "upper_bound")] + [("objective_function", obj[1], k) for k in ("name", "design_vector_filename", "executable_filename", "training_data_filename", "output_filename")]
        o += [("parameter", p, "increment") for p in disc[:2]] + [("constraint_function", x[1], k) for x in pc[:1] for k in ("name", "constraint_type", "constraint_value", "design_vector_filename", "training_data_filename", "output_filename")]
        n, q, key = r.choice(o); how = r.choice(["drop", "drop", "empty", "blank"])
        drop(q, key) if how == "drop" else val(q, key, "" if how == "empty" else "  \n ")
        return "%s %s/%s" % (how, n, key), ident
    if kind == "duplicate":
        n, q = pick_section(); q2 = [e for e in q if e[0] not in ("display",)]; e = r.choice(q2); q.insert(r.randint(0, len(q)), (e[0], r.choice([e[1], "7"]))); return "duplicate %s/%s" % (n, e[0]), ident
    if kind == "unterminated":
        n, q = pick_section(); e = r.choice(q); i = r.randint(0, 99)
        def f(t):
            # the closing tag of this very entry: the value is unique enough together with its key
            pos = [x.start() for x in re.finditer("</%s>" % e[0], t)]; p = pos[i % len(pos)]; return t[:p] + r.choice(["", "<%s>" % e[0], "</%s " % e[0]]) + t[p + len(e[0]) + 3:]
        return "unterminated entry %s" % e[0], f
    if kind == "section":
        n = r.choice(["general_settings", "optimization_parameters", "objective_function"]); how = r.choice(["drop", "twice", "unclosed", "unopened", "misspelled"])
        def f(t):
            a, b = t.index("<%s>" % n), t.index("</%s>" % n) + len(n) + 3
            if how == "drop": return t[:a] + t[b:]
            if how == "twice": return t[:b] + t[a:b] + t[b:]
            if how == "unclosed": return t[:b - len(n) - 3] + t[b:]
            if how == "unopened": return t[:a] + t[a + len(n) + 2:]
            return t[:a] + t[a:b].replace(n, n + "x") + t[b:]
        return "section %s %s" % (n, how), f
    if kind == "constraint section" and cons:
        i = r.randint(0, 99)
        def f(t):
            pos = [x.start() for x in re.finditer("</constraint_function>", t)]; p = pos[i % len(pos)]; return t[:p] + t[p + 22:]
        return "constraint section not closed", f
    if kind == "number":
        o = [("general_settings", gen[1], k, True) for k in ("dimension", "number_of_function_evaluations", "max_number_of_inner_iterations")] + [("objective_function", obj[1], "number_of_training_iterations", True)] + [("parameter", P, k, False) for k in ("lower_bound", "upper_bound")] + [("parameter", p, "increment", False) for p in disc[:1]] + [("constraint_function", x[1], "constraint_value", False) for x in cons[:2]]
        n, q, key, integer = r.choice(o); old = dict(q).get(key); t = r.choice(["%sabc", "abc", "%s.5.5", "--%s", "%s,0", "1e", "%s;", "=%s", "nan", "inf", "-inf", "1e999", "%s%%", "one"] + (["%s.5", "1e2", "99999999999999999999", "2.0"] if integer else ["%se+", ".", "+-1"]))
        v = t.replace("%s", (old or "5").lstrip("+-") if integer else "0.5") ; v = v.replace("%%", "%")
        if old is None: q.append((key, v))
        else: val(q, key, v)
        return "number %s/%s = '%s'" % (n, key, v), ident
    if kind == "nonpositive":
        o = [(gen[1], k) for k in ("dimension", "number_of_function_evaluations", "max_number_of_inner_iterations", "number_of_threads")] + [(obj[1], "number_of_training_iterations")] + [(x[1], "number_of_training_iterations") for x in cons[:1]]
        q, key = r.choice(o); v = r.choice(["0", "-1", "-7", "-100000"])
        if key in dict(q): val(q, key, v)
        else: q.append((key, v))
        return "%s = %s" % (key, v), ident
    if kind == "bounds":
        i = pars[1].index(P); p = c.par[i]; how = r.choice(["equal", "reversed", "tiny reversed"])
        val(P, "lower_bound", repr(p["ub"] if how == "equal" else p["ub"] + (p["ub"] - p["lb"]) * (1 if how == "reversed" else 1e-9))); return "bounds " + how, ident
    if kind == "increment" and disc:
        q = r.choice(disc); p = c.par[pars[1].index(q)]; v = r.choice(["0", "-1", "0.0", "-1e-3", repr((p["ub"] - p["lb"]) * 1.5), "nan", "inf"]); val(q, "increment", v); return "increment " + v, ident
    if kind == "dimension":
        v = c.d + r.choice([1, -1, 3]); val(gen[1], "dimension", str(v)); return "dimension %d for %d parameters" % (v, c.d), ident
    if kind == "names" and c.d > 1:
        val(pars[1][0], "name", dict(pars[1][1])["name"]); return "duplicate parameter name", ident
    if kind == "type":
        o = [(gen[1], "type", ["optimisation", "surrogate", "optimizationx"]), (P, "type", ["float", "reals", "integer", "continous"])] + [(x[1], "constraint_type", ["le", "=", "gtx", "less", "<"]) for x in cons[:1]]
        q, key, vs = r.choice(o); v = r.choice(vs); val(q, key, v); return "%s = %s" % (key, v), ident
    if kind == "model":
        q = r.choice([obj[1]] + [x[1] for x in pc]); v = r.choice(["neural", "gradient_enhanced", "tangent_enhanced", "krigin", "TANGENT_ENHANCED", "ordinary"]); drop(q, "surrogate_model_type"); q.append(("surrogate_model_type", v)); return "surrogate model " + v, ident
    if kind == "training data":
        return "training data", ident
    if kind == "file":
        return "file", ident
    return None, ident
KINDS = ["missing", "missing", "missing", "duplicate", "duplicate", "unterminated", "unterminated", "section", "section", "constraint section", "number", "number", "number", "nonpositive", "nonpositive", "bounds", "increment", "dimension", "names", "type", "type", "model", "training data", "file"]

def c02(m, exe, sim, d, r, k):
    c = Case(r, "C02"); c.write(d, sim); secs = c.layout(c.sections()); args = ["config.xml"]
    for _ in range(20):
        what, f = mutate(c, r, secs)
        if what: break
    text = f(c.render(secs, r.random() < 0.5)); cfg = os.path.join(d, "config.xml")
    open(cfg, "w").write(text)
    if what == "file":
        how = r.choice(["missing", "empty", "no argument", "wrong extension", "directory", "binary"]); what += " " + how
        if how == "missing": os.unlink(cfg)
        if how == "empty": open(cfg, "w").close()
        if how == "no argument": args = []
        if how == "wrong extension": os.rename(cfg, os.path.join(d, "config.txt")); args = ["config.txt"]
        if how == "directory": os.unlink(cfg); os.mkdir(cfg)
        if how == "binary": open(cfg, "wb").write(bytes(r.randrange(256) for _ in range(2000)))
    if what == "training data":
        how = r.choice(["missing", "columns", "text", "empty"]); what += " " + how; p = os.path.join(d, c.f[0]["train"])
        if how == "missing": os.unlink(p)
        if how == "columns": open(p, "w").write("\n".join(",".join(repr(q) for q in row[:-1] + ([] if r.random() < 0.5 else [1.0, 2.0])) for row in c.f[0]["rows"]) + "\n")
        if how == "text": t = open(p).read(); i = t.index(","); open(p, "w").write(t[:i] + r.choice(["x", "abc", " nope"]) + t[i:])
        if how == "empty": open(p, "w").close()
    before = {f: read(os.path.join(d, f)) if f != "config.xml" or os.path.isfile(cfg) else None for f in os.listdir(d) if not f.endswith((".cfg", ".exe")) and not f.startswith("run") and f != "bin" and "binary" not in what}
    rc, out, err = run_program(exe, d, args); what = what + "  [" + c.text() + "]: "
    m.count("malformed configurations"); m.count("kind " + what.split(" ")[0]); m.distinct.add(re.sub(r"[\d.]+", "", what.split("  [")[0]))
    if abnormal(m, k, rc, err, what): return
    bad = lambda key, t: m.bad("C02", key, what + t + "\n--- " + text[:1500], k)
    if rc == 0: bad("accepted", "exit code 0")
    elif not err.strip() and "rror" not in out: bad("no-message", "no message")
    if os.path.exists(os.path.join(d, "calls.log")): bad("simulated-before-rejection", "simulations were executed")
    for f in ("optimizationHistory.csv", "globalOptimalDesign.xml"):
        if os.path.exists(os.path.join(d, f)) and f not in before: bad("results-written", f + " was written")
    for f, t in before.items():
        if t is not None and read(os.path.join(d, f)) != t and not f.endswith(".log"): bad("file-changed", f)
    if len(m.samples) < 3: m.samples.append({"malformed": what[:200], "exit": rc, "message": err.strip()[:160]})

NOBODY = 65534
def garble(r, t):
    """Damages a text at the level of bytes."""
    for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
        n = len(t); i = r.randint(0, n); j = min(n, i + int(r.expovariate(0.2)) + 1); kind = r.randint(0, 7)
        if kind == 0: t = t[:i] + t[j:]
        elif kind == 1: t = t[:i] + t[i:j] * r.choice([2, 3, 50]) + t[j:]
        elif kind == 2: t = t[:i] + bytes(r.randrange(256) for _ in range(r.randint(1, 6))) + t[j:]
        elif kind == 3: a = r.randint(0, n); t = t[:i] + t[a:a + r.randint(1, 60)] + t[i:]
        elif kind == 4: t = t[:i]
        elif kind == 5: t = t[:i] + r.choice([b"<", b">", b"/", b"</", b"\n", b"\0", b",", b"-", b".", b"e", b"nan", b"1e308", b"99999999999", b"-1", b"0", b"\r\n", b";", b'"', b"<parameter>", b"</parameter>", b"</constraint_function>", b"<constraint_function>"]) + t[i:]
        elif kind == 6: b = bytearray(t); i < n and b.__setitem__(i, b[i] ^ (1 << r.randint(0, 7))); t = bytes(b)
        else: a, b = sorted((r.randint(0, n), r.randint(0, n))); t = t[:a] + t[b:]
    return t
def m01(m, exe, sim, d, r, k):
    """The program on damaged files: any answer is fine except a crash or a sanitizer report. Runs without privileges."""
    c = Case(r, "R07" if r.random() < 0.3 else "C01"); c.write(d, sim); text = c.render(c.layout(c.sections())).encode(); what = r.choice(["configuration", "configuration", "training data", "left-over files", "none"])
    if what == "configuration": text = garble(r, text)
    if what == "training data":
        f = r.choice([f for f in c.f if not f["udf"]]); p = os.path.join(d, f["train"]); t = garble(r, open(p, "rb").read()); open(p, "wb").write(t)
    if what == "left-over files":
        for f in c.f:
            if not f["udf"]: open(os.path.join(d, f["out"]), "wb").write(bytes(r.randrange(256) for _ in range(r.randint(0, 40))))
            open(os.path.join(d, f["name"] + "_hyperparameters.csv"), "wb").write(garble(r, b"0.1\n0.2\n1.5\n1.7\n"))
        open(os.path.join(d, "optimizationHistory.csv"), "wb").write(garble(r, b"x1,x2,f\n1,2,3\n"))
    open(os.path.join(d, "config.xml"), "wb").write(text)
    for root, ds, fs in os.walk(d):
        for f in ds + fs: os.lchown(os.path.join(root, f), NOBODY, NOBODY)
    os.chown(d, NOBODY, NOBODY)
    rc, out, err = run_program(exe, d, ["config.xml"], 60, NOBODY, {"ASAN_OPTIONS": rvlib.env_for("asan")["ASAN_OPTIONS"] + ":hard_rss_limit_mb=2500"})
    m.count("program runs on damaged " + what); m.distinct.add("%s d%d con%d exit%s" % (what, c.d, len(c.f) - 1, rc))
    if rc is None or re.search("out-of-memory|allocation-size-too-big|hard rss limit|calloc-overflow", err): m.count("runs not judged (time or memory)"); return
    abnormal(m, k, rc, err, "damaged %s [%s]: " % (what, c.text())); m.count("exit code %s" % rc)

def run(pid, seed, n, scratch, m=None, only=None, flavour="asan", wrapper=()):
    m = m or Monitor(); exe = rvlib.build(flavour, [os.path.join(rvlib.SRC, "Rodeo.cpp"), "cliudf.cpp", "fact.cpp"], None, name="rodeo", ext=False)
    mine = os.path.join(scratch, "rodeo-" + flavour); shutil.copy(exe, mine) if not os.path.exists(mine) else None; os.chmod(mine, 0o755); exe = list(wrapper) + [mine]
    sim0 = rvlib.build_tool("sim.cpp"); sim = os.path.join(scratch, "sim"); shutil.copy(sim0, sim); os.chmod(sim, 0o755)
    fun = {"R07": c07, "C01": c01, "C02": c02, "M01": m01}[pid]
    hung = []
    def one(k):
        if rvlib.deadline is not None and time.time() > rvlib.deadline - 60: part = Monitor(); part.cases = 0; part.inconclusive.append("out of time at case %d" % k); return part
        if len(hung) >= 6: part = Monitor(); part.cases = 0; part.inconclusive.append("stopped after 6 hangs"); return part
        d = os.path.join(scratch, "%s%s%d" % (flavour, pid, k)); os.mkdir(d); os.chmod(d, 0o755); r = random.Random("%s/%d/%d" % (pid, seed, k)); part = Monitor()
        try: fun(part, exe, sim, d, r, k)
        except Exception as e:
            import traceback; part.inconclusive.append("case %d: %s" % (k, traceback.format_exc()[-600:]))
        part.cases = 1; hung.extend(1 for v in part.viol if v["key"] == "hang")
        if only is None: shutil.rmtree(d, ignore_errors=True)
        return part
    with ThreadPoolExecutor(rvlib.JOBS) as ex:
        for p in ex.map(one, range(n) if only is None else [only]):
            m.texts |= p.texts; m.viol += p.viol; m.distinct |= p.distinct; m.cases += p.cases; m.inconclusive += p.inconclusive; m.samples += p.samples
            for a, b in p.counts.items(): m.count(a, b)
    # a double needs 17 significant digits at least every other time; far fewer mean rounded design vectors
    n = [len(re.sub(r"[eE].*", "", t).lstrip("-").replace(".", "").lstrip("0")) for _, t in m.texts]; m.count("continuous entries judged for digits", len(n))
    if len(n) >= 150 and sum(q >= 17 for q in n) < 0.25 * len(n): m.bad(pid, "design-digits", "only %d of %d distinct continuous entries of design vectors have 17 digits" % (sum(q >= 17 for q in n), len(n)), 0)
    return {"viol": m.viol, "counts": m.counts, "distinct": m.distinct, "samples": m.samples[:4], "cases": m.cases, "inconclusive": m.inconclusive}

def check(sizes, rule, mins, assume):
    def f(pid, tier, seed, scratch, t0, scale):
        res = run(pid, seed, int(sizes[pid][0 if tier == "quick" else 1] * scale), scratch)
        return rvlib.verdict(pid, tier, seed, res, rule[pid], t0, assume, "VERIF_SEED=%d python3 rv/check.py %s --tier %s  (a case is a pure function of seed and case number)" % (seed, pid, tier), mins.get(pid) if scale >= 1 else None)
    return f
