"""Solver-based checking of liblc3: the job runner.

A check is a list of jobs.  A CBMC job compiles one harness together with the
sources of /repo it drives (goto-cc, current working tree), and has CBMC decide
every assertion over all the values of the harness's symbolic inputs.  Each
counterexample is replayed on the real code (gcc, ASan + UBSan) before it is
reported.  Python jobs (other encoders) follow the same result protocol.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
import hashlib, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "tools"),
       "-I" + HARN]


def cbmc_inc(work):
    """Include paths for CBMC: the public headers are copied with the sample array at the end of
    the codec states sized by VP_XN, when a job defines it (the code indexes it past its nominal
    single element, which CBMC's typed memory model handles badly)."""
    d = os.path.join(work, "inc")
    if not os.path.isdir(d):
        os.makedirs(d)
        src = os.path.join(REPO, "include")
        for f in os.listdir(src):
            t = open(os.path.join(src, f)).read()
            if f == "lc3_private.h":
                t = re.sub(r"\bfloat\s+x\s*\[\s*1\s*\]\s*;", "float x[VP_XN];", t)
                t = "#ifndef VP_XN\n#define VP_XN 1\n#endif\n" + t
            open(os.path.join(d, f), "w").write(t)
    return ["-I" + d, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "tools"), "-I" + HARN]

ALLSRC = ["attdet", "bits", "bwdet", "energy", "lc3", "ltpf", "mdct", "plc",
          "sns", "spec", "tables", "tns"]

WORKERS = int(os.environ.get("VP_WORKERS", "8"))
MEM_GB = int(os.environ.get("VP_MEM_GB", "9"))


class Job:
    """One CBMC query set."""
    def __init__(self, name, harness, src=(), define=None, unwind=None,
                 unwindset=(), checks=(), solver="cadical", timeout=300,
                 tier="quick", bounds="", extra=(), ignore=(), objbits=None,
                 flags=(), entry="main", replay_flags=(), weight=1,
                 max_unwind_retry=1, src_define=None, pre=()):
        self.pre = list(pre)                # headers of /verif pre-included in every source
        self.src_define = dict(src_define or {})
        self.name, self.harness = name, harness
        self.src = list(src)
        self.define = dict(define or {})
        self.unwind, self.unwindset = unwind, list(unwindset)
        self.checks = list(checks)
        self.solver, self.timeout, self.tier = solver, timeout, tier
        self.bounds, self.extra, self.ignore = bounds, list(extra), list(ignore)
        self.objbits, self.flags, self.entry = objbits, list(flags), entry
        self.replay_flags = list(replay_flags)
        self.weight = weight
        self.max_unwind_retry = max_unwind_retry


class PyJob:
    """A job whose encoder is a Python function: fn(ctx) -> Result dict."""
    def __init__(self, name, fn, timeout=300, tier="quick", bounds="", weight=1,
                 **kw):
        self.name, self.fn, self.timeout, self.tier = name, fn, timeout, tier
        self.bounds, self.kw, self.weight = bounds, kw, weight


def _limits(mem_gb):
    def f():
        os.setsid()
        b = mem_gb << 30
        resource.setrlimit(resource.RLIMIT_AS, (b, resource.getrlimit(resource.RLIMIT_AS)[1]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_cmd(cmd, timeout, mem_gb=None, cwd=None, env=None, out=None):
    t0 = time.time()
    so = open(out, "wb") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=so, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=_limits(mem_gb) if mem_gb else os.setsid)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = "timeout"
    if out:
        so.close()
        o = b""
    return rc, (o or b"").decode("utf8", "replace"), (e or b"").decode("utf8", "replace"), time.time() - t0


def srcpath(s):
    if s.startswith("H:"):
        return os.path.join(HARN, s[2:])
    if s.startswith("/"):
        return s
    if s.startswith("R:"):
        return os.path.join(REPO, s[2:])
    return os.path.join(REPO, "src", s + ".c")


def pre(job):
    return [x for h in job.pre for x in ("-include", os.path.join(HARN, h))]


def sources(job):
    return [x for s in job.src for x in (s[2:].split("+") if s.startswith("U:") else [s])]


def defs(job):
    return pre(job) + ["-D%s=%s" % (k, v) if v is not None else "-D" + k
            for k, v in job.src_define.items()] + ["-D%s=%s" % (k, v) if v is not None else "-D" + k
            for k, v in job.define.items()]


CHECKS_ON = ["--bounds-check", "--pointer-check", "--div-by-zero-check",
             "--signed-overflow-check", "--undefined-shift-check",
             "--unwinding-assertions"]


def cbmc_cmd(job, gb, unwind):
    c = ["cbmc", gb, "--json-ui", "--verbosity", "8", "--no-malloc-may-fail",
         "--drop-unused-functions", "--slice-formula"] + CHECKS_ON
    for k in job.checks:
        if k.startswith("no-"):
            c = [x for x in c if x != "--" + k[3:] + "-check"]
        c.append("--" + k + "-check" if not k.endswith("-check") else "--" + k)
    if unwind:
        c += ["--unwind", str(unwind)]
    if job.unwindset:
        c += ["--unwindset", ",".join(job.unwindset)]
    if job.objbits:
        c += ["--object-bits", str(job.objbits)]
    if job.solver == "cadical":
        c += ["--sat-solver", "cadical"]
    elif job.solver == "z3":
        c += ["--z3"]
    elif job.solver == "cvc5":
        c += ["--cvc5"]
    elif job.solver == "kissat":
        c += ["--external-sat-solver", "kissat"]
    c += job.flags
    return c


def parse_cbmc(path):
    """-> dict(results, stats, ok)"""
    try:
        with open(path, "rb") as f:
            d = json.loads(f.read().decode("utf8", "replace"))
    except ValueError:
        return None
    r = {"results": None, "vcc": 0, "remaining": 0, "solver_s": 0.0, "symex_s": 0.0,
         "vars": 0, "clauses": 0, "status": None, "calls": 0, "errors": []}
    for x in d:
        if "result" in x:
            r["results"] = x["result"]
        if "cProverStatus" in x:
            r["status"] = x["cProverStatus"]
        if x.get("messageType") == "ERROR":
            r["errors"].append(x.get("messageText", ""))
        t = x.get("messageText", "")
        m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if m:
            r["vcc"], r["remaining"] = int(m[1]), int(m[2])
        m = re.match(r"Runtime (?:Solver|decision procedure): ([\d.e+-]+)s", t)
        if m and t.startswith("Runtime Solver"):
            r["solver_s"] += float(m[1]); r["calls"] += 1
        m = re.match(r"Runtime decision procedure: ([\d.e+-]+)s", t)
        if m:
            r["decision_s"] = float(m[1])
        m = re.match(r"Runtime Symex: ([\d.e+-]+)s", t)
        if m:
            r["symex_s"] = float(m[1])
        m = re.match(r"(\d+) variables, (\d+) clauses", t)
        if m:
            r["vars"], r["clauses"] = int(m[1]), int(m[2])
    return r


def trace_inputs(path):
    """-> {property: [(name, hexvalue), ...]} from a JSON trace."""
    with open(path, "rb") as f:
        d = json.loads(f.read().decode("utf8", "replace"))
    out = {}
    for x in d:
        for res in x.get("result", []):
            tr = res.get("trace")
            if not tr:
                continue
            vals = []
            for st in tr:
                if st.get("stepType") == "input" and st.get("inputID", "").startswith("vp_"):
                    v = st["values"][0]
                    b = v.get("binary")
                    if b is None:
                        continue
                    vals.append((st["inputID"], "%x" % int(b, 2)))
            out[res["property"]] = vals
    return out


def functions_of(gb, timeout=60):
    """Names of the functions of /repo reached from the harness entry."""
    rc, o, e, _ = run_cmd(["goto-instrument", "--reachable-call-graph", gb], timeout)
    s = set()
    for l in o.splitlines():
        m = re.match(r"^(\S+) -> (\S+)$", l)
        if m:
            s.update(m.groups())
    return sorted(x for x in s if not x.startswith(("__CPROVER", "vp_", "nondet_", "main", "_start")))


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=55",
            "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=56"}


def build_replay(job, out, sanitize=True):
    cc = ["gcc", "-std=gnu11", "-g", "-w", "-DVP_REPLAY"] + INC + defs(job)
    if sanitize:
        cc += ["-O1", "-fsanitize=address,undefined,float-cast-overflow",
               "-fno-sanitize-recover=all"]
    else:
        cc += ["-O3", "-ffast-math"]
    cc += job.replay_flags
    cc += [os.path.join(HARN, job.harness)] + [srcpath(s) for s in sources(job)]
    end = ["-o", out, "-lm"]
    rc, o, e, _ = run_cmd(cc + end, 180)
    if rc != 0 and "undefined reference" in e:
        # functions the harness does not reach: the rest of the library; the harness's definitions win
        rc, o, e, _ = run_cmd(cc + [srcpath(s) for s in ALLSRC if s not in sources(job) and not (job.pre and s == "bits")] +
                              ["-Wl,--allow-multiple-definition"] + end, 180)
    return rc == 0, e


def replay(job, inputs, rdir, prop, desc):
    """Runs the counterexample on the real code. -> (reproduced, text)"""
    os.makedirs(rdir, exist_ok=True)
    inp = os.path.join(rdir, "inputs.txt")
    with open(inp, "w") as f:
        for n, v in inputs:
            f.write("%s %s\n" % (n, v))
    txt = []
    env = dict(os.environ, VP_INPUTS=inp, **ASAN_ENV)
    repro = False
    for san in (True, False):
        exe = os.path.join(rdir, "replay_san" if san else "replay_fast")
        ok, err = build_replay(job, exe, san)
        if not ok:
            txt.append("replay build failed: " + err[-2000:])
            continue
        rc, o, e, _ = run_cmd([exe], 30, env=env)
        txt.append("== %s: exit %s\n%s\n%s" % (os.path.basename(exe), rc, o[-1500:], e[-3000:]))
        os.unlink(exe)
        if rc == "timeout" or rc == 66 or (san and rc in (55, 56, 1)) or \
                (isinstance(rc, int) and rc < 0) or "runtime error" in e or "AddressSanitizer" in e:
            repro = True
            break
    with open(os.path.join(rdir, "README.txt"), "w") as f:
        f.write("property of the harness: %s\n%s\n\njob: %s\nharness: %s\nsources: %s\ndefines: %s\n\n"
                "Rebuild: gcc -std=gnu11 -g -O1 -fsanitize=address,undefined,float-cast-overflow -DVP_REPLAY "
                "-I/repo/include -I/repo/src -I/verif/harness %s /verif/harness/%s %s -lm\n"
                "Run with VP_INPUTS=%s\n\n%s\n" % (
                    prop, desc, job.name, job.harness, job.src, job.define,
                    " ".join(defs(job)), job.harness,
                    " ".join(srcpath(s) for s in sources(job)), inp, "\n".join(txt)))
    return repro, "\n".join(txt)


def ignored(job, r):
    d = r.get("description", "")
    # --conversion-check also flags the well defined narrowing of integers
    if "type conversion" in d and "float" not in d:
        return True
    # difference of two pointers into one object: no overflow is possible
    if re.search(r"overflow on signed - in \S*(->|\.)?(p_bw|p_fw|start|end) - ", d):
        return True
    # 1 << 31 as a sign mask: C leaves it undefined, gcc and clang define it
    if d.endswith("signed shl in 1 << 31"):
        return True
    for pat in job.ignore:
        if re.search(pat, r["property"] + " " + d):
            return True
    return False


_objs, _lock = {}, threading.Lock()


def compile_src(work, s, job):
    """goto-cc -c of one source, once per check run and set of source defines."""
    sd = ["-D%s=%s" % (k, v) if v is not None else "-D" + k for k, v in job.src_define.items()]
    sd += pre(job)
    key = (s,) + tuple(sd)
    with _lock:
        if key not in _objs:
            _objs[key] = (threading.Lock(), [])
        lk, box = _objs[key]
    with lk:
        if not box:
            out = os.path.join(work, "obj_%s.gb" % hashlib.sha1(repr(key).encode()).hexdigest()[:12])
            f = srcpath(s)
            if s.startswith("U:"):
                # one unit: the tables are complete types where they are used
                f = out[:-3] + ".c"
                open(f, "w").write("".join('#include "%s"\n' % srcpath(x) for x in s[2:].split("+")))
            rc, o, e, _ = run_cmd(["goto-cc", "-c", "-o", out] + cbmc_inc(work) + sd + [f], 120)
            box.append((rc == 0, out if rc == 0 else (e + o)[-1500:]))
        return box[0]


def run_cbmc_job(job, work, rbase, deadline):
    t0 = time.time()
    R = {"job": job.name, "kind": "cbmc", "bounds": job.bounds, "status": "inconclusive",
         "note": "", "violations": [], "queries": 0, "solver_s": 0.0, "functions": [],
         "vcc": 0, "unreproduced": []}
    d = os.path.join(work, re.sub(r"\W+", "_", job.name))
    os.makedirs(d, exist_ok=True)
    gb = os.path.join(d, "h.gb")
    objs = []
    for s in job.src:
        ok, x = compile_src(work, s, job)
        if not ok:
            R["status"] = "error"
            R["note"] = "goto-cc failed on %s: %s" % (s, x)
            return R
        objs.append(x)
    cmd = ["goto-cc", "-o", gb] + cbmc_inc(work) + defs(job) + job.extra
    cmd += [os.path.join(HARN, job.harness)] + objs + ["--function", job.entry]
    rc, o, e, _ = run_cmd(cmd, 120)
    if rc != 0:
        R["status"] = "error"
        R["note"] = "goto-cc failed: " + (e + o)[-1500:]
        return R
    R["functions"] = functions_of(gb)
    unwind = job.unwind
    for attempt in range(1 + job.max_unwind_retry):
        out = os.path.join(d, "out%d.json" % attempt)
        left = min(job.timeout, deadline - time.time())
        if left < 3:
            R["note"] = "no time left"
            return R
        rc, o, e, dt = run_cmd(cbmc_cmd(job, gb, unwind), left, MEM_GB, out=out)
        R["wall_s"] = round(time.time() - t0, 1)
        if rc == "timeout":
            R["note"] = "solver time budget reached (%.0f s)" % left
            return R
        p = parse_cbmc(out)
        if p is None or p["results"] is None:
            R["note"] = "no verdict (rc=%s): %s" % (rc, "; ".join(p["errors"] if p else [])[:800] + e[-500:])
            R["status"] = "inconclusive" if rc not in (6,) else "error"
            return R
        R["vcc"] = p["vcc"]; R["vcc_remaining"] = p["remaining"]
        R["sat_vars"], R["sat_clauses"] = p["vars"], p["clauses"]
        R["solver_s"] += p.get("decision_s", p["solver_s"]); R["symex_s"] = p["symex_s"]
        R["queries"] = len(p["results"])
        R["solver_calls"] = p["calls"]
        reach = [r for r in p["results"] if r.get("description", "").startswith("VPREACH")]
        fails = [r for r in p["results"] if r["status"] == "FAILURE" and r not in reach
                 and not ignored(job, r)]
        unk = [r for r in p["results"] if r["status"] not in ("SUCCESS", "FAILURE")]
        unw = [r for r in fails if ".unwind." in r["property"] or "unwinding assertion" in r.get("description", "")]
        R["reach"] = {r["description"][9:]: r["status"] == "FAILURE" for r in reach}
        if not fails and unk:
            R["note"] = "solver left %d properties undecided" % len(unk)
            return R
        if not fails:
            bad = [k for k, v in R["reach"].items() if not v]
            if bad or not reach:
                R["status"] = "vacuous"
                R["note"] = "unreachable witness: %s" % bad
            else:
                R["status"] = "pass"
                R["discharged"] = len([r for r in p["results"] if r["status"] == "SUCCESS"])
            return R
        # counterexamples: assertions of the harness first
        order = sorted(fails, key=lambda r: (r in unw, not r.get("description", "").startswith("VP:")))
        seen = set(); tried = 0
        for r in order:
            if tried >= 6:
                break
            key = r.get("description")
            if key in seen and not r in unw:
                continue
            seen.add(key)
            tried += 1
            left = min(job.timeout, deadline - time.time())
            if left < 5:
                break
            tout = os.path.join(d, "trace.json")
            c = cbmc_cmd(job, gb, unwind) + ["--trace", "--property", r["property"]]
            rc, o, e, dt = run_cmd(c, left, MEM_GB, out=tout)
            if rc == "timeout":
                R["unreproduced"].append((r["property"], "trace timeout"))
                continue
            try:
                tr = trace_inputs(tout)
            except ValueError:
                tr = {}
            if ".no-body." in r["property"]:
                R["unreproduced"].append((r["property"], "function without body"))
                continue
            if r["property"] not in tr:
                R["unreproduced"].append((r["property"], "no trace"))
                continue
            rdir = os.path.join(rbase, re.sub(r"\W+", "_", job.name) + "_" + re.sub(r"\W+", "_", r["property"]))
            ok, txt = replay(job, tr[r["property"]], rdir, r["property"], r.get("description", ""))
            if ok:
                R["violations"].append({"property": r["property"], "desc": r.get("description"),
                                        "loc": r.get("sourceLocation", {}), "replay": rdir,
                                        "inputs": tr[r["property"]][:400]})
                break
            R["unreproduced"].append((r["property"] + ": " + r.get("description", ""), txt[-1200:]))
        R["wall_s"] = round(time.time() - t0, 1)
        if R["violations"]:
            R["status"] = "violation"
            return R
        if unw and unwind and attempt < job.max_unwind_retry:
            unwind = unwind * 4
            continue
        R["status"] = "unreproduced" if len(unw) < len(fails) else "inconclusive"
        R["note"] = "counterexample(s) not reproduced on the real code" if R["status"] == "unreproduced" \
            else "loop bound %s too small" % unwind
        return R
    return R


def run_py_job(job, work, rbase, deadline):
    t0 = time.time()
    R = {"job": job.name, "kind": "py", "bounds": job.bounds, "status": "inconclusive", "note": "",
         "violations": [], "queries": 0, "solver_s": 0.0, "functions": [], "unreproduced": []}
    d = os.path.join(work, re.sub(r"\W+", "_", job.name))
    os.makedirs(d, exist_ok=True)
    left = min(job.timeout, deadline - time.time())
    # a process of its own, for the time limit
    mod, fn = job.fn.split(":") if isinstance(job.fn, str) else (job.fn.__module__, job.fn.__name__)
    spec = {"module": mod, "fn": fn, "kw": job.kw, "work": d,
            "rdir": os.path.join(rbase, re.sub(r"\W+", "_", job.name))}
    sp = os.path.join(d, "spec.json"); op = os.path.join(d, "res.json")
    json.dump(spec, open(sp, "w"))
    rc, o, e, _ = run_cmd([shutil.which("python3-vt") or "python3", "-m", "vp.pyrun", sp, op], left, MEM_GB,
                          cwd=VERIF, env=dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1"))
    R["wall_s"] = round(time.time() - t0, 1)
    if rc == "timeout":
        R["note"] = "time budget reached (%.0f s)" % left
        return R
    if rc != 0 or not os.path.exists(op):
        R["status"] = "error"
        R["note"] = "encoder failed: " + (o + e)[-600:]
        return R
    R.update(json.load(open(op)))
    R["wall_s"] = round(time.time() - t0, 1)
    return R


def load_known():
    k = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith(("#", "fixed:")):
                k.append(l)
    return k


def run_check(prop, jobs, tier, explanation, assumptions, budget, outside=""):
    t0 = time.time()
    deadline = t0 + budget
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    base = os.environ.get("VP_SCRATCH") or tempfile.gettempdir()
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir=base)
    rbase = os.path.join(os.environ.get("VP_REPLAY") or os.path.join(VERIF, "replay"), prop)
    shutil.rmtree(rbase, ignore_errors=True)
    os.makedirs(rbase, exist_ok=True)
    sel = [j for j in jobs if tier == "thorough" or j.tier == "quick"]
    only = os.environ.get("VP_ONLY")
    if only:
        sel = [j for j in sel if re.search(only, j.name)]
    sel.sort(key=lambda j: -j.weight)
    res = []

    cbmc_inc(work)

    def go(j):
        try:
            return (run_cbmc_job if isinstance(j, Job) else run_py_job)(j, work, rbase, deadline)
        except Exception as ex:           # noqa
            import traceback
            return {"job": j.name, "status": "error", "note": traceback.format_exc()[-2000:],
                    "violations": [], "queries": 0, "solver_s": 0, "functions": [], "bounds": j.bounds}

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for r in ex.map(go, sel):
            res.append(r)
            print("  [%s] %-34s %-12s q=%-5s vcc=%-6s solver=%.1fs wall=%ss %s" % (
                prop, r["job"], r["status"], r.get("queries"), r.get("vcc", "-"), r.get("solver_s", 0),
                r.get("wall_s", "-"), r.get("note", "")[:1500 if r["status"] == "error" else 300]), flush=True)
            if os.environ.get("VP_DEBUG"):
                for u in r.get("unreproduced", []):
                    print("    unreproduced:", u[0], "\n", u[1])
    known = load_known()
    viol, knownhit = [], []
    for r in res:
        for v in r.get("violations", []):
            sig = "property=%s job=%s" % (prop, r["job"])
            k = [x for x in known if ("property=%s " % prop) in x and
                 ("sig=%s" % v.get("sig", "-")) in x]
            (knownhit if k else viol).append((r, v))
    for r, v in knownhit:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, r["job"], v.get("desc")))
    for r, v in viol:
        print("  counterexample in %s: %s %s" % (r["job"], v.get("property"), v.get("desc")))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]), flush=True)
    if not viol:
        shutil.rmtree(rbase, ignore_errors=True)
    npass = [r for r in res if r["status"] == "pass"]
    funcs = sorted({f for r in res for f in r.get("functions", [])})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "outside_the_claim": outside,
            "functions_encoded": funcs,
            "jobs": [{k: r.get(k) for k in ("job", "status", "bounds", "queries", "discharged", "vcc", "vcc_remaining",
                                            "sat_vars", "sat_clauses", "solver_calls", "solver_s", "symex_s", "wall_s",
                                            "reach", "note", "samples")
                      if r.get(k) not in (None, "", {})} for r in res],
            "jobs_passed": len(npass), "jobs_run": len(res),
            "jobs_inconclusive": [r["job"] for r in res if r["status"] not in ("pass", "violation")],
            "queries_discharged": sum(r.get("discharged", 0) for r in npass),
            "solver_time_s": round(sum(r.get("solver_s", 0) for r in res), 2),
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not os.environ.get("VP_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    if viol:
        return 1
    bad = [r for r in res if r["status"] in ("error", "vacuous")]
    inc = [r for r in res if r["status"] in ("inconclusive", "unreproduced")]
    for r in bad + inc:
        print("INCONCLUSIVE property=%s job=%s %s: %s" % (prop, r["job"], r["status"], r.get("note", "")[-400:]))
    print("%s: %d/%d jobs pass, %d queries, %.1f s" % (prop, len(npass), len(res),
          ev["coverage"]["queries_discharged"], ev["wall_s"]))
    if not npass:
        return 2
    return 0
