"""Jobs over the LLVM IR executor: C24, C25, C32 ..."""
import json, os, re, subprocess, sys, time
import numpy as np
from . import ir
from .forms import Lin, LinQuery, Poly, rat, zvars
from .ir import Err, Unsupported, UNDEF, REPO, HARN

NS2M5 = [20, 40, 60, 80, 120, 120, 240]


def result(E, q=None, **kw):
    r = dict(status="pass", violations=[], queries=0, discharged=0, solver_s=0.0, functions=sorted(E.called) if E else [], **kw)
    if E:
        r["queries"] += E.queries
        r["solver_s"] += E.solver_s
    if q:
        r["queries"] += q.q
        r["solver_s"] += q.t
    r["discharged"] = r["queries"]
    r["solver_s"] = round(r["solver_s"], 3)
    return r


def build_replay(work, harness, srcs, san=True):
    exe = os.path.join(work, harness.replace(".c", "") + (".san" if san else ""))
    fl = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g"] if san else []
    r = subprocess.run(["gcc", "-O1", "-std=gnu11", "-w", "-I" + REPO + "/include", "-I" + REPO + "/src"] + fl +
                       ["-o", exe, os.path.join(HARN, harness)] + [os.path.join(REPO, "src", s + ".c") for s in srcs] + ["-lm"],
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-1500:])
    return exe


def run_replay(exe, text, rdir, what):
    """-> (crashed, values)"""
    os.makedirs(rdir, exist_ok=True)
    open(os.path.join(rdir, "input.txt"), "w").write(text)
    import resource
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    r = subprocess.run([exe], input=text, capture_output=True, text=True, timeout=60,
                       env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"),
                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (hard, hard)))
    open(os.path.join(rdir, "output.txt"), "w").write(r.stdout + r.stderr[-4000:])
    open(os.path.join(rdir, "README"), "w").write("%s\ninput.txt on the standard input of the program compiled from harness/%s and the sources of the repository\n" % (what, os.path.basename(exe)))
    crash = r.returncode < 0 or (r.returncode and ("runtime error" in r.stderr or "ERROR: AddressSanitizer:" in r.stderr)
                                 and "failed to allocate" not in r.stderr)
    if r.returncode and not crash:
        raise RuntimeError("replay: " + r.stderr[-500:])
    return int(bool(crash)), r.stdout.split(), r.stderr


def violation(E, q, rdir, prop, desc):
    r = result(E, q)
    r["status"] = "violation"
    r["violations"] = [dict(property=prop, desc=desc, replay=rdir, sig=prop)]
    return r


def no_repro(E, q, what):
    r = result(E, q)
    r["status"] = "unreproduced"
    r["note"] = what
    r["unreproduced"] = [(what, "")]
    return r


def mdct(work, rdir, dt, sr, low=None, frames=3, step=1, eps=1e-4):
    """low None: perfect reconstruction.  Else the codec rate below `sr`: spectrum and
    signal are those of the full one, with the upper part zeroed."""
    p = ir.compile_ll(work, ["mdct", "tables"])
    E = ir.Exec(p)
    n = NS2M5[sr] * (1 + dt)
    s2 = sr if low is None else low
    m = NS2M5[s2] * (1 + dt)
    nd = (n + ([32, 64, 96, 128, 192, 192, 384][sr] if dt == 2 else NS2M5[sr])) // 2
    delay = 2 * nd - n
    Lin.N = n * frames
    q = LinQuery()
    out, ref = [], []

    def replay(x, what, kind):
        exe = build_replay(work, "r24_mdct.c", ["mdct", "tables"])
        txt = "%d %d %d %d\n%s\n" % (dt, sr, s2, frames, "\n".join("%.9g" % v for v in x))
        return run_replay(exe, txt, rdir, what)

    def transform(E, s, inputs):
        """frames -> (coefficients, outputs)"""
        d, d2 = E.alloc("d", 4 * nd), E.alloc("d2", 4 * nd)
        E.put_f(d, [0.0] * nd)
        E.put_f(d2, [0.0] * nd)
        cs, os_ = [], []
        for f in range(frames):
            x, y, o = E.alloc("x", 4 * n), E.alloc("y", 4 * n), E.alloc("o", 4 * n)
            E.put_f(x, inputs[f * n:f * n + n])
            E.call("@lc3_mdct_forward", dt, sr, s, x, d, y)
            k = NS2M5[s] * (1 + dt)
            c = E.get_f(y, k)
            cs += c
            E.put_f(y, c[:m] + [0.0] * (n - m))
            E.call("@lc3_mdct_inverse", dt, sr, s, y, d2, o)
            os_ += E.get_f(o, n)
        return cs, os_

    xs = [Lin.var(i) for i in range(n * frames)]
    try:
        cs, out = transform(E, s2, xs)
        if low is not None:
            cr, ref = transform(ir.Exec(p), sr, xs)
    except Err as e:
        rc, v, se = replay([0.25] * (n * frames), str(e), e.kind)
        if rc != 0:
            return violation(E, q, rdir, e.kind, str(e))
        return no_repro(E, q, str(e))
    for f in out:
        if f is UNDEF:
            return violation(E, q, rdir, "undef", "output depends on uninitialised memory")
    first = n * (frames - 1)
    for i in range(first, n * frames, step):
        r = out[i] - (Lin.var(i - delay) if low is None else ref[i])
        x = q.bounded(r, eps)
        if x is not None:
            rc, v, se = replay(x, "output sample %d" % i, "value")
            want = x[i - delay] if low is None else sum(a * b for a, b in zip(Lin.of(ref[i]).v, x))
            if rc == 0 and abs(float(v[i]) - want) > eps / 2:
                return violation(E, q, rdir, "sample %d" % i, "sample %d is %s, expected %g" % (i, v[i], want))
            if rc != 0:
                return violation(E, q, rdir, "crash", se[-300:])
            return no_repro(E, q, "sample %d: %s, expected %g" % (i, v[i], want))
    if low is not None:
        g = (m / n) ** 0.5
        for i in range(0, m, step):
            x = q.bounded(cs[m + i] - cr[n + i] * g, eps)
            if x is not None:
                rc, v, se = replay(x, "coefficient %d" % i, "value")
                want = sum(a * b for a, b in zip(cr[n + i].v, x)) * g
                if rc != 0 or abs(float(v[n * frames + m + i]) - want) > eps / 2:
                    return violation(E, q, rdir, "coef %d" % i, "gain of coefficient %d" % i)
                return no_repro(E, q, "coefficient %d" % i)
    return result(E, q)




def model_floats(s, n, lo=None):
    import z3
    m = s.model()
    out = []
    for x in zvars(n)[:n]:
        v = m.eval(x, model_completion=True)
        out.append(float(v.as_fraction()))
    return out


def bwdet(work, rdir, dt, sr):
    """Every energy from 0 to 2^40, over the reals."""
    import z3
    p = ir.compile_ll(work, ["bwdet", "tables"])
    E = ir.Exec(p)
    nb = E.load((E.global_("@lc3_num_bands")[0], (dt * 7 + sr) * 4), 4, "i")
    Lin.N = nb
    xs = zvars(nb)[:nb]
    lim = E.global_("@lc3_band_lim")
    pl = E.load((lim[0], (dt * 7 + sr) * 8), 8, "p")
    lim = E.get_i(pl, nb + 1)
    npaths = 0

    def replay(e, why):
        exe = build_replay(work, "r21_bwdet.c", ["bwdet", "bits", "tables"])
        return run_replay(exe, "%d %d %d\n%s\n" % (dt, sr, nb, "\n".join("%.9g" % v for v in e)), rdir, why)

    def driver():
        e = E.alloc("e", 4 * nb)
        E.put_f(e, [Lin.var(i) for i in range(nb)])
        return E.call("@lc3_bwdet_run", dt, sr, e)

    def solve(extra):
        s = z3.Solver()
        s.add(*E.pc)
        s.add(*extra)
        t0 = time.time()
        r = s.check()
        E.solver_s += time.time() - t0
        E.queries += 1
        if r == z3.unknown:
            raise Unsupported("solver: unknown")
        return s if r == z3.sat else None

    E.base = [c for x in xs for c in (x >= 0, x <= 2 ** 40)]
    reached = set()
    try:
        for bw in E.paths(driver):
            npaths += 1
            reached.add(bw)
            checks = []
            if not 0 <= bw <= sr or (sr > 4 and bw != sr):
                checks.append(("bandwidth %d of rate %d" % (bw, sr), []))
            if bw != sr:
                # high energy everywhere
                checks.append(("detected %d with energy everywhere" % bw,
                               [x >= 20 for x in xs]))
            if 0 < sr < 5:
                for low in range(sr):
                    cut = (low + 1) * 4000
                    if bw != low:
                        c = []
                        for i, x in enumerate(xs):
                            c.append(x == 0 if lim[i] * 200 >= cut * (1 + dt) else x >= 20)
                        checks.append(("detected %d without energy above %d Hz" % (bw, cut), c))
                    if low >= bw:
                        c, hi = [], ((low + 2) * 4000, 20000)[low == 3]
                        for i, x in enumerate(xs):
                            if lim[i] * 200 >= cut * (1 + dt) and lim[i] * 200 < hi * (1 + dt):
                                c.append(x >= 20)
                        checks.append(("detected %d with energy from %d to %d Hz" % (bw, cut, hi), c))
            for why, c in checks:
                s = solve(c)
                if s:
                    e = model_floats(s, nb)
                    rc, v, se = replay(e, why)
                    if rc or int(v[0]) == bw:
                        return violation(E, None, rdir, "bandwidth", why)
                    return no_repro(E, None, why)
    except Err as x:
        rc, v, se = replay([30.0] * nb, str(x))
        if rc:
            return violation(E, None, rdir, x.kind, str(x))
        rc, v, se = replay([0.0] * nb, str(x))
        if rc:
            return violation(E, None, rdir, x.kind, str(x))
        return no_repro(E, None, str(x))
    r = result(E)
    if reached != ({sr} if sr in (0, 5, 6) else set(range(sr + 1))):
        r["status"], r["note"] = "vacuous", "bandwidths reached: %s" % reached
    r["paths"] = npaths
    return r


# ---------------------------------------------------------------- C32

def ltpf_lag(p, sr):
    q = (p - 283) * 4 if p >= 440 else (p // 2 - 63) * 4 + (p % 2) * 2 if p >= 380 else (p // 4 + 32) * 4 + p % 4
    return (q * NS2M5[sr] * 4 + 64) // 128


def ltpf_gain(dt, sr, nbytes):
    """index of the gain by the bitrate, None: off"""
    nbits = nbytes * 8 * 4 // (1 + dt)
    if dt == 0:
        nbits = (6 * nbits + 5) // 10
    if dt == 1:
        nbits -= 160
    g = max(int(nbits / 80), 3 + sr) - (3 + sr)
    return g if g < 4 else None


def ltpf(work, rdir, dt, sr, scen, eps=1e-4):
    """scen: list of (start position, [frames: (nbytes, present, active, pitch index)]); the last frame is judged."""
    p = ir.compile_ll(work, ["ltpf", "bits", "tables"])
    ns, nt = NS2M5[sr] * (1 + dt), NS2M5[sr]
    nh = (9 if dt == 2 else 8) * NS2M5[sr]
    q = LinQuery()
    fns = set()
    for pos, frames in scen:
        E = ir.Exec(p)
        ring = nh + ns
        nfr = ring // ns
        nf = len(frames)
        Lin.N = ring + nf * ns
        w = max(4, [32, 64, 96, 128, 192][sr] >> 4)

        def tab(name, i, j):
            o = E.global_("@" + name)
            return E.get_f(E.load((o[0], (i * 4 + j) * 8), 8, "p"), w)

        def coef(f):
            nb, pres, act, pi = f
            g = ltpf_gain(dt, sr, nb)
            if not pres or not act or g is None:
                return None
            lag = ltpf_lag(pi, sr)
            gain = .4 - .05 * g
            return (lag, [gain * v for v in tab("lc3_ltpf_cden", sr, lag & 3)], [.85 * gain * v for v in tab("lc3_ltpf_cnum", sr, g)])

        hist = [Lin.var(i) for i in range(ring)]       # the ring, by position
        x = [[Lin.var(ring + f * ns + i) for i in range(ns)] for f in range(nf)]
        m = E.alloc("ring", 4 * ring)
        E.put_f(m, hist)
        st = E.alloc("state", 256)
        E.memset(st, 0, 256)
        poss = [(pos + f) % nfr * ns for f in range(nf)]

        def replay(vals, why):
            exe = build_replay(work, "r32_ltpf.c", ["ltpf", "bits", "tables"])
            t = "%d %d %d\n" % (dt, sr, nf) + "".join("%d %d %d %d %d\n" % ((poss[f],) + tuple(frames[f])) for f in range(nf)) + "\n".join("%.9g" % v for v in vals)
            return run_replay(exe, t, rdir, why)

        try:
            for f in range(nf):
                px = (m[0], 4 * poss[f])
                E.put_f(px, x[f])
                nb, pres, act, pi = frames[f]
                d = E.alloc("data", 8)
                E.put_i(d, [act], 1)
                E.put_i((d[0], 4), [pi])
                before = E.get_f(m, ring)
                if f == nf - 1:
                    old = before
                E.call("@lc3_ltpf_synthesize", dt, sr, nb, st, d if pres else ir.NULL, m, px)
                after = E.get_f(m, ring)
                for i in range(ring):
                    if not poss[f] <= i < poss[f] + ns and after[i] is not before[i]:
                        raise Err("history", "sample %d of the history changed" % i)
        except Err as e:
            rc, v, se = replay([.25] * Lin.N, str(e))
            return violation(E, q, rdir, e.kind, str(e)) if rc or e.kind == "history" else no_repro(E, q, str(e))
        fns |= E.called
        out = E.get_f((m[0], 4 * poss[-1]), ns)
        # the definition of the filter
        P, C = coef(frames[-2]), coef(frames[-1])
        xin, P0 = x[-1], poss[-1]

        def Y(y, t):
            return y[t] if t >= 0 else old[(P0 + t) % ring]

        def X(xx, prev, t):
            return xx[t] if t >= 0 else prev(t)

        def run(y, xx, prev, c, a, b, g):
            lag, den, num = c
            for n in range(a, b):
                u = 0.0
                for m_ in range(w):
                    if num[m_]:
                        u = u + X(xx, prev, n - m_) * num[m_]
                    if den[m_]:
                        u = u - Y(y, n - (lag >> 2) + (w // 2 - 1) - m_) * den[m_]
                y.append(xx[n] - u * g(n))
            return y

        px_ = lambda t: x[-2][ns + t]
        if not P and not C:
            want = list(xin)
        else:
            y = []
            if P and C and P[0] == C[0]:
                run(y, xin, px_, C, 0, nt, lambda n: 1.0)
            elif P and C:
                z = run([], xin, px_, P, 0, nt, lambda n: 1 - n / nt)
                run(y, z, lambda t: old[(P0 + t) % ring], C, 0, nt, lambda n: n / nt)
            elif C:
                run(y, xin, px_, C, 0, nt, lambda n: n / nt)
            else:
                run(y, xin, px_, P, 0, nt, lambda n: 1 - n / nt)
            if C:
                run(y, xin, px_, C, nt, ns, lambda n: 1.0)
            else:
                y += xin[nt:]
            want = y
        for i in range(ns):
            if out[i] is UNDEF:
                return violation(E, q, rdir, "undef", "output depends on uninitialised memory")
            r = out[i] - want[i]
            e = eps if C or (P and i < nt) else 1e-6        # transparent: nothing changed
            vals = q.bounded(r, e)
            if vals is not None:
                rc, v, se = replay(vals, "sample %d of the last frame" % i)
                wv = sum(a * b for a, b in zip(Lin.of(want[i]).v, list(vals) + [1]))
                if rc or abs(float(v[(nf - 1) * ns + i]) - wv) > e / 2:
                    return violation(E, q, rdir, "sample %d" % i, "frames %s: sample %d is %s, expected %g" % (frames, i, v[(nf - 1) * ns + i] if not rc else "-", wv))
                return no_repro(E, q, "sample %d" % i)
    r = result(E, q)
    r["functions"] = sorted(fns)
    return r


# ---------------------------------------------------------------- C25

class CLin(Lin):
    """Linear form over the signal with a base signal: decisions and nonlinear operations are taken at
    the base signal (the path of that signal), so that the parameters found are concrete."""
    __slots__ = ()
    base = None

    def at(self):
        return float(self.v[:-1] @ CLin.base + self.v[-1])


def concolic(base):
    """Makes the nonlinear operations of Lin concrete."""
    CLin.base = np.array(base)

    def at(self):
        return float(self.v[:-1] @ CLin.base + self.v[-1])

    def mul(self, o):
        if type(o) is Lin:
            if not o.v[:-1].any():
                return Lin(self.v * o.v[-1])
            if not self.v[:-1].any():
                return Lin(o.v * self.v[-1])
            return at(self) * at(o)
        if not isinstance(o, (int, float)):
            return NotImplemented
        return Lin(self.v * o)
    Lin.__mul__ = Lin.__rmul__ = mul
    Lin.at = at

    def fcmp(self, op, o, swap):
        a, b = at(self), at(o) if type(o) is Lin else o
        if swap:
            a, b = b, a
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op[-2:]] + 0
    Lin.fcmp = fcmp
    Lin.fabs = lambda self: abs(at(self))


def tns_chain(work, rdir, dt, bws, seeds, eps=1e-4):
    """The analysis on the path of a base signal, then the synthesis with the parameters found."""
    p = ir.compile_ll(work, ["tns", "tables"])
    q = LinQuery()
    fns, orders, sets = set(), set(), set()
    for bw in bws:
        ne = NS2M5[bw] * (1 + dt) if bw < 4 else [100, 200, 300, 400][dt]
        for seed in range(seeds):
            rng = np.random.RandomState(seed * 7 + bw)
            # coloured noise: poles that give filters of different orders
            b = rng.uniform(-1, 1, ne)
            for k in range(1 + seed % 4):
                r, th = rng.uniform(.6, .98), rng.uniform(0, 3.1)
                for i in range(2, ne):
                    b[i] += 2 * r * np.cos(th) * b[i - 1] - r * r * b[i - 2]
            if seed % 3 == 0:
                b[ne // 2:] *= .1
            b *= 1000 / np.abs(b).max()
            Lin.N = ne
            concolic(b)
            E = ir.Exec(p)
            x, d = E.alloc("x", 4 * ne), E.alloc("data", 128)
            E.put_f(x, [Lin.var(i) for i in range(ne)])
            nb = [40, 100, 200, 20][seed % 4]

            def replay(vals, why):
                exe = build_replay(work, "r25_tns.c", ["tns", "bits", "tables"])
                return run_replay(exe, "%d %d %d %d\n%s\n" % (dt, bw, nb, ne, "\n".join("%.9g" % v for v in vals)), rdir, why)
            try:
                E.call("@lc3_tns_analyze", dt, bw, 0, nb, d, x)
                mid = E.get_f(x, ne)
                E.call("@lc3_tns_synthesize", dt, bw, d, x)
            except Err as e:
                rc, v, se = replay(b, str(e))
                return violation(E, q, rdir, e.kind, str(e)) if rc else no_repro(E, q, str(e))
            out = E.get_f(x, ne)
            fns |= E.called
            orders.add(sum(1 for i in range(ne) if Lin.of(mid[i]).v[:-1].astype(bool).sum() > 1) > 0)
            sets.add(tuple(E.load((d[0], k), 4, "i") if k in d[0].cells else None for k in range(4, 96, 4)))
            for i in range(ne):
                vals = q.bounded(out[i] - Lin.var(i), eps)
                if vals is not None:
                    # around the base signal, small enough to keep its parameters
                    s = float(np.abs(b).max()) * 1e-3
                    for vv in (list(b + s * vals), list(b - s * vals), list(b)):
                        rc, v, se = replay(vv, "coefficient %d" % i)
                        if rc or max(abs(float(a) - c) for a, c in zip(v, vv)) > 1e-3 * np.abs(b).max():
                            return violation(E, q, rdir, "coefficient %d" % i, "coefficient %d does not come back (bandwidth %d, base %d)" % (i, bw, seed))
                    return no_repro(E, q, "coefficient %d" % i)
    r = result(None, q)
    r["functions"] = sorted(fns)
    r["paths"] = len(sets)
    if True not in orders:
        r["status"], r["note"] = "vacuous", "no filter"
    return r


def tns_lattice(work, rdir, dt, bw, o0, o1):
    """The two filters alone, with unknown reflection coefficients: their composition is the identity, as polynomials."""
    import z3
    src = os.path.join(work, "tns_open.c")
    s = open(os.path.join(REPO, "src/tns.c")).read()
    open(src, "w").write(re.sub(r"(?m)^(LC3_HOT +)?static +(?=[^=;{]*\()", "", s))
    p = ir.compile_ll(work, [src, "tables"], flags=["-fno-inline"], name="open")
    E = ir.Exec(p)
    E.rounding = False
    for f in ("@forward_filtering", "@inverse_filtering"):
        if f not in E.src:
            raise Unsupported("function %s not found" % f)
    ne = NS2M5[bw] * (1 + dt)
    i0 = 3 * (1 + dt)
    x, rc, od = E.alloc("x", 4 * ne), E.alloc("rc", 64), E.alloc("order", 8)
    xs = [Poly.var("x%d" % i) if i < i0 + 14 or (ne // 2 - 3 <= i < ne // 2 + 12 and o1) else 0.0 for i in range(ne)]
    E.put_f(x, xs)
    E.put_i(od, [o0, o1])
    for f, o in ((0, o0), (1, o1)):
        E.put_f((rc[0], 32 * f), [Poly.var("k%d%d" % (f, k)) if k < o else 0.0 for k in range(8)])

    def witness(model, vs):
        """Shows a failure on the real code, with the values of the model, or others"""
        rng = np.random.RandomState(1)
        for k in range(4):
            m = {v: rng.uniform(-.9, .9) for v in ["x%d" % n for n in range(ne)] + ["k%d%d" % (f, n) for f in (0, 1) for n in range(8)]}
            if k == 0 and model:
                for v in vs:
                    z = model.eval(z3.Real(v), model_completion=True)
                    m[v] = float(z.as_fraction()) if z3.is_rational_value(z) else float(z.approx(20).as_fraction())
            xv = [m["x%d" % n] if type(xs[n]) is Poly else 0 for n in range(ne)]
            kv = [m["k%d%d" % (f, n)] if n < (o0, o1)[f] else 0 for f in (0, 1) for n in range(8)]
            exe = build_replay(work, "r25_lattice.c", ["bits", "tables"])
            rc_, v, se = run_replay(exe, "%d %d %d %d %d\n%s\n" % (dt, bw, o0, o1, ne, "\n".join("%.9g" % y for y in kv + xv)), rdir, "lattice")
            if rc_ or max(abs(float(a) - b) for a, b in zip(v, xv)) > 1e-3:
                return violation(E, None, rdir, "lattice", "coefficients are not restored by the filters of orders %d, %d" % (o0, o1))

    try:
        E.call("@forward_filtering", dt, bw, od, rc, x)
        mid = E.get_f(x, ne)
        E.call("@inverse_filtering", dt, bw, od, rc, x)
    except (Err, Unsupported) as e:
        w = witness(None, [])
        if w:
            return w
        if type(e) is Err:
            return no_repro(E, None, str(e))
        raise
    out = E.get_f(x, ne)
    r = result(E)
    t0 = time.time()
    for i in range(ne):
        d = Poly.of(out[i] - xs[i])
        s = z3.Solver()
        s.set("timeout", 20000)
        for v in d.vars():
            b = 2 if v[0] == "x" else 1
            s.add(z3.Real(v) >= -b, z3.Real(v) <= b)
        s.add(z3.Or(d.z3() > rat(1e-6), d.z3() < rat(-1e-6)))
        res = s.check()
        r["queries"] += 1
        if res != z3.unsat:
            w = witness(s.model() if res == z3.sat else None, d.vars())
            if w:
                return w
            r["status"] = "unreproduced"
            r["note"] = "coefficient %d is not restored by the filters alone (%s)" % (i, res)
            return r
    r["discharged"] = r["queries"]
    r["solver_s"] = round(time.time() - t0, 3)
    if not any(type(m) is Poly and len(m.t) > 1 for m in mid):
        r["status"] = "vacuous"
    return r


def sns_chain(work, rdir, dt, sr, seeds, eps=1e-3):
    """Envelope applied by the encoder, undone by the decoder from the transmitted parameters, for every spectrum."""
    p = ir.compile_ll(work, ["sns", "tables"])
    q = LinQuery()
    fns, sets = set(), set()
    E0 = ir.Exec(p)
    nb = E0.load((E0.global_("@lc3_num_bands")[0], (dt * 7 + sr) * 4), 4, "i")
    ne = NS2M5[sr] * (1 + dt) if sr < 4 or sr > 4 else [100, 200, 300, 400][dt]
    shapes = set()
    for seed in range(seeds):
        rng = np.random.RandomState(seed * 11 + sr)
        e = 10 ** (rng.uniform(-1, 6) + rng.uniform(0, [0.3, 1, 2, 3][seed % 4]) * rng.randn(nb) * .6 + rng.uniform(-4, 2) * np.arange(nb) / nb)
        e = [ir.f32(min(max(float(v), 0), 1e12)) for v in e]
        if seed == 0:
            e = [0.0] * nb
        Lin.N = ne
        E = ir.Exec(p)
        eb, x, y, d = E.alloc("e", 4 * nb), E.alloc("x", 4 * ne), E.alloc("y", 4 * ne), E.alloc("data", 64)
        E.put_f(eb, e)
        E.put_f(x, [Lin.var(i) for i in range(ne)])

        def replay(vals, why):
            exe = build_replay(work, "r25_sns.c", ["sns", "bits", "tables"])
            return run_replay(exe, "%d %d %d %d %d\n%s\n" % (dt, sr, seed & 1, nb, ne, "\n".join("%.9g" % v for v in list(e) + list(vals))), rdir, why)
        try:
            E.call("@lc3_sns_analyze", dt, sr, 40 + seed * 3, eb, seed & 1, d, x, y)
            mid = E.get_f(y, ne)
            E.call("@lc3_sns_synthesize", dt, sr, d, y, x)
        except Err as er:
            rc, v, se = replay([.5] * ne, str(er))
            return violation(E, q, rdir, er.kind, str(er)) if rc else no_repro(E, q, str(er))
        out = E.get_f(x, ne)
        fns |= E.called
        par = tuple(E.load((d[0], k), 4, "i") for k in (0, 4, 8, 12, 16, 20))
        sets.add(par)
        shapes.add(par[2])
        for i in range(ne):
            vals = q.bounded(out[i] - Lin.var(i), eps)
            if vals is not None:
                rc, v, se = replay(vals, "coefficient %d" % i)
                if rc or abs(float(v[i]) - vals[i]) > eps / 2:
                    return violation(E, q, rdir, "coefficient %d" % i, "coefficient %d does not come back (energies %d)" % (i, seed))
                return no_repro(E, q, "coefficient %d" % i)
    r = result(None, q)
    r["functions"] = sorted(fns)
    r["paths"] = len(sets)
    r["note"] = "%d parameter sets, shapes %s" % (len(sets), sorted(shapes))
    return r
