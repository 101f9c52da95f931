"""C22: numeric approximations, from LLVM IR."""
import math, os, struct, time
from fractions import Fraction as Fr
import z3
from . import ir, sym
from .ir import Err, Unsupported, HARN
from .lin import result, violation, no_repro, build_replay, run_replay
from .sym import UF, BV

TOL = {"exp2": 4e-7, "log2": 2e-4, "db": 131}


def q(x):
    f = Fr(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def hp(f, *a):
    """value to 60 digits"""
    import sympy
    return Fr(str(f(*a).evalf(60)))


def fbits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def unfbits(u):
    return struct.unpack("<f", struct.pack("<I", u & 0xffffffff))[0]


def value(m, y):
    v = m.eval(y, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return Fr(v.numerator_as_long(), v.denominator_as_long())


def exe(work):
    import subprocess
    o = os.path.join(work, "r22_math.san")
    r = subprocess.run(["gcc", "-O1", "-std=gnu11", "-w", "-DVP_MAIN", "-I" + ir.REPO + "/include", "-I" + ir.REPO + "/src",
                        "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-o", o, os.path.join(HARN, "r22_math.c"), "-lm"], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-1000:])
    return o


def run_real(work, rdir, fn, bits, why):
    return run_replay(exe(work), "".join("%s %x\n" % (fn, b) for b in bits), rdir, why)


class Counter:
    def __init__(self):
        self.q, self.t = 0, 0.0

    def ask(self, *cs):
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", 60000)
        s.add(*cs)
        t0 = time.time()
        r = s.check()
        self.t += time.time() - t0
        self.q += 1
        if r == z3.unknown:
            raise Unsupported("solver: unknown")
        return s.model() if r == z3.sat else None


def bad(fn, xb, got):
    """Does the real result break the bound?"""
    x = unfbits(xb)
    if fn == "exp2":
        w = 2.0 ** x
        return not abs(got / w - 1) <= TOL[fn]
    if fn == "log2":
        return not abs(got - math.log2(x)) <= TOL[fn]
    return not abs(got - 65536 * 10 * math.log10(x)) <= TOL[fn] - 20


def confirm(E, c, work, rdir, fn, x, why):
    b = fbits(x)
    bs = [b + d for d in range(-3, 4)]
    rc, v, se = run_real(work, rdir, fn, bs, why)
    if rc:
        return violation(E, c, rdir, fn, why + ": " + se[-200:])
    if any(bad(fn, u, float(g)) for u, g in zip(bs, v)):
        return violation(E, c, rdir, fn, why)
    return no_repro(E, c, why)


def exp2(work, rdir, lo, hi):
    """2^x for x around k/8, k in lo..hi"""
    import sympy
    p = ir.compile_ll(work, [os.path.join(HARN, "r22_math.c")])
    E = sym.use(ir.Exec(p))
    c = Counter()
    y = z3.Real("y")
    UF.lo, UF.hi = -0.0625, 0.0625
    ln2 = hp(lambda: sympy.log(2))
    T = [ln2 ** i / math.factorial(i) for i in range(7)]
    tol = Fr(TOL["exp2"]) - Fr(1, 10 ** 9) - Fr(3, 1 << 24)         # remainder, rounding of the last operations
    for k in range(lo, hi + 1):
        try:
            r = E.call("@vp_exp2f", UF([k / 8.0, 1.0]))
        except Err as e:
            return confirm(E, c, work, rdir, "exp2", k / 8.0 + 0.03, str(e))
        S = hp(lambda: sympy.Integer(2) ** sympy.Rational(k % 8, 8)) * Fr(2) ** (k // 8)
        cs = r.c if isinstance(r, UF) else [r]
        n = Fr(2) ** -(k // 8)
        P = z3.Sum([q(Fr(a) * n) * y ** i if i else q(Fr(a) * n) for i, a in enumerate(cs)])
        R = z3.Sum([q(S * n * a) * y ** i if i else q(S * n * a) for i, a in enumerate(T)])
        for up in (1, 0):
            m = c.ask(y >= q(UF.lo), y <= q(UF.hi), P > R * q(1 + tol) if up else P < R * q(1 - tol))
            if m:
                return confirm(E, c, work, rdir, "exp2", k / 8.0 + float(value(m, y)), "2^%g" % (k / 8.0 + float(value(m, y))))
    return result(E, c)


def log2(work, rdir, lo, hi):
    """log2(x) for each x of biased exponent lo..hi"""
    import sympy
    p = ir.compile_ll(work, [os.path.join(HARN, "r22_math.c")])
    E = sym.use(ir.Exec(p))
    c = Counter()
    y, u = z3.Real("y"), z3.Real("u")
    UF.lo, UF.hi = 0.5, 1.0
    iln2 = 1 / hp(lambda: sympy.log(2))
    tol = Fr(TOL["log2"]) - Fr(1, 10 ** 8) - Fr(2, 1 << 17)
    done = {}
    for e in range(lo, hi + 1):
        try:
            r = E.call("@vp_log2f", sym.MFloat(e))
        except Err as x:
            return confirm(E, c, work, rdir, "log2", 0.7 * 2.0 ** (e - 126), str(x))
        cs = list(r.c) if isinstance(r, UF) else [r]
        cs[0] -= e - 126
        if tuple(cs) in done:
            continue
        done[tuple(cs)] = 1
        P = z3.Sum([q(a) * y ** i if i else q(a) for i, a in enumerate(cs)])
        for s in range(16):
            m0 = Fr(1, 2) + Fr(2 * s + 1, 64)
            L = hp(lambda: sympy.log(sympy.Rational(m0.numerator, m0.denominator), 2))
            w = Fr(1, 64) / m0
            R = q(L) + z3.Sum([q(iln2 * (-1) ** (i + 1) / i) * u ** i for i in range(1, 6)])
            Pu = z3.substitute(P, (y, q(m0) * (1 + u)))
            for up in (1, 0):
                m = c.ask(u >= q(-w), u <= q(w), Pu > R + q(tol) if up else Pu < R - q(tol))
                if m:
                    x = float(m0 * (1 + value(m, u))) * 2.0 ** (e - 126)
                    return confirm(E, c, work, rdir, "log2", x, "log2(%g)" % x)
    return result(E, c)


def table(n):
    """10 log10(1 + n/64) / ... in Q16 with 16 more bits, rounded down"""
    import sympy
    return int(hp(lambda: sympy.log(1 + sympy.Rational(n, 64), 10) * 10 * 65536 * 65536 / 2))


def db(work, rdir, part):
    """decibels: error and monotony, on every value of the square"""
    p = ir.compile_ll(work, [os.path.join(HARN, "r22_math.c")])
    E = sym.use(ir.Exec(p))
    u = z3.BitVec("u", 32)
    LOG2Q = table(64)                       # of 2
    tab = [table(n) for n in range(65)]

    def replay(m, why, mono):
        a = m.eval(u, model_completion=True).as_long()
        # operands whose squares are around
        x = math.sqrt(unfbits(a))
        bs = [fbits(x) + d for d in range(-3, 4)]
        rc, v, se = run_real(work, rdir, "db", bs, why)
        if rc:
            return violation(E, None, rdir, "db", why + ": " + se[-200:])
        v = [int(t) for t in v]
        if mono and any(s > t for s, t in zip(v, v[1:])) or not mono and any(bad("db", b, g) for b, g in zip(bs, v) if unfbits(b) >= 2.0 ** -63):
            return violation(E, None, rdir, "db", why)
        return no_repro(E, None, why)

    E.base = [z3.LShR(u, 23) >= 1, z3.LShR(u, 23) <= 252, (z3.LShR(u, 23) & 1) == (part & 1), z3.LShR(u, 18) & 31 == part >> 1] if part >= 0 else [u == 0]
    W = 56

    def one():
        r = E.call("@vp_db_q16", sym.SqFloat(u))
        return r, sym.concretize(sym.simp(z3.LShR(u, 17) & 63, 32)) if part >= 0 else 0

    def two():
        return E.call("@vp_db_q16", sym.SqFloat(u)), E.call("@vp_db_q16", sym.SqFloat(u + 1))

    try:
        for r, seg in E.paths(one):
            if part < 0:
                if not (isinstance(r, int) and -13000000 < r < -12000000 or type(r) is BV and
                        sym.ask(z3.Or(r.t >= -12000000, r.t <= -13000000)) is None):
                    rc, v, se = run_real(work, rdir, "db", [0], "decibels of 0")
                    if rc or not -13000000 < int(v[0]) < -12000000:
                        return violation(E, None, rdir, "db", "decibels of 0")
                    return no_repro(E, None, "decibels of 0")
                continue
            # chord of the logarithm in [1 + seg/64, 1 + (seg+1)/64], in Q16 with 8 more bits
            e = z3.ZeroExt(W - 9, z3.Extract(31, 23, u)) - 127
            lo = z3.ZeroExt(W - 17, z3.Extract(16, 0, u))
            C = e * (LOG2Q >> 8) + (tab[seg] >> 8) + z3.LShR(z3.BitVecVal((tab[seg + 1] - tab[seg]) >> 8, W) * lo, 17)
            R = z3.SignExt(W - 32, sym.bv(r, 32)) << 8
            tol = TOL["db"] << 8
            for c in (R - C > tol, R - C < -tol):
                m = sym.ask(c)
                if m is not None:
                    return replay(m, "decibels: error", False)
        if part < 0:
            return result(E)
        for a, b in E.paths(two):
            m = sym.ask(sym.bv(a, 32) > sym.bv(b, 32))
            if m is not None:
                return replay(m, "decibels: not monotone", True)
    except Err as x:
        m = getattr(x, "model", None) or sym.ask()
        return replay(m, str(x), False)
    return result(E)
