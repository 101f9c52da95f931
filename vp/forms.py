"""Symbolic values for the IR executor.

Lin: a linear form over the unknown real samples of a signal: numpy vector of
coefficients, the last one being the constant term.  Float arithmetic is taken
over the reals, the constants of the tables being those of the code.
"""
import ctypes, fractions, os, subprocess, time
import numpy as np
from .ir import Unsupported, UNDEF, LLVM, REPO


class Lin:
    __slots__ = ("v",)
    N = 0           # count of unknowns

    def __init__(self, v):
        self.v = v

    @staticmethod
    def var(i):
        v = np.zeros(Lin.N + 1)
        v[i] = 1
        return Lin(v)

    @staticmethod
    def of(x):
        if type(x) is Lin:
            return x
        v = np.zeros(Lin.N + 1)
        v[-1] = x
        return Lin(v)

    def __add__(self, o):
        if type(o) is Lin:
            return Lin(self.v + o.v)
        if not isinstance(o, (int, float)):
            return NotImplemented
        if o == 0:
            return self
        v = self.v.copy()
        v[-1] += o
        return Lin(v)
    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.v)

    def __sub__(self, o):
        if type(o) is Lin:
            return Lin(self.v - o.v)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is Lin:
            if not o.v[:-1].any():
                return Lin(self.v * o.v[-1])
            if not self.v[:-1].any():
                return Lin(o.v * self.v[-1])
            raise Unsupported("product of two unknowns")
        if not isinstance(o, (int, float)):
            return NotImplemented
        return Lin(self.v * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float)):
            return Lin(self.v / o)
        raise Unsupported("division by an unknown")

    def const(self):
        return None if self.v[:-1].any() else float(self.v[-1])

    def fcmp(self, op, o, swap):
        c = self.const()
        if c is not None and not isinstance(o, Lin):
            import operator
            f = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}[op[-2:]]
            return int(f(o, c) if swap else f(c, o))
        d = Lin.of(o) - self if swap else self - Lin.of(o)
        c = d.const()
        if c is not None:
            return {"eq": int(c == 0), "ne": int(c != 0), "lt": int(c < 0), "le": int(c <= 0), "gt": int(c > 0), "ge": int(c >= 0)}[op[-2:]]
        return LinCmp(op[-2:], d)


class LinCmp:
    """d op 0"""
    decided = True          # a path for each outcome

    def __init__(self, op, d):
        self.op, self.d = op, d

    def cond(self):
        z = term(self.d)
        return {"eq": z == 0, "ne": z != 0, "lt": z < 0, "le": z <= 0, "gt": z > 0, "ge": z >= 0}[self.op]


    def select(self, a, b):
        return NotImplemented


_vars = []


def zvars(n):
    import z3
    while len(_vars) < n:
        _vars.append(z3.Real("x%d" % len(_vars)))
    return _vars


def rat(c, bits=52):
    import z3
    f = fractions.Fraction(float(c)).limit_denominator(1 << bits) if False else fractions.Fraction(round(float(c) * (1 << bits)), 1 << bits)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def term(l, bits=52):
    import z3
    xs = zvars(Lin.N)
    t = [rat(l.v[i], bits) * xs[i] for i in np.nonzero(l.v[:-1])[0]]
    t.append(rat(l.v[-1], bits))
    return z3.Sum(t)


class LinQuery:
    """Is |form| <= eps for all unknowns in their box?  Coefficients below
    `tiny` are not handed over: the sum of their magnitudes times the box is
    taken off the tolerance (sound)."""
    def __init__(self, box=1.0):
        self.box, self.q, self.t, self.bits = box, 0, 0.0, 44

    def bounded(self, form, eps):
        """-> None when the solver shows it, else the values of a counterexample"""
        import z3
        f = Lin.of(form)
        v = f.v
        tiny = eps / (4.0 * len(v) * self.box)
        big = np.abs(v[:-1]) > tiny
        slack = float(np.abs(v[:-1][~big]).sum()) * self.box + len(v) * self.box * 2.0 ** -self.bits
        e = eps - slack
        if e <= 0:
            raise Unsupported("tolerance below the slack")
        xs = zvars(len(v) - 1)
        idx = np.nonzero(big)[0]
        for sign in (1, -1):
            s = z3.SolverFor("QF_LRA")
            s.set("timeout", 60000)
            b = rat(self.box)
            for i in idx:
                s.add(xs[i] <= b, xs[i] >= -b)
            expr = z3.Sum([rat(sign * v[i], self.bits) * xs[i] for i in idx] + [rat(sign * v[-1], self.bits)])
            s.add(expr > rat(e))
            t0 = time.time()
            r = s.check()
            self.t += time.time() - t0
            self.q += 1
            if r == z3.unknown:
                raise Unsupported("solver: unknown")
            if r == z3.sat:
                m = s.model()
                x = np.zeros(len(v) - 1)
                for i in idx:
                    q = m[xs[i]]
                    if q is not None:
                        x[i] = float(q.numerator_as_long()) / float(q.denominator_as_long())
                return x
        return None


def native(work, srcs, name="native", flags=(), extra=()):
    """The real sources as a shared object, for replays."""
    so = os.path.join(work, name + ".so")
    fs = [s if s.startswith("/") else os.path.join(REPO, "src", s + ".c") for s in srcs]
    r = subprocess.run(["gcc", "-O2", "-std=gnu11", "-w", "-fPIC", "-shared", "-I" + REPO + "/include", "-I" + REPO + "/src"] + list(flags) + ["-o", so] + fs + ["-lm"], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-1000:])
    return ctypes.CDLL(so)


class Poly:
    """Polynomial over the reals: {monomial (sorted tuple of variables): coefficient}."""
    __slots__ = ("t",)
    LIMIT = 20000

    def __init__(self, t):
        self.t = t

    @staticmethod
    def var(name):
        return Poly({(name,): 1.0})

    @staticmethod
    def of(x):
        return x if type(x) is Poly else Poly({(): float(x)} if x else {})

    def __add__(self, o):
        if type(o) is not Poly:
            if not isinstance(o, (int, float)):
                return NotImplemented
            o = Poly.of(o)
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                del r[m]
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (int, float)):
            return Poly({m: c * o for m, c in self.t.items()}) if o else Poly({})
        if type(o) is not Poly:
            return NotImplemented
        r = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n)) if m and n else m or n
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    del r[k]
        if len(r) > Poly.LIMIT:
            raise Unsupported("polynomial too large")
        return Poly(r)
    __rmul__ = __mul__

    def z3(self):
        import z3
        out = []
        for m, c in self.t.items():
            e = rat(c)
            for v in m:
                e = e * z3.Real(v)
            out.append(e)
        return z3.Sum(out) if out else z3.RealVal(0)

    def vars(self):
        return sorted({v for m in self.t for v in m})
