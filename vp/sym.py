"""Symbolic integers (bit vectors) and univariate floats for the IR executor."""
import time
import z3
from .ir import Err, Unsupported, UNDEF, f32
from .forms import rat

CUR = None          # the executor


def use(E):
    global CUR
    CUR = E
    E.symgep = symgep
    E.join, E.joined = join, joined
    return E


def ask(*cs):
    """Satisfiable under the path condition?"""
    # On the prefix of decisions shared with the path before, the questions
    # are the same: those answered by "no" need not be asked again.
    log, n = CUR.asklog, CUR.nask
    CUR.nask = n + 1
    if n < len(log):
        p, old, no = log[n]
        if no and p == CUR.pos and len(old) == len(cs) and all(a.eq(b) for a, b in zip(old, cs)):
            return None
        del log[n:]
    r = ask1(*cs)
    log.append((CUR.pos, cs, r is None))
    return r


class Inc:
    """One solver that keeps the common prefix of the path conditions."""
    def __init__(self):
        self.s, self.p = z3.Solver(), []
        self.s.set("timeout", 60000)

    def check(self, pc, cs):
        p, k = self.p, 0
        while k < len(pc) and k < len(p) and pc[k].eq(p[k]):
            k += 1
        if len(p) > k:
            self.s.pop(len(p) - k)
            del p[k:]
        for e in pc[k:]:
            self.s.push()
            self.s.add(e)
            p.append(e)
        return self.s.check(*cs)


def ask1(*cs):
    t0 = time.time()
    if CUR.inc is not None:
        s = CUR.inc.s
        r = CUR.inc.check(CUR.pc, cs)
    else:
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(*CUR.pc)
        s.add(*cs)
        r = s.check()
    CUR.solver_s += time.time() - t0
    CUR.queries += 1
    if r == z3.unknown:
        raise Unsupported("solver: unknown")
    return s.model() if r == z3.sat else None


class Cond:
    decided = True

    def __init__(self, e):
        self.e = e

    def cond(self):
        return self.e

    def select(self, a, b):
        if isinstance(a, (BV, int)) and isinstance(b, (BV, int)) and (type(a) is BV or type(b) is BV):
            w = a.w if type(a) is BV else b.w
            return BV(z3.If(self.e, bv(a, w), bv(b, w)), w)
        return NotImplemented


def bv(x, w):
    if type(x) is BV:
        if x.w != w:
            raise Unsupported("width")
        return x.t
    return z3.BitVecVal(x, w)


def simp(t, w):
    """-> BV, or int for a constant"""
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        v = t.as_signed_long()
        return v & 1 if w == 1 else v
    return BV(t, w)


def join(b, rest, k):
    t = z3.BitVecVal(b[0], 8) if type(b) is bytes else b.t
    return t if rest is None else z3.Concat(t, rest)


def joined(t, size):
    return simp(t, 8 * size)


class OverflowFound(Err):
    def __init__(self, text, model):
        Err.__init__(self, "overflow", text)
        self.model = model


class BV:
    __slots__ = ("t", "w")
    check_nsw = True

    def __init__(self, t, w):
        self.t, self.w = t, w

    def binop(self, op, o, swap, w, nsw):
        a, b = (bv(o, w), self.t) if swap else (self.t, bv(o, w))
        if op in ("shl", "lshr", "ashr"):
            m = ask(z3.UGE(b, w)) if not z3.is_bv_value(b) else (True if b.as_long() >= w else None)
            if m:
                raise Err("shift", "shift beyond the width")
        if op in ("sdiv", "srem", "udiv", "urem") and not z3.is_bv_value(b):
            if ask(b == 0) is not None:
                raise Err("division", "division by zero")
        if nsw and BV.check_nsw and op in ("add", "sub", "mul", "shl"):
            self.overflow(op, a, b, w)
        r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b),
             "ashr": lambda: a >> b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "sdiv": lambda: a / b,
             "srem": lambda: z3.SRem(a, b), "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b)}[op]()
        return simp(r, w)

    def overflows(self, op, a, b):
        """condition: the exact result does not fit"""
        w = self.w
        a, b, k = bv(a, w), bv(b, w), w if op == "mul" else 1
        x, y = z3.SignExt(k, a), z3.SignExt(k, b)
        r = x * y if op == "mul" else x + y if op == "add" else x - y
        c = z3.simplify(r != z3.SignExt(k, z3.Extract(w - 1, 0, r)))
        return 1 if z3.is_true(c) else 0 if z3.is_false(c) else Cond(c)

    def overflow(self, op, a, b, w):
        if op == "mul":
            x, y, k = z3.SignExt(w, a), z3.SignExt(w, b), w
            r = x * y
        elif op == "shl":
            if not z3.is_bv_value(b):
                raise Unsupported("symbolic shift count")
            k = b.as_long()
            x = z3.SignExt(k, a)
            r = x << k if k else x
        else:
            x, y, k = z3.SignExt(1, a), z3.SignExt(1, b), 1
            r = x + y if op == "add" else x - y
        if not k:
            return
        c = r != z3.SignExt(k, z3.Extract(w - 1, 0, r))
        c = z3.simplify(c)
        if z3.is_false(c):
            return
        m = ask(c)
        if m is not None:
            raise OverflowFound("signed overflow on %s of %d bits" % (op, w), m)

    def icmp(self, op, o, swap, w):
        a, b = (bv(o, w), self.t) if swap else (self.t, bv(o, w))
        e = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b,
             "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[op]()
        e = z3.simplify(e)
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return Cond(e)

    def cast(self, op, w, w2):
        if op == "trunc":
            return simp(z3.Extract(w2 - 1, 0, self.t), w2)
        return simp((z3.SignExt if op == "sext" else z3.ZeroExt)(w2 - w, self.t), w2)

    def byte(self, k):
        return BV(z3.simplify(z3.Extract(8 * k + 7, 8 * k, self.t)), 8)

    def trunc(self, w2):
        return self.cast("trunc", self.w, w2)

    def to_float(self):
        raise Unsupported("float of a symbolic integer")

    def cond(self):
        return self.t != 0


def concretize(v):
    """Forks over the values of a bit vector."""
    while type(v) is BV:
        at = tuple(d for d, _ in CUR.path[:CUR.pos])       # the same choice when the path is run again
        if at not in CUR.memo:
            CUR.memo[at] = ask().eval(v.t, model_completion=True).as_signed_long()
        k = CUR.memo[at]
        if CUR.decide(v.t == z3.BitVecVal(k, v.w)):
            return k
    return v


def symgep(p, terms, off):
    """Address from symbolic indices: one path for each index."""
    for v, sz in terms:
        off += concretize(v) * sz
    return (p[0], p[1] + off)


# ---------------------------------------------------------------- one real unknown

class UF:
    """Float: polynomial in one real unknown y of the open range (lo, hi): list
    of coefficients.  Additions that float arithmetic rounds to one constant
    over the whole range give this constant (split of the operand in exp2)."""
    lo, hi = -0.0625, 0.0625
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def range(self):
        a = abs(UF.lo) if abs(UF.lo) > abs(UF.hi) else abs(UF.hi)
        if len(self.c) == 2:
            v = sorted((self.c[0] + self.c[1] * UF.lo, self.c[0] + self.c[1] * UF.hi))
            return v
        r = sum(abs(c) * a ** i for i, c in enumerate(self.c) if i)
        return [self.c[0] - r, self.c[0] + r]

    def _lin(self, o, s):
        b = o.c if type(o) is UF else [o]
        n = max(len(self.c), len(b))
        r = [(self.c[i] if i < len(self.c) else 0) + s * (b[i] if i < len(b) else 0) for i in range(n)]
        while len(r) > 1 and r[-1] == 0:
            r.pop()
        if len(r) == 1:
            return float(r[0])
        u = UF(r)
        lo, hi = u.range()
        e = (hi - lo) * 2.0 ** -20
        a, b = f32(lo + e), f32(hi - e)
        return a if a == b else u

    def __add__(self, o):
        return self._lin(o, 1) if isinstance(o, (UF, int, float)) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, -1) if isinstance(o, (UF, int, float)) else NotImplemented

    def __neg__(self):
        return UF([-c for c in self.c])

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (int, float)):
            return UF([c * o for c in self.c]) if o else 0.0
        r = [0.0] * (len(self.c) + len(o.c) - 1)
        for i, a in enumerate(self.c):
            for j, b in enumerate(o.c):
                r[i + j] += a * b
        return UF(r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / o) if isinstance(o, (int, float)) else NotImplemented

    def bits(self):
        lo, hi = self.range()
        if lo <= 0:
            raise Unsupported("bits of a value of unknown sign")
        return FBits(self, 0)

    def fcmp(self, op, o, swap):
        if isinstance(o, (int, float)):
            lo, hi = self.range()
            if o <= lo or o >= hi:
                gt = o <= lo
                if swap:
                    gt = not gt
                return {"eq": 0, "ne": 1, "lt": int(not gt), "le": int(not gt), "gt": int(gt), "ge": int(gt)}[op[-2:]]
        raise Unsupported("comparison of polynomials")

    def real(self, y):
        e = rat(0.0)
        for c in reversed(self.c):
            e = e * y + rat(c)
        return e


class FBits:
    """The bits of a positive UF f, plus k << 23."""
    def __init__(self, f, k):
        self.f, self.k = f, k

    def binop(self, op, o, swap, w, nsw):
        if type(o) is int and op in ("add", "sub") and not (o & 0x7fffff) and not (swap and op == "sub"):
            return FBits(self.f, self.k + (o >> 23) * (1 if op == "add" else -1))
        raise Unsupported("operation on the bits of a float: %s %s" % (op, o))

    def unbits(self):
        k = self.k
        lo, hi = self.f.range()
        if not (2.0 ** -126 < lo * 2.0 ** k and hi * 2.0 ** k < 2.0 ** 128):
            raise Err("overflow", "exponent out of range")
        return UF([c * 2.0 ** k for c in self.f.c])


class MBits:
    """Bits of a positive float of the known biased exponent e and unknown
    mantissa y, in [0.5, 1): y * 2^(e - 126)."""
    def __init__(self, e):
        self.e = e

    def binop(self, op, o, swap, w, nsw):
        if type(o) is int:
            o &= 0xffffffff
            if op == "lshr" and not swap and o == 23 or op == "ashr" and not swap and o == 23:
                return self.e
            if op == "and":
                if o == 0x7fffff:
                    return MBits(0)
                if o & 0x7fffff == 0x7fffff:
                    return MBits(self.e & (o >> 23 & 0xff))
                if not o & 0x7fffff:
                    return (self.e & (o >> 23 & 0xff)) << 23
            if op == "or" and not o & 0x7fffff:
                return MBits(self.e | o >> 23)
            if op == "xor" and not o & 0x7fffff:
                return MBits(self.e ^ o >> 23)
            if op in ("add", "sub") and not o & 0x7fffff and not (swap and op == "sub"):
                return MBits(self.e + ((o >> 23) if op == "add" else -(o >> 23)) & 0x1ff)
        raise Unsupported("operation on the bits of a float: %s %s" % (op, o))

    def unbits(self):
        if not 0 < self.e < 255:
            raise Unsupported("not a normal number")
        return UF([0.0, 2.0 ** (self.e - 126)])


class MFloat(UF):
    """The float operand y * 2^(e-126)."""
    __slots__ = ("e",)

    def __init__(self, e):
        UF.__init__(self, [0.0, 2.0 ** (e - 126)])
        self.e = e

    def bits(self):
        return MBits(self.e)


class SqFloat:
    """Operand whose square is a float of any bits."""
    def __init__(self, t):
        self.t = t

    def __mul__(self, o):
        if o is not self:
            raise Unsupported("product of unknowns")
        return BVFloat(self.t)
    __rmul__ = __mul__


class BVFloat:
    def __init__(self, t):
        self.t = t

    def bits(self):
        return BV(self.t, 32)
