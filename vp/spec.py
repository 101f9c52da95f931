"""C12: the quantized spectrum from the encoder's functions to the decoder's, from LLVM IR."""
import math, os, subprocess
import z3
from . import ir, sym
from .ir import Err, Unsupported, UNDEF, REPO, HARN
from .lin import result, violation, no_repro, run_replay
from .sym import BV, Cond, bv, simp


class QF:
    """Float as fixed point: t * 2^-S, bit vector of W bits.  Exact for what the
    drivers give to the code: few fractional bits, levels below 2^16."""
    W, S = 32, 8
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(o):
        if type(o) is QF:
            return o.t
        v = o * (1 << QF.S)
        if v != int(v):
            raise Unsupported("constant %r" % o)
        return z3.BitVecVal(int(v), QF.W)

    @staticmethod
    def mk(t):
        t = z3.simplify(t)
        return t.as_signed_long() / (1 << QF.S) if z3.is_bv_value(t) else QF(t)

    def __add__(self, o): return QF.mk(self.t + QF.of(o))
    __radd__ = __add__
    def __sub__(self, o): return QF.mk(self.t - QF.of(o))
    def __rsub__(self, o): return QF.mk(QF.of(o) - self.t)
    def __neg__(self): return QF.mk(-self.t)
    def fabs(self): return QF.mk(z3.If(self.t < 0, -self.t, self.t))

    def __mul__(self, o):
        if o == 1:
            return self
        if o == -1:
            return -self
        if o == 0:
            return 0.0
        if type(o) is QF:
            raise Unsupported("product")
        # exact for powers of two (what is shifted out is zero: see the units);
        # otherwise in the mean level of the zeros, that only the noise takes
        f, k = math.frexp(abs(o))
        s, t = (1 if o > 0 else -1), self.t
        t = (t << (k - 1) if k > 0 else t >> (1 - k)) if f == .5 else (t * int(round(abs(o) * 4096))) >> 12
        return QF.mk(t if s > 0 else -t)

    def __truediv__(self, o):
        return self * (1 / o)
    __rmul__ = __mul__

    def trunc(self):
        m = z3.BitVecVal(~((1 << QF.S) - 1), QF.W)
        return QF.mk(z3.If(self.t < 0, -(-self.t & m), self.t & m))

    def to_int(self, E, w):
        i = z3.If(self.t < 0, -z3.LShR(-self.t, QF.S), self.t >> QF.S)
        return simp(z3.Extract(w - 1, 0, i) if w <= QF.W else z3.SignExt(w - QF.W, i), w)

    def fcmp(self, op, o, swap):
        a, b = (QF.of(o), self.t) if swap else (self.t, QF.of(o))
        if op in ("ord", "uno"):
            return int(op == "ord")
        e = {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[op[1:]]()
        e = z3.simplify(e)
        return 1 if z3.is_true(e) else 0 if z3.is_false(e) else Cond(e)


def from_int(v):
    w = QF.W - QF.S
    t = z3.Extract(w - 1, 0, v.t) if v.w > w else z3.SignExt(w - v.w, v.t) if v.w < w else v.t
    return QF.mk(z3.Concat(t, z3.BitVecVal(0, QF.S)))


def fselect(self, a, b):
    if QF in (type(a), type(b)):
        return QF.mk(z3.If(self.e, QF.of(a), QF.of(b)))
    if type(a) is float and type(b) is float:
        return a if a == b else QF.mk(z3.If(self.e, QF.of(a), QF.of(b)))
    return ISEL(self, a, b)


ISEL = Cond.select
Cond.select = fselect
BV.to_float = from_int


class Off:
    """symbolic offset in a table: its contents are taken as unknown, but a function of the offset"""
    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return Off(z3.simplify(self.t + (o.t if type(o) is Off else o)))
    __radd__ = __add__


class SExec(ir.Exec):
    def load(self, p, size, kind):
        if type(p) is tuple and type(p[1]) is Off:
            if kind != "i" or not p[0].const:
                raise Unsupported("symbolic address in " + p[0].name)
            f = z3.Function("tab%d" % size + p[0].name, z3.BitVecSort(64), z3.BitVecSort(8 * size))
            return BV(f(p[1].t), 8 * size)
        return ir.Exec.load(self, p, size, kind)


def symgep(p, terms, off):
    t = p[1].t if type(p[1]) is Off else z3.BitVecVal(p[1], 64)
    for v, sz in terms:
        t = t + (z3.BitVecVal(v, 64) if type(v) is int else z3.SignExt(64 - v.w, v.t) if v.w < 64 else v.t) * sz
    t = z3.simplify(t + off)
    return (p[0], t.as_signed_long() if z3.is_bv_value(t) else Off(t))


def ofs(p):
    return p[1].t if type(p[1]) is Off else z3.BitVecVal(p[1], 64)


class Tape:
    """raw bits and symbols, in order"""
    def __init__(self, E, left):
        self.b, self.s, self.rb, self.rs, self.left = [], [], 0, 0, left
        E.ext.update(lc3_put_bits=self.put_bits, lc3_put_bit=lambda E, b, v: self.put_bits(E, b, v, 1), lc3_put_symbol=self.put_symbol,
                     lc3_get_bits=self.get_bits, lc3_get_bit=lambda E, b: self.get_bits(E, b, 1), lc3_get_symbol=self.get_symbol,
                     lc3_get_bits_left=lambda E, b: self.left, lc3_check_bits=lambda E, b: 0)
        E.fns.clear()

    def put_bits(self, E, b, v, n):
        if type(v) is Cond:
            v = simp(z3.If(v.e, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), 32)
        if type(n) is not int or not 1 <= n <= 32:
            raise Err("bits", "number of bits")
        if n < 32:
            t = bv(v, 32)
            m = sym.ask(z3.UGE(t, z3.BitVecVal(1 << n, 32)))
            if m is not None:
                e = Err("bits", "value beyond its field of %d bits" % n)
                e.cond = z3.UGE(t, z3.BitVecVal(1 << n, 32))
                raise e
        for k in range(n):
            self.b.append(simp(z3.Extract(k, k, v.t), 1) if type(v) is BV else v >> k & 1)

    def put_symbol(self, E, b, m, s):
        t = bv(s, 32)
        c = z3.UGT(t, z3.BitVecVal(16, 32))
        if sym.ask(c) is not None:
            e = Err("symbol", "symbol over 16")
            e.cond = c
            raise e
        self.s.append((m, t))

    def get_bits(self, E, b, n):
        if self.rb + n > len(self.b):
            raise Err("bits", "more bits got than put")
        r = self.b[self.rb:self.rb + n]
        self.rb += n
        if all(type(x) is int for x in r):
            return sum((x & 1) << k for k, x in enumerate(r))
        t = z3.Concat(*reversed([bv(x, 1) for x in r])) if n > 1 else bv(r[0], 1)
        return simp(z3.ZeroExt(32 - n, t), 32)

    def get_symbol(self, E, b, m):
        if self.rs >= len(self.s):
            raise Err("symbol", "more symbols got than put")
        pm, t = self.s[self.rs]
        self.rs += 1
        if pm[0] is not m[0]:
            raise Err("symbol", "models of different tables")
        c = z3.simplify(ofs(pm) != ofs(m))
        if not z3.is_false(c) and sym.ask(c) is not None:
            e = Err("symbol", "the models differ")
            e.cond = c
            raise e
        return simp(t, 32)


NE = [20, 40, 60, 80, 100, 120, 240]


def gain_one(sr, nbytes):
    ind = 4 + sr - 5 if sr >= 5 else sr
    return min(181 if sr == 6 else 255, 105 + 5 * (1 + ind) + min(nbytes * 8 // (10 * (1 + ind)), 115))


def pairs(work, rdir, dt, sr, bw, nbytes, lsb, nq, lims, left=6, unit=3):
    """lims: largest level of each coefficient; unit: fractional bits of the levels"""
    hr = sr >= 5
    QF.W, QF.S = (48, 24) if hr else (32, 8)
    p = ir.compile_ll(work, ["spec", "tables"], ["-include", os.path.join(HARN, "tape_ir.h"), "-fsanitize=signed-integer-overflow,shift", "-fsanitize-trap=all"])
    E = sym.use(SExec(p))
    E.symgep = symgep
    E.inc = sym.Inc()
    E.ext.update({"llvm.trunc.f32": lambda E, x: x.trunc() if type(x) is QF else float(int(x)), "truncf": lambda E, x: x.trunc() if type(x) is QF else float(int(x))})
    ne = NE[sr] * (1 + dt)
    nz = len(lims)
    v = [z3.BitVec("v%d" % k, 26) for k in range(nz)]            # levels, in units
    E.base = []
    xs = []
    for k, lim in enumerate(lims):
        n = int(lim * (1 << unit))
        E.base += [v[k] >= -n, v[k] <= n]
        xs.append(QF(z3.SignExt(QF.W - 26, v[k]) << (QF.S - unit)))
    lf = z3.BitVec("left", 32)
    E.base += [lf >= 0, lf <= left]
    gi = gain_one(sr, nbytes)

    def driver():
        E.tape = t = Tape(E, BV(lf, 32))
        x, y, s, g, b = E.alloc("x", 4 * ne), E.alloc("y", 4 * ne), E.alloc("side", 12), E.alloc("got", 12), E.alloc("bits", 4)
        E.put_f(x, [0.0] * (nq - nz) + xs + [0.0] * (ne - nq))
        E.put_i(s, [gi, nq])
        E.put_i((s[0], 8), [int(lsb)], 1)
        E.call("@lc3_spec_put_side", b, dt, sr, s)
        E.call("@lc3_spec_encode", b, dt, sr, bw, nbytes, s, x)
        r1 = E.call("@lc3_spec_get_side", b, dt, sr, g)
        hd = E.get_i(g, 2) + [E.load((g[0], 8), 1, "i")]
        r2 = E.call("@lc3_spec_decode", b, dt, sr, bw, nbytes, g, y) if r1 == 0 else -1
        return r1, hd, r2, E.get_f(y, ne) if r2 == 0 else None, t

    def replay(why, *cs):
        m = sym.ask(*cs)
        if m is None:
            m = sym.ask()
        lv = [m.eval(a, model_completion=True).as_signed_long() / (1 << unit) for a in v]
        L = m.eval(lf, model_completion=True).as_long()
        x = [0.0] * (nq - nz) + lv
        exe = os.path.join(work, "r12_spec.san")
        r = subprocess.run(["gcc", "-O1", "-g", "-std=gnu11", "-w", "-DVP_REPLAY", "-DTAPE_BITS=4096", "-DTAPE_SYMS=4096", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + HARN,
                            "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-include", os.path.join(HARN, "tape.h"),
                            "-o", exe, os.path.join(HARN, "r12_spec.c"), os.path.join(REPO, "src", "spec.c"), os.path.join(REPO, "src", "tables.c"), "-lm"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(r.stderr[-1500:])
        try:
            rc, out, se = run_replay(exe, "%d %d %d %d %d %d %d %d %s\n" % (dt, sr, bw, nbytes, nq, lsb, gi, L, " ".join("%.9g" % a for a in x)), rdir, why)
        except RuntimeError:
            txt = open(os.path.join(rdir, "output.txt")).read()
            if "VP-ASSERT-FAILED" in txt:
                return violation(E, None, rdir, "spectrum", why + ": " + txt.strip()[-100:])
            raise
        if rc:
            return violation(E, None, rdir, "spectrum", why + ": " + se[-200:])
        if out[:6] != ["0", str(gi), str(nq), str(int(lsb)), "0", "1"]:
            return violation(E, None, rdir, "spectrum", why)
        y = [float(a) for a in out[6:]]
        for k in range(ne):
            xk = x[k] if k < nq else 0.0
            if wrong(k, xk, y[k], L):
                return violation(E, None, rdir, "spectrum", "%s: coefficient %d is %g, from %g" % (why, k, y[k], xk))
        return no_repro(E, None, why)

    def wrong(k, x, y, L):
        q = int(abs(x) + (.5 if hr else .375))
        val = -q if x < 0 else q
        if k >= nq:
            return abs(y) > .5
        if not q:
            return abs(y) > .5
        if lsb:
            return y != val and (L >= 4 * nq or abs(y - val) != 1) or q > 1 and (y < 0) != (val < 0)
        return L == 0 and y != val or abs(y - val) > (.5 if hr else .3125) or (y < 0) != (val < 0) or L >= nq and abs(y - x) > (.25 if hr else .1875 if abs(x) < q else .3125)

    def bad(k, x, y):
        c = lambda f: z3.BitVecVal(int(f * (1 << QF.S)), QF.W)
        X, Y = QF.of(x), QF.of(y)
        m = z3.If(X < 0, -X, X)
        q = (m + c(.5 if hr else .375)) & z3.BitVecVal(~((1 << QF.S) - 1), QF.W)
        val = z3.If(X < 0, -q, q)
        ab = lambda t: z3.If(t < 0, -t, t)
        e = ab(Y - val)
        if lsb:
            w = z3.Or(z3.And(e != 0, z3.Or(lf >= 4 * nq, e != c(1))), z3.And(q > c(1), (Y < 0) != (val < 0)))
        else:
            w = z3.Or(z3.And(lf == 0, e != 0), e > c(.5 if hr else .3125), (Y < 0) != (val < 0), z3.And(lf >= nq, ab(Y - X) > (c(.25) if hr else z3.If(m < q, c(.1875), c(.3125)))))
        return z3.If(q == 0, ab(Y) > c(.5), w)       # noise between transmitted levels

    n = 0
    try:
        for r1, hd, r2, y, t in E.paths(driver):
            n += 1
            if r1 != 0 or hd != [gi, nq, int(lsb)]:
                return replay("header %s" % (hd,))
            if r2 != 0:
                return replay("spectrum rejected")
            if t.rb != len(t.b) or t.rs != len(t.s):
                return replay("bits or symbols that are not read")
            if any(a is UNDEF for a in y):
                return replay("undefined coefficient")
            for k in range(nq, ne):
                if type(y[k]) is not float:
                    if sym.ask(z3.Or(QF.of(y[k]) > QF.of(.5), QF.of(y[k]) < QF.of(-.5))) is not None:
                        return replay("coefficient %d" % k, z3.Or(QF.of(y[k]) > QF.of(.5), QF.of(y[k]) < QF.of(-.5)))
                elif abs(y[k]) > .5:
                    return replay("coefficient %d" % k)
            allx = [0.0] * (nq - nz) + xs
            c = z3.Or(*[bad(k, allx[k], y[k]) for k in range(nq)])
            if sym.ask(c) is not None:
                return replay("coefficients", c)
    except Err as x:
        cs = [x.cond] if hasattr(x, "cond") else []
        if getattr(x, "model", None) is not None:
            cs = [a == x.model.eval(a, model_completion=True) for a in v + [lf]]
        return replay(str(x), *cs)
    r = result(E)
    r["note"] = "%d paths" % n
    return r


def anybits(work, rdir, dt, sr, bw, nbytes, lsb, nq, left=4):
    """Decoding of any bits and symbols: accepted or refused, and in range"""
    hr = sr >= 5
    QF.W, QF.S = (48, 16) if hr else (32, 8)
    p = ir.compile_ll(work, ["spec", "tables"], ["-include", os.path.join(HARN, "tape_ir.h"), "-fsanitize=signed-integer-overflow,shift", "-fsanitize-trap=all"])
    E = sym.use(SExec(p))
    E.symgep = symgep
    E.inc = sym.Inc()
    E.ext.update({"llvm.trunc.f32": lambda E, x: x.trunc() if type(x) is QF else float(int(x)), "truncf": lambda E, x: x.trunc() if type(x) is QF else float(int(x))})
    ne = NE[sr] * (1 + dt)
    gi = gain_one(sr, nbytes)
    lf = z3.BitVec("left", 32)
    E.base = [lf >= 0, lf <= left]
    bits, syms = [], []

    def get_bits(E, b, n):
        if type(n) is not int or not 1 <= n <= 32:
            raise Err("bits", "number of bits")
        while len(bits) < E.nb + n:
            bits.append(z3.BitVec("b%d" % len(bits), 1))
        t = z3.Concat(*reversed(bits[E.nb:E.nb + n])) if n > 1 else bits[E.nb]
        E.nb += n
        return simp(z3.ZeroExt(32 - n, t), 32)

    def get_symbol(E, b, m):
        if E.ns == len(syms):
            syms.append(z3.BitVec("s%d" % E.ns, 5))
        t = syms[E.ns]
        E.ns += 1
        return simp(z3.ZeroExt(27, z3.If(z3.UGT(t, 16), z3.BitVecVal(16, 5), t)), 32)

    E.ext.update(lc3_get_bits=get_bits, lc3_get_bit=lambda E, b: get_bits(E, b, 1), lc3_get_symbol=get_symbol,
                 lc3_get_bits_left=lambda E, b: BV(lf, 32), lc3_check_bits=lambda E, b: 0)

    def driver():
        E.nb = E.ns = 0
        g, y, b = E.alloc("got", 12), E.alloc("y", 4 * ne), E.alloc("bits", 4)
        if nq is None:
            r = E.call("@lc3_spec_get_side", b, dt, sr, g)
            return r, E.get_i(g, 2) + [E.load((g[0], 8), 1, "i")], None
        E.put_i(g, [gi, nq])
        E.put_i((g[0], 8), [int(lsb)], 1)
        r = E.call("@lc3_spec_decode", b, dt, sr, bw, nbytes, g, y)
        return r, None, E.get_f(y, ne) if r == 0 else None

    def replay(why, *cs):
        m = sym.ask(*cs)
        if m is None:
            m = sym.ask()
        bs = [m.eval(t, model_completion=True).as_long() for t in bits]
        ss = [min(16, m.eval(t, model_completion=True).as_long()) for t in syms]
        exe = os.path.join(work, "r12_any.san")
        r = subprocess.run(["gcc", "-O1", "-g", "-std=gnu11", "-w", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + HARN,
                            "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-include", os.path.join(HARN, "tape_ir.h"),
                            "-o", exe, os.path.join(HARN, "r12_any.c"), os.path.join(REPO, "src", "spec.c"), os.path.join(REPO, "src", "tables.c"), "-lm"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(r.stderr[-1500:])
        txt = "%d %d %d %d %d %d %d %d\n%d %s\n%d %s\n" % (dt, sr, bw, nbytes, nq or 0, lsb, gi, m.eval(lf, model_completion=True).as_long(),
                                                           len(bs), " ".join(map(str, bs)), len(ss), " ".join(map(str, ss)))
        try:
            rc, out, se = run_replay(exe, txt, rdir, why)
        except RuntimeError:
            if "VP-ASSERT-FAILED" in open(os.path.join(rdir, "output.txt")).read():
                return violation(E, None, rdir, "spectrum", why)
            raise
        if rc:
            return violation(E, None, rdir, "spectrum", why + ": " + (se[-200:] if rc != 1 else "out of range"))
        return no_repro(E, None, why)

    n = ok = 0
    try:
        for r, hd, y in E.paths(driver):
            n += 1
            if type(r) is not int:
                return replay("result %s" % (r,))
            if nq is None:
                if r == 0:
                    ok += 1
                    a, q, l = [bv(x, w) for x, w in zip(hd, (32, 32, 8))]
                    c = z3.Or(a < 0, a > 255, q < 2, q > ne, z3.Extract(0, 0, q) != 0, z3.UGT(l, 1))
                    if sym.ask(c) is not None:
                        return replay("header out of range", c)
                else:
                    w = 4 + sum(ne > 32 << j for j in range(5))
                    c = z3.ZeroExt(32 - w, z3.Concat(*reversed(bits[:w]))) < ne // 2
                    if sym.ask(c) is not None:
                        return replay("header refused", c)
                continue
            if r != 0:
                continue
            ok += 1
            if any(a is UNDEF for a in y):
                return replay("undefined coefficient")
            top = float(1 << (25 if hr else 17))
            for k in range(ne):
                if type(y[k]) is QF:
                    c = z3.Or(y[k].t > QF.of(top), y[k].t < QF.of(-top))
                    if sym.ask(c) is not None:
                        return replay("coefficient %d out of range" % k, c)
                elif not abs(y[k]) <= top:
                    return replay("coefficient %d out of range" % k)
    except Err as x:
        return replay(str(x), *([x.cond] if hasattr(x, "cond") else []))
    r = result(E)
    r["note"] = "%d paths, %d accepted" % (n, ok)
    if not ok:
        r["status"] = "inconclusive"
    return r
