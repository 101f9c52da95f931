"""Symbolic execution of LLVM IR.

The sources of /repo are compiled by clang to LLVM IR, linked, and each IR
function is translated to a Python function.  Integers and pointers are
concrete or z3 bit-vector terms, floats are concrete numbers or symbolic terms
(see forms.py): linear forms over the unknown signal.  Every memory access is
checked against its object, signed overflows flagged by `nsw` and accesses to
uninitialised memory are reported.
Execution over a symbolic branch condition forks by re-execution: run() calls
the driver once per feasible path, the solver deciding which are.
"""
import bisect, ctypes, math, os, re, struct, subprocess, sys

sys.setrecursionlimit(20000)
LLVM = "/usr/lib/llvm-18/bin/" if os.path.exists("/usr/lib/llvm-18/bin/clang") else ""
REPO = os.environ.get("VP_REPO", "/repo")
HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")

CFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-math-errno",
          "-fno-builtin-powf", "-fno-pic", "-fno-pie", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + HARN, "-S", "-emit-llvm", "-w"]


class Err(Exception):
    """A violation found on the way (out of bounds access, overflow, ...)."""
    def __init__(self, kind, text):
        Exception.__init__(self, "%s: %s" % (kind, text))
        self.kind, self.text = kind, text


class Unsupported(Exception):
    pass


class Infeasible(Unsupported):
    """The path taken (a query without an answer) is not feasible."""


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def compile_ll(work, srcs, flags=(), name="m"):
    """-> path of the linked module"""
    lls = []
    for s in srcs:
        p = s if s.startswith("/") else os.path.join(REPO, "src", s + ".c")
        o = os.path.join(work, name + "_" + re.sub(r"\W", "_", s) + ".ll")
        cc = "clang++" if p.endswith((".cc", ".cpp")) else "clang"
        r = subprocess.run([LLVM + cc] + CFLAGS + list(flags) + ["-o", o, p], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("clang: " + r.stderr[-2000:])
        lls.append(o)
    out = os.path.join(work, name + ".ll")
    r = subprocess.run([LLVM + "llvm-link", "-S", "-o", out] + lls, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("llvm-link: " + r.stderr[-2000:])
    return out


# ---------------------------------------------------------------- types

class T:
    __slots__ = ("k", "w", "sub", "n", "size", "align", "offs")

    def __init__(self, k, w=0, sub=None, n=0, size=0, align=1, offs=None):
        self.k, self.w, self.sub, self.n, self.size, self.align, self.offs = k, w, sub, n, size, align, offs


def mkint(w):
    s = 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
    return T("i", w, size=s, align=s)


F32, F64, PTR, VOID = T("f", 32, size=4, align=4), T("f", 64, size=8, align=8), T("p", 64, size=8, align=8), T("v")


class Parser:
    def __init__(self, text):
        self.structs, self.cache = {}, {}
        self.raw = dict(re.findall(r"^(%(?:\"[^\"]+\"|[\w.$:-]+)) = type (.*)$", text, re.M))

    def skip(self, s, i):
        while i < len(s) and s[i] in " ,":
            i += 1
        return i

    def type(self, s, i=0):
        """-> (T, next index)"""
        i = self.skip(s, i)
        m = re.compile(r"i(\d+)|float|double|ptr|void|opaque|half|x86_fp80").match(s, i)
        if m:
            t = m[0]
            if m[1]:
                r = self.cache.get(t) or self.cache.setdefault(t, mkint(int(m[1])))
            else:
                r = {"float": F32, "double": F64, "ptr": PTR, "void": VOID, "opaque": VOID}.get(t, VOID)
            return r, m.end()
        c = s[i]
        if c == "[" or (c == "<" and s[i + 1] != "{"):
            m = re.compile(r"[\[<](\d+) x ").match(s, i)
            sub, j = self.type(s, m.end())
            j = self.skip(s, j)
            n = int(m[1])
            return T("a", sub=sub, n=n, size=n * sub.size, align=sub.align), j + 1
        if c == "{" or c == "<":
            packed = c == "<"
            j = self.skip(s, i + 1 + packed)
            subs = []
            while s[j] != "}":
                t, j = self.type(s, j)
                subs.append(t)
                j = self.skip(s, j)
            return self.struct(subs, packed), j + 1 + packed
        m = re.compile(r"%(\"[^\"]+\"|[\w.$:-]+)").match(s, i)
        if m:
            n = m[0]
            if n not in self.structs:
                self.structs[n] = self.type(self.raw[n])[0]
            return self.structs[n], m.end()
        raise Unsupported("type: " + s[i:i + 60])

    def struct(self, subs, packed):
        off, al, offs = 0, 1, []
        for t in subs:
            a = 1 if packed else t.align
            off = (off + a - 1) // a * a
            offs.append(off)
            off += t.size
            al = max(al, a)
        off = (off + al - 1) // al * al
        return T("s", sub=subs, n=len(subs), size=off, align=al, offs=offs)


# ---------------------------------------------------------------- memory

class Obj:
    __slots__ = ("name", "size", "cells", "const", "live", "log")

    def __init__(self, name, size, const=False):
        self.name, self.size, self.const, self.live = name, size, const, True
        self.cells = {}        # offset -> (value, size, kind)
        self.log = None        # list of (what, offset) when accesses are recorded

    def __repr__(self):
        return "<%s:%s>" % (self.name, self.size)


NULL = (None, 0)


def f32(x):
    if x != x or x in (math.inf, -math.inf):
        return x
    return ctypes.c_float(x).value


def to_bytes(v, size, kind):
    if v is UNDEF:
        return None
    if kind == "f":
        return struct.pack("<f" if size == 4 else "<d", v)
    if kind == "i" and type(v) is int:
        return (v & ((1 << (8 * size)) - 1)).to_bytes(size, "little")
    raise Unsupported("byte view of a symbolic value or a pointer")


def from_bytes(b, size, kind):
    if kind == "f":
        return struct.unpack("<f" if size == 4 else "<d", b)[0]
    if kind == "i":
        v = int.from_bytes(b, "little")
        return v - (1 << (8 * size)) if v >> (8 * size - 1) else v
    if not any(b):
        return NULL
    raise Unsupported("pointer from bytes")


class Exec:
    """One linked module and its execution state."""
    strict_undef = True
    F32SIZE = 4

    def __init__(self, path, externs=None):
        text = open(path).read()
        self.P = Parser(text)
        self.ext = dict(externs or {})
        self.fns, self.src, self.decl = {}, {}, set()
        self.gdefs, self.gobj = {}, {}
        self.steps = 0
        self.called = set()
        self.warn = []
        self.path, self.pos, self.pc, self.forks = [], 0, [], 0
        self.asklog, self.nask, self.sat_pc, self.inc, self.memo = [], 0, False, None, {}
        self.base = []         # assumptions of the driver
        self.solver_s, self.queries = 0.0, 0
        self.rounding = True
        self._parse(text)

    # ------------------------------------------------------------ parsing
    def _parse(self, text):
        for m in re.finditer(r"^(@[\w.$\"-]+) = (.*)$", text, re.M):
            self.gdefs[m[1]] = m[2]
        for m in re.finditer(r"^define (.*?)\{\n(.*?)^\}", text, re.M | re.S):
            n = re.search(r"(@[\w.$\"-]+)\(", m[1])
            self.src[n[1]] = (m[1], m[2])
        for m in re.finditer(r"^declare .*?(@[\w.$\"-]+)\(", text, re.M):
            self.decl.add(m[1])

    def global_(self, name):
        if name in self.gobj:
            return (self.gobj[name], 0)
        if name in self.src or name in self.decl:
            o = Obj(name, 0, True)
            self.gobj[name] = o
            return (o, 0)
        d = self.gdefs[name]
        m = re.search(r"\b(constant|global) ", d)
        if not m:
            m = re.match(r".*alias .*(@[\w.$]+)$", d)
            if m:
                return self.global_(m[1])
            raise Unsupported("global " + d[:80])
        t, i = self.P.type(d, m.end())
        o = Obj(name, t.size, m[1] == "constant")
        self.gobj[name] = o
        if "external" not in d[:m.start()].split():
            self._init(o, 0, t, d, i)
        return (o, 0)

    def _init(self, o, off, t, s, i):
        i = self.P.skip(s, i)
        if s.startswith("zeroinitializer", i):
            self.zero(o, off, t)
            return i + 15
        if s.startswith(("undef", "poison"), i):
            return i + (5 if s.startswith("undef", i) else 6)
        if t.k == "a" and s[i] == "c" and s[i + 1] == '"':
            j = s.index('"', i + 2)
            b = re.sub(rb"\\([0-9a-fA-F]{2})", lambda m: bytes([int(m[1], 16)]), s[i + 2:j].encode("latin1"))
            for k, c in enumerate(b):
                o.cells[off + k] = (c - 256 if c > 127 else c, 1, "i")
            return j + 1
        if t.k in "as":
            packed = s[i] == "<" and s[i + 1] == "{"
            i = self.P.skip(s, i + 1 + packed)
            for k in range(t.n):
                st, i = self.P.type(s, i)
                i = self._init(o, off + (t.offs[k] if t.k == "s" else k * t.sub.size), st, s, i)
                i = self.P.skip(s, i)
            return i + 1 + packed
        v, i = self.const(t, s, i)
        o.cells[off] = (v, t.size, t.k)
        return i

    def zero(self, o, off, t):
        if t.k == "a":
            for k in range(t.n):
                self.zero(o, off + k * t.sub.size, t.sub)
        elif t.k == "s":
            for k in range(t.n):
                self.zero(o, off + t.offs[k], t.sub[k])
        else:
            o.cells[off] = (NULL if t.k == "p" else 0.0 if t.k == "f" else 0, t.size, t.k)

    TOK = re.compile(r"0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]\d+)?|-?\d+|true|false|null|none|undef|poison|zeroinitializer|[@%](?:\"[^\"]+\"|[\w.$:-]+)")

    def const(self, t, s, i):
        """Constant of type t at s[i:] -> (value, next)"""
        i = self.P.skip(s, i)
        m = self.TOK.match(s, i)
        if m:
            k = m[0]
            e = m.end()
            if k[0] == "@":
                return self.global_(k), e
            if k in ("undef", "poison"):
                return UNDEF, e
            if k in ("null", "none"):
                return NULL, e
            if k == "zeroinitializer":
                return (NULL if t.k == "p" else 0.0 if t.k == "f" else 0), e
            if t.k == "f":
                if k.startswith("0x"):
                    return struct.unpack(">d", bytes.fromhex(k[2:].rjust(16, "0")))[0], e
                return float(k), e
            if k in ("true", "false"):
                return (1 if k == "true" else 0), e
            v = int(k)
            if t.w == 1:
                v &= 1
            return v, e
        m = re.compile(r"getelementptr (?:inbounds )?(?:nuw )?\(").match(s, i)
        if m:
            bt, j = self.P.type(s, m.end())
            pt, j = self.P.type(s, j)
            p, j = self.const(pt, s, j)
            first, off = True, 0
            j = self.P.skip(s, j)
            while s[j] != ")":
                j += 8 if s.startswith("inrange ", j) else 0
                it, j = self.P.type(s, j)
                v, j = self.const(it, s, j)
                if first:
                    off += v * bt.size
                    first, t2 = False, bt
                elif t2.k == "a":
                    off += v * t2.sub.size
                    t2 = t2.sub
                else:
                    off += t2.offs[v]
                    t2 = t2.sub[v]
                j = self.P.skip(s, j)
            return (p[0], p[1] + off), j + 1
        raise Unsupported("constant " + s[i:i + 60])

    # ------------------------------------------------------------ memory access
    def alloc(self, name, size):
        return (Obj(name, size), 0)

    def check(self, p, size, what):
        o, off = p
        if o is None:
            raise Err("null", "%s through a null pointer" % what)
        if type(off) is not int:
            raise Unsupported("symbolic address in " + o.name)
        if off < 0 or off + size > o.size or not o.live:
            raise Err("bounds", "%s of %d bytes at offset %d of %s (%d bytes)" % (what, size, off, o.name, o.size))

    def load(self, p, size, kind):
        try:
            o, off = p
            c = o.cells.get(off)
            if c is not None and c[1] == size and c[2] == kind and o.live:
                if o.log is not None:
                    o.log.append(("r", off, size))
                return c[0]
        except (AttributeError, TypeError):
            if p is UNDEF:
                raise Err("undef", "load through an uninitialised pointer")
        self.check(p, size, "read")
        if o.log is not None:
            o.log.append(("r", off, size))
        return self.slow_load(o, off, size, kind)

    def slow_load(self, o, off, size, kind):
        c = o.cells.get(off)
        if c is not None and c[1] == size:
            v = c[0]
            if v is UNDEF:
                return v
            if c[2] == kind:
                return v
            r = self.pun(v, size, c[2], kind)
            if r is not None:
                return r
        elif c is not None and c[1] > size and kind == "i" and c[2] == "i" and type(c[0]) is not int and c[0] is not UNDEF:
            return c[0].trunc(8 * size)
        bs = b""
        for k in range(size):
            b = self.byte(o, off + k)
            if b is None:
                return UNDEF
            if type(b) is not bytes:
                return self.sym_bytes(o, off, size, kind)
            bs += b
        return from_bytes(bs, size, kind)

    def sym_bytes(self, o, off, size, kind):
        """Integer from bytes of which some are symbolic."""
        if kind != "i":
            raise Unsupported("reinterpretation of symbolic bytes")
        out = None
        for k in range(size):
            b = self.byte(o, off + k)
            if b is None:
                return UNDEF
            out = self.join(b, out, k)
        return self.joined(out, size)

    def pun(self, v, size, a, b):
        if type(v) in (int, float):
            return from_bytes(to_bytes(v, size, a), size, b)
        if v == NULL and b == "i":
            return 0
        if type(v) is tuple and size == 8 and a in "ip" and b in "ip":
            return v
        if hasattr(v, "bits") and b == "i":
            return v.bits()
        if hasattr(v, "unbits") and b == "f":
            return v.unbits()
        raise Unsupported("reinterpretation of a symbolic value")

    def byte(self, o, off):
        for back in range(0, 16):
            c = o.cells.get(off - back)
            if c is not None:
                if c[1] > back:
                    if hasattr(c[0], "byte"):
                        return c[0].byte(back)
                    b = to_bytes(c[0], c[1], c[2])
                    return None if b is None else b[back:back + 1]
                return None
        return None

    def store(self, p, v, size, kind):
        o, off = p if p is not UNDEF else (None, 0)
        self.check((o, off), size, "write")
        if o.const:
            raise Err("const", "write to the constant " + o.name)
        if o.log is not None:
            o.log.append(("w", off, size))
        if kind == "f" and size == 4 and type(v) is float and self.rounding:
            v = f32(v)
        c = o.cells.get(off)
        if c is None or c[1] != size:
            self.clobber(o, off, size)
        o.cells[off] = (v, size, kind)

    def clobber(self, o, off, size):
        """Splits the cells that the store overlaps."""
        for b in range(off - 15, off + size):
            c = o.cells.get(b)
            if c is None or b + c[1] <= off:
                continue
            if off <= b and b + c[1] <= off + size:
                del o.cells[b]
                continue
            if c[0] is UNDEF:
                del o.cells[b]
                continue
            by = to_bytes(c[0], c[1], c[2])
            del o.cells[b]
            for k in range(c[1]):
                if not off <= b + k < off + size:
                    o.cells[b + k] = (by[k] - 256 if by[k] > 127 else by[k], 1, "i")

    def memcpy(self, d, s, n):
        if type(n) is not int:
            raise Unsupported("symbolic size")
        if n == 0:
            return
        self.check(s, n, "read")
        self.check(d, n, "write")
        so, do = s[1], d[1]
        cs = []
        end = so + n
        k = so
        for back in range(1, 16):           # a cell that straddles the start
            c = s[0].cells.get(so - back)
            if c is not None and c[1] > back:
                by = to_bytes(c[0], c[1], c[2])
                for q in range(back, min(c[1], back + n)):
                    if by is not None:
                        cs.append((q - back, (by[q] - 256 if by[q] > 127 else by[q], 1, "i")))
                k = so - back + c[1]
                break
        cells = s[0].cells
        while k < end:
            c = cells.get(k)
            if c is None:
                k += 1
                continue
            if k + c[1] <= end:
                cs.append((k - so, c))
                k += c[1]
            else:
                by = to_bytes(c[0], c[1], c[2])
                for q in range(end - k):
                    if by is not None:
                        cs.append((k + q - so, (by[q] - 256 if by[q] > 127 else by[q], 1, "i")))
                k = end
        if s[0].log is not None:
            s[0].log.append(("r", so, n))
        if d[0].log is not None:
            d[0].log.append(("w", do, n))
        if d[0].const:
            raise Err("const", "write to the constant " + d[0].name)
        self.clobber(d[0], do, n)
        for off, c in cs:
            d[0].cells[do + off] = c

    def memset(self, d, v, n):
        if n == 0:
            return
        self.check(d, n, "write")
        if d[0].log is not None:
            d[0].log.append(("w", d[1], n))
        self.clobber(d[0], d[1], n)
        o, off = d
        if v == 0:
            k = 0
            while k < n:
                st = 4 if n - k >= 4 and (off + k) % 4 == 0 else 1
                o.cells[off + k] = (0, st, "i")
                k += st
        else:
            for k in range(n):
                o.cells[off + k] = (v - 256 if v > 127 else v, 1, "i")

    # ------------------------------------------------------------ helpers for Python drivers
    def put_f(self, p, vals):
        o, off = p
        for i, v in enumerate(vals):
            self.clobber(o, off + 4 * i, 4)
            o.cells[off + 4 * i] = (v, 4, "f")

    def get_f(self, p, n):
        return [self.load((p[0], p[1] + 4 * i), 4, "f") for i in range(n)]

    def put_i(self, p, vals, size=4):
        o, off = p
        for i, v in enumerate(vals):
            self.clobber(o, off + size * i, size)
            o.cells[off + size * i] = (v, size, "i")

    def get_i(self, p, n, size=4):
        return [self.load((p[0], p[1] + size * i), size, "i") for i in range(n)]

    # ------------------------------------------------------------ arithmetic off the fast path
    def wrap(self, r, w, nsw):
        if nsw and w > 1:
            raise Err("overflow", "signed overflow on %d bits (%d)" % (w, r))
        r &= (1 << w) - 1
        return r - (1 << w) if r >> (w - 1) and w > 1 else r

    def icmp(self, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        ta, tb = type(a), type(b)
        if ta is tuple and tb is tuple:
            if op in ("eq", "ne"):
                e = a[0] is b[0] and a[1] == b[1]
                return int(e == (op == "eq"))
            if a[0] is not b[0]:
                raise Err("pointers", "order of pointers to different objects")
            a, b = a[1], b[1]
            op = op.replace("u", "s")
        elif ta is not int or tb is not int:
            return self.sym_icmp(op, a, b, w)
        if op[0] == "u":
            m = (1 << w) - 1
            a &= m
            b &= m
        elif w == 1:
            a, b = -(a & 1), -(b & 1)
        op = op[-2:]
        return int(a == b if op == "eq" else a != b if op == "ne" else a < b if op == "lt" else
                   a <= b if op == "le" else a > b if op == "gt" else a >= b)

    def sym_icmp(self, op, a, b, w):
        if hasattr(a, "icmp"):
            return a.icmp(op, b, False, w)
        if hasattr(b, "icmp"):
            return b.icmp(op, a, True, w)
        raise Unsupported("comparison")

    def fcmp(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is not float:
            if type(a) is int:
                a = float(a)
            else:
                return a.fcmp(op, b, False)
        if type(b) is not float:
            return b.fcmp(op, a, True)
        if op in ("true", "false"):
            return int(op == "true")
        un = a != a or b != b
        if op == "ord":
            return int(not un)
        if op == "uno":
            return int(un)
        if un:
            return int(op[0] == "u")
        op = op[1:]
        return int(a == b if op == "eq" else a != b if op == "ne" else a < b if op == "lt" else
                   a <= b if op == "le" else a > b if op == "gt" else a >= b)

    def binop(self, op, a, b, w, nsw):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is not int or type(b) is not int:
            if type(a) is tuple or type(b) is tuple:
                return self.ptrop(op, a, b)
            if w == 1 and hasattr(a, "decided"):
                a = self.decide(a)
            if w == 1 and hasattr(b, "decided"):
                b = self.decide(b)
            if type(a) is int and type(b) is int:
                return self.binop(op, a, b, w, nsw)
            f = getattr(a, "binop", None)
            if f:
                return f(op, b, False, w, nsw)
            return b.binop(op, a, True, w, nsw)
        m = (1 << w) - 1
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op == "shl":
            b &= m
            if b >= w:
                raise Err("shift", "shift by %d of %d bits" % (b, w))
            r = a << b
            if nsw and not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                raise Err("overflow", "signed shift overflow")
        elif op in ("lshr", "ashr"):
            b &= m
            if b >= w:
                raise Err("shift", "shift by %d of %d bits" % (b, w))
            r = (a & m) >> b if op == "lshr" else a >> b
        elif op == "and":
            r = a & b
        elif op == "or":
            r = a | b
        elif op == "xor":
            r = a ^ b
        elif op in ("sdiv", "srem"):
            if b == 0:
                raise Err("division", "division by zero")
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            r = q if op == "sdiv" else a - q * b
        else:
            a &= m
            b &= m
            if b == 0:
                raise Err("division", "division by zero")
            r = a // b if op == "udiv" else a % b
        if op in ("add", "sub", "mul") and nsw and not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
            raise Err("overflow", "signed overflow on %s of %d bits: %d, %d" % (op, w, a, b))
        if w == 1:
            return r & 1
        r &= m
        return r - (1 << w) if r >> (w - 1) else r

    def ptrop(self, op, a, b):
        if type(a) is tuple and type(b) is tuple and op == "sub":
            if a[0] is not b[0]:
                raise Err("pointers", "difference of pointers to different objects")
            return a[1] - b[1]
        if op == "add" and type(a) is tuple and type(b) is int:
            return (a[0], a[1] + b)
        if op == "add" and type(a) is int:
            return (b[0], b[1] + a)
        if op == "sub" and type(b) is int:
            return (a[0], a[1] - b)
        if op == "and" and type(b) is int and a[0] is not None:        # alignment tests
            return a[1] & b
        raise Unsupported("integer operation on a pointer: " + op)

    def fop(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "div":
            if type(b) in (int, float) and b == 0:
                if type(a) in (int, float):
                    return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
                raise Unsupported("division by zero")
            return a / b
        return math.fmod(a, b)

    def cond(self, c):
        """Branch condition."""
        if c is UNDEF:
            raise Err("undef", "decision on uninitialised memory")
        if type(c) is int:
            return c & 1
        return self.decide(c)

    def decide(self, c):
        """Symbolic condition: forks. Each run follows one path of decisions."""
        import time, z3
        e = c.cond() if hasattr(c, "cond") else c
        if self.pos < len(self.path):
            d = self.path[self.pos][0]
        else:
            res = []
            ne = z3.Not(e)
            for x in self.pc:
                if x.eq(e) or x.eq(ne):
                    res = [int(x.eq(e))]
                    break
            for v in () if res else (1, 0):
                if not v and not res and self.sat_pc:
                    res = [0]           # the path is feasible, so one of its branches is
                    break
                t0 = time.time()
                if self.inc is not None:
                    r = self.inc.check(self.pc, [e if v else ne])
                else:
                    s = z3.Solver()
                    s.set("timeout", 20000)
                    s.add(*self.pc)
                    s.add(e if v else ne)
                    r = s.check()
                self.solver_s += time.time() - t0
                self.queries += 1
                if r != z3.unsat:
                    res.append(v)
            if not res:
                raise Infeasible("no feasible branch")
            d = res[0]
            self.path.append((d, len(res) > 1))
            self.forks += len(res) > 1
        self.pos += 1
        self.pc.append(e if d else z3.Not(e))
        return d

    def paths(self, driver, limit=4096):
        """Runs driver() over every feasible path; yields its results."""
        import z3
        self.path = []
        self.asklog = []
        self.memo = {}
        n = 0
        if not self.sat_pc and self.base:
            s = z3.Solver()
            s.add(*self.base)
            self.queries += 1
            self.sat_pc = s.check() == z3.sat
        self.sat_pc = self.sat_pc or not self.base
        while True:
            self.pos, self.pc, self.nask = 0, list(self.base), 0
            yield driver()
            n += 1
            if n >= limit:
                raise Unsupported("more than %d paths" % limit)
            while self.path and not self.path[-1][1]:
                self.path.pop()
            if not self.path:
                return
            self.path[-1] = (1 - self.path[-1][0], False)
            k = len(self.asklog)
            while k and self.asklog[k - 1][0] >= len(self.path):
                k -= 1
            del self.asklog[k:]

    def select(self, c, a, b):
        if c is UNDEF:
            if a is b or a == b:
                return a
            return UNDEF
        if type(c) is int:
            return a if c & 1 else b
        if hasattr(c, "select"):
            r = c.select(a, b)
            if r is not NotImplemented:
                return r
        return a if self.decide(c) else b

    # ------------------------------------------------------------ calls
    def call(self, name, *args):
        f = self.fns.get(name)
        if f is None:
            f = self.fns[name] = self._fn(name)
        return f(self, *args)

    def icall(self, p, *args):
        if p is UNDEF or p[0] is None:
            raise Err("null", "call through an invalid pointer")
        return self.call(p[0].name, *args)

    def _fn(self, name):
        n = name[1:]
        if n in self.ext:
            return self.ext[n]
        m = re.match(r"llvm\.s(add|sub|mul)\.with\.overflow\.i(\d+)$", n)
        if m:
            def g(E, a, b, f=_ovf(m[1]), w=int(m[2])):
                E.ovf_w = w
                return f(E, a, b)
            return g
        if name in self.src:
            self.called.add(n)
            return Trans(self, name).fn
        b = BUILTINS.get(n)
        if b is None:
            for k, v in BUILTINS.items():
                if k.endswith("*") and n.startswith(k[:-1]):
                    b = v
        if b is None:
            raise Unsupported("external function " + n)
        return b


def _un(f):
    def g(E, x, *a):
        if x is UNDEF:
            return UNDEF
        if type(x) not in (int, float):
            return getattr(x, f.__name__)()
        return f(float(x))
    return g


def sqrt(x):
    return math.sqrt(x) if x >= 0 else math.nan


def fabs(x):
    return abs(x)


def floor(x):
    return float(math.floor(x))


def _fmax(E, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a != a:
        return b
    if b != b:
        return a
    return a if E.cond(E.fcmp("oge", a, b)) else b


def _fmin(E, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a != a:
        return b
    if b != b:
        return a
    return a if E.cond(E.fcmp("ole", a, b)) else b


def _imm(op):
    def g(E, a, b):
        w = 32
        return E.select(E.icmp(op, a, b, w), a, b)
    return g


def _abs(E, a, *r):
    if a is UNDEF:
        return a
    if type(a) is int:
        return abs(a)
    return E.select(E.icmp("slt", a, 0, 32), E.binop("sub", 0, a, 32, False), a)


def _ovf(op):
    """checked arithmetic: (result, overflow)"""
    def g(E, a, b, w=32):
        if a is UNDEF or b is UNDEF:
            return [UNDEF, UNDEF]
        if type(a) is int and type(b) is int:
            w = E.ovf_w
            r = a + b if op == "add" else a - b if op == "sub" else a * b
            return [E.wrap(r, w, False), int(not -(1 << (w - 1)) <= r < (1 << (w - 1)))]
        x = a if type(a) is not int else b
        return [E.binop(op, a, b, x.w, False), x.overflows(op, a, b)]
    return g


def _trap(E, *a):
    raise Err("overflow", "signed overflow or shift out of range")


BUILTINS = {
    "llvm.sadd.with.overflow.*": _ovf("add"), "llvm.ssub.with.overflow.*": _ovf("sub"), "llvm.smul.with.overflow.*": _ovf("mul"),
    "llvm.ubsantrap": _trap, "llvm.trap": _trap,
    "llvm.lifetime.*": lambda E, *a: None, "llvm.dbg.*": lambda E, *a: None, "llvm.assume": lambda E, *a: None,
    "llvm.experimental.noalias.*": lambda E, *a: None,
    "llvm.memcpy.*": lambda E, d, s, n, *v: E.memcpy(d, s, n), "llvm.memmove.*": lambda E, d, s, n, *v: E.memcpy(d, s, n),
    "memcpy": lambda E, d, s, n, *v: (E.memcpy(d, s, n), d)[1], "memmove": lambda E, d, s, n, *v: (E.memcpy(d, s, n), d)[1],
    "llvm.memset.*": lambda E, d, v, n, *x: E.memset(d, v, n), "memset": lambda E, d, v, n, *x: (E.memset(d, v, n), d)[1],
    "llvm.abs.*": _abs, "llvm.smax.*": _imm("sgt"), "llvm.smin.*": _imm("slt"), "llvm.umin.*": _imm("ult"),
    "llvm.umax.*": _imm("ugt"), "llvm.maxnum.*": _fmax, "llvm.minnum.*": _fmin, "fmaxf": _fmax, "fminf": _fmin,
    "llvm.sqrt.*": _un(sqrt), "sqrtf": _un(sqrt), "sqrt": _un(sqrt), "llvm.fabs.*": _un(fabs), "fabsf": _un(fabs),
    "llvm.floor.*": _un(floor), "floorf": _un(floor),
    "llvm.ctpop.*": lambda E, x: bin(x & 0xffffffff).count("1"),
    "log10f": _un(math.log10),
    "llvm.fmuladd.*": lambda E, a, b, c: E.fop("add", E.fop("mul", a, b), c),
}


class Trans:
    """Translation of one IR function to Python source."""
    ATTR = re.compile(r"\b(noundef|nonnull|nocapture|readonly|readnone|writeonly|noalias|returned|signext|zeroext|immarg|inreg|"
                      r"align \d+|dereferenceable(?:_or_null)?\(\d+\)|nofree|byval\([^)]*\)|sret\([^)]*\)|captures\([^)]*\)|"
                      r"tail|musttail|notail|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|dso_local|local_unnamed_addr|unnamed_addr|"
                      r"internal|fastcc|ccc|linkonce_odr|weak_odr|hidden|range\([^)]*\)|writable|dead_on_unwind|mustprogress)(?!\w) ?")

    def __init__(self, E, name):
        self.E, self.P = E, E.P
        head, body = E.src[name]
        self.consts = {}
        self.names = {}
        params = self.params(head)
        blocks = self.blocks(body, len(params))
        self.idx = {b: i for i, (b, _) in enumerate(blocks)}
        phis = {}
        for b, ins in blocks:
            for l in ins:
                m = re.match(r"(%[\w.]+) = phi (.*)$", l)
                if m:
                    t, j = self.P.type(m[2])
                    for v, p in re.findall(r"\[ (.*?), %([\w.-]+) \]", m[2][j:]):
                        phis.setdefault((p, b), []).append((self.var(m[1]), self.val(t, v)))
        self.phis = phis
        code = {}
        for b, ins in blocks:
            self.cur = b
            out = []
            for l in ins:
                if " = phi " not in l:
                    out += self.instr(l)
            code[self.idx[b]] = out
        src = ["def fn(E%s):" % "".join(", " + p for p in params)]
        src.append("    icmp = E.icmp; fcmp = E.fcmp; binop = E.binop; load = E.load; store = E.store; fop = E.fop; cond = E.cond")
        src.append("    blk = 0")
        src.append("    while True:")
        self.tree(src, code, 0, len(blocks), 2)
        env = dict(self.consts)
        env.update(UNDEF=UNDEF, Err=Err, Obj=Obj, Unsupported=Unsupported, NULL=NULL, math=math)
        text = "\n".join(src)
        exec(compile(text, name, "exec"), env)
        self.fn = env["fn"]
        self.text = text

    def tree(self, src, code, lo, hi, ind):
        if hi - lo == 1:
            for l in code[lo]:
                src.append("    " * ind + l)
            return
        mid = (lo + hi) // 2
        src.append("    " * ind + "if blk < %d:" % mid)
        self.tree(src, code, lo, mid, ind + 1)
        src.append("    " * ind + "else:")
        self.tree(src, code, mid, hi, ind + 1)

    def params(self, head):
        i = head.index("(", head.index("@"))
        depth, j = 0, i
        while True:
            if head[j] == "(":
                depth += 1
            if head[j] == ")":
                depth -= 1
                if not depth:
                    break
            j += 1
        s = self.ATTR.sub("", head[i + 1:j])
        out = []
        for part in self.split(s):
            if part.strip() in ("", "..."):
                continue
            t, k = self.P.type(part)
            n = part[k:].strip()
            out.append(self.var(n if n else "%" + str(len(out))))
        return out

    @staticmethod
    def split(s):
        out, d, cur, q = [], 0, "", False
        for c in s:
            if c == '"':
                q = not q
            if not q and c in "([{<":
                d += 1
            if not q and c in ")]}>":
                d -= 1
            if c == "," and d == 0 and not q:
                out.append(cur)
                cur = ""
            else:
                cur += c
        out.append(cur)
        return out

    def blocks(self, body, nparams):
        out, cur = [], (None, [])
        first = True
        lines = body.split("\n")
        k = 0
        while k < len(lines):
            l = lines[k]
            k += 1
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            m = re.match(r"^([\w.\"-]+):", l)
            if m:
                if first and not cur[1]:
                    cur = (m[1], [])
                else:
                    out.append(cur)
                    cur = (m[1], [])
                first = False
                continue
            if first:
                cur = (str(nparams), [])
                first = False
            s = l.strip()
            if s.startswith("switch"):
                while "]" not in s:
                    s += " " + lines[k].strip()
                    k += 1
            s = re.sub(r", ![\w.]+ ![\w.]+", "", s)
            s = re.sub(r" #\d+$", "", s)
            cur[1].append(s)
        out.append(cur)
        return out

    def var(self, n):
        v = self.names.get(n)
        if v is None:
            v = self.names[n] = "v_" + re.sub(r"\W", "_", n[1:])
        return v

    def val(self, t, s):
        s = s.strip()
        if s[0] == "%":
            return self.var(s)
        if t.k in "as" or s.startswith(("{", "[", "<")):
            if s in ("undef", "poison"):
                return "UNDEF"
            o = Obj("tmp", t.size)
            self.E._init(o, 0, t, s, 0)
            k = "K%d" % len(self.consts)
            self.consts[k] = o
            return k
        v, _ = self.E.const(t, s, 0)
        if v is UNDEF:
            return "UNDEF"
        if type(v) is int:
            return "(%d)" % v if v < 0 else str(v)
        if type(v) is float and v == v and abs(v) != math.inf:
            return repr(v) if v >= 0 and math.copysign(1, v) > 0 else "(%r)" % v
        k = "K%d" % len(self.consts)
        self.consts[k] = v
        return k

    def tv(self, s, i=0):
        """typed value at s[i:] -> (T, python expr, next)"""
        t, i = self.P.type(s, i)
        i = self.P.skip(s, i)
        if s[i:].startswith("getelementptr"):
            d, j = 0, s.index("(", i)
            k = j
            while True:
                if s[k] == "(":
                    d += 1
                if s[k] == ")":
                    d -= 1
                    if d == 0:
                        break
                k += 1
            return t, self.val(t, s[i:k + 1]), k + 1
        m = Exec.TOK.match(s, i)
        if not m:
            raise Unsupported("operand " + s[i:i + 50])
        return t, self.val(t, m[0]), m.end()

    def jump(self, to):
        out = []
        ph = self.phis.get((self.cur, to))
        if ph:
            out.append("%s = %s" % (", ".join(a for a, _ in ph), ", ".join(b for _, b in ph)))
        out.append("blk = %d" % self.idx[to])
        out.append("continue")
        return out

    def instr(self, l):
        m = re.match(r"(%[\w.]+) = (.*)$", l)
        r, s = (self.var(m[1]), m[2]) if m else (None, l)
        op = s.split(" ", 1)[0]
        rest = s[len(op) + 1:]
        fm = re.compile(r"((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+")
        if op in ("tail", "musttail", "notail"):
            op, rest = "call", rest[5:]
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "sdiv", "udiv", "srem", "urem"):
            nsw = " nsw" in " " + rest.split(" i")[0] and "nsw" in rest.split()[:3]
            rest = re.sub(r"^((nsw|nuw|exact|disjoint) )+", "", rest)
            t, a, i = self.tv(rest)
            b = self.val(t, rest[self.P.skip(rest, i):])
            if t.k != "i":
                raise Unsupported("vector " + l)
            w = t.w
            if op in ("add", "sub", "mul") and w > 1:
                sym = {"add": "+", "sub": "-", "mul": "*"}[op]
                h = 1 << (w - 1)
                return ["if type(%s) is int and type(%s) is int:" % (a, b),
                        "    %s = %s %s %s" % (r, a, sym, b),
                        "    if not %d <= %s < %d: %s = E.wrap(%s, %d, %s)" % (-h, r, h, r, r, w, nsw),
                        "else: %s = binop(%r, %s, %s, %d, %s)" % (r, op, a, b, w, nsw)]
            return ["%s = binop(%r, %s, %s, %d, %s)" % (r, op, a, b, w, nsw)]
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            rest = fm.sub("", rest, 1) if fm.match(rest) else rest
            t, a, i = self.tv(rest)
            b = self.val(t, rest[self.P.skip(rest, i):])
            if op in ("fdiv", "frem"):
                return ["%s = fop(%r, %s, %s)" % (r, op[1:], a, b)]
            return ["%s = UNDEF if %s is UNDEF or %s is UNDEF else %s %s %s" % (r, a, b, a, {"fadd": "+", "fsub": "-", "fmul": "*"}[op], b)]
        if op == "fneg":
            rest = fm.sub("", rest, 1) if fm.match(rest) else rest
            t, a, i = self.tv(rest)
            return ["%s = UNDEF if %s is UNDEF else -%s" % (r, a, a)]
        if op == "icmp":
            rest = re.sub(r"^samesign ", "", rest)
            c, rest = rest.split(" ", 1)
            t, a, i = self.tv(rest)
            b = self.val(t, rest[self.P.skip(rest, i):])
            return ["%s = icmp(%r, %s, %s, %d)" % (r, c, a, b, t.w)]
        if op == "fcmp":
            rest = fm.sub("", rest, 1) if fm.match(rest) else rest
            c, rest = rest.split(" ", 1)
            t, a, i = self.tv(rest)
            b = self.val(t, rest[self.P.skip(rest, i):])
            return ["%s = fcmp(%r, %s, %s)" % (r, c, a, b)]
        if op == "select":
            rest = fm.sub("", rest, 1) if fm.match(rest) else rest
            t, c, i = self.tv(rest)
            t, a, i = self.tv(rest, i)
            t, b, i = self.tv(rest, i)
            return ["%s = E.select(%s, %s, %s)" % (r, c, a, b)]
        if op in ("sext", "zext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            rest = re.sub(r"^((nneg|nuw|nsw) )+", "", rest)
            rest = fm.sub("", rest, 1) if fm.match(rest) else rest
            t, a, i = self.tv(rest)
            if op in ("freeze", "inttoptr", "ptrtoint"):
                return ["%s = %s" % (r, a)]
            t2, _ = self.P.type(rest, rest.index(" to ", i) + 4)
            return ["%s = cast(E, %r, %s, %d, %d)" % (r, op, a, t.w, t2.w)] if self.usecast() else []
        if op == "load":
            rest = re.sub(r"^volatile ", "", rest)
            t, i = self.P.type(rest)
            pt, p, i = self.tv(rest, i)
            if t.k in "as":
                raise Unsupported("aggregate load")
            return ["%s = load(%s, %d, %r)" % (r, p, t.size, t.k)] + (["if type(%s) is int: %s &= 1" % (r, r)] if t.w == 1 else [])
        if op == "store":
            rest = re.sub(r"^volatile ", "", rest)
            t, v, i = self.tv(rest)
            pt, p, i = self.tv(rest, i)
            if t.k in "as":
                raise Unsupported("aggregate store")
            return ["store(%s, %s, %d, %r)" % (p, v, t.size, t.k)]
        if op == "getelementptr":
            rest = re.sub(r"^((inbounds|nuw|nusw) )+", "", rest)
            bt, i = self.P.type(rest)
            pt, p, i = self.tv(rest, i)
            off, terms, t2, first = 0, [], bt, True
            i = self.P.skip(rest, i)
            while i < len(rest):
                it, v, i = self.tv(rest, i)
                if first:
                    sz, first = t2.size, False
                elif t2.k == "a":
                    t2 = t2.sub
                    sz = t2.size
                else:
                    k = int(v)
                    off += t2.offs[k]
                    t2 = t2.sub[k]
                    i = self.P.skip(rest, i)
                    continue
                if re.match(r"^\(?-?\d+\)?$", v):
                    off += int(v.strip("()")) * sz
                else:
                    terms.append((v, sz))
                i = self.P.skip(rest, i)
            if terms:
                e = " + ".join("%s * %d" % x if x[1] != 1 else x[0] for x in terms) + (" + %d" % off if off else "")
                return ["if %s is UNDEF: raise Err('undef', 'address from uninitialised memory')" % " is UNDEF or ".join([p] + [x[0] for x in terms]),
                        "%s = (%s[0], %s[1] + %s) if %s else E.symgep(%s, %s, %d)" % (
                            r, p, p, e, " and ".join("type(%s) is int" % x[0] for x in terms), p,
                            "[" + ", ".join("(%s, %d)" % x for x in terms) + "]", off)]
            return ["if %s is UNDEF: raise Err('undef', 'address from uninitialised memory')" % p,
                    "%s = (%s[0], %s[1] + %d)" % (r, p, p, off)]
        if op == "alloca":
            t, i = self.P.type(rest)
            return ["%s = (Obj(%r, %d), 0)" % (r, "local " + r, t.size)]
        if op == "br":
            m = re.match(r"label %([\w.-]+)$", rest)
            if m:
                return self.jump(m[1])
            m = re.match(r"i1 (.*), label %([\w.-]+), label %([\w.-]+)", rest)
            c = self.val(mkint(1), m[1])
            return ["if cond(%s):" % c] + ["    " + x for x in self.jump(m[2])] + self.jump(m[3])
        if op == "switch":
            t, v, i = self.tv(rest)
            m = re.search(r"label %([\w.-]+) \[(.*)\]", rest)
            out = []
            for a, b in re.findall(r"i\d+ (-?\d+), label %([\w.-]+)", m[2]):
                out += ["if cond(icmp('eq', %s, %s, %d)):" % (v, a, t.w)] + ["    " + x for x in self.jump(b)]
            return out + self.jump(m[1])
        if op == "ret":
            if rest.startswith("void"):
                return ["return None"]
            t, v, i = self.tv(rest)
            return ["return " + v]
        if op == "unreachable":
            return ["raise Err('unreachable', 'undefined behaviour reached')"]
        if op in ("call", "invoke"):
            return self.callins(r, rest, op)
        if op == "extractvalue":
            t, v, i = self.tv(rest)
            k = int(rest[i:].strip(" ,"))
            return ["%s = %s[%d]" % (r, v, k)]
        if op == "insertvalue":
            m = re.match(r"(.*), (\d+)$", rest)
            t, i = self.P.type(m[1])
            i = self.P.skip(m[1], i)
            mm = Exec.TOK.match(m[1], i)
            agg = self.val(t, mm[0])
            t2, v, _ = self.tv(m[1], mm.end())
            return ["%s = E.insertv(%s, %s, %d)" % (r, agg, v, int(m[2]))]
        raise Unsupported("instruction " + l)

    def usecast(self):
        self.consts.setdefault("cast", cast)
        return True

    def callins(self, r, rest, op):
        s = self.ATTR.sub("", rest)
        if op == "invoke":
            mm = re.search(r" to label %([\w.-]+) unwind label %([\w.-]+)$", s)
            nxt = mm[1]
            s = s[:mm.start()].strip()
        t, i = self.P.type(s)
        i = self.P.skip(s, i)
        if s[i] == "(":                      # full function type
            i = s.index(")", i) + 1
            i = self.P.skip(s, i)
        m = re.compile(r"([@%](?:\"[^\"]+\"|[\w.$:-]+))\(").match(s, i)
        if not m:
            raise Unsupported("call " + s)
        j = len(s) - 1
        while s[j] != ")":
            j -= 1
        args = []
        for part in self.split(s[m.end():j]):
            if not part.strip():
                continue
            if part.strip().startswith("metadata"):
                continue
            tt, v, _ = self.tv(part)
            args.append(v)
        f = m[1]
        if re.match(r"@llvm\.(lifetime|dbg|assume|experimental)", f):
            return []
        a = "".join(", " + x for x in args)
        c = "E.call(%r%s)" % (f, a) if f[0] == "@" else "E.icall(%s%s)" % (self.var(f), a)
        out = ["%s%s" % (r + " = " if r else "", c)]
        if op == "invoke":
            out += self.jump(nxt)
        return out


def cast(E, op, a, w, w2):
    if a is UNDEF:
        return UNDEF
    t = type(a)
    if w == 1 and hasattr(a, "decided"):
        a = E.decide(a)
        t = int
    if op in ("sext", "zext", "trunc"):
        if t is tuple:
            return a
        if t is not int:
            return a.cast(op, w, w2)
        if op == "sext":
            return -(a & 1) if w == 1 else a
        if op == "zext":
            return a & ((1 << w) - 1)
        a &= (1 << w2) - 1
        return a if w2 == 1 else a - (1 << w2) if a >> (w2 - 1) else a
    if op == "sitofp":
        return float(a) if t is int else a.to_float()
    if op == "uitofp":
        return float(a & ((1 << w) - 1)) if t is int else a.to_float()
    if op in ("fptosi", "fptoui"):
        if t is not float:
            return a.to_int(E, w2)
        if not -(2 ** (w2 - 1)) - 1 < a < 2 ** (w2 - (op == "fptosi")):
            raise Err("conversion", "float %g to %d bits integer" % (a, w2))
        return int(a)
    if op in ("fpext", "fptrunc"):
        return f32(a) if op == "fptrunc" and t is float else a
    if op == "bitcast":
        if t is float:
            return from_bytes(struct.pack("<f" if w == 32 else "<d", a), w // 8, "i") if w2 else a
        if t is int:
            return from_bytes(to_bytes(a, w // 8, "i"), w // 8, "f")
        if hasattr(a, "bits"):
            return a.bits()
        if hasattr(a, "unbits"):
            return a.unbits()
    raise Unsupported("cast " + op)
