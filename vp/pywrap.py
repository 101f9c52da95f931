"""C29: the Python wrapper, executed symbolically: the module runs unmodified on
symbolic integers (z3) and on models of the ctypes, array and buffer types whose
sizes are symbolic; a condition forks, by running again, over the feasible
outcomes."""
import builtins, ctypes as rctypes, importlib, json, os, subprocess, sys, time
import z3
from .ir import Unsupported, REPO, HARN

MOD = os.path.join(REPO, "python", "lc3.py")
X = None            # the run


class Ctx:
    def __init__(self, base):
        self.base, self.path = list(base), []
        self.queries, self.solver_s = 0, 0.0

    def ask(self, *cs):
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(*self.pc)
        s.add(*cs)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            raise Unsupported("solver: unknown")
        return s.model() if r == z3.sat else None

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        if self.pos < len(self.path):
            d = self.path[self.pos][0]
        else:
            t, f = self.ask(e) is not None, self.ask(z3.Not(e)) is not None
            if not t and not f:
                raise Unsupported("no feasible path")
            d = t
            self.path.append((d, t and f))
        self.pos += 1
        self.pc.append(e if d else z3.Not(e))
        return d

    def paths(self, driver):
        n = 0
        while True:
            self.pos, self.pc = 0, list(self.base)
            yield driver()
            n += 1
            if n > 3000:
                raise Unsupported("too many paths")
            while self.path and not self.path[-1][1]:
                self.path.pop()
            if not self.path:
                return
            self.path[-1] = (not self.path[-1][0], False)


def zi(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, 1, 0)
    if isinstance(x, (builtins.int, bool)):
        return z3.IntVal(builtins.int(x))
    raise Unsupported("integer of " + type(x).__name__)


def mk(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)


class SBool:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return X.decide(self.t)

    def __index__(self):
        return 1 if X.decide(self.t) else 0
    __int__ = __index__

    def _i(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        return SBool(z3.And(self.t, o.t if isinstance(o, SBool) else z3.BoolVal(builtins.bool(o))))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, o.t if isinstance(o, SBool) else z3.BoolVal(builtins.bool(o))))
    __ror__ = __or__


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "floordiv", "mod", "lt", "le", "gt", "ge", "eq", "ne", "neg"):
    setattr(SBool, "__%s__" % _op, (lambda n: lambda self, *a: getattr(self._i(), n)(*a))("__%s__" % _op))


class SInt:
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __add__(self, o): return mk(self.t + zi(o)) if num(o) else NotImplemented
    __radd__ = __add__
    def __sub__(self, o): return mk(self.t - zi(o)) if num(o) else NotImplemented
    def __rsub__(self, o): return mk(zi(o) - self.t) if num(o) else NotImplemented
    def __neg__(self): return mk(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mk(z3.If(self.t < 0, -self.t, self.t))

    def __mul__(self, o):
        if num(o):
            return mk(self.t * zi(o))
        return rep(o, self)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __floordiv__(self, o): return self.divmod(self.t, zi(o))[0]
    def __rfloordiv__(self, o): return self.divmod(zi(o), self.t)[0]
    def __mod__(self, o): return self.divmod(self.t, zi(o))[1]
    def __rmod__(self, o): return self.divmod(zi(o), self.t)[1]
    def __divmod__(self, o): return self.divmod(self.t, zi(o))
    def __rdivmod__(self, o): return self.divmod(zi(o), self.t)

    @staticmethod
    def divmod(a, b):
        b = z3.simplify(b)
        if not z3.is_int_value(b):
            raise Unsupported("division by an unknown")
        d = b.as_long()
        if d == 0:
            raise ZeroDivisionError
        if d > 0:
            return mk(a / b), mk(a % b)
        q = -((a) / -b)                    # floor of a / b, b < 0
        q = z3.If(a % -b == 0, q, q - 1)
        return mk(q), mk(a - q * b)

    def __lshift__(self, o): return self * (1 << o)
    def __rshift__(self, o): return self // (1 << o)

    def __and__(self, o):
        if type(o) is builtins.int and o >= 0 and o & (o + 1) == 0:
            return self % (o + 1)
        raise Unsupported("bit operation")
    def __truediv__(self, o): return Real()
    def __rtruediv__(self, o): return Real()
    def __lt__(self, o): return sb(self.t < zi(o))
    def __le__(self, o): return sb(self.t <= zi(o))
    def __gt__(self, o): return sb(self.t > zi(o))
    def __ge__(self, o): return sb(self.t >= zi(o))
    def __eq__(self, o): return sb(self.t == zi(o)) if num(o) else False
    def __ne__(self, o): return sb(self.t != zi(o)) if num(o) else True
    def __bool__(self): return X.decide(self.t != 0)

    def __index__(self):
        raise Unsupported("concrete value of a symbolic integer")
    __int__ = __float__ = __index__


def num(o):
    return isinstance(o, (builtins.int, SInt, SBool))


def sb(t):
    t = z3.simplify(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else SBool(t)


class Real:
    """A quantity of the signal (mean, ...): its comparisons are undetermined."""
    def _r(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __abs__ = __neg__ = __pow__ = _r

    def _c(self, o):
        X.flags.add("range")
        X.k += 1
        return SBool(z3.Bool("real%d" % X.k))
    __lt__ = __le__ = __gt__ = __ge__ = _c


# ---------------------------------------------------------------- buffers

class Buf:
    """Bytes: list of segments (source function or None for zeros, start, length).
    A source of kind "out" is filled by the library."""
    def __init__(self, segs, kind, mutable=True, elem=1, obj=None):
        self.segs, self.kind, self.mutable, self.elem = segs, kind, mutable, elem
        self.tag = obj

    def size(self):
        r = 0
        for s in self.segs:
            r = r + s[2]
        return r

    def __len__(self):
        raise Unsupported("len")

    def length(self):
        n = self.size()
        return n // self.elem if self.elem != 1 else n

    def at(self, i):
        """content at the byte index i (a z3 term)"""
        r, pos = z3.IntVal(-1), 0
        cs = []
        for src, st, n in self.segs:
            cs.append((z3.And(i >= zi(pos), i < zi(pos + n)), z3.IntVal(0) if src is None else src(zi(st) + i - zi(pos))))
            pos = pos + n
        for c, v in reversed(cs):
            r = z3.If(c, v, r)
        return r

    def of(self, kind, mutable, elem=1):
        return Buf(list(self.segs), kind, mutable, elem, self.tag)

    def __add__(self, o):
        o = buf(o)
        return Buf(self.segs + o.segs, self.kind, self.mutable, self.elem)

    def __radd__(self, o):
        return buf(o) + self

    def __iadd__(self, o):
        if not self.mutable:
            return self + o
        self.extend(o)
        return self

    def extend(self, o):
        self.segs = self.segs + buf(o, self.elem).segs
        self.tag = None

    def append(self, o):
        self.extend([o])

    def frombytes(self, o):
        self.segs = self.segs + buf(o).segs

    def tobytes(self):
        return self.of("bytes", False)

    def ljust(self, w, c=b" "):
        n = self.size()
        k = mk(z3.If(zi(w) > zi(n), zi(w) - zi(n), 0))
        return Buf(self.segs + rep(c, k).segs, self.kind, self.mutable)

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise Unsupported("element of a buffer")
        n = zi(self.length())
        cl = lambda x, d: zi(d) if x is None else z3.If(zi(x) < 0, z3.If(n + zi(x) < 0, z3.IntVal(0), n + zi(x)), z3.If(zi(x) > n, n, zi(x)))
        a, b = cl(s.start, 0), cl(s.stop, mk(n))
        b = z3.If(b < a, a, b)
        a, b = a * self.elem, b * self.elem
        segs, pos = [], 0
        for src, st, ln in self.segs:
            p, e = zi(pos), zi(pos + ln)
            lo, hi = z3.If(a > p, a, p), z3.If(b < e, b, e)
            segs.append((src, mk(zi(st) + lo - p), mk(z3.If(hi > lo, hi - lo, 0))))
            pos = pos + ln
        return Buf(segs, self.kind, self.mutable, self.elem)

    def __setitem__(self, s, v):
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise Unsupported("element of a buffer")
        a = self[:0 if s.start is None else s.start]
        b = self[self.length():] if s.stop is None else self[s.stop:]
        self.segs = a.segs + buf(v, self.elem).segs + b.segs

    def __iter__(self):
        raise Unsupported("iteration over a symbolic buffer")

    def __bool__(self):
        return builtins.bool(self.length() != 0)


class Zeros(list):
    pass


def rep(o, n):
    """o * n for a sequence"""
    n = mk(z3.If(zi(n) < 0, 0, zi(n)))
    if isinstance(o, (bytes, bytearray)) and not any(o):
        return Buf([(None, 0, n * builtins.len(o))], "bytes" if isinstance(o, bytes) else "bytearray", isinstance(o, bytearray))
    if isinstance(o, (list, tuple)) and all(isinstance(x, (builtins.int, float)) and x == 0 for x in o):
        return ZList(n * builtins.len(o))
    if isinstance(o, Buf) and all(s[0] is None for s in o.segs):
        return Buf([(None, 0, o.size() * n)], o.kind, o.mutable, o.elem)
    if isinstance(o, type) and hasattr(o, "vsize"):
        return arr_t(o, n)
    raise Unsupported("repetition of %s" % type(o).__name__)


class ZList:
    """list of n zeros"""
    def __init__(self, n):
        self.n = n

    def length(self):
        return self.n


def buf(o, elem=1):
    if isinstance(o, Buf):
        return o
    if isinstance(o, CObj):
        return Buf([(o.src, 0, o.size())], "bytes", False, 1, o)
    if isinstance(o, ZList):
        return Buf([(None, 0, o.n * elem)], "list", False)
    if isinstance(o, FList):
        return Buf([(o.src, 0, o.n * 4)], "list", False)
    if isinstance(o, (bytes, bytearray)) and not any(o):
        return Buf([(None, 0, builtins.len(o))], "bytes", False)
    if isinstance(o, (list, tuple)) and all(x == 0 for x in o):
        return Buf([(None, 0, builtins.len(o) * elem)], "list", False)
    raise Unsupported("buffer from " + type(o).__name__)


class FList:
    """list of floats, of symbolic length"""
    def __init__(self, src, n):
        self.src, self.n = src, n

    def length(self):
        return self.n

    def __iter__(self):
        raise Unsupported("iteration over symbolic floats")


# ---------------------------------------------------------------- ctypes

class CMeta(type):
    def __mul__(cls, n):
        return arr_t(cls, n)
    __rmul__ = __mul__


def arr_t(el, n):
    if not isinstance(n, builtins.int):
        if X.decide(zi(n) < 0):
            raise ValueError("Array length must be >= 0")
    elif n < 0:
        raise ValueError("Array length must be >= 0")
    return CMeta("array", (CObj,), dict(vsize=n * el.vsize, el=el, n=n))


class CObj(metaclass=CMeta):
    base = None

    def __init__(self, *a):
        if a:
            raise Unsupported("initialised array")
        X.objs += 1
        f = z3.Function("obj%d" % X.objs, z3.IntSort(), z3.IntSort())
        self.root, self.off, self.tag = self, 0, X.objs
        self.src = f
        self.target = None

    @classmethod
    def from_buffer(cls, o, off=0):
        n = o.size() if isinstance(o, (Buf, CObj)) else None
        if n is None or isinstance(o, Buf) and not o.mutable:
            raise TypeError("underlying buffer is not writable")
        if isinstance(o, Buf) and o.kind == "bytes":
            raise TypeError("underlying buffer is not writable")
        if sb(zi(off) < 0):
            raise ValueError("offset cannot be negative")
        if sb(zi(off) + zi(cls.vsize) > zi(n)):
            raise ValueError("Buffer size too small")
        r = cls.__new__(cls)
        r.root, r.off = (o.root, o.off + off) if isinstance(o, CObj) else (o, off)
        r.src = None
        return r

    @classmethod
    def from_buffer_copy(cls, o, off=0):
        if sb(zi(off) + zi(cls.vsize) > zi(buf(o).size())):
            raise ValueError("Buffer size too small")
        r = cls.__new__(cls)
        r.root, r.off, r.src = buf(o)[off:off + cls.vsize], 0, None
        return r

    def size(self):
        return self.vsize

    def length(self):
        return self.n


def ctype(name, size):
    return CMeta(name, (CObj,), dict(vsize=size, n=1, el=None))


class Fn:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


class Lib:
    pass


def v_len(o):
    return o.length() if hasattr(o, "length") else builtins.len(o)


class KMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.real) or cls.sym(o)


def klass(name, real, sym, new):
    return KMeta(name, (), dict(real=real, sym=staticmethod(sym), __new__=new, from_bytes=getattr(real, "from_bytes", None), fromhex=getattr(real, "fromhex", None)))


def new_int(cls, *a):
    if a and isinstance(a[0], (SInt, SBool)):
        return mk(zi(a[0]))
    return builtins.int(*a)


def new_bytes(kind, mutable):
    def new(cls, *a):
        real = bytearray if mutable else bytes
        if not a:
            return Buf([], kind, mutable) if mutable else b""
        o = a[0]
        if isinstance(o, (SInt, SBool)):
            if o < 0:
                raise ValueError("negative count")
            return Buf([(None, 0, o)], kind, mutable)
        if isinstance(o, (Buf, CObj, ZList)):
            return buf(o).of(kind, mutable)
        if isinstance(o, builtins.int):
            return Buf([(None, 0, o)], kind, mutable)
        r = real(*a)
        return buf(r).of(kind, mutable) if not any(r) else r
    return new


def v_sum(o, *a):
    if isinstance(o, Buf):
        return Real()
    return builtins.sum(o, *a)


def v_array(code, init=()):
    if code != "f":
        raise Unsupported("array of " + code)
    if isinstance(init, Buf) and init.elem == 1 and init.kind in ("bytes", "bytearray"):
        if sb(zi(init.size()) % 4 != 0):
            raise ValueError("bytes length not a multiple of item size")
        return init.of("array", True, 4)
    if isinstance(init, CObj):
        if init.el is None or init.el.__name__ != "c_float":
            raise Unsupported("array from another type")
    return buf(init, 4).of("array", True, 4)


class Arr(metaclass=KMeta):
    real = ()
    sym = staticmethod(lambda o: isinstance(o, Buf) and o.kind == "array")

    def __new__(cls, *a):
        return v_array(*a)


def modules(lib):
    fake = {}
    ct = type(sys)("ctypes")
    for k in dir(rctypes):
        if not k.startswith("__"):
            setattr(ct, k, getattr(rctypes, k))
    for k, n in (("c_byte", 1), ("c_ubyte", 1), ("c_int8", 1), ("c_uint8", 1), ("c_char", 1), ("c_int16", 2), ("c_short", 2), ("c_uint16", 2), ("c_int32", 4), ("c_float", 4)):
        setattr(ct, k, ctype(k, n))
    ct.sizeof = lambda t: t.vsize if hasattr(t, "vsize") else rctypes.sizeof(t)
    ct.Array = CObj
    loader = Lib()
    loader.LoadLibrary = lambda p: lib
    ct.cdll = loader
    ct.CDLL = lambda p, *a, **k: lib
    ct.memset = None
    ut = type(sys)("ctypes.util")
    ut.find_library = lambda n: n
    ct.util = ut
    ar = type(sys)("array")
    ar.array = ar.ArrayType = Arr
    return {"ctypes": ct, "ctypes.util": ut, "array": ar}


def load(lib):
    fake = modules(lib)
    b = dict(vars(builtins))

    def imp(name, g=None, l=None, fl=(), lv=0):
        if name in fake:
            return fake[name] if fl or "." not in name else fake[name.split(".")[0]]
        return builtins.__import__(name, g, l, fl, lv)
    b.update(__import__=imp, len=v_len, sum=v_sum, int=klass("int", builtins.int, lambda o: isinstance(o, (SInt, SBool)), new_int),
             bytes=klass("bytes", builtins.bytes, lambda o: isinstance(o, Buf) and o.kind == "bytes", new_bytes("bytes", False)),
             bytearray=klass("bytearray", builtins.bytearray, lambda o: isinstance(o, Buf) and o.kind == "bytearray", new_bytes("bytearray", True)),
             memoryview=lambda o: o if isinstance(o, Buf) else buf(o) if isinstance(o, CObj) else builtins.memoryview(o))
    ns = {"__name__": "lc3", "__file__": MOD, "__builtins__": b}
    exec(compile(open(MOD).read(), MOD, "exec"), ns)
    return ns


FMT = {16: (0, 2), 24: (2, 3), None: (3, 4)}


def run(work, rdir, dec, depth, floats=False, nmax=8, old=False):
    global X
    q = dict(queries=0, solver_s=0.0, functions=["Encoder.encode" if not dec else "Decoder.decode", "_Base.get_frame_samples", "_Base._resolve_pcm_format"])
    for n in range(1, nmax + 1):
        r = one(work, rdir, dec, depth, floats, n, old)
        q["queries"] += X.queries
        q["solver_s"] += X.solver_s
        if r:
            r.update(q, discharged=q["queries"])
            return r
    return dict(q, status="pass", violations=[], discharged=q["queries"])


def one(work, rdir, dec, depth, floats, n, old):
    global X
    fs, length, size = z3.Int("fs"), z3.Int("len"), z3.Int("size")
    res = [z3.Int("r%d" % k) for k in range(n)]
    fm, el = FMT[depth]
    unit = 4 if depth is None else 1
    base = [fs >= 1, fs <= 960, length >= 0, length <= 40000, size >= 0, size <= 6000] + [z3.Or(x == 0, x == -1, *([x == 1] if dec else [])) for x in res]
    X = Ctx(base)
    lib = Lib()
    src = z3.Function("in", z3.IntSort(), z3.IntSort())
    i = z3.Int("i")

    def setup(hr, dt, sr, sp, mem):
        X.made.append((hr, dt, sr, sp, mem))
        return ("state", builtins.len(X.made) - 1)

    def malloc(sz):
        X.mem += 1
        return ("mem", X.mem, sz)

    def ident(h):
        if not (isinstance(h, tuple) and h[0] == "state"):
            raise Bad("handle that is not the state of a channel")
        return h[1]

    def encode(e, f, pcm, stride, nb, out):
        X.ev.append((ident(e), builtins.int(f), pcm, stride, nb, out))
        return SInt(res[builtins.len(X.ev) - 1]) if builtins.len(X.ev) <= n else 0

    def decode(e, inp, nb, f, pcm, stride):
        return encode(e, f, pcm, stride, nb, inp)

    def fsamples(*a):
        if a[-2:] != (10000, 48000):
            raise Bad("arguments of lc3_frame_samples")
        return SInt(fs)
    pre = "lc3_" if old else "lc3_hr_"
    w = (lambda f: Fn(lambda *a: f(False, *a))) if old else Fn
    for k, f in (("frame_samples", fsamples), ("frame_block_bytes", lambda *a: 0), ("resolve_bitrate", lambda *a: 0), ("delay_samples", lambda *a: 0),
                 ("encoder_size", lambda *a: 64), ("decoder_size", lambda *a: 64), ("setup_encoder", setup), ("setup_decoder", setup)):
        setattr(lib, pre + k, w(f))
    lib.lc3_encode, lib.lc3_decode, lib.malloc, lib.free = Fn(encode), Fn(decode), Fn(malloc), Fn(lambda p: None)

    def driver():
        X.flags, X.k, X.objs, X.made, X.ev, X.mem = set(), 0, 0, [], [], 0
        ns = load(lib)
        try:
            o = (ns["Decoder"] if dec else ns["Encoder"])(10000, 48000, n, libpath="lib")
            data = FList(src, SInt(length)) if floats else Buf([(src, 0, SInt(length))], "bytes", False)
            if dec:
                r = o.decode(data, depth)
            else:
                r = o.encode(data, SInt(size), depth)
            return "ok", r, ns
        except (Unsupported, Bad):
            raise
        except Exception as e:
            return "raise", e, ns

    def replay(why, *cs):
        m = X.ask(*cs)
        if m is None:
            return unrep(why)
        v = lambda t: m.eval(t, model_completion=True).as_long()
        L = v(length) * (4 if floats else 1)
        import struct
        byts = [(7 * k + 3) % 251 + 1 for k in range(L)] if depth is not None or dec else \
            list(b"".join(struct.pack("<f", 0.001 + (k % 97) / 8192) for k in range((L + 3) // 4)))[:L]
        c = dict(dec=dec, depth=depth, floats=floats, n=n, bytes=v(size), data=byts, fs=v(fs), res=[v(x) for x in res])
        return concrete(work, rdir, c, why)

    def unrep(why):
        return dict(status="unreproduced", violations=[], note=why, unreproduced=[(why, "")])

    insize = zi(buf(FList(src, SInt(length)) if floats else Buf([(src, 0, SInt(length))], "bytes")).size())
    block = length if dec else size
    oks = 0
    try:
        for st, r, ns in X.paths(driver):
            if st == "raise" and "range" in X.flags and not X.ev and isinstance(r, ns["BaseError"]):
                continue
            aligned = z3.BoolVal(True) if dec or depth is not None or floats else insize % 4 == 0
            if st == "raise":
                c = z3.And(aligned, *[x >= 0 for x in res])
                if X.ask(c) is not None:
                    return replay("exception: %r" % r, c)
                if X.ask(aligned) is not None and not isinstance(r, ns["BaseError"]):
                    return replay("failure of a channel: %r" % r, aligned)
                continue
            oks += 1
            c = z3.Or(z3.Not(aligned), *[x < 0 for x in res])
            if X.ask(c) is not None:
                return replay("failure without an exception", c)
            if builtins.len(X.made) != n or builtins.len({m[4] for m in X.made}) != n:
                return replay("%d states" % builtins.len(X.made))
            for m in X.made:
                if builtins.bool(m[0]) or m[1:4] != (10000, 48000, 48000):
                    return replay("setup")
            if builtins.len(X.ev) != n:
                return replay("%d calls for %d channels" % (builtins.len(X.ev), n))
            pos, need = z3.IntVal(0), fs * (n * el)
            roots = set()
            for k, (h, f, pcm, stride, nb, io) in enumerate(X.ev):
                part = block / n + z3.If(block % n > k, z3.IntVal(1), z3.IntVal(0))
                if h != k or f != fm or stride != n:
                    return replay("state, format or stride of channel %d" % k)
                if not isinstance(pcm, CObj) or not isinstance(io, CObj):
                    raise Unsupported("argument of the library")
                c = z3.Or(zi(pcm.off) != k * el, zi(nb) != part, zi(io.off) != pos, zi(io.size()) < part,
                          zi(pcm.size()) < (fs - 1) * (n * el) + el)
                if X.ask(c) is not None:
                    return replay("part of channel %d" % k, c)
                pos = pos + part
                roots.add((builtins.id(pcm.root), builtins.id(io.root)))
            if builtins.len(roots) != 1:
                return replay("different buffers")
            pcm, io = X.ev[0][2].root, X.ev[0][5].root
            isrc, outp = (io, pcm) if dec else (pcm, io)
            if not isinstance(isrc, Buf):
                return replay("input")
            ilen = length if dec else need
            c = z3.And(i >= 0, i < ilen, isrc.at(i) != z3.If(i < insize, src(i), 0))
            mm = X.ask(c)
            if mm is not None:
                return replay("input byte %s" % mm.eval(i), c)
            rs = r.segs if isinstance(r, Buf) else None
            if isinstance(r, CObj) or rs is None or not isinstance(outp, CObj) or r.kind != ("array" if dec and depth is None else "bytes"):
                return replay("result")
            olen = need if dec else size
            c = z3.Or(zi(r.size()) != olen, z3.And(i >= 0, i < olen, r.at(i) != outp.src(i)))
            if X.ask(c) is not None:
                return replay("result", c)
    except Bad as x:
        return replay(str(x))
    if not oks:
        return replay("no success")
    return None


class Bad(Exception):
    pass


def concrete(work, rdir, c, why):
    from .lin import HARN
    so = os.path.join(work, "r29.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-w", "-o", so, os.path.join(HARN, "r29_lib.c")], check=True)
    os.makedirs(rdir, exist_ok=True)
    lg = os.path.join(rdir, "calls.txt")
    open(lg, "w").close()
    open(os.path.join(rdir, "input.json"), "w").write(json.dumps(c))
    env = dict(os.environ, R29_LOG=lg, R29_FS=str(c["fs"]), R29_RES=",".join(map(str, c["res"])), PYTHONMALLOC="malloc", MALLOC_PERTURB_="165", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, os.path.join(HARN, "r29_run.py"), MOD, so], input=json.dumps(c), capture_output=True, text=True, env=env, timeout=60)
    open(os.path.join(rdir, "output.txt"), "w").write(r.stdout + r.stderr)
    open(os.path.join(rdir, "README"), "w").write(why + "\ninput.json on the standard input of harness/r29_run.py <python/lc3.py> <library built from harness/r29_lib.c>\n")
    n, fm, el = c["n"], *FMT[c["depth"]]
    data, fs = bytes(c["data"]), c["fs"]
    need = n * fs * el
    block = len(data) if c["dec"] else c["bytes"]
    aligned = c["dec"] or c["depth"] is not None or len(data) % 4 == 0
    want, calls, pos, fail = [], [], 0, False
    buffer = data[:need] + bytes(max(need - len(data), 0))
    outp = bytearray(need if c["dec"] else block)
    for k in range(n):
        if fail:
            break
        p = block // n + (k < block % n)
        if c["dec"]:
            calls.append("code %d %d %d %d %s" % (k, fm, n, p, data[pos:pos + p].hex()))
            for s in range(fs):
                outp[(s * n + k) * el:(s * n + k + 1) * el] = bytes([k + 1]) * el
        else:
            calls.append("code %d %d %d %d %s" % (k, fm, n, p, b"".join(buffer[(s * n + k) * el:(s * n + k + 1) * el] for s in range(fs)).hex()))
            outp[pos:pos + p] = bytes([k + 1]) * p
        pos += p
        fail = c["res"][k] < 0
    bad = None
    if r.returncode < 0:
        bad = "crash"
    elif r.returncode:
        raise RuntimeError(r.stderr[-500:])
    else:
        o = json.loads(r.stdout)
        got = [x.rstrip() for x in open(lg).read().split("\n") if x.startswith("code")]
        if not aligned:
            bad = None if "exception" in o else "no exception"
        elif fail:
            bad = None if "BaseError" in o.get("exception", []) else "failure not reported"
        elif "exception" in o:
            bad = o["text"]
        elif [x.rstrip() for x in calls] != got:
            bad = "calls"
        elif bytes(o["result"]) != bytes(outp) or o["type"] != ("array" if c["dec"] and c["depth"] is None else "bytes"):
            bad = "result"
    if bad:
        return dict(status="violation", violations=[dict(property="python", desc="%s (%s)" % (why, bad), replay=rdir, sig="python")])
    return dict(status="unreproduced", violations=[], note=why, unreproduced=[(why, "")])
