"""C27: WAVE headers, from LLVM IR, on a file model."""
import os, struct, subprocess
import z3
from . import ir, sym
from .ir import Err, Unsupported, UNDEF, REPO, HARN
from .lin import result, violation, no_repro, run_replay
from .sym import BV, bv, simp


def build(work, harness, srcs):
    exe = os.path.join(work, harness.replace(".c", "") + ".san")
    r = subprocess.run(["gcc", "-O1", "-g", "-std=gnu11", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I" + REPO + "/include", "-I" + REPO + "/tools",
                        "-o", exe, os.path.join(HARN, harness)] + [os.path.join(REPO, s) for s in srcs] + ["-lm"], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-1500:])
    return exe


class Dead(Exception):
    """path that is not feasible after all"""


class VFile:
    """File of symbolic contents: regions (start, [bytes]), the rest by fill();
    length None: longer than anything read."""
    def __init__(self, E, regions=(), fill=None, length=None):
        self.E, self.regions, self.fill, self.length = E, list(regions), fill, length
        self.pos, self.eof, self.err = 0, 0, None
        self.written = {}
        for f in ("fread", "fwrite", "fseek", "ftell", "feof", "ferror", "rewind"):
            E.ext[f] = getattr(self, f)
        E.fns.clear()

    @staticmethod
    def w64(x):
        return z3.BitVecVal(x, 64) if type(x) is int else x.t if x.w == 64 else z3.SignExt(64 - x.w, x.t)

    def locate(self, n):
        p = self.w64(self.pos)
        for start, data in self.regions:
            d = z3.simplify(p - start)
            if z3.is_bv_value(d):
                d = d.as_signed_long()
                if 0 <= d and d + n <= len(data):
                    return data[d:d + n]
        for start, data in self.regions:
            for d in (0, 8):
                if d + n <= len(data) and sym.ask(p != start + d) is None:
                    self.pos = simp(start + d, 64)
                    return data[d:d + n]
        return None

    def fread(self, E, ptr, size, n, fp):
        if type(size) is not int or type(n) is not int:
            raise Unsupported("size of a read")
        all_ = size * n
        if not all_:
            return 0
        if self.length is not None:
            short = simp(z3.If(self.w64(self.pos) + all_ > self.length, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 8)
            if (short if type(short) is int else E.decide(short.t == 1)):
                self.eof = 1
                if n != 1:
                    raise Unsupported("partial read")
                self.pos = simp(self.length, 64)
                return 0
        data = self.locate(all_) if self.regions else None
        if data is None:
            if self.fill is None:
                e = Err("position", "read of %d bytes at an unexpected place" % all_)
                p = self.w64(self.pos)
                e.cond = z3.And(*[p != s for s, d in self.regions])
                raise e
            data = self.fill(self.pos, all_)
        E.check(ptr, all_, "fread")
        for k, b in enumerate(data):
            E.store((ptr[0], ptr[1] + k), b, 1, "i")
        self.pos = simp(self.w64(self.pos) + all_, 64)
        return n

    def fwrite(self, E, ptr, size, n, fp):
        all_ = size * n
        if all_:
            E.check(ptr, all_, "fwrite")
        for k in range(all_):
            v = E.load((ptr[0], ptr[1] + k), 1, "i")
            if v is UNDEF:
                raise Err("undef", "uninitialised byte written")
            self.written[self.pos + k] = v
        self.pos += all_
        return n

    def fseek(self, E, fp, off, whence):
        if whence == 2:
            raise Unsupported("SEEK_END")
        p = simp(self.w64(off) + (self.w64(self.pos) if whence == 1 else 0), 64)
        neg = simp(z3.If(self.w64(p) < 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 8)
        if (neg if type(neg) is int else E.decide(neg.t == 1)):
            return -1
        self.pos, self.eof = p, 0
        return 0

    def rewind(self, E, fp):
        self.pos = self.eof = 0

    def ftell(self, E, fp):
        return self.pos

    def feof(self, E, fp):
        return self.eof

    def ferror(self, E, fp):
        return 0


def b8(v, n):
    """little-endian bytes of an int or a term"""
    if type(v) is int:
        return [x - 256 if x > 127 else x for x in (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")]
    return [simp(z3.Extract(8 * k + 7, 8 * k, v), 8) for k in range(n)]


def setup(work):
    p = ir.compile_ll(work, [os.path.join(REPO, "tools", "wave.c")], flags=["-I" + REPO + "/tools", "-fsanitize=signed-integer-overflow,shift", "-fsanitize-trap=all"])
    return sym.use(ir.Exec(p))


NAMES = ["bit depth", "sample size", "sample rate", "channels", "frames"]


def read(E):
    o = [E.alloc("out%d" % k, 4) for k in range(5)]
    for x in o:
        E.put_i(x, [-1])
    r = E.call("@wave_read_header", ir.NULL, *o)
    return r, [E.load(x, 4, "i") for x in o]


def differs(E, a, b, w=32):
    """model where two integers differ, or None"""
    if a is UNDEF:
        return sym.ask()
    return sym.ask(bv(a, w) != bv(b, w) if not z3.is_expr(b) else bv(a, w) != b)


RIFF, WAVE, FMT, DATA = 0x46464952, 0x45564157, 0x20746d66, 0x61746164


def formed(work, rdir, fmtsize, nx):
    """a well formed file"""
    E = setup(work)
    V = lambda n, w: z3.BitVec(n, w)
    ch, fsz, bits, rate, dsize, tag = V("ch", 16), V("fsz", 16), V("bits", 16), V("rate", 32), V("dsize", 32), V("tag", 16)
    xs, xid, junk = [V("xs%d" % k, 32) for k in range(nx)], [V("xid%d" % k, 32) for k in range(nx)], V("junk", 32)
    z = lambda t, w=64: z3.ZeroExt(w - t.size(), t)
    byr = rate * z(fsz, 32)
    f = b8(FMT, 4) + b8(fmtsize, 4) + b8(tag, 2) + b8(ch, 2) + b8(rate, 4) + b8(byr, 4) + b8(fsz, 2) + b8(bits, 2)
    if fmtsize > 16:
        f += b8(fmtsize - 18, 2)
        f += [simp(V("e%d" % k, 8), 8) for k in range(fmtsize - 18)]
    regions = [(z3.BitVecVal(0, 64), b8(RIFF, 4) + b8(V("fs", 32), 4) + b8(WAVE, 4) + f)]
    at = z3.BitVecVal(20 + fmtsize, 64)
    for k in range(nx):
        regions.append((at, b8(xid[k], 4) + b8(xs[k], 4)))
        at = at + 8 + z(xs[k]) + z(xs[k] & 1)
    regions.append((at, b8(DATA, 4) + b8(dsize, 4)))
    E.base = [z3.UGE(ch, 1), z3.ULE(ch, 8), z3.UGE(fsz, ch), z3.ULE(fsz, 32), z3.UGE(rate, 1), z3.ULE(rate, 192000), z3.UGE(bits, 8), z3.ULE(bits, 32),
              tag == 1 if fmtsize < 40 else z3.Or(tag == 1, tag == 0xfffe), z3.ULT(dsize, 0x80000000), z3.URem(fsz, ch) == 0, z3.URem(dsize, z(fsz, 32)) == 0] + [i != DATA for i in xid]

    def replay(why, *cs):
        m = sym.ask(*cs, *[z3.ULE(x, 4095) for x in xs], z3.ULE(dsize, 4096)) or sym.ask(*cs)
        if m is None:
            return no_repro(E, None, why)
        v = lambda t: m.eval(t, model_completion=True).as_long()
        by = lambda l: bytes((b if type(b) is int else v(b.t)) & 255 for b in l)
        os.makedirs(rdir, exist_ok=True)
        fn = os.path.join(work, "f.wav")
        with open(fn, "wb") as o:
            for s, d in regions:
                o.seek(v(s))
                o.write(by(d))
            o.seek(v(at) + 8 + v(dsize))
            o.truncate()
        open(os.path.join(rdir, "header.txt"), "w").write(str(m))
        rc, out, se = run_replay(build(work, "r27_wave.c", ["tools/wave.c"]), "r %s\n" % fn, rdir, why)
        want = [0, v(bits), v(fsz) // v(ch), v(rate), v(ch), v(dsize) // v(fsz), v(at) + 8]
        os.unlink(fn)
        if rc or [int(x) for x in out[1:]] != want:
            return violation(E, None, rdir, "wave", why + " (got %s, expected %s)" % (out[1:], want))
        return no_repro(E, None, why)

    def driver():
        E.file = VFile(E, regions)
        return read(E)

    try:
        for r, o in E.paths(driver):
            if r != 0:
                return replay("well formed file rejected")
            for got, want, n in zip(o, [z(bits, 32), z3.UDiv(z(fsz, 32), z(ch, 32)), rate, z(ch, 32), z3.UDiv(dsize, z(fsz, 32))], NAMES):
                if type(got) is BV and z3.eq(z3.simplify(got.t), z3.simplify(want)):
                    E.queries += 1
                    continue
                m = differs(E, got, want)
                if m is not None:
                    return replay(n, bv(got, 32) != want)
            m = sym.ask(VFile.w64(E.file.pos) != at + 8)
            if m is not None:
                return replay("position of the first sample", VFile.w64(E.file.pos) != at + 8)
    except Err as x:
        return replay(str(x), *([x.cond] if hasattr(x, "cond") else []))
    return result(E)


def any_file(work, rdir, chunks):
    """any contents of up to 44 + 8 * chunks bytes (the format chunk being large enough when chunks > 0)"""
    E = setup(work)
    n = 44 + 8 * chunks
    B = [z3.BitVec("b%d" % k, 8) for k in range(n)]
    L = z3.BitVec("len", 64)
    E.base = [L >= 0, L <= n, B[33] == 0, z3.ULT(B[32], 16)] + ([z3.UGE(z3.Concat(*B[19:15:-1]), 16)] if chunks > 0 else [])
    u = lambda p, k: z3.ZeroExt(32 - 8 * k, z3.Concat(*[B[p + i] for i in reversed(range(k))])) if k < 4 else z3.Concat(*[B[p + i] for i in reversed(range(k))])

    memo = {}

    def fill(pos, size):
        p = pos
        if type(p) is not int and sym.ask(p.t < 36) is None:
            # behind the format: nothing read yet is there
            E.nfresh += 1
            E.fresh.append((p.t, [z3.BitVec("f%d_%d" % (E.nfresh, k), 8) for k in range(size)]))
            return [simp(t, 8) for t in E.fresh[-1][1]]
        while type(p) is not int:
            at = tuple(d for d, _ in E.path[:E.pos])       # the same choice when the path is run again
            if at not in memo:
                m = sym.ask()
                if m is None:
                    raise Dead()
                memo[at] = m.eval(p.t, model_completion=True).as_signed_long()
            k = memo[at]
            if E.decide(p.t == k):
                p = k
        E.file.pos = p
        return [simp(B[p + k], 8) if p + k < n else 0 for k in range(size)]

    ok = z3.And(L >= 36, u(0, 4) == RIFF, u(8, 4) == WAVE, u(12, 4) == FMT, z3.Or(u(20, 2) == 1, u(20, 2) == 0xfffe), u(22, 2) != 0, u(24, 4) != 0,
                u(32, 2) != 0, u(28, 4) == u(24, 4) * u(32, 2))

    def replay(why, *cs):
        m = sym.ask(*cs)
        if m is None:
            return no_repro(E, None, why)
        v = lambda t: m.eval(t, model_completion=True).as_long()
        os.makedirs(rdir, exist_ok=True)
        fn = os.path.join(rdir, "file.wav")
        data = bytearray(v(b) for b in B)
        for p, t in E.fresh:
            data[v(p):v(p) + len(t)] = bytes(v(x) for x in t)
        data = bytes(data)[:v(L)]
        open(fn, "wb").write(data)
        rc, out, se = run_replay(build(work, "r27_wave.c", ["tools/wave.c"]), "r %s\n" % fn, rdir, why)
        if rc:
            return violation(E, None, rdir, "wave", why + se[-200:])
        o = [int(x) for x in out[1:]]
        if o[0] == 0:
            if not z3.is_true(m.eval(ok, model_completion=True)):
                return violation(E, None, rdir, "wave", why)
            h = struct.unpack("<HHIIHH", data[20:36])
            if o[1:5] != [h[5], h[4] // h[1], h[2], h[1]] or o[6] > len(data) or o[6] < 44:
                return violation(E, None, rdir, "wave", why)
        return no_repro(E, None, why)

    def driver():
        E.file, E.fresh, E.nfresh = VFile(E, fill=fill, length=L), [], 0
        try:
            return read(E)
        except (Dead, ir.Infeasible):
            return -1, None

    good = bad = 0
    try:
        for r, o in E.paths(driver):
            if type(r) is not int or r not in (0, -1):
                return replay("result")
            if r:
                bad += 1
                continue
            good += 1
            if sym.ask(z3.Not(ok)) is not None:
                return replay("unsupported file accepted", z3.Not(ok))
            for got, want, nm in zip(o[:4], [u(34, 2), z3.UDiv(u(32, 2), u(22, 2)), u(24, 4), u(22, 2)], NAMES):
                if type(got) is BV and z3.eq(z3.simplify(got.t), z3.simplify(want)):
                    E.queries += 1
                    continue
                if differs(E, got, want) is not None:
                    return replay(nm, bv(got, 32) != want)
            if sym.ask(VFile.w64(E.file.pos) > L) is not None:
                return replay("position", VFile.w64(E.file.pos) > L)
    except Err as x:
        return replay(str(x))
    r = result(E)
    r["paths"] = good + bad
    if not good or not bad:
        r["status"] = "vacuous"
    return r


def round_trip(work, rdir, ch, ss):
    E = setup(work)
    bits, rate, n = (z3.BitVec(k, 32) for k in ("bits", "rate", "frames"))
    E.base = [z3.Or(bits == 16, bits == 24), bits <= 8 * ss, rate >= 1, rate <= 384000, n >= 0, z3.ULE(z3.ZeroExt(32, n) * (ch * ss), z3.BitVecVal(0xffffffff - 36, 64))]

    def replay(why, *cs):
        m = sym.ask(*cs)
        if m is None:
            return no_repro(E, None, why)
        v = lambda t: m.eval(t, model_completion=True).as_long()
        fn = os.path.join(work, "w.wav")
        a = [v(bits), ss, v(rate), ch, v(n)]
        rc, out, se = run_replay(build(work, "r27_wave.c", ["tools/wave.c"]), "w %s %s\n" % (fn, " ".join(map(str, a))), rdir, why)
        if rc:
            return violation(E, None, rdir, "wave", why + ": " + se[-200:])
        k = out.index("R")
        size = ch * ss * v(n)
        want = struct.pack("<IIIIIHHIIHHII", RIFF, size + 36, WAVE, FMT, 16, 1, ch, v(rate), v(rate) * ch * ss, ch * ss, v(bits), DATA, size)
        if out[0] != "44" or bytes(int(x) for x in out[1:k]) != want or [int(x) for x in out[k + 1:]] != [0] + a + [44]:
            return violation(E, None, rdir, "wave", why)
        return no_repro(E, None, why)

    def driver():
        E.file = VFile(E)
        E.call("@wave_write_header", ir.NULL, simp(bits, 32), ss, simp(rate, 32), ch, simp(n, 32))
        w = E.file.written
        if sorted(w) != list(range(44)):
            raise Err("size", "header of %d bytes" % len(w))
        E.file = VFile(E, [(z3.BitVecVal(0, 64), [w[k] for k in range(44)])])
        return w, read(E)

    try:
        for w, (r, o) in E.paths(driver):
            want = b8(RIFF, 4) + b8(n * (ch * ss) + 36, 4) + b8(WAVE, 4) + b8(FMT, 4) + b8(16, 4) + b8(1, 2) + b8(ch, 2) + b8(rate, 4) + b8(rate * (ch * ss), 4) + \
                b8(ch * ss, 2) + b8(z3.Extract(15, 0, bits), 2) + b8(DATA, 4) + b8(n * (ch * ss), 4)
            c = z3.Or(*[bv(w[k], 8) != bv(want[k], 8) for k in range(44)])
            if sym.ask(c) is not None:
                return replay("header written", c)
            if r != 0:
                return replay("own header rejected")
            for got, x, nm in zip(o, [bits, z3.BitVecVal(ss, 32), rate, z3.BitVecVal(ch, 32), n], NAMES):
                if differs(E, got, x) is not None:
                    return replay(nm, bv(got, 32) != x)
            if E.file.pos != 44:
                return replay("position")
    except Err as x:
        m = getattr(x, "model", None)
        return replay(str(x), *([bits == m.eval(bits, model_completion=True), rate == m.eval(rate, model_completion=True), n == m.eval(n, model_completion=True)] if m else []))
    return result(E)
