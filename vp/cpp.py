"""C28: the C++ wrapper, from LLVM IR, on recording stand-ins of the C functions."""
import os, subprocess
import z3
from . import ir, sym
from .ir import Err, Unsupported, UNDEF, REPO, HARN
from .lin import result, violation, no_repro, run_replay
from .sym import BV, bv, simp

HR = os.path.join(HARN, "r28_cpp.cc")
FMT = {0: 0, 1: 1, 3: 3}
ELEM = {0: 2, 1: 4, 2: 3, 3: 4}
OPS = {0: "int16_t", 1: "int32_t", 3: "float", 4: "format", 5: "GetFrameSamples", 6: "GetFrameBytes", 7: "ResolveBitrate", 8: "GetDelaySamples", 9: "Reset", 10: "DisableLTPF"}


class Off:
    """symbolic byte offset of a pointer"""
    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        if type(o) is BV:
            o = z3.SignExt(64 - o.w, o.t) if o.w < 64 else o.t
        return Off(z3.simplify(self.t + (o.t if type(o) is Off else o)))
    __radd__ = __add__


def symgep(p, terms, off):
    t = p[1].t if type(p[1]) is Off else z3.BitVecVal(p[1], 64)
    for v, sz in terms:
        x = z3.BitVecVal(v, 64) if type(v) is int else z3.SignExt(64 - v.w, v.t) if v.w < 64 else v.t
        t = t + x * sz
    t = z3.simplify(t + off)
    return (p[0], t.as_signed_long() if z3.is_bv_value(t) else Off(t))


def t64(x):
    return z3.BitVecVal(x, 64) if type(x) is int else x.t if type(x) is Off else z3.SignExt(64 - x.w, x.t) if x.w < 64 else x.t


def setup(work):
    p = ir.compile_ll(work, [HR], flags=["-fno-exceptions", "-fno-rtti", "-std=c++17"])
    E = sym.use(ir.Exec(p))
    E.symgep = symgep
    return E


def const(t):
    return t if type(t) is int else t


def expect(dec, dt, sr, spv, n, hr, fail, op, f, size, res):
    """Expected events after the construction, and result; of ints or 32-bit terms."""
    sp = z3.If(spv == 0, sr, spv) if z3.is_expr(spv) else (spv or sr)
    if op == 5:
        return [("samples", hr, dt, sp)], 77
    if op == 6:
        return [("bytes", hr, dt, sr, n, size)], 77
    if op == 7:
        return [("rate", hr, dt, sr, size)], 77
    if op == 8:
        return [("delay", hr, dt, sp)], 77
    ok = [k for k in range(n) if k not in fail]
    if op == 9:
        return [("setup", hr, dt, sr, sp, k) for k in range(len(ok))], 0
    if op == 10:
        return [("noltpf", k) for k in range(len(ok))], 0
    fm = op if op < 4 else f
    if fail or fm not in ELEM:
        return [], -1
    ev, pos, sy = [], 0, z3.is_expr(size)
    for k in range(n):
        if sy:
            q = z3.UDiv(size, z3.BitVecVal(n, 32)) + z3.If(z3.UGT(z3.URem(size, z3.BitVecVal(n, 32)), k), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        else:
            q = size // n + (k < size % n)
        ev.append(("code", k, fm, k * ELEM[fm], n, q, pos))
        pos = pos + q
    if sy:
        r = z3.BitVecVal(0, 32)
        for x in res:
            r = z3.If(x == -1, x, z3.If(z3.And(r == 0, x == 1), x, r))
    else:
        r = -1 if -1 in res[:n] else 1 if 1 in res[:n] else 0
    return ev, r


NAME = {0: "s16", 1: "s24", 3: "f32", 4: "fmt", 5: "samples", 6: "bytes", 7: "rate", 8: "delay", 9: "reset", 10: "noltpf"}


def wrapper(work, rdir, cases):
    E = setup(work)
    for c in cases:
        r = one(E, work, rdir, *c)
        if r:
            return r
    return result(E)


def one(E, work, rdir, dec, n, op, f=0, hr=0, fails=False):
    ty = "dec" if dec else "enc"
    dt, sr, sp, size = [z3.BitVec(x, 32) for x in ("dt", "sr", "sp", "size")]
    res = [z3.BitVec("r%d" % k, 32) for k in range(n)]
    E.base = [z3.Or(x == -1, x == 0, *([x == 1] if dec else [])) for x in res] + [size >= 0, size <= 65535]
    st = dict()
    E.fns.clear()

    def memid(p):
        for k, o in enumerate(st["ok"]):
            if o is p[0] and p[1] == 0:
                return k
        raise Err("state", "pointer that is not the state of a channel")

    def new(E, nn, *a):
        if type(nn) is not int:
            raise Unsupported("symbolic size of an allocation")
        p = E.alloc("heap", nn)
        st["heap"].append(p[0])
        return p

    def free(E, p, *a):
        if p[0] is None:
            return
        if p[1] != 0 or p[0] not in st["heap"] or not p[0].live:
            raise Err("free", "invalid or double free")
        p[0].live = False

    def csize(E, *a):
        st["ev"].append(("size",) + a)
        return 64

    def csetup(E, *a):
        mem = a[4]
        if mem[0] is None:
            raise Err("state", "setup without memory")
        E.check(mem, 64, "setup")
        if st["built"]:
            st["ev"].append(("setup",) + a[:4] + (memid(mem),))
            return mem
        k = len(st["made"])
        if fails and E.decide(z3.Bool("fail%d" % k)):
            st["made"].append(a)
            st["fail"].append(k)
            return ir.NULL
        st["made"].append(a)
        if mem[0] in st["ok"]:
            raise Err("state", "two channels share a state")
        st["ok"].append(mem[0])
        return mem

    def code(E, *a):
        h, fm, pcm, stride, nb, io = a if not dec else (a[0], a[3], a[4], a[5], a[2], a[1])
        if pcm[0] is not st["pcm"] or io[0] is not st["io"]:
            raise Err("pointer", "pointer outside of the buffer")
        st["ev"].append(("code", memid(h), fm, pcm[1], stride, nb, io[1]))
        return BV(res[len([e for e in st["ev"] if e[0] == "code"]) - 1], 32) if len([e for e in st["ev"] if e[0] == "code"]) <= n else 0

    def rec(nm):
        def g(E, *a):
            st["ev"].append((nm,) + a)
            return 77
        return g

    def fatal(E, *a):
        raise Err("abort", "assertion or exception")
    E.ext.update({"_Znwm": new, "malloc": new, "free": free, "_ZdlPv": free, "_ZdlPvm": free, "_Znam": new, "_ZdaPv": free, "__assert_fail": fatal, "abort": fatal,
                  "_ZSt20__throw_length_errorPKc": fatal, "_ZSt17__throw_bad_allocv": fatal,
                  "lc3_hr_encoder_size": csize, "lc3_hr_decoder_size": csize, "lc3_hr_setup_encoder": csetup, "lc3_hr_setup_decoder": csetup,
                  "lc3_encode": code, "lc3_decode": code, "lc3_encoder_disable_ltpf": lambda E, p: st["ev"].append(("noltpf", memid(p))),
                  "lc3_hr_frame_samples": rec("samples"), "lc3_hr_frame_block_bytes": rec("bytes"), "lc3_hr_resolve_bitrate": rec("rate"), "lc3_hr_delay_samples": rec("delay")})

    def driver():
        st.update(ev=[], made=[], ok=[], fail=[], heap=[], built=False)
        c = E.call("@vp_%s_new" % ty, BV(dt, 32), BV(sr, 32), BV(sp, 32), n, hr)
        st["built"], st["sizes"] = True, st["ev"]
        st["ev"] = []
        pcm, io = E.alloc("pcm", 1 << 20), E.alloc("block", 1 << 20)
        st["pcm"], st["io"] = pcm[0], io[0]
        a = {0: 1, 1: 1, 3: 1, 4: 2, 5: 0, 6: 3, 7: 3, 8: 0, 9: 0, 10: 0}[op]
        s = BV(size, 32)
        if a == 1:
            args = (io, s, pcm) if dec else (pcm, s, io)
        elif a == 2:
            args = (io, s, f, pcm) if dec else (f, pcm, s, io)
        else:
            args = (s,) if a == 3 else ()
        r = E.call("@vp_%s_%s" % (ty, NAME[op]), c, *args)
        ev = st["ev"]
        st["ev"] = []
        E.call("@vp_%s_del" % ty, c)
        if st["ev"]:
            raise Err("calls", "calls on destruction")
        return r, ev

    def replay(why, *cs):
        m = sym.ask(*cs)
        if m is None:
            raise Unsupported("no model")
        v = lambda t: m.eval(t, model_completion=True).as_signed_long()
        a = [v(dt), v(sr), v(sp), n, hr]
        fail, rs, sz = list(st["fail"]), [v(x) for x in res], v(size)
        exe = os.path.join(work, "r28_cpp.san")
        r = subprocess.run(["g++", "-O1", "-g", "-std=c++17", "-w", "-DVP_MAIN", "-I" + REPO + "/include", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-o", exe, HR],
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(r.stderr[-1500:])
        rc, out, se = run_replay(exe, "%d %s %d %d %d %d\n%s\n" % (dec, " ".join(map(str, a)), sum(1 << k for k in fail), op, f, sz, " ".join(map(str, rs))), rdir, why)
        txt = open(os.path.join(rdir, "output.txt")).read()
        if rc or "Assertion" in txt:
            return violation(E, None, rdir, "wrapper", why + ": " + se[-200:])
        tail = txt[txt.index("new\n") + 4:].split("\n")
        ev, want = expect(dec, *a, set(fail), op, f, sz, rs)
        lines = [" ".join(map(str, e)) for e in ev]
        got = tail[:tail.index("result %d" % want)] if "result %d" % want in tail else None
        if op in (9, 10) and got is not None:
            got, lines = sorted(got), sorted(lines)
        made = [l for l in txt[:txt.index("new\n")].split("\n") if l.startswith("setup")]
        spv = a[2] or a[1]
        wm = ["setup %d %d %d %d %d" % (hr, a[0], a[1], spv, k) for k in range(n)]
        sz_ok = all(l == "size %d %d %d" % (hr, a[0], spv) for l in txt.split("\n") if l.startswith("size"))
        if got != lines or not sz_ok or (not fail and sorted(made) != sorted(wm)):
            return violation(E, None, rdir, "wrapper", why)
        return no_repro(E, None, why)

    def same(x, y):
        """condition: not the same"""
        if x is UNDEF:
            return z3.BoolVal(True)
        if type(x) is sym.Cond:
            x = simp(z3.If(x.e, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), 32)
        if type(x) is int and type(y) is int:
            return z3.BoolVal(x != y)
        yy = z3.SignExt(32, y) if z3.is_expr(y) else z3.BitVecVal(y, 64)
        return t64(x) != yy

    spe = z3.If(sp == 0, sr, sp)
    try:
        for r, ev in E.paths(driver):
            fail = set(st["fail"])
            for e in st["sizes"]:
                c = z3.Or(*[same(x, y) for x, y in zip(e, ("size", hr, dt, spe)) if type(x) is not str])
                if sym.ask(c) is not None:
                    return replay("parameters of the size", c)
            if not fail and len(st["made"]) != n:
                return replay("%d states for %d channels" % (len(st["made"]), n))
            for a in st["made"]:
                c = z3.Or(*[same(x, y) for x, y in zip(a[:4], (hr, dt, sr, spe))])
                if sym.ask(c) is not None:
                    return replay("parameters of the setup", c)
            want, wr = expect(dec, dt, sr, sp, n, hr, fail, op, f, size, res)
            if op in (9, 10):
                ev = sorted(ev, key=lambda e: e[-1])
            if [e[0] for e in ev] != [e[0] for e in want]:
                return replay("calls %s, expected %s" % ([e[0] for e in ev], [e[0] for e in want]))
            for g, w in zip(ev, want):
                c = z3.Or(*[same(x, y) for x, y in zip(g[1:], w[1:])])
                if sym.ask(c) is not None:
                    return replay("arguments of %s for channel %s" % (g[0], g[1] if g[0] == "code" else "-"), c)
            if op not in (9, 10) and sym.ask(same(r, wr)) is not None:
                return replay("result", same(r, wr))
    except Err as x:
        return replay(str(x))
