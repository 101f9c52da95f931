"""The registry: property -> jobs, and what is said about them in the evidence."""
from .core import Job, PyJob, ALLSRC

CHECKS = {}
DT = [2500, 5000, 7500, 10000]
SR = [8000, 16000, 24000, 32000, 48000]
CONFIGS = [(0, d, s) for d in DT for s in SR] + [(1, d, s) for d in (2500, 5000, 10000) for s in (48000, 96000)]
DTN = {2500: "LC3_DT_2M5", 5000: "LC3_DT_5M", 7500: "LC3_DT_7M5", 10000: "LC3_DT_10M"}


def srn(hr, s):
    return "LC3_SRATE_%dK%s" % (s // 1000, "_HR" if hr else "")


def cname(hr, d, s):
    return "%g%s%g%s" % (d / 1000., "ms_", s / 1000, "k_hr" if hr else "k")


def check(prop, explanation, assumptions=(), outside=""):
    def deco(fn):
        CHECKS[prop] = {"jobs": fn, "explanation": explanation, "assumptions": list(assumptions), "outside": outside}
        return fn
    return deco


LIB = ALLSRC
API = ["lc3", "tables"]


@check("C01", "CBMC decides the size functions against the documented configuration table, for all 32-bit "
       "durations and rates and both flag values; no loops, no bounds.")
def c01():
    return [Job("params", "c01_params.c", API, bounds="all int durations, rates, flags")]


@check("C02", "CBMC decides the conversions against their exact definition in 64-bit arithmetic, for all 32-bit "
       "bitrates, sizes and channel counts; one job per configuration.")
def c02():
    j = [Job("unsupported", "c02_reject.c", API, bounds="all ints")]
    for hr, d, s in CONFIGS:
        if not hr and s not in (8000, 48000):
            continue
        for part in (0, 1, 2):
            j.append(Job("p%d_%s" % (part, cname(hr, d, s)), "c02_bitrate.c", API,
                         {"HR": hr, "DT_US": d, "SR": s, "PART": part},
                         bounds="all int bitrates / sizes / channel counts"))
    return j


C03Q = ((0, 2500, 48000), (0, 5000, 16000), (0, 7500, 24000), (0, 10000, 32000), (1, 2500, 96000), (1, 5000, 48000))


@check("C03", "CBMC runs setup symbolically: all rejected parameters, and for each configuration arbitrary previous "
       "memory contents with symbolic guard positions.")
def c03():
    j = []
    for dec in (0, 1):
        j.append(Job("reject_%s" % ("dec" if dec else "enc"), "c03_setup.c", API + ["plc"], {"REJECT": 1, "DEC": dec},
                     unwind=20, bounds="all ints"))
    for hr, d, s in CONFIGS:
        j.append(Job("memt_" + cname(hr, d, s), "c03_memt.c", API + ["plc"], {"HR": hr, "US": d, "PCM": s, "SRID": srn(hr, s), "DTID": DTN[d]}, unwind=2,
                     bounds="all codec rates"))
        for dec, cs in [(k, s) for k in (0, 1)] + [(k, c) for k in (0, 1) for c in ((48000,) if hr else SR[:-1]) if c < s and (hr or d == 7500 and s == 24000 or d == 2500 and c == 8000)]:
            j.append(Job("setup_%s_%s" % ("dec" if dec else "enc", cname(hr, d, s) + ("" if cs == s else "_from_%gk" % (cs / 1000.))), "c03_setup.c", API + ["plc"],
                         {"DEC": dec, "HR": hr, "US": d, "PCM": s, "SR": cs, "SRID": srn(hr, cs), "PCMID": srn(hr, s), "DTID": DTN[d]},
                         unwind=2, tier="quick" if cs == s and (hr, d, s) in C03Q or cs != s and (hr, d, s) in ((0, 7500, 24000), (0, 2500, 48000), (1, 2500, 96000)) else "thorough",
                         bounds="memory of exactly the advertised size, arbitrary contents"))
    return j


BITS = ["bits"]
# loops of the harness, and of the code: carry chains <= 5, flush <= 4 bytes per accumulator, range bits <= 24
BU = dict(unwind=7, unwindset=["vp_bytes.0:40", "guards.0:10", "any_model.0:18", "ac_get_range_bits.0:26"] +
          ["main.%d:34" % i for i in range(6)])


@check("C05", "One writer operation from every context consistent with its buffer (inductive step), plus sequences "
       "from setup, decided by CBMC with guard bytes around the frame and pointer checks.",
       ["frame of 1, 4 and 7 bytes in the inductive step (the pointers are symbolic inside it)", "at most 3 pending carry bytes",
        "any well formed probability model"])
def c05():
    j = []
    for ln in (1, 4, 7):
        for op, n in ((0, "bits"), (1, "bit"), (2, "symbol"), (3, "flush")):
            j.append(Job("%s_%d" % (n, ln), "c05_writer.c", BITS, {"OP": op, "LEN": ln}, **BU,
                         bounds="frame of %d bytes, <= 3 pending carries" % ln))
    j.append(Job("seq", "c05_writer.c", BITS, {"SEQ": 4, "LEN": 6}, **BU, bounds="4 fields then flush, 6 bytes"))
    return j


@check("C07", "One reader operation from every context consistent with its frame (inductive step), plus sequences from "
       "setup compared with a bit-by-bit reference, decided by CBMC on arbitrary bytes.",
       ["frames of 3, 4 and 7 bytes in the inductive step", "any well formed probability model"])
def c07():
    j = []
    for ln in (3, 7):
        for op, n in ((0, "bits"), (1, "bit")):
            j.append(Job("%s_%d" % (n, ln), "c07_reader.c", BITS, {"OP": op, "LEN": ln}, **BU,
                         bounds="frame of %d bytes" % ln))
    j.append(Job("symbol", "c07_reader.c", BITS + ["tables"], {"OP": 2, "LEN": 9}, **BU,
                 bounds="frame of 9 bytes, any intervals (even inconsistent)"))
    for ln in (1, 3, 8):
        j.append(Job("seq_%d" % ln, "c07_reader.c", BITS, {"SEQ": 3, "LEN": ln}, **BU,
                     bounds="setup then 3 fields of 1 to 25 bits, %d bytes" % ln))
    return j


@check("C06", "CBMC decides three step lemmas of the range coder from every consistent context (a symbol narrows the "
       "interval exactly, the termination selects a value of the last interval and keeps the raw fields, the reader finds the "
       "symbol of its position and keeps the same interval), which compose to sequences of any length; and bounded end to end "
       "round trips from setup.",
       ["<= 2 pending carry bytes in the step lemmas", "reader lemma: range >> 10 fixed to representative values, any model",
        "end to end: <= 3 fields, <= 4 mixed operations with power-of-two intervals"])
def c06():
    u = dict(BU); u["unwindset"] = BU["unwindset"] + ["value.0:6", "be.0:9", "any_interval.0:18"]
    j = [Job("terminate", "c06_entropy.c", BITS, {"PART": 0, "CC": 2}, **u, bounds="10 bytes, <= 2 pending carries"),
         Job("narrow", "c06_entropy.c", BITS, {"PART": 1, "CC": 2}, **u, bounds="any context, any interval")]
    for r in (64, 1024, 5120, 8192, 12288):
        j.append(Job("read_%d" % r, "c06_entropy.c", BITS, {"PART": 2, "CC": 2, "RANGE": r}, **u,
                     bounds="range>>10 = %d, any model, any position" % r))
    j.append(Job("fields", "c06_entropy.c", BITS, {"PART": 3, "CC": 2, "N": 3}, **u, bounds="3 fields of 1 to 25 bits, 10 bytes"))
    for n, pat in (("sss", 7), ("sbsb", 5), ("bssb", 6)):
        j.append(Job("mix_" + n, "c06_entropy.c", BITS, {"PART": 4, "CC": 2, "N": len(n), "PATTERN": pat, "LEN": 8}, **u,
                     bounds="4 operations, 8 bytes"))
    return j


HRLIM = {(2500, 48000): (54 // 2, 210), (5000, 48000): (93 // 2, 375), (10000, 48000): (156 // 2, 625),
         (2500, 96000): (62 // 2, 210), (5000, 96000): (109 // 2, 375), (10000, 96000): (187 // 2, 625)}


def limits(hr, d, s):
    return HRLIM[(d, s)] if hr else (20, 400)


def cdef(hr, d, s, pcm=None, **kw):
    """Defines of a configuration: codec rate s, PCM rate pcm (the same by default)."""
    return dict({"PCM": pcm or s, "PCMID": srn(hr, pcm or s), "HR": hr, "US": d, "SR": s, "SRID": srn(hr, s), "DTID": DTN[d], "MIN_BYTES": limits(hr, d, s)[0],
                 "MAX_BYTES": limits(hr, d, s)[1]}, **kw)


def buffer_count(enc, d, s):
    """Count of floats advertised by the memory types of the configuration."""
    ns = d * s // 1000000
    nd = ns // 2 + (2000 if d == 7500 else 1250) * s // 1000000
    if enc:
        return (ns + 1250 * s // 1000000) // 2 + ns + nd
    n18 = 18000 * s // 1000000
    nh = 0 if s > 48000 else n18 + ns - n18 % ns
    return nh + ns + nd + ns


def xn(enc, d, s):
    return {"VP_XN": buffer_count(enc, d, s)}


@check("C04", "CBMC runs lc3_encode / lc3_decode on every frame size, with the processing stages replaced by stand-ins of "
       "arbitrary result: refusals have no effect, everything else is accepted.",
       ["decoder in high-resolution mode: sizes from 20 bytes to the encoder minimum are left open"])
def c04():
    j = []
    for hr, d, s in CONFIGS:
        q = "quick" if (d, s) in ((2500, 8000), (10000, 8000), (7500, 16000), (5000, 24000), (2500, 96000)) or (hr, d, s) == (1, 5000, 48000) else "thorough"
        for enc in (0, 1):
            n = "%s_%s" % ("enc" if enc else "dec", cname(hr, d, s))
            j.append(Job("refuse_" + n, "c04_api.c", API, cdef(hr, d, s, ENC=enc, REFUSE=1, **({} if (d, s) == (2500, 8000) else {"FMT": (d // 2500 + enc) % 4})), tier=q, bounds="all int sizes", src_define=xn(enc, d, s)))
            for p in ((96000,) if hr and s == 48000 else (16000,) if s == 8000 else ()):
                j.append(Job("accept_%s_from_%gk" % (n, p / 1000), "c04_api.c", API, cdef(hr, d, s, p, ENC=enc, REFUSE=0, FMT=0), tier="quick" if hr or d == 2500 else "thorough", bounds="all sizes in the limits", src_define=xn(enc, d, p)))
                j.append(Job("refuse_%s_from_%gk" % (n, p / 1000), "c04_api.c", API, cdef(hr, d, s, p, ENC=enc, REFUSE=1, FMT=0), tier="quick" if d == 2500 else "thorough", bounds="all int sizes", src_define=xn(enc, d, p)))
            j.append(Job("accept_" + n, "c04_api.c", API, cdef(hr, d, s, ENC=enc, REFUSE=0, FMT=0), tier=q, bounds="all sizes in the limits", src_define=xn(enc, d, s)))
    return j


@check("C16", "CBMC runs lc3_decode with the samples left by the last synthesis stage being arbitrary finite floats, and "
       "judges every output cell against exact arithmetic in double precision.",
       ["4 positions of the frame hold arbitrary samples, the others 0 (all sizes of frames, strides 1 to 3)",
        "infinities and NaN are excluded; rounding: within half a step plus the rounding of the float addition"])
def c16():
    j = []
    for n, (hr, d, s) in enumerate(CONFIGS):
        for fmt in range(4):
            st = 1 + (n + fmt) % 3
            q = "quick" if (s in (8000,) and d in (2500, 7500)) or (hr, d, s) in ((0, 5000, 16000), (1, 2500, 48000)) and fmt != 2 or \
                ((hr, d, s) == (0, 7500, 48000) and fmt == 0) else "thorough"
            j.append(Job("fmt%d_%s_x%d" % (fmt, cname(hr, d, s), st), "c16_store.c", API, cdef(hr, d, s, FMT=fmt, STRIDE=st, NSYM=4, WHICH=0, NS=d * s // 1000000),
                         src_define=xn(0, d, s), checks=["float-overflow", "conversion"][1:], tier=q, bounds="4 arbitrary finite samples, stride %d" % st))
    for k in (0, 7, 19):
        j.append(Job("same24_%d" % k, "c16_same.c", API, {"K": k, "NS": 20}, src_define=xn(0, 2500, 8000), bounds="any finite sample"))
    return j


@check("C17", "CBMC runs two calls of lc3_encode on arbitrary samples, in exactly sized input buffers; stand-ins of the first "
       "analysis stages judge the samples and the history they are given at a symbolic index.",
       ["float input: the values of 24-bit integers (full scale included)", "strides 1 to 3"])
def c17():
    j = []
    for n, (hr, d, s) in enumerate(CONFIGS):
        for fmt in range(4):
            st = 1 + (n + fmt) % 3
            q = "quick" if (s in (8000,) and d in (2500, 7500)) or (hr, d, s) in ((0, 2500, 16000), (1, 2500, 48000)) or \
                (fmt == n % 4 and d * s <= 240000000) else "thorough"
            j.append(Job("fmt%d_%s_x%d" % (fmt, cname(hr, d, s), st), "c17_load.c", API, cdef(hr, d, s, FMT=fmt, STRIDE=st, NS=d * s // 1000000),
                         src_define=xn(1, d, s), tier=q, bounds="2 frames of arbitrary samples, stride %d" % st))
    return j


TAPE = dict(pre=["tape.h"])
TAPE_ASSUMES = "the frame is a pair of tapes, raw bits and symbols (C05 to C07 decide src/bits.[ch] itself)"


@check("C08", "CBMC decides on the codec's tables, for all model, symbol and context indices, the partition of the coder range "
       "and the cost entries against the self-information; and the real symbol search on every model and position.",
       ["cost tolerance: 1/2048 bit", "search: range >> 10 fixed to representative values"])
def c08():
    j = []
    for t, n in ((0, "spectrum"), (1, "tns_coeffs"), (2, "tns_orders")):
        j.append(Job("tables_" + n, "c08_models.c", API, {"TAB": t}, unwind=2, bounds="all models, symbols and contexts"))
        for r in (64, 1023, 5120, 16383):
            j.append(Job("search_%s_%d" % (n, r), "c08_models.c", BITS + API, {"TAB": t, "RANGE": r}, tier="quick" if r in (64, 16383) else "thorough",
                         unwind=7, unwindset=["vp_bytes.0:10"], bounds="all models, all positions, range >> 10 = %d" % r))
    return j


@check("C09", "CBMC decides the real put / get functions over recorded tapes, for all values and from arbitrary bits.",
       [TAPE_ASSUMES])
def c09():
    return [Job("roundtrip", "c09_side.c", ["bwdet", "ltpf"], {"ANY": 0}, unwind=33, bounds="all rates, bandwidths, pitch data", **TAPE),
            Job("any", "c09_side.c", ["bwdet", "ltpf"], {"ANY": 1}, unwind=33, bounds="arbitrary bits, all rates", **TAPE)]


DTI = {2500: 0, 5000: 1, 7500: 2, 10000: 3}


@check("C10", "CBMC decides the real TNS put / get / count functions over recorded tapes, for all filters and from arbitrary bits.",
       [TAPE_ASSUMES, "bit costs: table entries within 1/2048 bit (C08)"])
def c10():
    j = []
    for dt in range(4):
        for bw in range(5) if dt == 2 else range(7):
            q = "quick" if bw in (0, 3, 6) or (dt, bw) in ((2, 4), (3, 2)) else "thorough"
            for mode, n in ((0, "encoder"), (1, "roundtrip"), (2, "any")):
                for al in (0, 1) if mode == 1 and dt and bw > 2 else (0,):
                    j.append(Job("%s_dt%d_bw%d%s" % (n, dt, bw, "_all" * al), "c10_tns.c", ["U:tables+tns"],
                                 {"DTI": dt, "BW": bw, "MODE": mode, "ALL": al, "NBYTES": (20, 400)[(bw + dt) % 2]},
                                 tier="thorough" if al else q, unwind=33 if mode else None, timeout=600 if al else 200, weight=1 + mode % 2,
                                 bounds=("all sizes, silence", "all coefficients; %s pairs of orders" % ("all" if al else "9"),
                                         "all sizes, arbitrary bits")[mode], **TAPE))
    return j


@check("C11", "CBMC decides the real SNS put / get functions over recorded tapes and the enumeration of the pulse vectors.",
       [TAPE_ASSUMES])
def c11():
    j = [Job("roundtrip", "c11_code.c", ["U:tables+sns"], {"ANY": 0}, unwind=39, bounds="every parameter set", **TAPE),
         Job("any", "c11_code.c", ["U:tables+sns"], {"ANY": 1}, unwind=39, bounds="all 2^38 codes", **TAPE)]
    return j


def geometry(d, pcm):
    """Sizes of the decoder's regions, from the documentation: history (18 ms, whole frames), frame, overlap."""
    ns = d * pcm // 1000000
    n18 = 18 * pcm // 1000
    nh = 0 if pcm > 48000 else -(-n18 // ns) * ns
    nd = ns // 2 + (2000 if d == 7500 else 1250) * pcm // 1000000
    return {"NH": nh, "ND": nd}


@check("C18", "CBMC runs lc3_decode over every sequence of good, refused and missing frames up to the turn of the ring; the "
       "stand-ins of the last synthesis stages judge the positions, the overlap memory and the history they are given.",
       ["the parser's verdicts are arbitrary; the samples are marked at 3 positions of each frame"])
def c18():
    j = []
    for hr, d, s in CONFIGS:
        for pcm in [p for p in ([48000, 96000] if hr else SR) if p >= s]:
            if pcm != s and not ((hr, d, s) in ((0, 10000, 8000), (0, 7500, 16000), (0, 2500, 24000), (1, 5000, 48000))):
                continue
            g = geometry(d, pcm)
            n = (g["NH"] // (d * pcm // 1000000)) + 3
            q = "quick" if pcm == s and pcm <= 24000 or (hr, d, pcm) in ((0, 10000, 48000), (1, 10000, 48000), (1, 2500, 96000)) or pcm == 16000 else "thorough"
            j.append(Job("ring_%s_%gk" % (cname(hr, d, s), pcm / 1000), "c18_ring.c", API, cdef(hr, d, s, pcm, FRAMES=n, **g), tier=q,
                         src_define=xn(0, d, pcm), bounds="%d frames (a whole turn of the ring), any losses" % n))
    return j


@check("C30", "CBMC runs lc3_encode on two encoders over 4 frames with arbitrary analysis results, the filter being disabled on one "
       "of them before an arbitrary frame; stand-ins of the stages judge what is signalled and that every other stage is called as usual.",
       ["the results of the stages are arbitrary"])
def c30():
    j = []
    for hr, d, s in CONFIGS:
        pcm = 48000 if (hr, d, s) == (0, 10000, 16000) else 96000 if (hr, d, s) == (1, 2500, 48000) else s
        q = "quick" if d * pcm <= 80000000 or (hr, d) == (1, 2500) else "thorough"
        j.append(Job("bypass_" + cname(hr, d, s), "c30_bypass.c", API, cdef(hr, d, s, pcm), tier=q, src_define=xn(1, d, pcm),
                     bounds="4 frames, arbitrary analysis results, disabled before any of them"))
    return j


NE2M5 = {(0, 8000): 20, (0, 16000): 40, (0, 24000): 60, (0, 32000): 80, (0, 48000): 100, (1, 48000): 120, (1, 96000): 240}


@check("C12", "The functions of src/spec.c that write the side information and the spectrum, then those that read them, are executed symbolically from LLVM IR on a frame "
       "kept as a sequence of bits and symbols: any levels of 2 to 4 coefficients (with fractional parts), any count of left bits. z3 (bit vectors, floats as exact fixed point) decides "
       "each branch, that symbols and their models agree on both sides, and the reconstructed coefficients. Decoding is also executed on any bits and symbols.",
       ["the transport of bits and symbols (C05 to C07)", "the gain is 1 (index of no gain): C11 has the gains", "tables looked up with a symbolic state are unknown functions of the state"],
       "more than 4 coefficients that are not zero; levels beyond 2^15 (2^21 in high resolution) and finer than 1/8; more left bits than 6")
def c12():
    W, H = "vp.spec:pairs", "vp.spec:anybits"
    j = []
    def add(dt, sr, nbytes, lsb, nq, lims, tier="quick", left=6, weight=1, unit=3):
        j.append(PyJob("pairs_%s_%s_%d_lsb%d_nq%d_%s" % (dt, sr, nbytes, lsb, nq, "_".join(map(str, lims))), W, tier=tier, weight=weight, dt=dt, sr=sr, bw=min(sr, 4), nbytes=nbytes, lsb=lsb,
                       nq=nq, lims=lims, left=left, unit=unit, bounds="%d bytes, count %d, last levels up to %s, up to %d bits left" % (nbytes, nq, lims, left), timeout=700))
    add(0, 0, 40, 0, 2, [7, 7])
    add(0, 0, 40, 1, 2, [7, 7])
    add(0, 0, 20, 0, 2, [7, 7])
    add(0, 0, 40, 0, 14, [7, 1])
    add(0, 0, 20, 1, 14, [1, 7])
    add(0, 2, 120, 0, 50, [7, 1])
    add(2, 2, 60, 0, 2, [1, 0], left=2)
    add(0, 0, 40, 0, 2, [32767, 0], left=2)
    add(0, 0, 40, 1, 2, [0, 32767], left=3)
    add(0, 5, 240, 0, 2, [7, 0], left=3)
    add(0, 5, 240, 0, 2, [7, 7], 'thorough', left=4)
    add(0, 6, 240, 0, 2, [100000, 0], left=1)
    add(0, 0, 40, 0, 4, [1, 1, 1, 1], left=4, unit=1)
    add(0, 0, 40, 1, 4, [3, 0, 1, 3], left=4, unit=1)
    add(0, 0, 40, 0, 4, [31, 0, 1, 0], left=0, unit=0)
    add(0, 0, 40, 1, 4, [0, 31, 0, 3], left=0, unit=0)
    add(0, 0, 20, 0, 4, [0, 1, 2, 0], left=4, unit=4)
    for lsb in (0, 1):
        add(0, 0, 40, lsb, 2, [32767, 32767], "thorough")
        add(0, 0, 20, lsb, 4, [7, 3, 3, 7], "thorough")
        add(0, 1, 75, lsb, 40, [63, 63], "thorough")
    for dt, sr in [(d, s) for d in range(4) for s in range(7) if d != 2 or s < 5]:
        j.append(PyJob("header_%d_%d" % (dt, sr), H, dt=dt, sr=sr, bw=0, nbytes=40, lsb=0, nq=None, bounds="any bits"))
    for dt, sr, nb, lsb, nq in ((0, 0, 40, 0, 2), (0, 0, 40, 1, 2), (0, 5, 240, 0, 2)):
        j.append(PyJob("any_%d_%d_%d_lsb%d_nq%d" % (dt, sr, nb, lsb, nq), H, left=0 if sr == 5 else 4, dt=dt, sr=sr, bw=min(sr, 4), nbytes=nb, lsb=lsb, nq=nq, bounds="any bits and symbols"))
    return j


@check("C15", "CBMC runs lc3_decode with the real concealment over sequences of good, refused and missing frames; stand-ins provide "
       "arbitrary good spectra and judge the spectrum given to the inverse transform.",
       ["one position of the good spectrum holds one of 7 values, 5 others distinct powers of two, the others 0",
        "all histories of 4 frames; one good frame among 16 losses"])
def c15():
    j = []
    for hr, d, s in CONFIGS:
        pcm = 48000 if (hr, d, s) == (0, 2500, 16000) else 96000 if (hr, d, s) == (1, 2500, 48000) else s
        ne = NE2M5[hr, s] * d // 2500
        q = "quick" if ne <= 120 or (hr, d) == (1, 2500) else "thorough"
        if s == pcm:
            j.append(Job("step_" + cname(hr, d, s), "c15_step.c", ["plc", "tables"], cdef(hr, d, s, FRAMES=18, NE2M5=NE2M5[hr, s]), tier="quick" if ne <= 20 else "thorough", flags=["--max-field-sensitivity-array-size", "1000"], bounds="any seed, 18 frames"))
        if ne <= 120:
            j.append(Job("any_" + cname(hr, d, s), "c15_plc.c", API + ["plc"], cdef(hr, d, s, pcm, FRAMES=4, PATTERN=-1, NE2M5=NE2M5[hr, s]), tier="quick" if ne <= 40 else "thorough", src_define=xn(0, d, pcm),
                         bounds="all histories of 4 frames"))
    return j


@check("C20", "CBMC runs the attack detector on arbitrary 16-bit samples and states (overflow, range of the state), on every disabled "
       "combination, on silence from any state, and on bursts (hold time).",
       ["state energies up to the largest ones a frame produces", "overflow: the samples of 1 block at a time are arbitrary, the others 0"])
def c20():
    j = [Job("disabled", "c20_attdet.c", ["attdet", "tables"], {"MODE": 1}, bounds="all other durations and rates, all sizes, states")]
    for dt in (2, 3):
        for sr, n in ((3, "32k"), (4, "48k")):
            d = {"DTI": dt, "SRI": sr}
            j.append(Job("disabled_%d_%d" % (dt, sr), "c20_attdet.c", ["attdet", "tables"], dict(d, MODE=1), bounds="all sizes out of range, any state"))
            c = "%s_%s" % (("7.5ms", "10ms")[dt - 2], n)
            blk = 40 * (2 if sr == 3 else 3)
            for b in range(3 + (dt == 3)):
                j.append(Job("overflow_%s_%d" % (c, b), "c20_attdet.c", ["attdet", "tables"], dict(d, MODE=0, LO=b * blk, HI=6 + b * blk + blk), bounds="arbitrary samples of block %d and before, any state" % b,
                             tier="quick" if b == 0 else "thorough"))
            j.append(Job("silence_" + c, "c20_attdet.c", ["attdet", "tables"], dict(d, MODE=2), bounds="any state"))
            j.append(Job("burst_" + c, "c20_attdet.c", ["attdet", "tables"], dict(d, MODE=3), bounds="any block"))
    return j




@check("C24", "The forward and inverse transforms are executed symbolically from LLVM IR over an arbitrary signal of 3 frames: each output is a "
       "linear form over the samples, and z3 (linear real arithmetic) shows that no signal makes it differ from the delayed input.",
       ["float arithmetic taken over the reals: the rounding of the target is left out", "samples within -1 to 1, tolerance 1e-4 of full scale"])
def c24():
    j = []
    for dt in range(4):
        for sr in range(5 if dt == 2 else 7):
            j.append(PyJob("pr_dt%d_sr%d" % (dt, sr), "vp.lin:mdct", dt=dt, sr=sr, weight=sr, timeout=400, bounds="every signal, 3 frames"))
    for dt in range(4):
        for sr in range(1, 5):
            for low in range(sr):
                j.append(PyJob("low_dt%d_sr%d_%d" % (dt, sr, low), "vp.lin:mdct", dt=dt, sr=sr, low=low, weight=sr, timeout=400, step=5,
                               tier="quick" if (low + dt) % 3 == 0 else "thorough", bounds="every signal, 3 frames, one coefficient in 5"))
        if dt != 2:
            j.append(PyJob("low_dt%d_sr6_5" % dt, "vp.lin:mdct", dt=dt, sr=6, low=5, weight=6, timeout=400, step=5, bounds="every signal, 3 frames, one coefficient in 5"))
    return j


@check("C21", "The bandwidth detector is executed symbolically from LLVM IR over arbitrary band energies, in an array of exactly the bands of the "
       "configuration; z3 (linear real arithmetic) decides each branch and, on each path, the bandwidth returned.",
       ["energies from 0 to 2^40, over the reals (rounding of the sums left out)", "high energy: 20 and more"])
def c21():
    return [PyJob("dt%d_sr%d" % (dt, sr), "vp.lin:bwdet", dt=dt, sr=sr, weight=sr, bounds="every set of energies")
            for dt in range(4) for sr in range(5 if dt == 2 else 7)]


def ltpf_bytes(dt, sr):
    """a frame size for each gain (by the rate), and one that switches the filter off"""
    r = {}
    for nb in range(20, 401):
        n = nb * 8 * 4 // (1 + dt)
        n = (6 * n + 5) // 10 if dt == 0 else n - 160 if dt == 1 else n
        g = max(int(n / 80), 3 + sr) - (3 + sr)
        r.setdefault(min(g, 4), nb)
    return r


def ltpf_scen(dt, sr, pitches):
    """Pairs of frames (previous, judged) on an arbitrary history: [start position, [(nbytes, present, active, pitch)]]"""
    B = ltpf_bytes(dt, sr)
    G = [g for g in B if g < 4]
    nfr = (9 if dt == 2 else 8) // (1 + dt) + 1
    out = []
    for k, p in enumerate(pitches):
        on = (B[G[k % len(G)]], 1, 1, p)
        on2 = (B[G[(k + 1) % len(G)]], 1, 1, (p * 7 + 91) % 512 if k % 3 else p ^ 1)
        off = [(100, 0, 0, p), (B[G[0]], 1, 0, p), (B[4], 1, 1, p), (0, 0, 0, 0)][k % 4]
        for j, f in enumerate(([off, on], [on, off], [on, on], [on2, on], [off, off[:3] + (511 - p,)])):
            out.append([(k + j) % nfr, f])
    return out


@check("C32", "The long-term filter of the decoder is executed symbolically from LLVM IR over an arbitrary history and arbitrary frames: each output is "
       "a linear form over all of them, and z3 (linear real arithmetic) shows it to be the one of the definition for every signal.",
       ["float arithmetic taken over the reals", "samples within -1 to 1, tolerance 1e-6 of full scale when transparent, otherwise 1e-4",
        "the taps are those of the tables of the code"],
       "pitches and gains not listed by the jobs (all the pitches in the thorough tier)")
def c32():
    j = []
    for dt in range(4):
        for sr in range(5):
            j.append(PyJob("dt%d_sr%d" % (dt, sr), "vp.lin:ltpf", dt=dt, sr=sr, scen=ltpf_scen(dt, sr, [0, 511, 381, 438, 442, 77, 202, 303]), weight=sr,
                           bounds="8 pitches, 5 transitions, every signal"))
            for k in range(8):
                j.append(PyJob("all_dt%d_sr%d_%d" % (dt, sr, k), "vp.lin:ltpf", dt=dt, sr=sr, scen=ltpf_scen(dt, sr, range(k, 512, 8)), tier="thorough", timeout=600,
                               bounds="64 pitches, 5 transitions, every signal"))
    return j


@check("C25", "The noise shaping filters of the encoder, then those of the decoder, are executed symbolically from LLVM IR over an arbitrary spectrum, "
       "with the parameters the encoder found for the decoder: z3 (linear real arithmetic) shows that each coefficient comes back. The temporal "
       "filters alone are executed with unknown reflection coefficients, as polynomials.",
       ["float arithmetic taken over the reals", "the parameters are those found for base signals: every spectrum, not every set of parameters",
        "coefficients within -1 to 1, tolerance 1e-3 (envelope) and 1e-4 (temporal filter)"],
       "temporal filters: 14 coefficients from the start of the filters are unknown, the others zero")
def c25():
    j = []
    for dt in range(4):
        for sr in range(5 if dt == 2 else 7):
            j.append(PyJob("sns_dt%d_sr%d" % (dt, sr), "vp.lin:sns_chain", dt=dt, sr=sr, seeds=6, bounds="every spectrum, 6 sets of energies", weight=sr))
            j.append(PyJob("sns_more_dt%d_sr%d" % (dt, sr), "vp.lin:sns_chain", dt=dt, sr=sr, seeds=80, tier="thorough", bounds="every spectrum, 80 sets of energies", timeout=700))
        for bw in range(5):
            j.append(PyJob("tns_dt%d_bw%d" % (dt, bw), "vp.lin:tns_chain", dt=dt, bws=[bw], seeds=6, weight=2, bounds="every spectrum on the paths of 6 base spectra"))
            j.append(PyJob("tns_more_dt%d_bw%d" % (dt, bw), "vp.lin:tns_chain", dt=dt, bws=[bw], seeds=60, tier="thorough", bounds="every spectrum on the paths of 60 base spectra", timeout=700))
    for o in range(1, 9):
        j.append(PyJob("lattice_o%d" % o, "vp.lin:tns_lattice", dt=0, bw=0, o0=o, o1=0, weight=3, timeout=600, bounds="order %d, unknown coefficients" % o))
    for o0, o1 in [(a, b) for a in range(9) for b in range(9) if a or b]:
        j.append(PyJob("lattice_o%d_%d" % (o0, o1), "vp.lin:tns_lattice", dt=1, bw=3, o0=o0, o1=o1, weight=3, tier="quick" if (o0, o1) in ((1, 3), (3, 1), (0, 2), (2, 0), (4, 4), (5, 7), (8, 3)) else "thorough", timeout=600, bounds="two filters of orders %d, %d, unknown coefficients" % (o0, o1)))
    return j


@check("C22", "The approximations are executed symbolically from LLVM IR: the power of two and the logarithm on an operand with an unknown real part "
       "in each of the 1601 steps of 1/8 of the domain, resp. for each of the 254 exponents; z3 (nonlinear real arithmetic, one unknown) "
       "compares the polynomial reached with Taylor enclosures of the exact function. The decibels are executed on unknown bits of the square of the operand, "
       "z3 (bit vectors) compares with enclosing chords of the logarithm and with the result of the next float. CBMC decides the exact scalings on all operands.",
       ["powers and logarithms: float operations over the reals with the constants of the code, the rounding of the last operations being taken off the tolerance",
        "tolerances: 4e-7 relative (power of two, as documented), 2e-4 absolute (logarithm, documented as about 1e-4; the real maximum is 1.69e-4), 0.002 dB"],
       "operands outside the documented domains, subnormal operands of the logarithm")
def c22():
    j = [Job("ldexp", "c22_exact.c", [], {"WHICH": 0}, bounds="all finite operands, exponents -300 to 300"),
         Job("frexp", "c22_exact.c", [], {"WHICH": 1}, bounds="all normal operands"),
         PyJob("db_zero", "vp.num:db", part=-1, bounds="0")]
    for k in range(-800, 801, 100):
        j.append(PyJob("exp2_%d" % k, "vp.num:exp2", lo=k, hi=min(k + 99, 800), bounds="operands %g to %g" % (k / 8 - 1 / 16, min(k + 99, 800) / 8 + 1 / 16)))
    j.append(PyJob("log2", "vp.num:log2", lo=1, hi=254, bounds="all normal positive operands"))
    for k in range(64):
        j.append(PyJob("db_%d" % k, "vp.num:db", part=k, weight=2, tier="quick" if (k ^ k >> 1) & 1 else "thorough", bounds="squares with mantissa %d/32 and more, exponent parity %d" % (k >> 1, k & 1)))
    return j


STDIO = {f: "vf_" + f for f in ("fread", "fwrite", "fseek", "ftell", "feof", "ferror")}


@check("C26", "CBMC runs the container functions on a file of stand-in stdio functions: headers and blocks written with arbitrary parameters then read back, "
       "headers of 32 arbitrary bytes judged by the format, blocks of any size at any place of a file of any length.",
       ["the stdio functions are stand-ins: whole files, no I/O errors", "blocks of up to 64 bytes are compared byte by byte, longer ones by their place and size"],
       "the loops of the elc3 and dlc3 programs")
def c26():
    j = [Job("round_trip", "c26_bin.c", ["R:tools/lc3bin.c"], {"WHICH": 0}, src_define=STDIO, unwind=33, bounds="all parameters, 2 blocks"),
         Job("header", "c26_bin.c", ["R:tools/lc3bin.c"], {"WHICH": 1}, src_define=STDIO, unwind=33, bounds="all files of up to 32 bytes")]
    for n in (1, 2, 3, 4, 8):
        j.append(Job("block_%d" % n, "c26_bin.c", ["R:tools/lc3bin.c"], {"WHICH": 2, "NCH": n}, src_define=STDIO, unwind=33, bounds="%d channels, all sizes and places" % n))
    return j


@check("C27", "The WAVE header functions are executed symbolically from LLVM IR on a file model: headers written with arbitrary parameters then read back, well formed files "
       "with arbitrary parameters and additional chunks of any size, files of arbitrary bytes; z3 (bit vectors) decides each branch, the place of each read and the results.",
       ["the stdio functions are those of the file model: no I/O errors", "file sizes below 4 GB, chunks padded to an even size as RIFF requires"],
       "the loops of the elc3 and dlc3 programs")
def c27():
    j = [PyJob("round_trip_%d_%d" % (c, s), "vp.tools:round_trip", ch=c, ss=s, bounds="%d channels, samples of %d bytes, any rate and count below 4 GB" % (c, s))
         for c, s in ((1, 2), (2, 2), (2, 3), (2, 4), (1, 3), (6, 2))]
    for f in (16, 18, 40):
        for nx in range(4):
            j.append(PyJob("fmt%d_chunks%d" % (f, nx), "vp.tools:formed", fmtsize=f, nx=nx, bounds="format chunk of %d bytes, %d other chunks of any size" % (f, nx)))
    for n in (0, 2, 4):
        j.append(PyJob("any_%d" % n, "vp.tools:any_file", chunks=n, bounds="all files of up to %d bytes, frames of less than 16 bytes" % (44 + 8 * n)))
    return j


@check("C28", "The C++ wrapper classes are executed symbolically from LLVM IR on recording stand-ins of the C functions: construction, one operation and destruction, the rates, frame duration, block size "
       "and the result of each channel symbolic; z3 (bit vectors) decides whether a call, an argument or the result can differ from the specified one.",
       ["the C functions keep their own contracts (C01 to C11, C17)"],
       "decoding from a null pointer, which the wrapper does not document; out of memory")
def c28():
    j = []
    for dec in (0, 1):
        nm = "decode" if dec else "encode"
        for op, f in ((0, 0), (1, 0), (3, 0), (4, 0), (4, 1), (4, 2), (4, 3), (4, 7)):
            j.append(PyJob("%s_%s" % (nm, {0: "s16", 1: "s24", 3: "float", 4: "format%d" % f}[op]), "vp.cpp:wrapper", cases=[(dec, n, op, f, n & 1) for n in range(9)],
                           bounds="up to 8 channels, blocks of up to 65535 bytes, every result of each channel"))
        ops = (0, 1, 3, 4, 9) + (() if dec else (10,))
        j.append(PyJob("%s_failed_setup" % nm, "vp.cpp:wrapper", cases=[(dec, n, op, 0, n & 1, True) for op in ops for n in (1, 2, 3, 4)],
                       bounds="up to 4 channels, any of which fails to be set up"))
        ops = (5, 6, 7, 8, 9) + (() if dec else (10,))
        j.append(PyJob("%s_query" % nm, "vp.cpp:wrapper", cases=[(dec, n, op, 0, hr) for op in ops for n in (1, 3) for hr in (0, 1)], bounds="1 and 3 channels, any rates"))
    return j


@check("C29", "The Python module is executed symbolically, unmodified, on symbolic integers and on models of the ctypes, array and bytes types of symbolic size: the length of the input, the frame size, "
       "the block size and the result of each channel are symbolic; z3 (linear integers) decides each branch, and whether a call, its arguments, the bytes it is given or the result can differ from the specified ones.",
       ["the models of ctypes, array, bytes and bytearray", "the levels of float input pass the range check of the wrapper", "the C functions keep their own contracts"],
       "number of channels over 8; the release of the memory of the codecs")
def c29():
    j = []
    for old in (False, True):
        for nm, kw in (("decode_16", dict(dec=1, depth=16)), ("decode_24", dict(dec=1, depth=24)), ("decode_float", dict(dec=1, depth=None)), ("encode_16", dict(dec=0, depth=16)),
                       ("encode_24", dict(dec=0, depth=24)), ("encode_float_bytes", dict(dec=0, depth=None)), ("encode_float_list", dict(dec=0, depth=None, floats=True))):
            j.append(PyJob(nm + ("_old_library" if old else ""), "vp.pywrap:run", old=old, nmax=8 if not old else 3, bounds="1 to %d channels, frames of 1 to 960 samples, inputs of up to 40000 bytes or values, "
                           "blocks of up to 6000 bytes" % (3 if old else 8), **kw))
    return j

