"""Configuration of every check: which harness runs with which parameters, and what that bounds."""
COMMON_ASSUMPTIONS = [
    "clang -O1 bitcode of the current sources (-msse4.1, -fwrapv, NDEBUG as in the release build) means what the g++ -O2 build does; sampled path models are replayed natively and must agree",
    "LZ4 and ZSTD are replaced by a stand-in that keeps their API contract; libstdc++ containers and strings are the real headers; stream formatting and number parsing go through a model of the engine that is exact for concrete values and treats symbolic integers as unknown decimal digits",
    "allocation succeeds up to the engine's object limit; larger requests throw std::bad_alloc",
]
PROPS = {}
SZ = dict(i8=1, u8=1, i16=2, u16=2, i32=4, u32=4, i64=8, u64=8, f32=4, f64=8)
SMALL = ["CLOUDINI_VERIF", "CLOUDINI_VERIF_POINTS_PER_CHUNK=2", "CLOUDINI_VERIF_PROBE_POINTS=1"]


def small(chunk, probe):
    return ["CLOUDINI_VERIF", f"CLOUDINI_VERIF_POINTS_PER_CHUNK={chunk}", f"CLOUDINI_VERIF_PROBE_POINTS={probe}"]


def run(name, harness, time=60, tier="both", **kw):
    params = kw.pop("params", {})
    for k in [k for k in kw if k.startswith("p_")]:
        params[k[2:]] = kw.pop(k)
    return dict(name=name, harness=harness, time=time, tier=tier, params=params, **kw)


def cfg(fields, w=1, h=1, ver=5, enc=1, comp=0, lead=0, tail=0, gap=0, **extra):
    """fields: list of 'type[:gen][:rRES]'; packed with `lead` bytes before, `gap` between and `tail` after"""
    off, fs = lead, []
    for i, f in enumerate(fields):
        t, *rest = f.split(":")
        fs.append(f"f={'abcdefgh'[i]}:{t}:{off}" + "".join(":" + x for x in rest))
        off += SZ[t] + gap
    off += tail - (gap if fields else 0)
    s = f"w={w} h={h} step={off} ver={ver} enc={enc} comp={comp} " + " ".join(f"{k}={v}" for k, v in extra.items())
    return s + (" " if extra else "") + " ".join(fs)


# ---------------------------------------------------------------------------------------------------- P01
PROPS["P01"] = dict(
    runs=[run("roundtrip", "p01", 60), run("arbitrary", "p01", 60, p_mode=1, p_max=12)],
    bounds="all 2^64 values; all byte strings of 0..12 bytes with exact buffer size",
    outside="longer buffers (decodeVarint stops after 10 bytes)")

# ---------------------------------------------------------------------------------------------------- P02
ALLI = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]
AD = ALLI[2:]   # types with V5 adaptive sections
Q = lambda c: "both" if c else "thorough"


def p02():
    R = []
    add = lambda name, c, q=False, t=60, **kw: R.append(run(name, "roundtrip", t if not isinstance(t, tuple) else {"quick": t[0], "thorough": t[1]}, Q(q), abs=1, p_cfg=c, **kw))
    for t in ALLI:
        b = SZ[t]
        for ver, enc in ((4, 1), (4, 2), (3, 1), (3, 2), (4, 0), (5, 2), (5, 0), (3, 0)):
            add(f"{t}-v{ver}e{enc}-n1", cfg([t], w=1, ver=ver, enc=enc, lead=1), b == 8 or (ver, enc) == (4, 1))
            add(f"{t}-v{ver}e{enc}-n2", cfg([t], w=2, ver=ver, enc=enc, lead=1), b < 8 and (ver, enc) in ((4, 1), (5, 2), (3, 1), (4, 0)), (60, 90))
        add(f"{t}-v4-bg", cfg([t], w=6, ver=4, lead=1, bg="K", only="3"), b == 8)
        add(f"{t}-v3-l3", cfg([t + ":l"], w=3, ver=3), False)
    for t in AD:
        b = SZ[t]
        add(f"{t}-v5-n1", cfg([t], w=1, tail=1), True)
        add(f"{t}-v5-b5", cfg([t + ":b"], w=5), True)
        add(f"{t}-v5-n2", cfg([t], w=2, tail=1), t == "u16", (60, 300))
        for g, n in (("a", 5), ("d", 4), ("n", 5), ("l", 3), ("a", 9), ("d", 7), ("n", 4)):
            add(f"{t}-v5-{g}{n}", cfg([t + ":" + g], w=n), False, (60, 300))
        # each section mode over a longer cloud with one or two symbolic points: k delta-RLE, q palette, p RLE, K delta
        for g in "kqpK":
            add(f"{t}-v5-bg{g}", cfg([t + ":l"], w=24, bg=g, only="11"), t in ("i16", "u32", "u64"), (60, 120))
            add(f"{t}-v5-bg{g}full", cfg([t], w=24, bg=g, only="11"), False, (60, 300))
            add(f"{t}-v5-bg{g}2", cfg([t + ":n"], w=20, bg=g, only="4,19"), False, (60, 200))
        for g, n in (("5", 21), ("6", 13)):  # palettes of 3 and 4 bits whose indexes end inside a byte
            add(f"{t}-v5-bg{g}", cfg([t + ":l"], w=n, bg=g, only=str(n - 1)), t in ("u16", "i64"), (60, 120))
        # runs of unrelated values: run-length encoding, in the probe and streamed behind it
        add(f"{t}-v5-bgu", cfg([t + ":l"], w=48, bg="u", only="17"), t == "u32", (60, 120))
        add(f"{t}-v5-c64p48u", cfg([t], w=66, bg="u", only="50,65"), t in ("u16", "i64", "u64"), (60, 200), defines=small(64, 48))
        add(f"{t}-v5-c64p48u2", cfg([t + ":l"], w=70, bg="u", only="47,48,63"), False, (60, 200), defines=small(64, 48))
        # the mode committed on a short probe, and chunks after the first
        for ch, pr, n in ((3, 2, 7), (2, 1, 5), (4, 2, 4)):
            for g in "kqK":
                add(f"{t}-v5-c{ch}p{pr}{g}", cfg([t + ":l"], w=n, bg=g, only="2,3" if n < 6 else "1,4"), t in ("i16", "i64") and ch == 3, (60, 200), defines=small(ch, pr))
        add(f"{t}-v5-c2p1-l4", cfg([t + ":n"], w=4), False, (60, 300), defines=small(2, 1))
        # the real chunk and probe sizes, over two chunks
        for g in "XRPKq":
            add(f"{t}-v5-real{g}", cfg([t + (":" + g if g in "XRP" else ":l")], w=32770, **({} if g in "XRP" else dict(bg=g, only="32768"))), t in ("u16", "i64") and g in "XP", (60, 120), p_probe=4096)
        add(f"{t}-v4-real", cfg([t + ":l"], w=32770, ver=4, bg="K", only="32768"), t == "u32", (60, 120))
    for i, (f, n) in enumerate(((["u8", "i16", "u32:l"], 2), (["i64:b", "u8", "u16:n"], 2), (["u16:l", "i32:l", "i8"], 2), (["u64:k", "i16:n", "u16:q"], 4))):
        for ver in (3, 4, 5):
            add(f"mix{i}-v{ver}", cfg(f, w=n, ver=ver, gap=1), i < 2 and ver >= 4, (60, 200))
    return R


PROPS["P02"] = dict(runs=p02(), bounds="""clouds of 1-2 points with every value fully symbolic (V5 64-bit: 1 point, and 2 points under the thorough tier); 3-9 points with
structured symbolic values (one shared value, two alternating, symbolic base and step, low byte, low two bits); 20-24 points and the real chunk size plus 2 points with one
or two symbolic points over patterns that make V5 choose each section mode; chunk/probe sizes 2-4 through the CLOUDINI_VERIF hook; three-field mixes with padding""",
    outside="longer fully symbolic sequences; the palette hash is abstracted to an arbitrary function first and refined on demand")

# ---------------------------------------------------------------------------------------------------- P03
def p03():
    R = []
    add = lambda name, c, q=False, t=60, **kw: R.append(run(name, "roundtrip", t if not isinstance(t, tuple) else {"quick": t[0], "thorough": t[1]}, Q(q), p_cfg=c, **kw))
    for ver in (3, 4, 5):
        for enc in (0, 2):
            add(f"f32-v{ver}e{enc}-n3", cfg(["f32"], w=3, ver=ver, enc=enc, tail=1), True)
        for enc in (0, 1, 2):
            add(f"f64-v{ver}e{enc}-n1", cfg(["f64"], w=1, ver=ver, enc=enc, lead=1), True)
            add(f"f64-v{ver}e{enc}-n2", cfg(["f64"], w=2, ver=ver, enc=enc, lead=1), True)
            add(f"f64-v{ver}e{enc}-n3", cfg(["f64"], w=3, ver=ver, enc=enc, lead=1), False, (60, 300))
            add(f"f64-v{ver}e{enc}-a6", cfg(["f64:a"], w=6, ver=ver, enc=enc), False, (60, 300))
            add(f"f64-v{ver}e{enc}-d5", cfg(["f64:d"], w=5, ver=ver, enc=enc), False, (60, 300))
            add(f"f64-v{ver}e{enc}-l3", cfg(["f64:l"], w=3, ver=ver, enc=enc), True, (60, 300))
            add(f"f64-v{ver}e{enc}-bg", cfg(["f64"], w=12, ver=ver, enc=enc, bg="K", only="6"), False, (60, 300))
        add(f"f32-v{ver}-res-lossless", cfg(["f32:r0.01", "f64:r0.01"], w=2, ver=ver, enc=2), True)
        add(f"mix-v{ver}", cfg(["f32", "f64", "u8", "f64"], w=2, ver=ver, enc=2), True)
        add(f"mix-lossy-v{ver}", cfg(["f64:l", "u16:l", "f32"], w=2, ver=ver, enc=1, gap=1), True)
        add(f"f64-v{ver}-chunks", cfg(["f64:l"], w=5, ver=ver, enc=1), True, defines=small(2, 1))
        add(f"mix-v{ver}-chunks", cfg(["f64:l", "f32"], w=5, ver=ver, enc=2), False, (60, 200), defines=small(2, 1))
        add(f"f64-v{ver}-real", cfg(["f64", "f32"], w=32770, ver=ver, enc=2, bg="K", only="32768"), ver == 4, (60, 200))
    for enc in (1, 2):
        add(f"f64-gorilla-window-{enc}", cfg(["f64:t"], w=4, ver=4, enc=enc), False, (60, 300))
        add(f"f64-gorilla-m-{enc}", cfg(["f64:m"], w=4, ver=4, enc=enc), False, (60, 300))
    return R


def p03f():
    R = []
    for name, k, q, t in (("gor32-n2", dict(codec=0, n=2), 1, 60), ("gor32-n3", dict(codec=0, n=3), 0, 200), ("gor32-low4", dict(codec=0, n=4, low=1), 0, 120), ("gor32-reset", dict(codec=0, n=4, reset=2), 1, 60),
                          ("gor64-low4", dict(codec=1, n=4, low=1), 1, 60), ("gor64-low6", dict(codec=1, n=6, low=1), 0, 300), ("gor64-reset", dict(codec=1, n=3, reset=1), 1, 60), ("gor64-low2", dict(codec=1, n=3, low=2), 0, 300),
                          ("xor32", dict(codec=2, n=4, reset=2), 1, 60), ("xor64", dict(codec=3, n=4, reset=3), 1, 60), ("gor32-off", dict(codec=0, n=3, low=1, off=4), 1, 60)):
        R.append(run("field-" + name, "p03", t, Q(q), **{"p_" + a: b for a, b in k.items()}))
    return R


PROPS["P03"] = dict(runs=p03() + p03f(), bounds="""every bit pattern of 1-3 values per chunk (FLOAT64 Gorilla: 2 values, 3 under the thorough tier); 4-6 values with symbolic low bytes; 12-point and
full-chunk (32768 points and one more chunk) clouds with one symbolic value; chunks of 2 points through the hook; mixes of float and integer fields; the field codecs alone with resets""",
    outside="longer fully symbolic sequences")


# ---------------------------------------------------------------------------------------------------- P04
def p04():
    R = []
    def B(name, c, q=True, t=40, **kw):   # the bound, one point
        R.append(run(name, "roundtrip", {"quick": t, "thorough": 5 * t}, Q(q), abs=2, p_cfg=c, **kw))
    def A(name, c, q=True, t=40, **kw):   # independence of the surroundings
        R.append(run(name, "p04", {"quick": t, "thorough": 5 * t}, Q(q), abs=2, params=dict(kw, cfg=c)))
    for ver in (3, 4, 5):
        for r in ("0.001", "0.01", "1", "0.25", "100", "0.000001", "0.3"):
            B(f"f32-r{r}-v{ver}", cfg([f"f32:r{r}"], w=1, ver=ver), ver == 5 or r == "0.01")
            B(f"f64-r{r}-v{ver}", cfg([f"f64:r{r}"], w=1, ver=ver), ver == 5 or r == "0.01")
            B(f"xy-r{r}-v{ver}", cfg([f"f32:r{r}"] * 2, w=1, ver=ver), False)
            B(f"xyz-r{r}-v{ver}", cfg([f"f32:r{r}"] * 3, w=1, ver=ver), False, 100)
            for i in range(4):
                B(f"xyzi-{i}-r{r}-v{ver}", cfg([f"f32:{'s' if k == i else 'c'}:r{r}" for k in range(4)], w=1, ver=ver), r in ("0.01", "0.001") and ver == 5)
            for i in range(3):
                B(f"xyz-{i}-r{r}-v{ver}", cfg([f"f32:{'s' if k == i else 'c'}:r{r}" for k in range(3)] + ["u8"], w=1, ver=ver, lead=1), r == "0.001" and ver == 4)
        for i, rs in enumerate((("0.01", "0.1", "0.001"), ("1", "0.01", "0.25", "0.5"), ("0.001", "0.01"))):
            for k in range(len(rs)):
                B(f"mixed{i}-{k}-v{ver}", cfg([f"f32:{'s' if j == k else 'c'}:r{x}" for j, x in enumerate(rs)], w=1, ver=ver), ver == 5)
        B(f"f32f64-v{ver}", cfg(["f32:r0.001", "f64:r0.1"], w=1, ver=ver), ver == 4)
        B(f"xyz-v{ver}-n2", cfg(["f32:r0.01", "f32:c:r0.01", "f32:c:r0.01"], w=2, ver=ver), False, 60)
        B(f"f32-v{ver}-n2", cfg(["f32:r0.01"], w=2, ver=ver), False, 60)
        B(f"f64-v{ver}-n2", cfg(["f64:r0.01"], w=2, ver=ver), False, 60)
        N = {"f32": ["f32:c:r0.01"], "f64": ["f64:c:r0.01"], "xy": ["f32:c:r0.01"] * 2, "xyz": ["f32:c:r0.01"] * 3, "xyzi": ["f32:c:r0.01"] * 3 + ["f32:c:r0.5"], "five": ["f32:c:r0.01"] * 5,
             "mix": ["f64:c:r0.01", "f32:c:r0.5"], "gap": ["f32:c:r0.01", "u8", "f32:c:r0.01"]}
        for nm, fs in N.items():
            nf = len(fs)
            for i in range(nf):
                if fs[i][0] != "f":
                    continue
                A(f"nan-{nm}-{i}-v{ver}", cfg(fs, w=2, ver=ver), (ver == 5 and nm != "five") or (nm in ("xyz", "f32", "f64") and ver == 4), 30, nan=1, clean=0 if nf < 4 else 1, point=1, target=nf + i)
                A(f"after-{nm}-{i}-v{ver}", cfg(fs, w=3, ver=ver), nf < 3 and ver == 5, 40, nan=1, clean=1, point=2, target=2 * nf + i)
                if nf in (3, 4) and nm != "gap":
                    A(f"between-{nm}-{i}-v{ver}", cfg(fs, w=3, ver=ver), ver == 5 or nm == "xyz", 40, nanpoint=1, point=2, target=2 * nf + i)
                A(f"before-{nm}-{i}-v{ver}", cfg(fs, w=2, ver=ver), ver == 5 and nm == "xyz", 30, nan=0, point=1, target=i)
        A(f"two-f32-v{ver}", cfg(["f32:r0.01"], w=2, ver=ver), False, 100, point=1)
        A(f"two-f64-v{ver}", cfg(["f64:r0.01"], w=2, ver=ver), False, 100, point=1)
        A(f"two-xyz-v{ver}", cfg(["f32:r0.01", "f32:c:r0.01", "f32:c:r0.01"], w=2, ver=ver), False, 100, point=1)
        A(f"chunks-v{ver}", cfg(["f32:c:r0.01"] * 3, w=4, ver=ver), False, 60, nan=0, point=3, target=6)
        R[-1]["defines"] = small(2, 1)
    return R


PROPS["P04"] = dict(runs=p04(), bounds="""every finite float within +-2^30 resolutions (double: +-2^51) and every NaN, one point, seven resolutions from 1e-6 to 100, versions 3-5, alone and in every lane of 2-4 field vectors with equal
and different resolutions: |decoded - original| <= resolution/2 * (1 + 2^-20) + |original| * 2^-21 (double: 2^-50), decided over the reals with rounding-error bounds (a sound over-approximation of IEEE
arithmetic) and exactly where that is too coarse; every NaN placement over 2-3 points and 1-5 fields around one arbitrary value (vectors of 3-4 fields also: values, a point with NaN in any of its fields, the value), and two arbitrary values in sequence: the value decodes bit for bit as it
does alone""", outside="other resolutions; more than two arbitrary values in one cloud; values outside the quantizer's range", budget=dict(quick=260, thorough=800))


# ---------------------------------------------------------------------------------------------------- P05
def raw(fields, w, h, step, ver, enc, comp, **extra):
    """fields: list of 'type@offset[:gen][:rRES]'"""
    fs = []
    for i, f in enumerate(fields):
        t, rest = f.split("@", 1)
        o, *more = rest.split(":")
        fs.append(f"f={'abcdefgh'[i]}:{t}:{o}" + "".join(":" + x for x in more))
    return f"w={w} h={h} step={step} ver={ver} enc={enc} comp={comp} " + "".join(f"{k}={v} " for k, v in extra.items()) + " ".join(fs)


SHAPES = {  # name: (fields, step)
    "xyzi": (["f32@0:c:r0.01", "f32@4:c:r0.01", "f32@8:c:r0.001", "f32@12:c:r0.5"], 18),
    "xyz-ring-t": (["f32@0:c:r0.01", "f32@4:c:r0.01", "f32@8:c:r0.01", "u16@16:n", "f64@18:c"], 28),
    "xy": (["f32@1:c:r0.01", "f32@5:c:r0.01", "i32@9:n"], 14),
    "x": (["f32@2:c:r0.01", "u8@0", "u8@7"], 9),
    "x5": (["f32@0:c:r0.01", "f32@4:c:r0.01", "f32@8:c:r0.01", "f32@12:c:r0.01", "f32@16:c:r0.01"], 20),
    "ints-first": (["u32@0:n", "f32@4:c:r0.01", "f32@8:c:r0.01", "f32@12:c:r0.01"], 16),
    "reorder": (["i16@6:n", "u8@1", "u32@2:n"], 9),
    "reorder-xyz": (["f32@8:c:r0.01", "f32@4:c:r0.01", "f32@0:c:r0.01"], 12),
    "gap-xyz": (["f32@0:c:r0.01", "f32@8:c:r0.01", "f32@12:c:r0.01"], 17),
    "nores-mix": (["f32@0", "f32@4:c:r0.01", "f64@8:c:r0.001", "i64@16:b"], 25),
    "nores-first": (["f32@0", "f32@4", "f32@8"], 12),
    "f64s": (["f64@0:c:r0.001", "f64@8:c", "u8@16"], 17),
    "f64-tail": (["u16@0:n", "f64@2:l", "i8@10"], 11),
    "all": (["i8@0:n", "u8@1:l", "i16@2:n", "u16@4:k", "i32@6:n", "u32@10:k", "i64@14:k", "u64@22:b"], 30),
    "two64": (["u64@8:b", "i64@0:n"], 16),
}


def p05():
    R = []
    for name, (fs, step) in SHAPES.items():
        for ver in (3, 4, 5):
            for enc in (0, 1, 2):
                for comp in (0, 1, 2):
                    q = (ver, enc, comp) in ((5, 1, 2), (4, 1, 1), (5, 1, 0)) or ((enc, comp) == (2, 1) and ver == 5) or (name in ("xyzi", "all", "nores-mix") and comp == 0)
                    dims = ((2, 1), (1, 2), (3, 1))[(ver + enc + comp) % 3]
                    R.append(run(f"{name}-v{ver}e{enc}c{comp}", "roundtrip", {"quick": 30, "thorough": 120}, Q(q), abs=1, p_cfg=raw(fs, dims[0], dims[1], step, ver, enc, comp)))
            for comp in (0, 1, 2):
                R.append(run(f"{name}-v{ver}c{comp}-chunks", "roundtrip", {"quick": 60, "thorough": 120}, Q(name in ("xyz-ring-t", "reorder") and comp == 2), abs=1,
                             p_cfg=raw(fs, 5, 1, step, ver, 1, comp, bg="K", only="0,3"), defines=small(2, 1)))
                R.append(run(f"{name}-v{ver}c{comp}-h2", "roundtrip", {"quick": 60, "thorough": 120}, Q(name == "xyzi" and comp == 1), abs=1,
                             p_cfg=raw(fs, 2, 3, step, ver, 1, comp, bg="K", only="0,5")))
    for ver in (3, 4, 5):
        for comp in (0, 1, 2):
            R.append(run(f"empty-v{ver}c{comp}", "roundtrip", 20, "both", p_cfg=raw(["u16@0", "f32@2:c:r0.01"], 0, 1, 6, ver, 1, comp)))
            R.append(run(f"empty0-v{ver}c{comp}", "roundtrip", 20, "both", p_cfg=raw(["u16@0"], 3, 0, 6, ver, 1, comp)))
            R.append(run(f"one64-v{ver}c{comp}", "roundtrip", 30, "both", abs=1, p_cfg=raw(["u64@0"], 1, 1, 8, ver, 1, comp)))
        R.append(run(f"real-v{ver}", "roundtrip", {"quick": 40, "thorough": 120}, Q(ver == 5), abs=1, p_cfg=raw(["f32@0:c:r0.01", "f32@4:c:r0.01", "f32@8:c:r0.01", "u16@12:l", "u8@14"], 16385, 2, 16, ver, 1, 1, bg="K", only="32768", pad="z")))
        for comp in (0, 1):
            R.append(run(f"misfit-one-v{ver}c{comp}", "roundtrip", 60, "both", abs=1, p_misfit=1, p_anytype=1, p_cfg=raw(["f32@0:c:r0.01"], 2, 1, 4, ver, 1, comp)))
            R.append(run(f"misfit-xyz-v{ver}c{comp}", "roundtrip", 60, "both", abs=1, p_misfit=1, p_lim=18, p_cfg=raw(["f32@0:c:r0.01", "f32@4:c:r0.01", "f32@8:c:r0.01", "u16@12"], 2, 1, 16, ver, 1, comp)))
    return R


PROPS["P05"] = dict(runs=p05(), bounds="""15 field layouts (1 to 8 fields, every type, reordered and unaligned offsets, padding, leading-float groups of 1 to 5) x versions 3-5 x encoding options x
compression options, 2-6 points, organized and unorganized, several chunks through the hook, and one run at the real chunk size; integer values and lossless floats symbolic, lossy floats concrete
(their error bound is P04); misfit runs: one field of any type or one of an XYZ+ring list at any 32-bit offset, every point_step up to 12 or 18""",
    outside="LZ4 and ZSTD are replaced by a checked stand-in with their API contract (frames that store their input); lossy float values here are concrete")


# ---------------------------------------------------------------------------------------------------- P06
def p06():
    R = []
    A = R.append
    for y in (1, 0):
        for s in (1, 2, 4, 64, 7, 8, 16, 32, 128, 256, 1024, 103, 24):
            if not y and s in (1, 2, 4, 64, 7, 1024):
                continue
            if y and s in (7, 103, 24):
                continue
            A(run(f"{'yaml' if y else 'bin'}-{s}", "p06", 60, "both", p_yaml=y, p_sym=s))
        for nf in (0, 1, 2, 3):
            A(run(f"{'yaml' if y else 'bin'}-names-nf{nf}", "p06", {"quick": 60, "thorough": 200}, Q(nf < 3), p_yaml=y, p_sym=512, p_nf=nf, p_namelen=2 if nf > 1 else 3))
        A(run(f"{'yaml' if y else 'bin'}-longname", "p06", 60, "both", p_yaml=y, p_sym=4096))
        A(run(f"{'yaml' if y else 'bin'}-nf40", "p06", 60, "both", p_yaml=y, p_nf=40))
        A(run(f"{'yaml' if y else 'bin'}-notail", "p06", 60, "both", p_yaml=y, p_sym=64, p_nf=2, p_tail=0))
    A(run("yaml-num2", "p06", {"quick": 40, "thorough": 200}, "thorough", p_yaml=1, p_sym=7 + 64))
    A(run("yaml-name5", "p06", {"quick": 40, "thorough": 300}, "thorough", p_yaml=1, p_sym=512, p_namelen=5))
    return R


PROPS["P06"] = dict(runs=p06(), bounds="""every value of width, height, point_step and offset (one at a time under YAML, together in binary), every version, option, field type and positive normal resolution,
0-3 fields (40 concrete ones) with names of 0-3 (5) symbolic characters, a name of 300, a configuration string of 3, two symbolic bytes after the header""",
    outside="several numbers of a YAML header symbolic at once beyond the listed combinations")


# ---------------------------------------------------------------------------------------------------- P07
def p07():
    R = []
    def add(name, c, q=True, t=40, **kw):
        R.append(run(name, "decode_any", {"quick": t, "thorough": 4 * t}, Q(q), abs=1, p_cfg=c, params={k: v for k, v in kw.items() if k not in ("defines",)}, **{k: v for k, v in kw.items() if k == "defines"}))
    TY = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
    for ver in (2, 3, 4, 5):
        for t in TY:
            for enc in (0, 1, 2):
                q = enc == 1 or (t[0] == "f" and enc == 2)
                w = 2
                extra = dict(framed=1 if ver > 2 else 0)
                cf = cfg([t + (":r0.01" if t == "f32" and enc == 1 else "")], w=w, ver=ver, enc=enc, tail=1)
                if ver == 5 and t in AD and enc == 1:
                    add(f"{t}-v5-modes", cf, True, lo=0, hi=6, nopal=0, **extra)
                    add(f"{t}-v5-pal", cf, True, lo=3, hi=8 if SZ[t] < 8 else 14, pal=0, **extra)
                    add(f"{t}-v5-modes-n5", cfg([t], w=5, ver=5), False, lo=0, hi=9, nopal=0, **extra)
                else:
                    add(f"{t}-v{ver}e{enc}", cf, q, lo=0, hi=5 if t == "f64" else 6, **extra)
        for fields in (["f32:r0.01"] * 3, ["f32:r0.01"] * 4):
            add(f"xyz{len(fields)}-v{ver}", cfg(fields, w=1, ver=ver), True, lo=0, hi=5, framed=1 if ver > 2 else 0)
        add(f"xyz3-v{ver}-n2", cfg(["f32:r0.01"] * 3, w=2, ver=ver), False, lo=0, hi=8, framed=1 if ver > 2 else 0)
        # header fields symbolic
        add(f"off-v{ver}", cfg(["u16", "f32:r0.01"], w=2, ver=ver), True, lo=0, hi=6, hsym=1, framed=1 if ver > 2 else 0, nopal=0)
        add(f"off3-v{ver}", cfg(["f32:r0.01"] * 3, w=1, ver=ver), True, lo=0, hi=3, hsym=1, framed=1 if ver > 2 else 0)
        add(f"type-v{ver}", cfg(["u32"], w=2, ver=ver, tail=3), True, lo=0, hi=4, hsym=2, framed=1 if ver > 2 else 0, nopal=0)
        add(f"typestep-v{ver}", cfg(["u16", "u8"], w=1, ver=ver), True, lo=0, hi=4, hsym=2 + 4, framed=1 if ver > 2 else 0, nopal=0)
        add(f"optres-v{ver}", cfg(["f32", "f64"], w=1, ver=ver), True, lo=0, hi=4, hsym=32 + 128, framed=1 if ver > 2 else 0)
        add(f"dims-v{ver}", cfg(["u8"], w=1, ver=ver), True, lo=0, hi=3, hsym=256, framed=1 if ver > 2 else 0)
        add(f"dimstep-v{ver}", cfg(["u8"], w=1, ver=ver), True, lo=0, hi=3, hsym=768, framed=1 if ver > 2 else 0)
        add(f"step-v{ver}", cfg(["u16"], w=1, ver=ver), True, lo=0, hi=4, hsym=512, framed=1 if ver > 2 else 0, nopal=0)
        add(f"nofields-v{ver}", cfg([], w=2, ver=ver, tail=2), True, lo=0, hi=6)
        add(f"raw-v{ver}", cfg(["u8"], w=2, ver=ver), True, lo=0, hi=8)
        add(f"raw2-v{ver}", cfg(["u16"], w=3, ver=ver), False, lo=0, hi=10, nopal=4)
        add(f"short-v{ver}", cfg(["u8", "u16"], w=2, ver=ver), True, lo=0, hi=5, short=1, framed=1 if ver > 2 else 0, nopal=0)
        add(f"chunks-v{ver}", cfg(["u8"], w=3, ver=ver), True, lo=0, hi=2, framed=1 if ver > 2 else 0, chunks=2, defines=small(2, 1))
        for comp in (1, 2):
            add(f"comp{comp}-v{ver}", cfg(["u8"], w=2, ver=ver, comp=comp), True, lo=0, hi=4, framed=2 if ver > 2 else 0)
            add(f"compraw{comp}-v{ver}", cfg(["u8"], w=2, ver=ver, comp=comp), True, lo=0, hi=14)
    for t in AD:
        for n in (2, 3, 5):  # whole palette sections: the entries and the packed indexes are symbolic
            for w in (2, 5):
                size = 3 + n * SZ[t] + (w * (1, 2, 3)[(2, 3, 5).index(n)] + 7) // 8
                add(f"{t}-pal{n}-w{w}", cfg([t], w=w), n == 3 and w == 2 or t == "u16", lo=size, hi=size + 1, pre=f"01{n:02x}00", framed=1)
        for nm, pre in (("rle", "0202000000" + "05" * SZ[t] + "01" + "06" * SZ[t]), ("drle", "0302000000" + "020104")):  # run lengths of every size behind a first run
            add(f"{t}-{nm}-len", cfg([t], w=3), t in ("u16", "i64"), lo=len(pre) // 2 + 10, hi=len(pre) // 2 + 11, pre=pre, framed=1)
    add("skip-pal", "w=2 h=1 step=4 ver=5 enc=1 comp=0 f=a:u16:skip f=b:u16:0", True, lo=0, hi=7, framed=1, nopal=0)
    add("versions", cfg(["u16"], w=1, tail=1), True, lo=0, hi=5, hsym=16 + 8, framed=1, nopal=0)
    add("mix-v5", cfg(["f32:r0.01", "u16", "f64"], w=1), True, lo=0, hi=6, framed=1)
    add("mix2-v5", cfg(["u8", "u32", "f32"], w=2), True, lo=0, hi=7, framed=1, nopal=0)
    return R


PROPS["P07"] = dict(runs=p07(), bounds="""payloads of 0-14 fully symbolic bytes (with and without valid chunk framing and compression frame) for one to four points, every field type, version 2-5 and
option, 3- and 4-lane float groups; symbolic offsets, types, point_step, width and height over their whole ranges, symbolic resolutions; output buffers of every smaller size; palette sizes 0-5, 9, 17,
257, 65535""", outside="payloads longer than the stated length; the internals of LZ4 and ZSTD (stand-in)")


# ---------------------------------------------------------------------------------------------------- P09
def p09():
    R = []
    def add(name, c, q=True, t=30, **kw):
        R.append(run(name, "p09", {"quick": t, "thorough": 4 * t}, Q(q), abs=1, p_cfg=c, params={k: v for k, v in kw.items() if k != "defines"}, **{k: v for k, v in kw.items() if k == "defines"}))
    TY = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
    for ver in (3, 4, 5):
        for t in TY:
            for enc in (0, 1, 2):
                q = enc == 1 or t == "f64"
                b = SZ[t]
                f = t + (":r0.01:c" if t == "f32" and enc == 1 else "")
                add(f"{t}-v{ver}e{enc}", cfg([f], w=1 if b > 2 else 2, ver=ver, enc=enc), q)
            for comp in (1, 2):
                add(f"{t}-v{ver}c{comp}", cfg([t], w=1, ver=ver, enc=2 if t[0] == "f" else 1, comp=comp), ver == 5 or b == 8, worst=1, touch=1)
            for g in "XRPK":
                for w in (4096, 32768, 49800, 65537):
                    if t in AD:
                        add(f"{t}-v{ver}{g}{w}", cfg([t + ":" + g], w=w, ver=ver, pad="z"), t in ("i16", "u32", "u64") and w in (4096, 49800) and g in "XRP" and ver == 5, probe=4096, nosink=1)
            add(f"{t}-v{ver}-small", cfg([t], w=1, ver=ver, enc=2 if t[0] == "f" else 1), ver == 5, small=1)
            add(f"{t}-v{ver}-smallsym", cfg([t], w=1, ver=ver, enc=2 if t[0] == "f" else 1, comp=2), ver == 4, small=2)
        for f in ("f32:r0.01", "f64:r0.001", "f64:r1"):
            for w in (1, 2, 33):
                for comp in (0, 1):
                    add(f"{f.replace(':', '-')}-v{ver}W{w}c{comp}", cfg([f + ":W"], w=w, ver=ver, comp=comp), w != 2 and comp == 0 or ver == 4, worst=1, touch=1)
        for k in (3, 4):
            add(f"lanes{k}-v{ver}", cfg(["f32:r0.01:W"] * k, w=9, ver=ver), ver == 5, lanes=1)
        for i, (fs, step) in enumerate(SHAPES.values()):
            for comp in (0, 1, 2):
                add(f"shape{i}-v{ver}c{comp}", raw(fs, 2, 1, step, ver, 1, comp), i % 3 == 0 and ver == 5, worst=1, touch=1)
        add(f"nohdr-v{ver}", cfg(["u16", "f32"], w=2, ver=ver, comp=2), True, header=0, worst=1, touch=1)
        add(f"empty-v{ver}", cfg(["u16", "f32"], w=0, ver=ver, comp=2), True, worst=1, touch=1)
        add(f"chunks-v{ver}", cfg(["u16:l", "u8"], w=5, ver=ver, comp=1), True, worst=1, touch=1, defines=small(2, 1))
        add(f"chunks8-v{ver}", cfg(["u64:b"], w=5, ver=ver, comp=1), True, worst=1, touch=1, defines=small(2, 1))
        for ch in (1, 3):
            add(f"chunks{ch}-v{ver}", cfg(["i64:l", "u32:l"], w=4, ver=ver, comp=2), ver == 5, worst=1, touch=1, defines=small(ch, 1))
    return R


PROPS["P09"] = dict(runs=p09(), bounds="""1-2 points with fully symbolic values per type, version and option; worst-case patterns (alternating runs, 10-byte deltas, palettes that overflow) at 4096, 32768,
49800 and 65537 points; every smaller capacity of the caller's buffer; a compressor stand-in that returns and touches its documented worst case""",
    outside="worst-case LZ4/ZSTD sizes are taken from their API contract (LZ4_compressBound, ZSTD_compressBound)")


# ---------------------------------------------------------------------------------------------------- P20
def p20():
    R = []
    add = lambda name, c, q=True, t=40, **kw: R.append(run(name, "p20", {"quick": t, "thorough": 4 * t}, Q(q), abs=1, p_cfg=c, **kw))
    TY = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
    for ver in (3, 4, 5):
        for t in TY:
            for enc in (0, 1, 2):
                f = t + (":c:r0.01" if t[0] == "f" and enc == 1 else "")
                g = f if SZ[t] < 4 or t[0] == "f" else f + ":l"
                add(f"{t}-v{ver}e{enc}", cfg([g, "u8:l"], w=2, ver=ver, enc=enc), enc == 1 or t[0] == "f")
            add(f"{t}-v{ver}-nores", cfg([t + (":c" if t[0] == "f" else ":n"), t + (":c" if t[0] == "f" else ":n")], w=3, ver=ver, enc=1), t[0] == "f")
        for i, (fs, step) in enumerate(SHAPES.values()):
            add(f"shape{i}-v{ver}", raw(fs, 2, 1, step, ver, 1, 0), ver == 5 and i < 8)
        for n in (3, 4, 5):
            add(f"xyz{n}-v{ver}", cfg(["f32:r0.01:c"] * n, w=3, ver=ver), n < 5)
        add(f"chunks-v{ver}", cfg(["u16:n", "f32:r0.01:c", "f64:c"], w=5, ver=ver), True, defines=small(2, 1))
    for t in AD:
        for g in "kqpK":
            add(f"{t}-v5-bg{g}", cfg([t + ":l", "u8:z"], w=24, bg=g, only="11"), t in ("u16", "i64"))
        # every section mode, palettes with 1 to 4 bits per index over numbers of points that fill their last byte or not, another section behind
        for g in "kqpKu056":
            for n in (9, 13, 21, 31, 45):
                add(f"{t}-v5-n{n}{g}", cfg([t + ":l", t + ":K"], w=n, bg=g, only=str(n - 2)), t in ("u16", "i64") and (n == 13 or g in "q56"))
    return R


PROPS["P20"] = dict(runs=p20(), bounds="""every non-empty subset of the fields skipped; every type, version and encoding option with 2-3 points, the 15 layouts of P05, every V5 section mode over 24 points,
several chunks""", outside="lossy float values are concrete (the marker does not depend on them)")


# ---------------------------------------------------------------------------------------------------- P08
def p08():
    R = []
    A = lambda name, q=True, t=40, **kw: R.append(run(name, "p08", {"quick": t, "thorough": 5 * t}, Q(q), params=kw))
    A("any-0-14", hi=14)
    A("magic", mode=1)
    for lo in (0, 13, 16, 20, 24, 28):
        A(f"binary-{lo}", mode=2, lo=lo, hi=lo + (3 if lo else 12))
    A("binary-32", True, 40, mode=2, lo=32, hi=35)
    A("binary-36", False, 60, mode=2, lo=36, hi=45)
    A("binary-names", False, 100, mode=2, lo=26, hi=34, shortnames=0)
    for k in range(4):
        A(f"yaml-w1-{k}", mode=3, win=1, part=k, of=4)
        A(f"yaml-w2-{k}", mode=3, win=2, part=k, of=4)
        A(f"yaml-w3-{k}", False, 100, mode=3, win=3, part=k, of=4)
        A(f"yaml-w4-{k}", False, 100, mode=3, win=4, part=k, of=4)
        A(f"yaml2-w2-{k}", False, 60, mode=3, win=2, part=k, of=4, nf=2)
    A("yaml0-w2", mode=3, win=2, nf=0)
    A("yaml-cut", mode=3, win=1, cut=1)
    A("yaml-cut3", mode=3, win=3, cut=1)
    A("yaml-tiny", mode=4, lo=0, hi=5)
    A("yaml-tiny7", False, 100, mode=4, lo=6, hi=8)
    return R


PROPS["P08"] = dict(runs=p08(), bounds="""all byte strings of 0-14 bytes; the magic and version fully symbolic over a 28-byte header; every binary header body of 0-35 (45) bytes against an independent
walk over the layout, names of at most 4 bytes (the thorough tier also up to 8) or longer than the input; YAML headers with 0-2 fields, every window of 1 or 2 (4) arbitrary bytes at every position,
cut after it without a terminator; up to 5 (8) arbitrary bytes after the first key""", outside="longer inputs; several windows at once")


# ---------------------------------------------------------------------------------------------------- P10
def p10():
    R = []
    def add(name, c, modes, q=True, t=30, qm=None, **kw):
        ps = {k: v for k, v in kw.items() if k != "defines"}
        for m in modes:
            R.append(run(f"{name}-m{m}", "p10", {"quick": t, "thorough": 5 * t}, Q(q and (qm is None or m in qm)), abs=1, params=dict(ps, mode=m, cfg=c), **{k: v for k, v in kw.items() if k == "defines"}))
    TY = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
    for ver in (3, 4, 5):
        for t in TY:
            for enc in (0, 1, 2):
                f = t + (":c:r0.01" if t == "f32" and enc == 1 else "") + (":n" if t[0] in "iu" and SZ[t] > 1 else "") + (":l" if t == "f64" else "")
                modes = [0, 1, 2, 3, 5, 6, 7, 8] + ([4] if ver < 5 else [])
                add(f"{t}-v{ver}e{enc}", cfg([f], w=2, ver=ver, enc=enc), modes + [9], enc == 1 or t[0] == "f", qm=(0, 2, 3, 4, 9))
        for i, (fs, step) in enumerate(SHAPES.values()):
            add(f"shape{i}-v{ver}", raw(fs, 2, 1, step, ver, 1, 0), [0, 1, 2, 3, 4] if ver < 5 else [0, 1, 2, 3], i in (0, 1, 6, 12, 14), qm=(0, 2, 3, 4))
        for comp in (1, 2):
            add(f"comp{comp}-v{ver}", cfg(["u8", "u16:n"], w=2, ver=ver, comp=comp), [0, 1, 5, 6, 7, 8])
            add(f"compchunks{comp}-v{ver}", cfg(["u8:l", "u16:n"], w=5, ver=ver, comp=comp), [0, 1, 6, 7, 8], comp == 2, defines=small(2, 1))
            add(f"compchunkcount{comp}-v{ver}", cfg(["u8:l", "u16:n"], w=5, ver=ver, comp=comp), [4], per=2, max=10, defines=small(2, 1))
        add(f"chunks-v{ver}", cfg(["u8:l", "u16:n"], w=5, ver=ver), [0, 1, 2, 3, 5, 6, 7, 8], defines=small(2, 1))
        add(f"chunks4-v{ver}", cfg(["u32:n", "f32:c:r0.01"], w=4, ver=ver), [0, 1, 2, 3, 7, 8], defines=small(2, 1))
        add(f"chunkcount-v{ver}", cfg(["u8:l", "u16:n"], w=5, ver=ver), [4], per=2, max=10, defines=small(2, 1))
        add(f"xyz-v{ver}", cfg(["f32:c:r0.01"] * 3, w=3, ver=ver), [0, 1, 2, 3] + ([4] if ver < 5 else []))
        add(f"xyzi-v{ver}", cfg(["f32:c:r0.01"] * 4, w=3, ver=ver), [0, 2, 3] + ([4] if ver < 5 else []))
        add(f"all-v{ver}", cfg(["f32:c:r0.01"] * 3 + ["u8:K", "i16:K", "f64:c", "f32:c"], w=3, ver=ver), [9], True)
        add(f"allchunks-v{ver}", cfg(["f32:c:r0.01", "u8:K", "u32:k"], w=5, ver=ver), [9], True, defines=small(2, 1))
    for t in AD:
        for g in "kqpK":
            add(f"{t}-v5-bg{g}", cfg([t + ":l"], w=12, bg=g, only="7"), [0, 2, 3], t in ("u16", "i64"), 30)
            add(f"{t}-v5-con{g}", cfg([t + ":" + g], w=12), [9], t in ("u16", "i64"), 30)
            add(f"{t}-v5-con{g}-2", cfg([t + ":" + g], w=12), [9], False, 30, win=2)
        add(f"{t}-v5-conu", cfg([t + ":u"], w=40), [9], t in ("u16", "i64"), 30)
        add(f"{t}-v5-cond", cfg([t + ":0"], w=40), [9], t in ("u16", "i64"), 30)
        add(f"{t}-v5-a4", cfg([t + ":a"], w=4), [0, 2, 3], t in ("i32", "u64"), 30)
    return R


PROPS["P10"] = dict(runs=p10(), bounds="""every cut position, 1-5 appended symbolic bytes after the payload, 1-2 inside each chunk, every shorter chunk, repeated and missing chunks, other widths 0-9, every smaller
output buffer; all field types, versions and options over 2-5 points with symbolic values, each V5 section mode over 12 points, compressed streams, chunks of 2 points;
any one (two) bytes of payloads of every section mode replaced by arbitrary ones, decoded into buffers with different contents""",
    outside="clouds longer than stated; damage inside a LZ4/ZSTD frame (stand-in)", budget=dict(quick=200, thorough=800))


# ---------------------------------------------------------------------------------------------------- P11
def p11():
    R = []
    def add(name, c, q=True, t=30, modes=(0, 1), qm=None, **kw):
        ps = {k: v for k, v in kw.items() if k != "defines"}
        for m in modes:
            R.append(run(f"{name}-{'ed'[m]}", "p11", {"quick": t, "thorough": 5 * t}, Q(q if qm is None else q and m in qm), abs=1, params=dict(ps, mode=m, cfg=c), **{k: v for k, v in kw.items() if k == "defines"}))
    for m, nm in ((2, "yaml-read"), (3, "yaml-written"), (4, "binary")):
        R.append(run("header-" + nm, "p11", 30, "both", p_mode=m))
    TY = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
    for ver in (2, 3, 4, 5):
        modes = (1,) if ver == 2 else (0, 1)
        for t in TY:
            b = SZ[t]
            for enc in (0, 1, 2):
                lossy = ":c:r0.01" if t[0] == "f" and enc == 1 else ""
                wide = b >= 4 and t[0] != "f" and enc
                add(f"{t}-v{ver}e{enc}", cfg([t + lossy], w=1 if wide else 2, ver=ver, enc=enc, tail=1) if t != "f64" or ver < 4 else cfg(["f64:l" if enc and not lossy else "f64" + lossy], w=3, ver=ver, enc=enc), enc == 1 or t[0] == "f", 30, modes)
                add(f"{t}-v{ver}e{enc}-n2", cfg([t + lossy], w=2, ver=ver, enc=enc), False, 60, modes)
            if t[0] == "f":
                add(f"{t}-v{ver}-nores", cfg([t + (":l" if b == 8 else "")], w=2, ver=ver, enc=1), True, 30, modes)
                add(f"{t}-v{ver}-reslossless", cfg([t + ":r0.01"], w=2, ver=ver, enc=2), True, 30, modes)
                add(f"{t}-v{ver}-c6", cfg([t + ":c:r0.001"], w=6, ver=ver, enc=1), True, 30, modes)
            else:
                add(f"{t}-v{ver}-l3", cfg([t + (":l" if b > 2 or ver < 5 else ":n")], w=3, ver=ver), ver == 4 and b > 1, 30, modes)
        add(f"f64-v{ver}-full", cfg(["f64"], w=2, ver=ver, enc=1), ver == 4, 30, modes, (1,))
        add(f"f64-v{ver}-a5", cfg(["f64:a"], w=5, ver=ver, enc=1), False, 60, modes)
        add(f"f64-v{ver}-t4", cfg(["f64:t"], w=4, ver=ver, enc=2), False, 60, modes)
        for n in (2, 3, 4, 5):
            add(f"xyz{n}-v{ver}", cfg(["f32:c:r0.01"] * n, w=5, ver=ver), True, 30, modes)
        add(f"xyz-res-v{ver}", cfg(["f32:c:r0.1", "f32:c:r0.01", "f32:c:r0.001", "f32:c:r1"], w=4, ver=ver), True, 30, modes)
        add(f"chunks-v{ver}", cfg(["u8:l", "u16:n"], w=5, ver=ver), ver > 2, 30, modes, per=2, defines=small(2, 1))
        add(f"chunks2-v{ver}", cfg(["f32:c:r0.01", "f64:c", "i32:k"], w=5, ver=ver), ver > 2, 30, modes, per=2, defines=small(2, 1))
        add(f"xyzchunks-v{ver}", cfg(["f32:c:r0.01"] * 3 + ["u16:n"], w=5, ver=ver), ver > 2, 30, modes, per=2, defines=small(2, 1))
        add(f"real-v{ver}", cfg(["u16:k", "u8:z"], w=32770, ver=ver, pad="z"), ver in (4, 5), 30, modes, (0,))
        for i, (fs, step) in enumerate(SHAPES.values()):
            add(f"shape{i}-v{ver}", raw(fs, 2, 1, step, ver, 1, 0), ver in (4, 5) and i in (0, 1, 4, 9, 12), 30, modes)
            add(f"shape{i}-v{ver}e2", raw(fs, 2, 1, step, ver, 2, 0), False, 30, modes)
    for t in AD:
        for g in "kqpK":
            add(f"{t}-v5-bg{g}", cfg([t + ":l"], w=16, bg=g, only="7"), t in ("u16", "i64"), 30)
        for g, w in (("u", 41), ("5", 21), ("6", 13)):
            add(f"{t}-v5-bg{g}", cfg([t + ":l"], w=w, bg=g, only=str(w - 2)), t in ("u16", "i64"), 30)
        for g in "kquK5":  # streamed behind the probe
            add(f"{t}-v5-stream{g}", cfg([t + ":l"], w=70, bg=g, only="50,66"), t in ("i16", "u64"), 30, per=64, defines=small(64, 48))
        add(f"{t}-v5-n4", cfg([t + ":n"], w=4), t in ("i32",), 30, (0, 1), (1,))
        add(f"{t}-v5-a5", cfg([t + ":a"], w=5), False, 60)
    add("pal17", cfg(["u16:K"], w=17), True, 30)
    add("pal300", cfg(["u16:q", "u32:K"], w=300), True, 30)
    add("two-sections", cfg(["u16:n", "u8:l", "i64:k"], w=3), True, 30)
    return R


PROPS["P11"] = dict(runs=p11(), bounds="""encoder (V3-V5) and decoder (V2-V5) against an independent codec: every type, version and option over 1-3 points with symbolic values (lossy floats concrete), vector
float groups of 3 and 4, XOR and Gorilla, all four section modes chosen freely with canonical and non-canonical runs and palettes up to 300 values, chunks of 2 and 32768 points; headers of both
encodings with all versions, types and options""", outside="compressed streams (framing of LZ4/ZSTD is their own); which section mode the V5 encoder chooses is not fixed by the format")


# ---------------------------------------------------------------------------------------------------- P12
def p12():
    R = []
    def add(name, mode, a, c, q=True, t=30, **kw):
        R.append(run(name, "p12", {"quick": t, "thorough": 5 * t}, Q(q), abs=1, params=dict({k: v for k, v in kw.items() if k != "defines"}, mode=mode, a=a, cfg=c), **{k: v for k, v in kw.items() if k == "defines"}))
    TY = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
    for ver in (3, 4, 5):
        for t in TY:
            for enc in (0, 1, 2):
                ty = t + (":r0.01:c" if t[0] == "f" and enc == 1 else ":n" if t[0] != "f" and SZ[t] > 1 else ":l" if t == "f64" else "")
                tx = t + (":r0.01:c" if t[0] == "f" and enc == 1 else ":l" if t[0] != "f" and SZ[t] > 1 else ":l" if t == "f64" else "")
                q = enc == 1 or (t[0] == "f" and enc == 2)
                A1, B1 = cfg([tx], w=1, ver=ver, enc=enc), cfg([ty], w=2, ver=ver, enc=enc)
                add(f"{t}-v{ver}e{enc}-enc", 0, A1, B1, q)
                add(f"{t}-v{ver}e{enc}-buf", 1, A1, cfg([tx], w=2, ver=ver, enc=enc, tail=1), q and (ver == 5 or t == "f64"))
                add(f"{t}-v{ver}e{enc}-dec", 2, B1, A1, q and ver != 3)
            add(f"{t}-v{ver}-c2-enc", 0, cfg([t + (":c" if t[0] == "f" else ":k")], w=2, ver=ver, comp=2), cfg([t + (":c" if t[0] == "f" else ":k")], w=2, ver=ver, comp=2), ver == 4 and t in ("u8", "f64", "i32"))
        for i, (fs, step) in enumerate(SHAPES.values()):
            two, one = raw(fs, 2, 1, step, ver, 1, 0), raw(fs, 1, 1, step, ver, 1, 0)
            q = i in (0, 2, 6, 9, 12)
            add(f"shape{i}-v{ver}-enc", 0, one, one, q and ver > 3, 30)
            add(f"shape{i}-v{ver}-buf", 1, one, two, i in (0, 9) and ver > 3, 30)
            add(f"shape{i}-v{ver}-dec", 2, one, one, q and ver == 5, 30)
        for comp in (0, 1, 2):
            add(f"chunks-v{ver}c{comp}-enc", 0, cfg(["u16:n", "f64:c", "f32:r0.01:c"], w=3, ver=ver, comp=comp), cfg(["u16:k", "f64:l", "f32:r0.01:c"], w=5, ver=ver, comp=comp), comp != 1, 40, defines=small(2, 1), fails=3)
            add(f"chunks-v{ver}c{comp}-dec", 2, cfg(["u16:n", "u8"], w=3, ver=ver, comp=comp), cfg(["i32:n", "u8"], w=3, ver=ver, comp=comp), comp != 1, 40, defines=small(2, 1))
            add(f"xyz-v{ver}c{comp}-enc", 0, cfg(["f32:r0.01:c"] * 3 + ["f64:c", "u16:k"], w=3, ver=ver, comp=comp), cfg(["f32:r0.01:c"] * 3 + ["f64:c", "u16:k"], w=4, ver=ver, comp=comp), True, 30)
            add(f"buf-v{ver}c{comp}", 1, "", cfg(["u8", "u16:n", "f32", "f64:l"], w=2, ver=ver, comp=comp, gap=1), True, 30)
        # decoder: another header in between (layout, options, version, compression); damaged streams for B too
        for j, (fa, ea, ca, va) in enumerate(((["u16:n"], 1, 0, 5), (["i16:n"], 1, 0, ver), (["f32:c"], 2, 0, ver), (["f64:c"], 2, 0, 4), (["f32:r0.01:c"] * 3, 1, 0, ver), (["u8", "u16:n"], 1, 2, ver), (["f32:r0.5:c"], 1, 0, ver), (["u16:n", "u8"], 0, 0, 3))):
            for k, (fb, eb, cb) in enumerate(((["u16:n"], 1, 0), (["f32:r0.01:c"] * 3, 1, 0), (["f64:c"], 2, 1), (["f32:r0.01:c"], 1, 0))):
                add(f"hdr{j}{k}-v{ver}", 2, cfg(fa, w=2 if j < 4 else 1, ver=va, enc=ea, comp=ca), cfg(fb, w=2, ver=ver, enc=eb, comp=cb), (j + k + ver) % 3 == 0)
                add(f"hdr{j}{k}-v{ver}-cutb", 2, cfg(fa, w=1, ver=va, enc=ea, comp=ca), cfg(fb, w=2, ver=ver, enc=eb, comp=cb), (j + k + ver) % 8 == 0, cutb=1)
        for t in TY:
            add(f"any-{t}-v{ver}", 3, cfg([t + (":r0.01" if t == "f32" else "")], w=2, ver=ver, enc=1), cfg([t + (":r0.01:c" if t[0] == "f" else ":k")], w=2, ver=ver), ver == 5 or t[0] == "f", 20, len=4)
        add(f"any-xyz-v{ver}", 3, cfg(["f32:r0.01"] * 3, w=1, ver=ver), cfg(["f32:r0.01:c"] * 3, w=2, ver=ver), True, 20, len=3)
        add(f"any-skip-v{ver}", 3, f"w=1 h=1 step=4 ver={ver} enc=1 comp=0 f=a:u16:skip f=b:u16:0", cfg(["u16:k", "u16:k"], w=2, ver=ver), True, 20, len=4)
    for t in AD:
        for ga in "kqpK":
            for gb in "kqpK":
                add(f"{t}-v5-{ga}{gb}-enc", 0, cfg([t + ":" + ga], w=12), cfg([t + ":l"], w=12, bg=gb, only="7"), t in ("u16", "i64") and ga != gb and "p" not in (ga, gb), 30)
                if ga != gb and "K" not in (ga, gb):  # the probe and what is streamed behind it, over two chunks
                    x, y = ga.replace("p", "u"), gb.replace("p", "u")
                    add(f"{t}-v5-{x}{y}-stream", 0, cfg([t + ":" + x], w=70), cfg([t + ":l"], w=70, bg=y, only="50"), t in ("i16", "u64"), 30, defines=small(64, 48))
                add(f"{t}-v5-{ga}{gb}-dec", 2, cfg([t + ":" + ga], w=6), cfg([t + ":l"], w=6, bg=gb, only="4"), t in ("i32",) and ga != gb and "p" not in (ga, gb), 30)
    return R


PROPS["P12"] = dict(runs=p12(), bounds="""an encoder used before on nothing, one cloud, two clouds, a partial point, a too small output buffer, or a compressor failing at any of its first 2-3 calls, then compared
byte for byte with a fresh one; a decoder used before on a complete, cut (every position) or over-long stream under the same or another header (8 x 4 header pairs, all versions), or on 3-4 arbitrary
payload bytes; output buffers with arbitrary contents; every type, version and option with 1-3 symbolic points, each pair of V5 section modes over 6-12 points, chunks of 2 points""",
    outside="longer histories; clouds longer than stated", budget=dict(quick=240, thorough=800))


# ---------------------------------------------------------------------------------------------------- P13
def p13():
    R = []
    def add(name, c, q=True, t=40, w=None, **kw):
        R.append(run(name, "p13", {"quick": t, "thorough": 8 * t}, Q(q), params=dict(kw, cfg=c, **({"a": w} if w else {})), race=True, threads=True, defines=small(1, 1),
                     cflags=("-fthreadsafe-statics",), paths=20000000))
    B = [("u8", ["u8"], 4, 0), ("xyz", ["f32:r0.01:c"] * 3 + ["u16:n"], 5, 1), ("mix", ["f64:l", "i16:s"], 4, 1), ("gor", ["f64:c", "u32:k"], 5, 2), ("old", ["i32:s", "f32:r0.1:c"], 3, 1)]
    for i, (nm, fs, ver, enc) in enumerate(B):
        for comp in (1, 2):
            C = lambda w: cfg(fs, w=w, ver=ver, enc=enc, comp=comp)
            alt = lambda w: cfg([f.replace(":c", ":z").replace(":k", ":K") for f in fs], w=w, ver=ver, enc=enc, comp=comp)
            q = comp == 2 or i == 0
            for w in (0, 1, 2):
                add(f"{nm}-c{comp}-w{w}", C(w), q and (w < 2 or i < 2))
            add(f"{nm}-c{comp}-w3", C(3), i == 0 and comp == 2, 60)
            add(f"{nm}-c{comp}-11", C(1), q, calls=2, w=alt(1))
            add(f"{nm}-c{comp}-21", C(2), comp == 2 and i < 2, 60, calls=2, w=alt(1))
            add(f"{nm}-c{comp}-12", C(1), comp == 1 and i == 0, 60, calls=2, w=alt(2))
            add(f"{nm}-c{comp}-10", C(1), comp == 2 and i == 1, calls=2, w=alt(0))
            add(f"{nm}-c{comp}-111", C(1), comp == 2 and i == 0, 40, calls=3, w=alt(1))
            add(f"{nm}-c{comp}-fail2", C(2), comp == 2 and i < 1, 60, fails=2)
            add(f"{nm}-c{comp}-fail11", C(1), q, 60, fails=1, calls=2, w=alt(1))
            add(f"{nm}-c{comp}-fail21", C(2), comp == 2 and i == 1, 60, fails=2, calls=2, w=alt(1))
            add(f"{nm}-c{comp}-fail3", C(3), False, 60, fails=3)
            add(f"{nm}-c{comp}-twice", C(1), comp == 1 and i == 0, 60, fails=1, calls=3, twice=1)
            add(f"{nm}-c{comp}-spur1", C(1), q, spurious=1)
            add(f"{nm}-c{comp}-spur2", C(2), i == 0, 60, spurious=1)
            add(f"{nm}-c{comp}-spur2f", C(1), comp == 2 and i == 0, 60, spurious=2, fails=1, calls=2)
            add(f"{nm}-c{comp}-users", C(2), comp == 2, mode=2, w=alt(2))
            add(f"{nm}-c{comp}-users2", C(2), comp == 2, mode=2, w=alt(1), both=1)
            add(f"{nm}-c{comp}-nested", C(0), False, 60, mode=2, nested=1, w=alt(1))
        add(f"{nm}-users", cfg(fs, w=2, ver=ver, enc=enc), mode=2, both=1, w=cfg(fs[::-1], w=3, ver=ver, enc=enc))
    for k in (1, 2, 3):
        add(f"start{k}", cfg(["u8"], w=1, ver=4, enc=0, comp=2), True, 60, mode=1, thread_start_fails=k)
    return R


PROPS["P13"] = dict(runs=p13(), technique="symbolic execution of the LLVM bitcode of the encoder and its compression thread over every schedule of the synchronisation operations (sleep-set partial-order reduction, happens-before race detection), cloud contents symbolic (Z3); counterexample schedules replayed natively by a deterministic scheduler under AddressSanitizer or ThreadSanitizer", bounds="""every interleaving of the synchronisation operations (mutexes, condition variables, thread start, end and join, atomics, initialisation of statics), reduced by sleep sets to one
representative per equivalence class, with every access checked for data races against the happens-before order; encoder lives of one to three clouds of 0 to 3 chunks (chunks of one point, by the
verification hook), symbolic contents, versions 3-5, all encoding options, LZ4 and ZSTD; a compressor failing at any of the first 2 (3) compressions of any cloud, also for two clouds in a row; spurious
wake-ups (up to 2 per thread); thread creation failing at construction or when a worker is replaced; two user threads each encoding and decoding with their own objects""",
    outside="weaker-than-sequentially-consistent behaviour of atomics (the code uses none); more chunks or clouds; std::mutex/condition_variable themselves (modelled by contract)", budget=dict(quick=240, thorough=800))


# ---------------------------------------------------------------------------------------------------- P14
def p14():
    R = []
    A = lambda name, q=True, t=40, **kw: R.append(run(name, "p14", {"quick": t, "thorough": 5 * t}, Q(q), params=kw))
    for k in range(24):
        A(f"pair-{k}", True, 40, first=k, headers=4, max=1)
        A(f"pair-{k}-long", False, 60, first=k, max=3)
        A(f"cut-{k}", True, 40, first=k, items=2, kinds=6, headers=2, max=1, cut=1)
        A(f"triple-{k}", False, 100, first=k, items=3, kinds=12, headers=4, max=1)
        A(f"triple-{k}-prim", k < 12, 60, first=k, items=3, base=0, kinds=4, headers=4, max=1)
        A(f"cut-{k}-all", False, 60, first=k, items=2, kinds=12, headers=6, max=2, cut=1)
    A("own", True, 30, own=1, items=2, kinds=6, headers=6)
    A("any-short", True, 30, mode=1, lo=0, hi=5)
    for lo in (4, 6, 8, 10, 12, 16, 20):
        A(f"any-{lo}", lo <= 16, 40, mode=1, lo=lo, hi=lo + (1 if lo < 12 else 3), header=1)
        A(f"any2-{lo}", lo >= 12, 60, mode=1, lo=lo, hi=lo + 1, header=1, items=2, versions=1)
        A(f"any3-{lo}", False, 100, mode=1, lo=lo, hi=lo + 1, header=1, items=3)
    return R


PROPS["P14"] = dict(runs=p14(), bounds="""every pair of 24 kinds of items (all primitives, strings, byte buffers, vectors, arrays, structures, vectors of strings and structures) and triples of them, values fully
symbolic, lengths 0-1 (3), both endiannesses, DDS/XCDRv1/XCDRv2 alignment, a storage vector with earlier contents; every cut of two items; decoding 1-2 (3) items from 0-20 arbitrary bytes with
vector lengths 0-5, 300 and 2^32-1""", outside="longer sequences; vector lengths in between", budget=dict(quick=240, thorough=800))


# ---------------------------------------------------------------------------------------------------- P15
def p15():
    R = []
    def A(name, c, q=True, t=40, **kw):
        R.append(run(name, "p15", {"quick": t, "thorough": 5 * t}, Q(q), abs=1, params=dict({k: v for k, v in kw.items() if k != "defines"}, cfg=c), **{k: v for k, v in kw.items() if k == "defines"}))
    TY = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
    for ver in (3, 4, 5):
        for t in TY:
            f = t + (":r0.01:c" if t == "f32" else ":n" if t[0] != "f" and SZ[t] > 1 and ver == 5 else ":l" if t == "f64" else "")
            A(f"{t}-v{ver}", cfg([f], w=2, ver=ver, comp=(ver + len(t)) % 3, tail=1), ver == 5 or t in ("u8", "f32"), frame=1)
        for comp in (0, 1, 2):
            A(f"mix-v{ver}c{comp}", cfg(["f32:r0.01:c"] * 3 + ["u16:n", "f64:l", "u8"], w=2, ver=ver, comp=comp), True, frame=3)
            A(f"org-v{ver}c{comp}", cfg(["u16:k", "u8"], w=2, h=2, ver=ver, comp=comp), comp == 2)
            A(f"empty-v{ver}c{comp}", cfg(["u16", "f32:r0.01"], w=0, ver=ver, comp=comp), True)
            A(f"empty2-v{ver}c{comp}", cfg(["u16"], w=3, h=0, ver=ver, comp=comp), comp == 1)
            A(f"chunks-v{ver}c{comp}", cfg(["u16:n", "u8"], w=5, ver=ver, comp=comp), comp == 2, defines=small(2, 1))
    A("frame5", cfg(["u8"], w=1, ver=4, comp=2), True, frame=5)
    A("noresolution", cfg(["f32", "f64:l"], w=1, ver=5, comp=2), True)
    C2 = lambda c, v=4: cfg(["u16:c", "f32:r0.01:c"], w=2, ver=v, comp=c)
    C1 = lambda c, v=4: cfg(["u16:c", "f32:r0.01:c"], w=1, ver=v, comp=c)
    for c in (0, 1, 2):
        for v in (3, 4, 5):
            for what in (1, 2, 4, 8, 3):
                A(f"outer{what}-v{v}c{c}", C2(c, v), what == 8 or v == 4 + (c > 0), mode=1, what=what, frame=0)
            A(f"outer7-v{v}c{c}", C2(c, v), False, mode=1, what=7, frame=0, big=0)
            A(f"cut-v{v}c{c}", C2(c, v), True, mode=2, win=0, frame=1)
            A(f"rawcut-v{v}c{c}", C2(c, v), v == 4, mode=5, frame=1)
            for what in (1, 2, 4, 8):
                A(f"in{what}-v{v}c{c}", C1(c, v) if what < 4 else C2(c, v), v == 3 + c, mode=3, what=what, frame=0)
            A(f"in16-v{v}c{c}", C2(c, v), v == 3 + c, mode=3, what=16, frame=0, big=c & 1)
        for be in (0, 1):
            A(f"window1-c{c}-{be}", C1(c), True, mode=2, win=1, frame=0, big=be, fork_ptr=1)
            A(f"window1v5-c{c}-{be}", C1(c, 5), False, mode=2, win=1, frame=1, big=be, fork_ptr=1)
            for k in range(4, 90, 6):
                A(f"inwindow-c{c}-{be}-{k}", C1(c), c == 0 and be == 0 and k < 60 and k not in (16, 22), 40, mode=4, win=1, frame=0, big=be, fork_ptr=1, **{"from": k, "to": k + 5})
    # histories: the same process converts other messages first
    X = "w=1 step=7 ver=5 enc={e} comp={c} f=x:f32:0:c{r} f=i:u16:4:K f=j:u8:6:K"
    V = lambda e=1, c=1, r=":r0.5", **k: X.format(e=e, c=c, r=r)
    W = V(r=":r0.01")
    for i, (a, b) in enumerate(((V(), None), (V(e=2), None), (V(c=0), None), (V(r=""), None), (W.replace("u16", "i16"), None), (W.replace("i:u16:4", "i:u16:5").replace("j:u8:6", "j:u8:4"), None), (W.replace("w=1", "w=2"), None),
                                (W.replace("ver=5", "ver=4"), None), (cfg(["u8:K"], w=0), None), (cfg(["u8:K"], w=3), W), (W, W), (W.replace("step=7", "step=9"), None), (W.replace("f=i:", "f=k:"), None), (W.replace(":K", ":k").replace(":c:", ":z:"), W))):
        A(f"after-{i}", W, i < 9 or i == 13, a=a, frame=1, big=i & 1, **({"b": b} if b else {}))
        A(f"after-{i}-sym", W.replace(":K", ":l").replace("w=1", "w=2"), False, a=a, frame=2, **({"b": b} if b else {}))
    for i, (bm, kw) in enumerate(((1, dict(what=8)), (2, dict(win=0)), (3, dict(what=8)), (5, {}))):
        A(f"after-bad{i}", W, True, b=W.replace(":K", ":k"), bmode=bm, frame=1, big=0, **kw)
    for k in range(4, 350, 12):
        A(f"window2-{k}", C1(0), False, 60, mode=2, win=2, frame=0, big=0, fork_ptr=1, sym_alloc_limit=300, **{"from": k, "to": k + 11})
        A(f"window4-{k}", C1(0), False, 60, mode=2, win=4, frame=0, big=0, fork_ptr=1, sym_alloc_limit=300, **{"from": k, "to": k + 11})
    return R


PROPS["P15"] = dict(runs=p15(), bounds="""messages with symbolic stamp, row_step, is_dense, frames of 0-3 (5) symbolic characters and 1-5 points of every type (integers symbolic), both byte orders, versions 3-5
and all compressions, empty clouds; compressed messages whose outer width, height or point_step takes 11 boundary values, a payload cut at every position, a message cut at every position, every window
of 1 (2 and 4 in the thorough tier) arbitrary bytes; PointCloud2 inputs with arbitrary offsets, types 0-12, boundary steps and dimensions, other data sizes, every cut, one arbitrary byte anywhere""",
    outside="longer clouds and names; two windows at once", budget=dict(quick=240, thorough=800))


# ---------------------------------------------------------------------------------------------------- P19
def p19():
    R = []
    def A(name, c, q=True, t=40, **kw):
        R.append(run(name, "p19", {"quick": t, "thorough": 5 * t}, Q(q), abs=0 if "fork_ptr" in kw else 1, libs=["wasm"], params=dict(kw, cfg=c, one_schedule=1)))
    FZ = dict(fork_ptr=1, sym_alloc_limit=300)
    TY = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
    for ver in (3, 4, 5):
        for t in TY:
            f = t + (":r0.01:c" if t == "f32" else ":n" if t[0] != "f" and SZ[t] > 1 else ":l" if t == "f64" else "")
            for bulk in (0, 150):
                A(f"valid-{t}-v{ver}-{bulk}", cfg([f], w=2 if SZ[t] < 4 else 1, ver=ver, comp=(ver + len(t)) % 3, tail=1), ver == 5, mode=0, bulk=bulk)
        A(f"valid-xyz-v{ver}", cfg(["f32:r0.01:c"] * 3 + ["u8", "u16:c"], w=3, ver=ver, comp=2), True, mode=0, bulk=150)
        A(f"valid-org-v{ver}", cfg(["u16:k", "u8"], w=2, h=2, ver=ver, comp=1), True, mode=0, bulk=100)
        A(f"valid-empty-v{ver}", cfg(["u16", "f32:r0.01"], w=0, ver=ver, comp=2), ver == 5, mode=0)
    C = cfg(["u8", "u16:c"], w=2, comp=2)
    C4 = cfg(["u8", "f32:c:r0.01"], w=2, ver=4, comp=1)
    for big in (0, 1):
        for what in (1, 2):
            A(f"hostile-{what}-{big}", C, True, mode=1, what=what, big=big)
        A(f"hostile-3-{big}", C, False, 100, mode=1, what=3, big=big)
    for what in (4, 8, 12, 16, 32, 64):
        A(f"hostile-{what}", C, True, mode=1, what=what, big=0)
        A(f"hostile4-{what}", C4, what in (4, 16), mode=1, what=what)
    for what in (28, 60, 31):
        A(f"hostile-{what}", C, False, 160, mode=1, what=what, big=0)
    for i, c in enumerate((C, C4)):
        A(f"cloud-cut-{i}", c, True, mode=2, win=0)
        for what in (1, 2, 4, 7, 8):
            A(f"dims-{i}-{what}", c, what in (1, 4, 8) or (i == 0 and what == 7), 40, mode=3, what=what, big=0 if what == 7 else -1)
            A(f"bare-{i}-{what}", c, what in (1, 4, 8) or (i == 0 and what == 7), 40, mode=5, what=what, big=0)
        A(f"msg-cut-{i}", c, True, mode=4, win=0)
        for what in (1, 2, 4, 7, 8, 16):
            A(f"yaml-{i}-{what}", c, i == 0, mode=7, what=what, big=0)
        A(f"resolution-{i}", c, True, mode=6, bulk=100, big=0)
        for big in (0, 1):
            for at in range(4, 120, 8):
                A(f"cloud-win-{i}-{big}-{at}", c, i == 0 and big == 0, 20, mode=2, win=1, big=big, **{"from": at, "to": at + 7}, **FZ)
                A(f"cloud-win2-{i}-{big}-{at}", c, False, 40, mode=2, win=2, big=big, **{"from": at, "to": at + 7}, **FZ)
            for at in range(4, 360, 12):
                A(f"msg-win-{i}-{big}-{at}", c, i == 0 and big == 0, 20, mode=4, win=1, big=big, **{"from": at, "to": at + 11}, **FZ)
        for at in range(0, 220, 10):
            A(f"yaml-win-{i}-{at}", c, i == 0, 20, mode=7, what=32, big=0, **{"from": at, "to": at + 9}, **FZ)
    for i, c in enumerate((cfg(["u8:K", "u16:K"], w=1, comp=1), cfg(["f32:c:r0.01", "i64:K"], w=1, ver=4, comp=0), cfg(["f64:c:r0.5", "u8:K"], w=2, ver=3, enc=2, comp=2))):
        A(f"tokens-{i}", c, i < 2, mode=9, big=0, frame=0)
    for i, c in enumerate((cfg(["u8:c"], w=1), cfg(["f32:c:r0.01", "u16:c"], w=1), cfg(["f64:c", "u64:c", "i8:c"], w=1))):
        for fit in (1, 2, 3):
            A(f"fit-{i}-{fit}", c, i < 2, mode=0, fit=fit, big=i & 1, frame=0)
    S = "w=1 step=7 ver=5 comp=2 f=x:f32:0:c f=i:u16:4:K f=j:u8:6:K"
    for i, (a, b) in enumerate(((S, S.replace("w=1", "w=2")), (S.replace("w=1", "w=2"), S), (S, S.replace(":K", ":k")), (S.replace("i:u16:4", "i:u16:5").replace("j:u8:6", "j:u8:4"), S), (cfg(["u8:K"], w=0), S), (S, cfg(["u8:K"], w=0)), (S.replace("f=i:", "f=k:"), S), (S, S.replace("f=x:f32:0:c", "f=x:u32:0:K")))):
        A(f"after-{i}", b, i < 6, a=a, mode=0, bulk=150, big=i & 1, frame=0)
    for i, (am, kw) in enumerate(((1, dict(what=8)), (3, dict(what=8)), (5, dict(what=8)), (7, dict(what=8)))):
        A(f"after-bad{i}", S, True, a=S.replace(":K", ":k").replace("w=1", "w=2"), amode=am, big=0, frame=0, bulk=150, **kw)
    A("bytes-7", C, True, mode=8, lo=0, hi=7, big=0)
    A("bytes-16", C, True, mode=8, lo=8, hi=16, header=1, big=0)
    A("bytes-24", C, False, 100, mode=8, lo=17, hi=24, header=1, big=0)
    return R


PROPS["P19"] = dict(runs=p19(), bounds="""valid messages of 1-4 points of every type through all eight functions (integers symbolic, both byte orders, caller buffer too small and large enough, and within 12 bytes of the encoded size and of the worst case); PointCloud2 with
arbitrary offsets, types 0-12, boundary dimensions and steps, other data sizes, every cut, one arbitrary byte anywhere; CompressedPointCloud2 with boundary dimensions on either header, a payload and a
message cut at every position, one arbitrary byte anywhere; YAML headers with boundary dimensions, cuts and one arbitrary byte; 0-16 arbitrary bytes; nine resolutions""",
    outside="one thread schedule (P13 covers schedules); larger clouds; two damaged places at once; the JavaScript glue", budget=dict(quick=240, thorough=800))


# ---------------------------------------------------------------------------------------------------- P16
def p16():
    R = []
    A = lambda name, q=True, t=40, **kw: R.append(run(name, "p16", {"quick": t, "thorough": 5 * t}, Q(q), params=kw))
    for order in (0, 1):
        A(f"two-ops-{order}", ops=2, order=order)
        A(f"three-ops-{order}", order == 0, 60, ops=3, order=order)
        A(f"three-objects-{order}", False, 100, ops=3, objects=3, filled=3, order=order)
        A(f"four-ops-{order}", False, 160, ops=4, objects=2, filled=2, order=order)
    A("two-objects", ops=3, objects=2, filled=2)
    return R


PROPS["P16"] = dict(runs=p16(), bounds="""every sequence of up to 3 (4 in the thorough tier) copy/move constructions, copy/move assignments (self-assignment included), destructions and moves through a vector over
2-3 objects that are default, own their data, view external memory, view external memory beside a stale owned buffer, or are empty; symbolic metadata and content; both orders of destruction""",
    outside="views of a part of owned_data, which the header says do not occur; longer histories", budget=dict(quick=200, thorough=800))


# ---------------------------------------------------------------------------------------------------- P17
def p17():
    R = []
    def A(name, c, q=True, t=40, abs=3, **kw):
        R.append(run(name, "p17", {"quick": t, "thorough": 5 * t}, Q(q), abs=abs, params=dict(kw, cfg=c)))
    xyz = lambda r: [f"f32:z:r{r}"] * 3
    for r in ("1", "0.01", "0.001", "0.25"):
        for a in range(3):
            A(f"axis{a}-r{r}", cfg(xyz(r) + ["u8"], w=2), r in ("0.01", "1"), axes=1, axis=a)
            A(f"pair{a}-r{r}", cfg(xyz(r) + ["u8"], w=2), r == "0.01", axes=2, axis=a)
            A(f"axis{a}-3-r{r}", cfg(xyz(r) + ["f64"], w=3), r == "0.01", axes=1, axis=a)
            A(f"edge{a}-r{r}", cfg(xyz(r), w=3 if r == "1" else 2), r in ("1", "0.25"), 20, 0, axes=1, axis=a, gen=3)
            A(f"table{a}-r{r}", cfg(xyz(r) + ["u16:l"], w=3, lead=2), r == "1", 40, 0, axes=1, axis=a, gen=1)
        A(f"all-r{r}", cfg(xyz(r), w=2, lead=3, tail=1), r in ("0.01", "1"), axes=3)
        A(f"pair-3-r{r}", cfg(xyz(r), w=3), False, 60, axes=2)
        A(f"all-3-r{r}", cfg(xyz(r), w=3), False, 160, axes=3)
        A(f"pair-4-r{r}", cfg(xyz(r), w=4), False, 160, axes=2, gen=2)
    A("warm-axis", cfg(xyz("0.01") + ["u8"], w=2), True, axes=1, warm=1)
    A("warm-all", cfg(xyz("1"), w=2), True, axes=3, warm=1)
    A("warm-table", cfg(xyz("1") + ["u16:l"], w=2, lead=2), True, 40, 0, axes=1, axis=1, gen=1, warm=1)
    A("warm-3", cfg(xyz("0.25"), w=3), False, 60, axes=2, warm=1)
    A("axis0-4", cfg(xyz("0.01"), w=4), False, axes=1)
    A("organised", cfg(xyz("0.01") + ["u8"], w=2, h=2), True, 40, axes=1, gen=2)
    A("extra-bytes", cfg(xyz("0.5") + ["u8"], w=2), True, axes=2, extra=5)
    A("one", cfg(xyz("0.5") + ["f64:r0.1", "f64", "f32", "f32:r0.1"], w=1), True, axes=3)
    A("none", cfg(xyz("0.5") + ["f64"], w=0), True, mode=1)
    C = cfg(xyz("0.5") + ["f64"], w=2)
    for what in (1, 2, 4, 8, 16, 32, 64, 128, 38):
        A(f"layout-{what}", C if what != 1 else cfg(xyz("0.5"), w=2), True, mode=1, what=what)
    for what in (6, 7, 12, 48, 63):
        A(f"layout-{what}", C, False, 60, mode=1, what=what)
    return R


PROPS["P17"] = dict(runs=p17(), bounds="""2-4 points whose coordinates on one, two or all three axes are any float (NaN and infinities included, finite ones within the documented +-2^20 voxels), resolutions 1, 0.25, 0.01
and 0.001, offsets 0-3, further fields with symbolic content; every pair and triple of values within 2^-16 of a voxel boundary (exact floating-point); nine special values; field types 0-12, arbitrary
offsets, boundary steps, resolutions, sizes and field counts for the cases without a valid triple""",
    outside="the voxel of a point is the library's rounded product with 1/resolution; more than four points; hash collisions beyond the buckets of small tables")


# ---------------------------------------------------------------------------------------------------- P18
def p18():
    R = []
    A = lambda name, q=True, t=40, **kw: R.append(run(name, "p18", {"quick": t, "thorough": 5 * t}, Q(q), params=kw))
    for n in range(4):
        A(f"profile-{n}", n=n, names=3)
        A(f"info-{n}", n=n, mode=1, names=4)
    A("profile-4", n=4, names=2)
    A("profile-other", n=2, names=4, other=1)
    A("profile-4-3", False, 100, n=4, names=3)
    A("profile-5", False, 100, n=5, names=2, other=1)
    return R


PROPS["P18"] = dict(runs=p18(), bounds="""field lists of 0-4 (5) fields with names from 2-4 names (duplicates, prefixes of each other and the empty name included), arbitrary types, offsets and optional resolutions; every subset
of the names profiled with any float (zero, NaN, negative); with and without an arbitrary default; toEncodingInfo with arbitrary dimensions""", outside="longer lists and other names")


# ---------------------------------------------------------------------------------------------------- P21
def p21():
    R = []
    BUILDS = dict(sse41=((), ("-msse4.1",)), sse2=(("-mno-sse4.1", "-mno-sse4.2", "-mno-ssse3", "-mno-sse3"), ()), scalar=(("-mno-sse4.1", "-U__SSE__", "-U__SSE4_1__", "-U__AVX__"), ("-U__SSE__", "-U__AVX__")))
    for b, (cf, nf) in BUILDS.items():
        for op in range(16):
            R.append(run(f"{b}-op{op}", "p21", {"quick": 90, "thorough": 300}, "both", params=dict(op=op), cflags=cf, nflags=nf))
        if b != "sse41":
            def RT(name, c, q=True, **kw):
                R.append(run(f"{b}-{name}", "roundtrip", {"quick": 40, "thorough": 200}, Q(q), p_cfg=c, cflags=cf, nflags=nf, **kw))
            for ver in (3, 4, 5):
                for r in ("0.01", "1", "0.25"):
                    RT(f"xyz-r{r}-v{ver}", cfg([f"f32:c:r{r}"] * 3, w=3, ver=ver), ver != 3)
                    RT(f"xyzi-r{r}-v{ver}", cfg([f"f32:c:r{r}"] * 4, w=2, ver=ver), r == "0.01")
    return R


PROPS["P21"] = dict(runs=p21(), bounds="""every operation for all float and int32 lane values, in the SSE4.1, SSE2 and scalar builds of the same source; conversions for all values within the int32 range; three- and four-field lossy
clouds of 2-3 points with concrete coordinates and every NaN placement through the SSE2 and scalar builds""", outside="other architectures; integer division by zero and INT_MIN / -1")


# ---------------------------------------------------------------------------------------------------- P22
def p22():
    R = []
    def A(name, q=True, t=40, abs=1, defines=(), **kw):
        R.append(run(name, "p22", {"quick": t, "thorough": 5 * t}, Q(q), abs=abs, libs=["pcl"], defines=defines, params=dict(kw, one_schedule=1)))
    for n in (0, 1, 2, 3):
        A(f"convert-{n}", n != 3, mode=0, fields=n)
    A("convert-5", False, 100, mode=0, fields=5)
    A("xyz", mode=1)
    A("xyzi", mode=2)
    TY = ["i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64"]
    gen = lambda t: "" if SZ[t] == 1 else ":l" if t == "f64" else ":n"
    for t in TY:
        for res in ("0", "0.01"):
            if res == "0" or t[0] == "f":
                A(f"trip-{t}-{res}", mode=3, res=res, cfg=cfg([t + (":l" if t == "f32" and res == "0" else ":c" if t == "f32" else gen(t))], w=2))
    A("trip-one-f32", abs=3, mode=3, res="0.001", cfg=cfg(["f32"], w=1))
    A("trip-mix", mode=3, res="0.01", cfg=cfg(["f32:c", "f32:c", "f32:c", "u16:n", "u8", "f64:l"], w=2, tail=1), dirty=9)
    A("trip-mix0", mode=3, res="0", cfg=cfg(["u8", "f32:l", "i16:n"], w=2, tail=2), dirty=9)
    A("trip-organised", mode=3, res="0", cfg=cfg(["f32:c", "u8", "u16:c"], w=2, h=2))
    A("trip-empty", mode=3, res="0.01", cfg=cfg(["u16", "f32"], w=0))
    A("trip-empty2", mode=3, res="0.01", cfg=cfg(["u16", "f32"], w=3, h=0))
    A("trip-chunks", mode=3, res="0.01", cfg=cfg(["u16:n", "f32:c"], w=5), defines=small(2, 1))
    A("trip-wide", False, 100, mode=3, res="0.01", cfg=cfg(["f32:c", "u16:n", "u32:n", "f64:l", "i8"], w=3, tail=3))
    A("pcd-0", mode=4, fields=0)
    A("pcd-1", mode=4, fields=1, tail=1)
    A("pcd-2", mode=4, fields=2)
    A("pcd-2-eof", mode=4, fields=2, data=0)
    A("pcd-2-choose", mode=4, fields=2, symtypes=0, places=2)
    A("pcd-3", False, 200, mode=4, fields=3)
    A("pcd-broken", mode=5)
    A("pcd-any", mode=6, hi=6)
    A("pcd-any-lead", mode=6, hi=6, lead=1)
    A("pcd-any-10", False, 160, mode=6, hi=9)
    for a in (3, 4):
        for b in (3, 4):
            A(f"points-{a}-{b}", mode=7, **{"from": a}, to=b, gen="cccl", res="0.01", w=3, dirty=1)
            A(f"points-{a}-{b}-sym", a == 4, abs=3, mode=7, **{"from": a}, to=b, gen="sccc" if a == b else "cscc", res="0.01", w=2)
            A(f"points-{a}-{b}-0", a == 4 and b == 3, mode=7, **{"from": a}, to=b, gen="cccc", res="0.01", w=0)
            A(f"points-{a}-{b}-chunks", a == 4, mode=7, **{"from": a}, to=b, gen="cccl", res="0.001", w=2, h=2, defines=small(2, 1))
    F = "f=z:f32:1:r0.01:c f=t:u16:5:n f=x:f32:7:r0.01:c f=intensity:f32:11:l f=y:f32:15:r0.01:c"
    G = "f=intensity:f32:0:c f=y:f32:4:c f=x:f32:8:c f=ring:u8:12"
    P = "f=x:f32:0:r0.01:c f=y:f32:4:r0.01:c f=z:f32:8:r0.01:c"
    for v in (3, 4, 5):
        for enc in (0, 1, 2):
            for to in (3, 4):
                A(f"cross-v{v}e{enc}-{to}", v == 5 or enc == 1, mode=8, to=to, cfg=f"w=2 step=20 ver={v} enc={enc} comp={enc} {F}")
                A(f"packed-v{v}e{enc}-{to}", v == 5, mode=8, to=to, cfg=f"w=3 step=12 ver={v} enc={enc} comp={enc} {P}")
        A(f"order-v{v}", mode=8, to=3, cfg=f"w=2 step=13 ver={v} enc=1 comp=2 {G}")
        A(f"mismatch-v{v}", v == 5, mode=8, to=4, cfg=f"w=2 step=12 ver={v} enc=1 comp=0 f=x:f64:0:l f=y:f32:8:c")
        A(f"mismatch-i-v{v}", v == 5, mode=8, to=4, cfg=f"w=2 step=12 ver={v} enc=1 comp=0 f=x:f32:0:c f=intensity:u8:4 f=y:f32:8:c")
        A(f"xyz-intensity-u8-v{v}", v == 5, mode=8, to=3, cfg=f"w=2 step=12 ver={v} enc=1 comp=0 f=x:f32:0:c f=intensity:u8:4 f=y:f32:8:c")
    FZ = dict(fork_ptr=1, sym_alloc_limit=300, alloc_limit=1000, mode=9, abs=0)
    for v in (2, 3, 4, 5):
        for to in (0, 1):
            A(f"dims-v{v}-{to}", v != 3, ver=v, to=to, pay=8, **FZ)
            A(f"dims0-v{v}-{to}", v != 3, ver=v, to=to, pay=0, chunk=0, **FZ)
            A(f"dims-u8-v{v}-{to}", v == 5 and to == 0, ver=v, to=to, pay=5, type=2, **FZ)
    for i, f in enumerate((["f32:c", "i64:n", "u8"], ["u64:l"], ["i64:l", "f64:l", "u64:l"], ["u16:n", "f32:c"])):
        A(f"file-{i}", mode=10, res="0.01", cfg=cfg(f, w=2 if i != 2 else 1))
    A("file-kept", mode=10, res="0", forget=0, cfg=cfg(["i32:n", "f32:l"], w=2))
    A("unknown", mode=11)
    A("same", mode=12)
    A("pcd-1-gaps", mode=4, fields=1, gaps=1, places=2)
    A("pcd-2-gaps", mode=4, fields=2, gaps=1, places=1)
    for v in (3, 4, 5):
        for to in (3, 4):
            for t in ("u32", "i32"):
                A(f"mismatch-{t}-v{v}-{to}", v == 5, mode=8, to=to, cfg=f"w=2 step=12 ver={v} enc=1 comp=0 f=x:f32:0:c f=z:{t}:4:c f=y:f32:8:c")
        A(f"mismatch-i32-v{v}", v == 5, mode=8, to=4, cfg=f"w=2 step=12 ver={v} enc=1 comp=0 f=x:f32:0:c f=intensity:u32:4:c f=y:f32:8:c")
    return R


PROPS["P22"] = dict(runs=p22(), bounds="""PCL clouds of 0-3 (5) fields with any name bytes, offset, data type, dimensions and resolution; round trips of every type over 1-3 points, in several layouts, organised, empty and in several chunks;
PointXYZ and PointXYZI into each other and from packed, reordered and incomplete layouts, every version and encoding; PCD headers of 0-2 (3) fields with any SIZE digit and TYPE character, a comment, blank or arbitrary comment line at any of
4 places, LF and CR LF, one or two blanks between and before the words; lists of different lengths; isSameEncodingInfo on any two layouts of 0-2 fields; arbitrary text of up to 6 (9) bytes; 216 dimension triples with arbitrary offset and payload""",
    outside="the PCL library itself: declarations with its members and enum values stand in for its headers, and loadPCDFile is a stub; more than one schedule of the encoder's worker (P13); fields with count > 1; is_dense and is_bigendian, which the format does not store", budget=dict(quick=240, thorough=800))


# ---------------------------------------------------------------------------------------------------- P23
def p23():
    R = []
    def A(name, q=True, t=60, abs=1, **kw):
        d = kw.pop("defines", [])
        R.append(run(name, "p23", {"quick": t, "thorough": 6 * t}, Q(q), abs=abs, libs=["mcap"], defines=d, params=dict(kw, one_schedule=1)))
    C = "w=1 step=6 ver=5 enc=1 comp=0 f=x:f32:0:c f=ring:u8:4 f=t:u8:5"
    L = "w=3 step=18 ver=5 enc=1 comp=0 f=x:f32:0:c f=y:f32:4:c f=z:f32:8:c f=ring:u16:12:c f=t:u32:14:c"
    S = "w=2 step=7 ver=5 enc=1 comp=0 f=x:f32:0:c f=ring:u8:4:n f=t:u16:5:n"
    A("definitions", mode=5)
    A("profile-1", mode=3, entries=1)
    A("profile-2", mode=3, entries=2)
    A("profile-3", False, mode=3, entries=3)
    for i, m in enumerate(("encode", "decode", "trip")):
        A(f"{m}-topology", mode=i, cfg=C, metadata=1)
        A(f"{m}-topology-3", False, 130, mode=i, cfg=C, metadata=2, schemas=3, channels=2, messages=2, nkinds=4)
        A(f"{m}-channels-3", mode=i, cfg=C, metadata=2, schemas=3, channels=3, messages=1, kinds=0x012, sametopic=1)
        A(f"{m}-channels-3m", False, 130, mode=i, cfg=C, schemas=3, channels=3, messages=3, kinds=0x210, sametopic=1)
        A(f"{m}-similar", mode=i, cfg=C, schemas=2, channels=2, messages=2, kinds=0x13, none=0)
        A(f"{m}-empty", mode=i, cfg=C, schemas=1, channels=0, messages=0, metadata=1)
        A(f"{m}-nothing", mode=i, cfg=C, schemas=0, channels=0, messages=0)
        A(f"{m}-order", mode=i, cfg=C, schemas=2, channels=2, messages=3, kinds=0x10, none=0)
    A("options", mode=0, cfg=L, schemas=1, channels=1, messages=2, kinds=1, none=0, options=15)
    A("options-trip", mode=2, cfg=L, schemas=1, channels=1, messages=1, kinds=1, none=0, options=11)
    A("options-dec", mode=1, cfg=L, schemas=1, channels=1, messages=2, kinds=2, none=0, options=8)
    A("content", mode=2, cfg=S, schemas=1, channels=1, messages=1, kinds=1, none=0, fixed=0, options=1)
    A("content-lossless", mode=2, cfg="w=2 step=5 ver=5 enc=1 comp=0 f=x:f32:0:l f=ring:u8:4:n", schemas=1, channels=1, messages=1, kinds=1, none=0, fixed=0)
    A("content-lossy", abs=3, mode=2, cfg="w=1 step=5 ver=5 enc=1 comp=0 f=x:f32:0 f=ring:u8:4", schemas=1, channels=1, messages=1, kinds=1, none=0, fixed=0, options=2)
    A("content-cloud0", mode=2, cfg="w=0 step=5 ver=5 enc=1 comp=0 f=x:f32:0 f=ring:u8:4", schemas=1, channels=1, messages=2, kinds=1, none=0, fixed=0, options=2)
    A("content-2", False, 120, mode=2, cfg=S, schemas=1, channels=1, messages=2, kinds=1, none=0, fixed=0, options=3)
    A("failures", mode=4, cfg=C)
    for k in (1, 2):
        A(f"cut-{k}", mode=8, cfg=C, kinds=k, none=0, alloc_limit=1000000, sym_alloc_limit=4096)
    for k in (1, 2):
        A(f"changed-{k}", False, mode=8, cfg=C, kinds=k, none=0, win=1, alloc_limit=1000000, sym_alloc_limit=4096, defines=small(2, 1))
    A("changed", False, 100, mode=8, cfg=C, schemas=2, channels=2, messages=2, kinds=0x21, none=0, win=1, alloc_limit=1000000, sym_alloc_limit=4096, defines=small(2, 1))
    A("changed-2", False, 100, mode=8, cfg=C, kinds=1, none=0, win=2, alloc_limit=1000000, sym_alloc_limit=4096, defines=small(2, 1))
    A("again", mode=6, cfg=C, schemas=2, channels=2, messages=1, metadata=1)
    A("two-files", mode=7, cfg=C, schemas=2, channels=1, messages=1, none=0)
    A("two-files-3", mode=7, cfg=C, schemas=2, schemas2=3, channels=2, channels2=3, messages=0, kinds=0x010, none=0)
    A("two-files-2", mode=7, cfg=C, schemas=2, channels=2, messages=1, kinds=0x01, none=0)
    A("again-cloud", mode=6, cfg=L, schemas=2, channels=2, messages=2, kinds=0x21, none=0, options=1)
    return R


PROPS["P23"] = dict(runs=p23(), bounds="""MCAP files of 0-2 (3) schemas (PointCloud2, CompressedPointCloud2, another one, near-identical names), 0-3 channels in every assignment of schemas, topics, encodings and metadata, 0-3 messages per file with arbitrary
timestamps and sequence numbers in any order of channels, 0-2 metadata records, arbitrary bytes in other messages; encode, decode and both in turn; every viz/compression/chunk option, resolutions global, per field and in profiles of 1-2 (3) entries;
clouds of 1-3 points with arbitrary content; the same converter object used twice on one file and on two files; inputs that cannot be read, outputs that cannot be written, missing schemas, cloud messages cut at every byte (with any changed byte in the thorough tier)""",
    outside="the MCAP library: declarations with its members stand in for its headers, and the stub reader and writer hold the records of a file in memory, so chunking, indexes, CRCs and the compression of the container are outside; attachments; more than one schedule of the encoder's worker (P13)", budget=dict(quick=240, thorough=800))


# ---------------------------------------------------------------------------------------------------- P25
def p25():
    R = []
    def A(name, q=True, t=60, abs=1, **kw):
        d = kw.pop("defines", [])
        R.append(run(name, "p25", {"quick": t, "thorough": 6 * t}, Q(q), abs=abs, libs=["ros", "pcl"], defines=d, params=dict(kw, one_schedule=1)))
    C = "w=2 step=9 ver=5 enc=1 comp=0 f=x:f32:0:c f=ring:u8:4:n f=t:u32:5:n"
    D = "w=1 step=6 ver=5 enc=1 comp=0 f=ring:u16:0:n f=i:f32:2:c"
    O = "w=2 h=2 step=22 ver=5 enc=1 comp=0 f=x:f32:0:c f=y:f32:4:c f=z:f32:8:c f=ring:u16:12:c f=t:f64:14:c"
    E = "w=0 step=9 ver=5 enc=1 comp=0 f=x:f32:0:c f=t:u32:5:n"
    E2 = "w=3 h=0 step=4 ver=5 enc=1 comp=0 f=i:i32:0:n"
    S = "w=1 step=5 ver=5 enc=1 comp=0 f=x:f32:0 f=ring:u8:4"
    T1, T2 = "w=1 step=2 ver=5 enc=1 comp=0 f=ring:u16:0:n", "w=1 step=1 ver=5 enc=1 comp=0 f=i:u8:0:n"
    X = "w=1 step=16 ver=5 enc=1 comp=0 f=x:f32:0 f=y:f32:4 f=z:f32:8 f=intensity:f32:12:c"
    I = "w=2 step=23 ver=5 enc=1 comp=0 f=a:i8:0:n f=b:i16:1:n f=c:u32:3:n f=d:f64:7:n f=e:i32:15:n f=f:u16:19:n f=g:i8:21:n f=h:u8:22:n"
    A("plugin", mode=0, cfg=C)
    A("plugin-two", mode=0, cfg=C, cfg2=D, two=1, how=1)
    A("plugin-two-params", False, mode=0, cfg=C, cfg2=D, two=1)
    A("plugin-order", mode=0, cfg=D, cfg2=C, two=1, how=1)
    A("plugin-organised", mode=0, cfg=O, how=2)
    A("plugin-ints", mode=0, cfg="w=1" + I[3:], how=1)
    A("plugin-ints-2", False, 100, mode=0, cfg=I, how=1)
    A("plugin-empty", mode=0, cfg=E)
    A("plugin-empty-h", mode=0, cfg=E2, cfg2=C, two=1, how=1)
    A("plugin-lossy", abs=3, mode=0, cfg=S, how=2)
    A("plugin-xy", t=110, abs=3, mode=0, cfg="w=1 step=8 ver=5 enc=1 comp=0 f=x:f32:0 f=y:f32:4", how=1)
    A("plugin-xyzi", False, 100, abs=3, mode=0, cfg=X, how=1)
    A("plugin-chunks", mode=0, cfg=O, how=1, two=1, cfg2=C, defines=small(2, 1))
    H = dict(mode=1, alloc_limit=100000, sym_alloc_limit=4096, defines=small(2, 1))
    A("message-size", what=1, cfg=C, **H)
    A("message-step", what=2, cfg=C, **H)
    A("message-fields", what=4, cfg=C, **H)
    A("message-count", what=8, cfg=C, **H)
    A("message-all", what=15, cfg=D, **H)
    A("message-all-c", False, what=15, cfg=C, **H)
    A("message-cut", what=16, cfg=C, **H)
    A("message-window", what=32, win=1, cfg=C, **H)
    A("message-window-2", False, what=32, win=2, cfg=D, **H)
    A("message-other", what=64, cfg=C, cfg2=D, **H)
    A("message-other-b", what=64, cfg=D, cfg2=C, **H)
    for i, c in enumerate((C, D, O, E, E2, "w=1" + I[3:])):
        A(f"library-{i}", mode=7, cfg=c)
    A("conversions", mode=2)
    A("conversions-0", mode=2, fields=0)
    A("conversions-4", False, mode=2, fields=4)
    A("serialize", mode=3, cfg=C)
    A("serialize-lossy", abs=3, mode=3, cfg=S)
    A("serialize-empty", mode=3, cfg=E)
    A("serialize-organised", mode=3, cfg=O)
    A("node", mode=4, cfg=C, cfg2=D, messages=2)
    A("node-3", False, mode=4, cfg=C, cfg2=D, messages=3)
    A("node-empty", mode=4, cfg=E, cfg2=C, messages=2)
    A("node-after-empty", mode=4, cfg=O, cfg2=E2, messages=2)
    C2 = "w=2 step=9 ver=5 enc=1 comp=0 f=x:u32:0:n f=r:i8:4:n f=t:f32:5:c"
    A("node-fields", mode=4, cfg=C, cfg2=C2, messages=2)
    A("node-smaller", mode=4, cfg="w=9 step=8 ver=5 enc=1 comp=0 f=a:u64:0:K", cfg2="w=60 step=8 ver=5 enc=1 comp=0 f=a:u64:0:Z", messages=2)
    A("pcl-fields", mode=6, cfg=C, cfg2=C2, messages=2, bad=1)
    A("node-content", mode=4, cfg=C, cfg2=D, messages=1, fixed=0)
    for name, q, kw in (("1", True, dict(messages=2)), ("2", False, dict(messages=3)), ("1-gone", True, dict(messages=2, gone=1)), ("2-gone", False, dict(messages=3, before=2, gone=1)), ("last-gone", True, dict(messages=1, gone=1))):
        R.append(run("consumer-" + name, "p25", {"quick": 60, "thorough": 360}, Q(q), abs=1, libs=["ros", "pcl"], race=True, threads=True, cflags=("-fthreadsafe-statics",), paths=20000000,
                     params=dict(kw, mode=8, cfg=T1, cfg2=T2)))
    A("qos-0", mode=5, endpoints=0)
    A("qos-1", mode=5, endpoints=1)
    A("qos-2", mode=5, endpoints=2)
    A("qos-3", False, mode=5, endpoints=3)
    A("pcl", mode=6, cfg=C, cfg2=D, messages=2, bad=3)
    A("pcl-3", mode=6, cfg=C, cfg2=D, messages=3, bad=1)
    A("pcl-3-bad", False, mode=6, cfg=C, cfg2=D, messages=3, bad=3)
    A("pcl-4", False, mode=6, cfg=D, cfg2=C, messages=4, bad=1)
    A("pcl-empty", mode=6, cfg=E, cfg2=C, messages=2, bad=1)
    A("pcl-content", mode=6, cfg=C, cfg2=D, messages=1, bad=1, fixed=0)
    return R


PROPS["P25"] = dict(runs=p25(), bounds="""clouds of 0-4 points with 1-8 fields of every type and arbitrary content, header, frame, dimensions and is_dense; one or two clouds through one publisher and subscriber in either order; every way to set the resolution (default, parameter, later
change, a change of another parameter); typed messages whose dimensions, step, offsets, types, names and number of fields are arbitrary 32/8-bit values, whose data is cut at every length, changed in any 1 (2) bytes or belongs to another cloud;
headers of 0-2 (4) fields of arbitrary content; the topic converter in both directions with 1-3 messages, with and without subscribers; 0-2 (3) publishers of every reliability and durability;
2-4 messages to the PCL subscriber, each valid or damaged, with every choice of clouds kept and changed by the user; every schedule of 1 (2) threads of the user that read and release a cloud while the next message is delivered or the subscriber destroyed""",
    outside="ROS itself: declarations with its members stand in for rclcpp, point_cloud_transport and the message packages; threads of the executor; more than one schedule of the encoder's worker (P13); padded rows, big-endian clouds and fields with count > 1; the pluginlib manifest", budget=dict(quick=240, thorough=800))
