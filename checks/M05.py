"""Map assembly: every pixel holds the source's value or the blank value, nothing is lost or invented."""
import collections, math
import numpy as np
from vf import fits, gen
from ._map import factory, TYPES
from ._g import h
LEVEL = "exploration"
MIN = 400


def cast(t, v):
    if t == "d":
        return v
    if t == "f":
        return float(np.float32(v))
    return int(v)          # toward zero


def keep(t, v, lo, hi):
    if v != v:
        return False
    if t in ("f", "d"):
        mx = float(np.finfo(np.float32 if t == "f" else np.float64).max)
        a, b = (-mx if lo is None else lo), (mx if hi is None else hi)
        return a <= v <= b
    a, b = TYPES[t]
    a, b = (a if lo is None else lo), (b if hi is None else hi)
    if math.isinf(v):
        return False
    from fractions import Fraction
    return a <= Fraction(v) <= b


def beyond_type(ctx):
    """the listed finding: limits that lie wholly below the map's data type"""
    d = ctx.newdir()
    fits.write(d + "/s.fits", np.zeros((8, 8)), -64, [("DATAMIN", -895.0), ("DATAMAX", -441.0)])
    with open(d + "/m.marc", "w") as f:
        f.write("MAP: o.fits\nBODY: Mars\nEQ_RAD: 3396\nPOL_RAD: 3376\nROTATION: PROGRADE\nDATA_TYPE: BYTE\nDATA_BLANK: 7\nTYPE: SIMPLE_C\n"
                "SAMPLES: 12\nLINES: 6\n PLANE:\n  IMAGE: s.fits\n    INTERPOLATE: NO\n    REMOVE_SKY: NO\n    SAMPLE_CENTER: 4\n    LINE_CENTER: 4\n"
                "    SUB_OBSERV_LAT: 0\n    SUB_OBSERV_LON: 0\n    POSITION_ANGLE: 0\n    SUB_SOLAR_LAT: 0\n    SUB_SOLAR_LON: 0\n    RANGE: 1000000\n"
                "    KM_PER_PIXEL: 900\n")
    x = ctx.marc(d, ["m.marc"])
    ctx.case("limits beyond the data type")
    if x.crashed():
        ctx.violation("crash", x.crashed() + x.err[-500:], files=[d])
    elif x.rc == 0 and (fits.read(d + "/o.fits")[0].data != 7).any():
        ctx.violation("limits_beyond_type", "zeros are mapped although the data limits are -895 and -441", files=[d])


def run(ctx):
    beyond_type(ctx)
    r = ctx.rng
    groups, meta = [], []
    for c in range(ctx.n(700, 15000)):
        f, b, p = factory(r)
        S, N = gen.fix_dims(r, p, *gen.dims(r, 24))
        t = r.choice(list(TYPES))
        rng_ = TYPES[t]
        span = {"u8": 300, "i16": 40000, "i32": 3e9, "i64": 1e19, "f": 1e6, "d": 1e6}[t] * r.choice([1, 0.5, 0.01])
        lo = hi = blank = None
        if r.random() < 0.6:
            lo = math.floor(r.uniform(-span / 2, 0))
        if r.random() < 0.6:
            hi = math.ceil(r.uniform(0, span / 2))
        if rng_:
            if lo is not None:
                lo = float(max(lo, rng_[0]))
            if hi is not None:
                hi = float(min(hi, rng_[1]))
                if t == "i64":
                    hi = min(hi, 4e18)
            if r.random() < 0.6:
                blank = r.choice([rng_[0], rng_[1], r.randint(*rng_), 0])
            elif t != "i64" and r.random() < 0.2:      # does not exist in the map's type
                blank = r.choice([rng_[0] - 1, rng_[1] + 1, rng_[0] - r.randint(1, 2**40), rng_[1] + r.randint(1, 2**40)])
        elif lo is not None:
            lo = float(lo)
        if hi is not None:
            hi = float(hi)
        planes = r.choice([1, 1, 2, 4])
        modes = [r.choice([0, 0, 0, 0, 1]) for _ in range(planes)]
        nobs = r.choice([0, 1, 2])
        groups.append(["map %s %s %d %d %s %s %s %s %d %d %d %s" % (
            t, f, S, N, "-" if blank is None else blank, "-" if lo is None else h(lo), "-" if hi is None else h(hi),
            h(span), r.randrange(2**40), planes, nobs, " ".join(map(str, modes)))])
        meta.append((t, p["kind"], S, N, lo, hi, blank, planes, modes))
    ctx.rule = ("one case = one sequence of map planes made through one plotting context with a source that answers with values, "
                "limits, neighbours of limits, NaN, infinities, huge values and no data; pixel multiset and recorded extrema are "
                "compared with what the source was seen to answer; distinct by request")
    for m, a, g in zip(meta, ctx.ask("mapmon", groups), groups):
        t, kind, S, N, lo, hi, blank, planes, modes = m
        z = a[0]
        if z is None:
            continue
        ctx.case(g[0])
        if blank is not None and not TYPES[t][0] <= blank <= TYPES[t][1]:
            ctx.saw("impossible_blank")
            if "EXC" not in z:
                ctx.violation("blank", "blank value %d accepted for a map of type %s: %s" % (blank, t, g[0]))
            continue
        if "EXC" in z:
            ctx.violation("exception", "%s for %s" % (" ".join(map(str, z)), g[0]))
            continue
        it = iter(z)
        nx = lambda: next(it)
        kept_all = []
        assert nx() == planes
        for pl in range(planes):
            n = nx()
            ev = [(nx(), float(nx())) for _ in range(n)]
            size = nx()
            px = [nx() for _ in range(size)]
            mapped, mn, mx = nx(), nx(), nx()
            for _ in range(nx()):
                for _ in range(nx()):
                    nx(), nx(), nx()
            ctx.saw("source_reads", n)
            ctx.saw("pixels", size)
            if size != S * N:
                ctx.violation("size", "%d pixels for a %dx%d map: %s" % (size, S, N, g[0]))
                break
            if kind != "ORTHO" and n < S * N:
                ctx.violation("unread", "only %d of %d pixels were looked up: %s" % (n, S * N, g[0]))
            kept = [cast(t, v) for ok, v in ev if ok and keep(t, v, lo, hi)]
            ctx.saw("kept", len(kept))
            ctx.saw("rejected_values", sum(1 for ok, v in ev if ok) - len(kept))
            ctx.saw("without_data", sum(1 for ok, v in ev if not ok))
            bl = "nan" if t in "fd" else (blank if blank is not None else 0)
            want = collections.Counter(kept)
            want[bl] += S * N - len(kept)
            want = +want
            got = collections.Counter("nan" if x != x else x for x in px)
            if got != want:
                extra = list((got - want).items())[:3]
                miss = list((want - got).items())[:3]
                ctx.violation("content", "plane %d of %s: pixels not from the source %r; lost values %r" % (pl + 1, g[0], extra, miss))
            kept_all += kept
            if bool(mapped) != bool(kept_all):
                ctx.violation("mapped", "data mapped reported %r after %d values: %s" % (mapped, len(kept_all), g[0]))
            elif kept_all and (mn != min(kept_all) or mx != max(kept_all)):
                ctx.violation("extrema", "extrema (%r, %r), expected (%r, %r): %s" % (mn, mx, min(kept_all), max(kept_all), g[0]))
        ctx.saw("type_" + t)
        ctx.saw(kind)
        ctx.sample({"request": g[0][:200], "pixels": S * N})
