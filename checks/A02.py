"""Extrema equal the least and greatest of the history that produced them."""
import math
import numpy as np
from ._g import h
LEVEL = "exploration"
MIN = 1000

RNG = {"u8": (0, 255), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "f": None, "d": None}


def cast(t, v):
    return float(np.float32(v)) if t == "f" else float(v) if t == "d" else int(v)


def clip(t, v):
    if t == "d":
        return v
    if t == "f":
        m = float(np.finfo(np.float32).max)
        return float(np.float32(max(-m, min(m, v))))
    return int(max(RNG[t][0], min(RNG[t][1], v)))


def run(ctx):
    r = ctx.rng
    groups, meta = [], []
    for c in range(ctx.n(6000, 120000)):
        t = r.choice(list(RNG))
        span = RNG[t] or (-1e6, 1e6)
        st = [[None, None] for _ in range(3)]
        req, want, bad = [], [], None

        def val():
            q = r.random()
            if q < 0.2:
                v = r.choice([span[0], span[1], 0])
            elif q < 0.4 and any(x is not None for s in st for x in s):
                v = r.choice([x for s in st for x in s if x is not None])   # repeats
            else:
                v = r.uniform(*span) * r.choice([1, 1, 0.01])
            return cast(t, max(span[0], min(span[1], v)))
        for _ in range(r.randint(1, 18)):
            k = r.choice("uuuuummrcvsLHqqDd")
            a, b = r.randrange(3), r.randrange(3)
            if k == "u":
                v = val()
                req.append("u %d %s" % (a, h(v)))
                st[a] = [v if st[a][0] is None else min(v, st[a][0]), v if st[a][1] is None else max(v, st[a][1])]
            elif k == "m":
                req.append("m %d %d" % (a, b))
                x, y = st[a], st[b]
                st[a] = [y[0] if x[0] is None else x[0] if y[0] is None else min(x[0], y[0]),
                         y[1] if x[1] is None else x[1] if y[1] is None else max(x[1], y[1])]
            elif k == "r":
                req.append("r %d" % a)
                st[a] = [None, None]
            elif k in "cv":
                req.append("%s %d %d" % (k, a, b))
                st[a] = list(st[b])
            elif k == "s":
                req.append("s %d %d" % (a, b))
                st[a], st[b] = st[b], st[a]
            elif k in "LH":
                v = val()
                req.append("%s %d %s" % ({"L": "lo", "H": "hi"}[k], a, h(v)))
                st[a][k == "H"] = v
            elif k == "D":
                # limits given in another type are clipped to what this one holds
                big = r.choice([1, 1, 3, 1e5])
                x, y = sorted((r.uniform(*span) * big, r.uniform(*span) * big))
                req.append("D %d %s %s" % (a, h(x), h(y)))
                st[a] = [clip(t, x), clip(t, y)]
            elif k == "d":
                x, y = [None if r.random() < 0.4 else r.uniform(*span) * 2 for _ in "ab"]
                req.append("d %d %s %s" % (a, "nan" if x is None else h(x), "nan" if y is None else h(y)))
                st[a] = [None if x is None else clip(t, x), None if y is None else clip(t, y)]
            if k == "q" or _ == 0 or r.random() < 0.2:
                v = val()
                req.append("q %d %s" % (a, h(v)))
                lo, hi = st[a]
                both = lo is not None and hi is not None
                want += [int(both and lo <= hi), int(lo is not None), int(hi is not None), float(lo or 0), float(hi or 0),
                         int(lo <= v <= hi) if both else -1]
        if r.random() < 0.08:
            bad = r.choice(["D 0 %s %s" % (h(5), h(4)), "lo 0 nan", "hi 1 nan", "D 1 nan %s" % h(1), "D 2 %s nan" % h(1)])
            if "nan" in bad and bad[0] in "lh" and t not in "fd":
                bad = "D 0 %s %s" % (h(5), h(4))
            req.append(bad)
        groups.append(["ex %s %s" % (t, " ".join(req))])
        meta.append((t, want, bad))
    ctx.rule = ("one case = one history of up to 18 operations (updates, merges, copies, moves, swaps, resets, limits, conversions) on "
                "three extrema objects of one data type, observed in between; distinct by history")
    for (t, want, bad), a, g in zip(meta, ctx.ask("geo", groups), groups):
        z = a[0]
        if z is None:
            continue
        ctx.case(g[0])
        ctx.saw("observations", len(want) // 6)
        ctx.saw("type_" + t)
        if bad:
            ctx.saw("invalid_limits")
            if "EXC" not in z:
                ctx.violation("accepted", "invalid limits accepted: %s" % g[0])
                continue
            z = z[:z.index("EXC")]
        if [float(x) if not isinstance(x, str) else x for x in z] != [float(x) for x in want]:
            ctx.violation("history", "observed %r, expected %r after %s" % (z, want, g[0]))
        ctx.sample({"history": g[0][:300], "observed": z[:12]})
