"""Scaling of computed quantities into integer maps fits and keeps digits."""
import math
from fractions import Fraction as F
from vf import gen, model, prog, fits
from vf.compare import plane_scaling
from ._g import h
LEVEL = "exploration"
MIN = 1000
T = {"u8": (0, 255), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "f": None, "d": None}


def run(ctx):
    r = ctx.rng
    groups, meta = [], []
    for c in range(ctx.n(8000, 150000)):
        t = r.choice(list(T))
        q = r.random()
        if q < 0.15:
            lo, hi = r.choice([(-1, 1), (0, 360), (-90, 90), (0, 1), (0, 0), (0, 255), (-128, 127), (0, 256), (-32768, 32767), (0, 65535),
                               (0, 65536), (0.5, 0.75), (-2.0**31, 2.0**31 - 1), (0, 2.0**32), (-2.0**63, 2.0**63), (5, 4), (-1e308, 1e308),
                               (float("nan"), 1), (0, float("inf"))])
        else:
            m = 10 ** r.uniform(-8, 20 if t == "i64" else 11 if t == "i32" else 5)
            lo, hi = sorted((r.uniform(-m, m), r.uniform(-m, m)))
            k = r.random()
            if k < 0.2:
                lo, hi = -m, m
            elif k < 0.4:
                lo = 0.0
                hi = m
            elif k < 0.5:
                lo, hi = m, m * (1 + 10 ** r.uniform(-9, 0))
            elif k < 0.6:
                lo, hi = -m, -m * r.random()
        groups.append(["so %s %s %s" % (t, h(lo), h(hi))])
        meta.append((t, float(lo), float(hi), [r.random() for _ in range(3)]))
    ctx.rule = ("one case = one data range and map type for the scaling computation, or one integer typed map of computed quantities "
                "made by the program; distinct by request")
    for (t, lo, hi, us), a, g in zip(meta, ctx.ask("geo", groups), groups):
        z = a[0]
        if z is None:
            continue
        ctx.case(g[0])
        ok, s, o = z
        if T[t] is None:
            ctx.saw("floating_point")
            if not ok or s != 1 or o != 0:
                ctx.violation("float", "floating point maps need no scaling, got %r: %s" % (z, g[0]))
            continue
        mn, mx = T[t]
        if not (math.isfinite(lo) and math.isfinite(hi) and lo <= hi):
            ctx.saw("impossible_range")
            if ok:
                ctx.violation("impossible", "scaling found for an impossible range: %r %s" % (z, g[0]))
            continue
        if not ok:
            ctx.saw("no_fit")
            if F(hi) - F(lo) <= (mx - mn) * F(4, 10) and max(abs(lo), abs(hi)) <= (mx - mn) / 4:
                ctx.violation("gaveup", "no scaling found for a range that fits: %s" % g[0])
            continue
        ctx.saw("fits")
        e = math.log10(s) if s > 0 else -1
        if s < 1 or abs(e - round(e)) > 1e-9:
            ctx.violation("power", "scale %r is not a power of ten of at least one: %s" % (s, g[0]))
            continue
        if hi > lo and (F(hi) - F(lo)) * F(s) * 1000 < mx - mn:
            ctx.violation("digits", "scale %r wastes three or more digits: %s" % (s, g[0]))
        for x in [lo, hi] + [lo + u * (hi - lo) for u in us]:
            v = x * s + o          # double, as done when mapping
            if not (mn - 1 < F(v) < mx + 1):
                ctx.violation("range", "value %r becomes %r, outside of the type: %s" % (x, v, g[0]))
                break
            rec = (F(int(v)) - F(o)) / F(s)
            if abs(rec - F(x)) > F(1) / F(s) + abs(F(x)) * F(2) ** -50 + abs(F(o)) / F(s) * F(2) ** -50:
                ctx.violation("recover", "value %r is recovered as %r: %s" % (x, float(rec), g[0]))
                break
        ctx.sample({"request": g[0], "scale": s, "offset": o})
    cases = []
    full = {"LATITUDE": 180, "LONGITUDE": 360, "MU": 2, "MU0": 2, "PHASE": 2}
    for c in range(ctx.n(300, 4000)):
        b = gen.body(r)
        p = gen.proj(r, b)
        S, N = gen.fix_dims(r, p, *gen.dims(r, 20))
        pls = [gen.virtual_plane(r, b) for _ in range(r.choice([1, 1, 2]))]
        t = r.choice(["LONGLONG", "LONG", "SHORT", "BYTE"])
        if t == "BYTE" and any(q.kind == "LONGITUDE" for q in pls):
            t = "SHORT"
        m = model.Map("o.fits", b, p, S, N, pls, dtype=t)
        cases.append((ctx.newdir(), [m], "%d %s" % (c, m.text())))

    def inspect(m, path, x, st):
        hdu = fits.read(path)[0]
        out = []
        a, z = model.RANGES[hdu.bitpix]
        for j, pl in enumerate(m.planes):
            s, o = plane_scaling(hdu, j + 1, len(m.planes))
            st["recorded_scalings"] = st.get("recorded_scalings", 0) + 1
            if not 0 < s <= 1 or abs(math.log10(s) - round(math.log10(s))) > 1e-6:
                out.append(("bscale", "recorded scale %r of a %s plane" % (s, pl.kind)))
            elif s * (z - a) > full[pl.kind] * 1000:
                out.append(("resolution", "a %s plane is stored with a resolution of %r only" % (pl.kind, s)))
        return out
    prog.run_cases(ctx, cases, "scaled", inspect=inspect)
