"""The header tells which stored values are data and what they mean."""
import os
import numpy as np
from vf import fits, gen, model, prog
from vf.model import PRESENT, ABSENT
from ._photo import blank_misfit
LEVEL = "exploration"
MIN = 400


def run(ctx):
    r = ctx.rng
    cases = []
    for c in range(ctx.n(900, 15000)):
        b = gen.body(r)
        p = gen.proj(r, b)
        S, N = gen.fix_dims(r, p, *gen.dims(r, 26))
        d = ctx.newdir()
        t = r.choice(["DOUBLE", "FLOAT", "LONGLONG", "LONG", "SHORT", "BYTE"])
        ints = model.BITPIX[t] > 0
        pls = []
        many = r.random() < 0.04
        for j in range(r.randint(10, 13) if many else r.choice([1, 1, 2, 3])):
            if r.random() < 0.6 and not (many and j not in (2, 9)):
                ims = [gen.photo(r, d, "s%d_%d.fits" % (j, k), b, bitpix=r.choice([8, 16, -32, -64]), nan=r.random() < 0.4, emi=None,
                                 interp=r.choice([None, None, True]))[0] for k in range(r.choice([1, 1, 2]))]
                q = model.Plane("IMAGE", imgs=ims)
                if r.random() < 0.4:
                    lo, hi = sorted(r.sample(range(0, 250) if t == "BYTE" else range(-900, 900), 2))
                    if r.random() < 0.7:
                        q.dmin = lo
                    if r.random() < 0.7:
                        q.dmax = hi
                gen.settle(q)
            else:
                q = gen.virtual_plane(r, b)
                if t == "BYTE" and q.kind == "LONGITUDE":
                    q.kind = "MU0"
            pls.append(q)
        kw = {}
        if ints and r.random() < 0.6:
            a, z = model.RANGES[model.BITPIX[t]]
            kw["blank"] = r.choice([a, z, 0, 7, r.randint(a, z)])
        if r.random() < 0.15:
            kw["grid"] = True
            if "lon" in p:
                p["lon"] = tuple(v % 360 for v in p["lon"])
        if many:
            ctx.saw("maps_of_ten_or_more_planes")
        m = model.Map("o.fits", b, p, S, N, pls, dtype=t, **kw)
        ctx.saw("dtype_" + t)
        cases.append((d, [m], "%d %s" % (c, m.text())))
    ctx.rule = ("one case = one produced map: recorded minimum and maximum against the stored data, blank value honoured and recorded, "
                "recovered physical values against an independent evaluation; distinct by entry")

    def inspect(m, path, x, st):
        hs = fits.read(path)
        h = hs[0]
        out = []
        for g in hs[1:]:
            # grid: lines are data, the rest is not
            st["grids"] = 1
            v, bl = np.asarray(g.data).reshape(-1), g.kw.get("BLANK")
            v = v[v != bl] if bl is not None else v
            if len(v) and (g.kw.get("DATAMIN", v.min()) != v.min() or g.kw.get("DATAMAX", v.max()) != v.max()):
                out.append(("grid", "grid: BLANK %r DATAMIN %r DATAMAX %r, values stored %r to %r"
                            % (bl, g.kw.get("DATAMIN"), g.kw.get("DATAMAX"), v.min(), v.max())))
            if len(v) and not (v == 255).all() or bl == 255:
                out.append(("grid", "grid: BLANK %r makes other pixels than those of lines data" % bl))
        kinds = set(q.kind for q in m.planes)
        if kinds <= {"LATITUDE", "LONGITUDE"} and (len(m.planes) == 1 or h.bitpix > 0):
            st["units_checked"] = 1
            if h.kw.get("BUNIT") != "deg":
                out.append(("unit", "BUNIT %r of a map of degrees" % h.kw.get("BUNIT")))
        elif kinds <= {"MU", "MU0", "PHASE"}:
            st["units_checked"] = 1
            if h.kw.get("BUNIT") not in (None, ""):
                out.append(("unit", "BUNIT %r of a map of cosines" % h.kw.get("BUNIT")))
        d = np.asarray(h.data).reshape(-1)
        if h.bitpix < 0:
            if "BLANK" in h.kw:
                out.append(("blank", "BLANK in a floating point map"))
            valid = d[~np.isnan(d)]
            bl = None
        else:
            if m.blank is not None and h.kw.get("BLANK") != m.blank:
                out.append(("blank", "BLANK is %r, the entry says %r" % (h.kw.get("BLANK"), m.blank)))
            bl = h.kw.get("BLANK", 0)
            valid = d[d != bl]
        lo, hi = h.kw.get("DATAMIN"), h.kw.get("DATAMAX")
        if (lo is None) != (hi is None):
            return out + [("extrema", "DATAMIN %r DATAMAX %r" % (lo, hi))]
        if lo is None:
            st["maps_without_data"] = 1
            if len(valid):
                out.append(("extrema", "no DATAMIN/DATAMAX for a map holding %d values" % len(valid)))
            return out
        st["extrema_checked"] = 1

        def same(u, v):
            return abs(float(u) - float(v)) <= 1e-6 * abs(float(v)) if h.bitpix == -32 else \
                abs(float(u) - float(v)) <= 1e-13 * abs(float(v))
        okl = [bl] if bl is not None and (not len(valid) or bl <= valid.min()) else []
        okh = [bl] if bl is not None and (not len(valid) or bl >= valid.max()) else []
        if len(valid):
            okl.append(valid.min())
            okh.append(valid.max())
        if not any(same(lo, v) for v in okl):
            out.append(("datamin", "DATAMIN %r, the least stored value is %r" % (lo, okl)))
        if not any(same(hi, v) for v in okh):
            out.append(("datamax", "DATAMAX %r, the greatest stored value is %r" % (hi, okh)))
        return out
    prog.run_cases(ctx, cases, "meaning", inspect=inspect, allow_refusal=blank_misfit)
