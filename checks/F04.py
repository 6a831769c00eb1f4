"""User-supplied map parameters win, missing ones come from the sources."""
import os
from vf import fits, gen, model, prog
from ._photo import blank_misfit
LEVEL = "exploration"
MIN = 300


def word(r):
    return "".join(r.choice("abcdefgh XYZ0189_.-") for _ in range(r.randint(1, r.choice([30, 30, 30, 180])))).strip() or "w"


def run(ctx):
    r = ctx.rng
    cases, exp = [], {}
    for c in range(ctx.n(900, 12000)):
        b = gen.body(r)
        p = gen.proj(r, b)
        S, N = gen.fix_dims(r, p, *gen.dims(r, 14))
        d = ctx.newdir()
        pls, srcs = [], []
        fl = r.random() < 0.5        # all sources of the same kind (integer or floating point)
        for j in range(r.choice([1, 1, 2, 3])):
            if r.random() < 0.2 and srcs:
                pls.append(gen.virtual_plane(r, b))
                pls[-1].kind, pls[-1].lat_type = "MU0", None
                continue
            ims = []
            for k in range(r.choice([1, 1, 1, 2, 3])):
                src = {}
                for key in ("AUTHOR", "ORIGIN", "OBJECT", "BUNIT", "INSTRUME", "TELESCOP", "OBSERVER", "REFERENC"):
                    if r.random() < 0.5:
                        src[key] = word(r)
                if r.random() < 0.3:
                    src["DATAMIN"] = float(r.randint(-500, 0))
                if r.random() < 0.3:
                    src["DATAMAX"] = float(r.randint(1, 500))
                im, info = gen.photo(r, d, "s%d_%d.fits" % (j, k), b, bitpix=r.choice([-32, -64] if fl else [8, 16, 32, 64]), src=src,
                                     S=8, N=8, emi=None, term=None, nib={}, interp=False, nan=r.random() < 0.5)
                im.datamin, im.datamax = src.get("DATAMIN"), src.get("DATAMAX")
                ims.append(im)
                srcs.append((src, info))
            pl = model.Plane("IMAGE", imgs=ims)
            if r.random() < 0.2:
                pl.dmin = r.randint(-300, -1)
            if r.random() < 0.2:
                pl.dmax = r.randint(1, 300)
            if pl.dmin is not None and im.datamax is not None and pl.dmax is None and pl.dmin >= im.datamax:
                pl.dmin = None
            if len(ims) > 1:
                ctx.saw("mosaic_planes")
            pls.append(pl)
        kw = {}
        if r.random() < 0.4:
            kw["author"] = word(r)
        if r.random() < 0.4:
            kw["origin"] = word(r)
        t = None
        if r.random() < 0.4:
            t = r.choice(["DOUBLE", "FLOAT", "LONGLONG", "LONG", "SHORT", "BYTE"])
            if model.BITPIX[t] > 0 and r.random() < 0.5:
                lo, hi = model.RANGES[model.BITPIX[t]]
                kw["blank"] = r.randint(max(lo, -50), 50)
                # limits must be representable
        if t == "BYTE":
            for q in pls:
                if q.dmin is not None:
                    q.dmin = max(0, q.dmin)
                    if q.dmax is not None and q.dmax <= q.dmin:
                        q.dmax = None
        m = model.Map("o.fits", b, p, S, N, pls, dtype=t, **kw)
        m.want = {"AUTHOR": kw.get("author") or next((s["AUTHOR"] for s, _ in srcs if "AUTHOR" in s), None),
                  "ORIGIN": kw.get("origin") or next((s["ORIGIN"] for s, _ in srcs if "ORIGIN" in s), None),
                  "OBJECT": b["name"]}
        bps = [i["bitpix"] for _, i in srcs]
        m.bp = model.BITPIX[t] if t else (min(bps) if fl else max(bps))
        bl = {i["blank"] for _, i in srcs if "blank" in i}
        m.wb = ("is", kw["blank"]) if "blank" in kw else ("is", next(iter(bl))) if len(bl) == 1 else ("none", None) if not bl else ("any", bl)
        cases.append((d, [m], "%d %s %r" % (c, m.text(), srcs)))
        ctx.saw("type_chosen" if t is None else "type_given")
    ctx.rule = ("one case = one map entry and its source images with random descriptive keywords, blank values, data limits and types; "
                "the produced header against the documented precedence, the data against the resulting limits; distinct by entry and headers")

    def inspect(m, path, x, st):
        h = fits.read(path)[0]
        out = []
        for k, v in m.want.items():
            st["keywords"] = st.get("keywords", 0) + 1
            g = h.kw.get(k)
            if (g is None) != (v is None) or (v is not None and str(g).strip() != v.strip()):
                out.append((k.lower(), "%s is %r, expected %r" % (k, g, v)))
        if h.bitpix != m.bp:
            out.append(("bitpix", "BITPIX %d, expected %d" % (h.bitpix, m.bp)))
        g = h.kw.get("BLANK")
        if h.bitpix < 0:
            if g is not None:
                out.append(("blank", "BLANK in a floating point map"))
        elif m.wb[0] == "is" and g != m.wb[1] or m.wb[0] == "none" and g is not None or m.wb[0] == "any" and g not in m.wb[1] | {None}:
            out.append(("blank", "BLANK is %r, expected %r" % (g, m.wb)))
        return out
    prog.run_cases(ctx, cases, "parameters", inspect=inspect, allow_refusal=blank_misfit)
