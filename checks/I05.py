"""Mosaics combine their photos by the chosen averaging."""
from vf import gen, prog
from ._photo import photo_cases, blank_misfit
LEVEL = "exploration"
MIN = 250


def make(r, d, name, b):
    out = []
    # overlapping views
    sub = (gen.lat(r, 60), gen.lon(r))
    for j in range(r.choice([2, 2, 3, 4, 6])):
        kw = {}
        if r.random() < 0.7:
            kw["sub"] = (max(-85.0, min(85.0, round(sub[0] + r.uniform(-30, 30), 3))), round((sub[1] + r.uniform(-40, 40)) % 360, 3))
        if r.random() < 0.6:
            kw["interp"] = False
        if r.random() < 0.6:
            kw["emi"] = None
            kw["term"] = None
            kw["nib"] = {}
        if r.random() < 0.25:      # the sky reaches just beyond what is nibbled
            q = r.randint(8, 24)
            kw.update(S=q, N=q, sky=True, emi=None, term=None, interp=False, kmpp=float((b.get("eq") or b["pol"] / (1 - b["flat"])) / (q * r.uniform(.3, .5))), arcsec=None, lens=None,
                      nib={k: r.randint(1, q // 4) for k in ("left", "right", "top", "bottom") if r.random() < .7})
        out.append(gen.photo(r, d, "%s_%d.fits" % (name, j), b, **kw)[0])
    if r.random() < 0.2:      # the very same photo twice
        out.append(out[0])
    return out


def run(ctx):
    cs = photo_cases(ctx, ctx.n(500, 6000), make, ["DOUBLE", "DOUBLE", "FLOAT", "LONG"],
                     avgs=[None, "NONE", "WEIGHTED", "UNWEIGHTED"], planes=(1, 1, 2))
    prog.run_cases(ctx, cs, "mosaic", allow_refusal=blank_misfit)
