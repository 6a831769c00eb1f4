"""Bilinear interpolation between the four surrounding source pixels."""
from vf import gen, prog
from ._photo import photo_cases, blank_misfit
LEVEL = "exploration"
MIN = 300


def make(r, d, name, b):
    kw = {}
    if r.random() < 0.5:
        kw["emi"] = None
        kw["term"] = None
        kw["nib"] = {}
    elif r.random() < 0.25:             # only a part beyond the middle of the image remains
        kw["S"], kw["N"] = r.randint(8, 24), r.randint(8, 24)
        k = r.choice(["left", "right", "top", "bottom"])
        n = kw["S"] if k in ("left", "right") else kw["N"]
        kw["nib"] = {k: r.randint(n // 2 + 1, n - 3)}
        kw["emi"] = kw["term"] = None
    return [gen.photo(r, d, name + ".fits", b, interp=True, sky=False, nan=r.random() < 0.4,
                      invert=r.choice([None, None, "VERTICAL", "HORIZONTAL"]), **kw)[0]]


def run(ctx):
    cs = photo_cases(ctx, ctx.n(800, 9000), make, ["DOUBLE", "DOUBLE", "FLOAT", "LONG"])
    prog.run_cases(ctx, cs, "interpolated", allow_refusal=blank_misfit)
