"""Photo planes hold the source pixel that shows each point, or no data."""
from vf import gen, prog
from ._photo import photo_cases, blank_misfit
LEVEL = "exploration"
MIN = 300


def make(r, d, name, b):
    return [gen.photo(r, d, name + ".fits", b, interp=r.choice([None, False]), invert=None)[0]]


def run(ctx):
    cs = photo_cases(ctx, ctx.n(900, 9000), make, ["DOUBLE", "DOUBLE", "FLOAT", "LONG", "SHORT"], planes=(1, 1, 2), limits=0.2)
    prog.run_cases(ctx, cs, "photo", allow_refusal=blank_misfit)
