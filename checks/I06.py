"""Planes of computed quantities hold the true value at every pixel."""
from vf import gen, model, prog
LEVEL = "exploration"
MIN = 400


def refuse(x, maps):
    return "Cannot store longitudes in map of chosen data type." in x.err


def run(ctx):
    r = ctx.rng
    cases = []
    for c in range(ctx.n(1200, 15000)):
        b = gen.body(r)
        p = gen.proj(r, b)
        S, N = gen.fix_dims(r, p, *gen.dims(r, 30))
        n = r.choice([1, 1, 2, 3, 5])
        pls = [gen.virtual_plane(r, b) for _ in range(n)]
        t = r.choice(["DOUBLE", "DOUBLE", "FLOAT", "LONGLONG", "LONG", "SHORT", "BYTE"])
        if t in ("DOUBLE", "FLOAT") and r.random() < 0.3:
            for q in pls:
                hi = {"LATITUDE": 90, "LONGITUDE": 360}.get(q.kind, 1)
                q.dmin = round(r.uniform(-hi, 0) if q.kind != "LONGITUDE" else r.uniform(0, 170), 3)
                q.dmax = round(r.uniform(0, hi) if q.kind != "LONGITUDE" else r.uniform(190, 360), 3)
        m = model.Map("o.fits", b, p, S, N, pls, dtype=t)
        for q in pls:
            ctx.saw("plane_" + q.kind)
        ctx.saw("dtype_" + t)
        cases.append((ctx.newdir(), [m], "%d %s" % (c, m.text())))
    ctx.rule = ("one case = one generated map entry of one to five computed planes, any data type, through the sanitized program; every "
                "pixel's value recovered from the stored data and the recorded scaling is compared with an extended precision "
                "evaluation; distinct by entry text")
    prog.run_cases(ctx, cases, "virtual", allow_refusal=refuse)
