"""Grid images follow the projection."""
import os
import numpy as np
from vf import gen, geom, grid, model, prog, fits
from ._map import factory, request
from ._g import h
LEVEL = "exploration"
MIN = 300

DIV = [5, 6, 7.5, 8, 9, 10, 12, 15, 18, 20, 22.5, 24, 30, 36, 40, 45, 60, 72, 90, 120, 180, 360]


def intervals(r):
    lon = float(r.choice(DIV))
    if r.random() < 0.04:
        lon = r.choice([1.0, 2.0, 3.0, 4.0])
    lat = float(r.choice(DIV + [7, 11, 13, 25, 35, 50, 100])) if r.random() < 0.9 else round(r.uniform(5, 200), 3)
    return lat, lon


def run(ctx):
    r = ctx.rng
    groups, meta = [], []
    for c in range(ctx.n(320, 6000)):
        f, b, p = factory(r)
        S, N = gen.dims(r, 90)
        if c % 25 == 0:            # large maps: lines must have no gaps either
            k = r.choice([300, 700, 1500])
            S, N = r.randint(k // 2, k), r.randint(k // 2, k)
            if "kmpp" in p:
                p["kmpp"] *= 40.0 / min(S, N)
                f = request(b, p)
        S, N = gen.fix_dims(r, p, S, N)
        la, lo = intervals(r)
        groups.append(["grid %s %d %d %s %s" % (f, S, N, h(la), h(lo))])
        meta.append((b, p, S, N, la, lo))
    ctx.rule = ("one case = one grid image (projection, body, intervals, dimensions): every coloured pixel must lie within about a "
                "pixel of a latitude or longitude line of the map, every line must be drawn where it crosses the map; distinct by request")
    ctx.assumptions.append("longitude intervals that divide 360 degrees (the starting meridian of other intervals is not promised)")
    for m, a, g in zip(meta, ctx.ask("mapmon", groups), groups):
        b, p, S, N, la, lo = m
        z = a[0]
        if z is None:
            continue
        ctx.case(g[0])
        if z[0] == "EXC":
            ctx.violation("exception", "%s for %s" % (" ".join(map(str, z)), g[0]))
            continue
        s = str(z[1])[1:]
        if z[0] != S * N or len(s) != 2 * S * N:
            ctx.violation("size", "grid of %r pixels for %dx%d" % (z[0], S, N))
            continue
        img = np.frombuffer(bytes.fromhex(s), dtype=np.uint8).reshape(N, S)
        out, st = grid.judge(geom.Body(b["eq"], b["pol"], b["pro"]), p, S, N, la, lo, img)
        for k, v in st.items():
            ctx.saw(k, v)
        ctx.saw(p["kind"])
        ctx.sample({"request": g[0], "pixels": st})
        for k, t in out:
            ctx.violation("%s:%s" % (p["kind"], k), "%s; %r %r %dx%d intervals %g %g" % (t, b, p, S, N, la, lo))
    # the grid extension written by the program
    cases = []
    for c in range(ctx.n(80, 1200)):
        b = gen.body(r)
        p = gen.proj(r, b)
        if "lon" in p:
            p["lon"] = tuple(v % 360 for v in p["lon"])
        S, N = gen.fix_dims(r, p, *gen.dims(r, 50))
        la, lo = intervals(r)
        gi = r.choice([(la, lo), (lo, lo), (la, None), (None, lo), True])
        m = model.Map("o.fits", b, p, S, N, [model.Plane("LATITUDE")], dtype="DOUBLE", grid=gi)
        cases.append((ctx.newdir(), [m], "prog %d %s" % (c, m.text())))

    def inspect(m, path, x, st):
        hs = fits.read(path)
        g = [q for q in hs[1:] if str(q.kw.get("EXTNAME", "")).upper() == "GRID"]
        if len(g) != 1:
            return [("extension", "%d grid extensions" % len(g))]
        if g[0].axes != [m.S, m.N] or g[0].bitpix != 8:
            return [("extension", "grid extension has axes %r, BITPIX %r" % (g[0].axes, g[0].bitpix))]
        la, lo = m.grid if m.grid is not True else (None, None)
        # unset intervals: the documented default
        out, s = grid.judge(m.gb, m.proj, m.S, m.N, 10.0 if la is None else la, 10.0 if lo is None else lo,
                            np.asarray(g[0].data).reshape(m.N, m.S))
        st["grid_extensions"] = 1
        return [("grid_" + k, t) for k, t in out]
    prog.run_cases(ctx, cases, "program", inspect=inspect)
