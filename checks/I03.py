"""Inverted images are mirrored, flat fields subtracted pixel by pixel."""
import math
import numpy as np
from vf import gen, model, prog
from ._photo import photo_cases, blank_misfit
from ._g import h
LEVEL = "exploration"
MIN = 300


def make(r, d, name, b):
    im, info = gen.photo(r, d, name + ".fits", b, interp=r.choice([None, False, False, True]),
                         invert=r.choice([None, "VERTICAL", "HORIZONTAL", "BOTH"]))
    if im.invert is None or r.random() < 0.6:
        ph, i2 = gen.source_image(r, d, name + "flat.fits", im.S, im.N, r.choice([8, 16, 32, -32, -64]), nan=r.random() < 0.3)
        if info["bitpix"] < 0 and "blank" not in i2 and r.random() < 0.3:       # about the image itself: nearly nothing remains
            import os
            from vf import fits
            ph = np.where(np.isfinite(im.phys), im.phys + np.random.RandomState(r.randrange(2**31)).uniform(-1e-3, 1e-3, im.phys.shape), 0.0)
            fits.write(os.path.join(d, name + "flat.fits"), ph, -64)
        im.flat = (name + "flat.fits", ph)
    return [im]


def run(ctx):
    r = ctx.rng
    # the mirroring itself, every shape
    groups, meta = [], []
    for c in range(ctx.n(600, 6000)):
        S, N = (r.randint(1, 9), r.randint(1, 9)) if c > 80 else (c % 9 + 1, c // 9 + 1)
        v = [r.uniform(-9, 9) for _ in range(S * N)]
        how = r.randint(1, 3)
        groups.append(["inv %d %d %d %s" % (how, S, N, " ".join(map(h, v)))])
        meta.append((how, np.array(v).reshape(N, S)))
    for (how, v), a, g in zip(meta, ctx.ask("geo", groups), groups):
        if a[0] is None:
            continue
        ctx.case(g[0])
        e = v[:, ::-1] if how & 1 else v
        e = e[::-1, :] if how & 2 else e
        ctx.saw("mirrorings")
        if list(a[0]) != list(e.reshape(-1)):
            ctx.violation("mirror", "mirroring %d of %r gave %r" % (how, v.tolist(), a[0]))
    cs = photo_cases(ctx, ctx.n(700, 8000), make, ["DOUBLE", "DOUBLE", "FLOAT", "LONG"])
    prog.run_cases(ctx, cs, "corrected", allow_refusal=blank_misfit)
    # a flat field of another size
    jobs = []
    for c in range(ctx.n(60, 600)):
        b = gen.body(r)
        p = gen.proj(r, b)
        S, N = gen.fix_dims(r, p, *gen.dims(r, 12))
        d = ctx.newdir()
        im = make(r, d, "s0", b)[0]
        a, z = r.choice([(im.S + 1, im.N), (im.S, im.N + 1), (im.S - 1, im.N), (im.S, im.N - 1), (im.N, im.S), (im.S * 2, im.N * 2), (im.N + 3, im.S)])
        if (a, z) == (im.S, im.N) or min(a, z) < 2:
            continue
        ph, _ = gen.source_image(r, d, "wrong.fits", a, z, r.choice([8, 16, 32, -32, -64]))
        im.flat = ("wrong.fits", ph)
        m = model.Map("o.fits", b, p, S, N, [model.Plane("IMAGE", imgs=[im])], dtype="DOUBLE")
        with open(d + "/m.marc", "w") as f:
            f.write(m.text())
        jobs.append((d, m, im, (a, z)))
    for (d, m, im, sz), x in ctx.pmap(lambda j: (j, ctx.marc(j[0], ["m.marc"])), jobs):
        ctx.case("flat %r %r %s" % (sz, (im.S, im.N), m.text()))
        ctx.saw("flat_fields_of_another_size")
        if x.crashed() or x.rc == 0:
            ctx.violation("flatsize", "flat field %r with an image of %r: %s" % (sz, (im.S, im.N), x.crashed() or "accepted"), files=[d])
