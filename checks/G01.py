"""Spheroid radius, latitude conversions, radii of curvature."""
import math
import numpy as np
from vf import geom
from vf.geom import L, PI
from ._g import h, body, bt, lat
LEVEL = "exploration"
MIN = 2000


def run(ctx):
    r = ctx.rng
    groups, meta = [], []
    for _ in range(ctx.n(3000, 60000)):
        b = body(r)
        la = lat(r)
        groups.append(["body " + bt(b), "radius %s %s" % (bt(b), h(la)), "graphic %s %s" % (bt(b), h(la)),
                       "centric %s %s" % (bt(b), h(la)), "MN %s %s" % (bt(b), h(la)),
                       "graphic %s %s" % (bt(b), h(-la)), "centric %s %s" % (bt(b), h(-la)),
                       "radius %s %s" % (bt(b), h(-la))])
        meta.append((b, la))
    ctx.rule = "one case = one (spheroid, latitude) pair evaluated by the library; distinct by the pair"
    back = []
    res = ctx.ask("geo", groups)
    for (b, la), a in zip(meta, res):
        if any(x is None for x in a):
            continue
        g = geom.Body(b[1], b[2], b[0])
        la_ = L(la)
        ctx.case((b, la))
        ctx.sample({"body": b, "latitude_rad": la, "radius": a[1][0], "graphic": a[2][0]})

        def bad(k, got, want, tol, what):
            if not abs(L(got) - want) <= tol:
                ctx.violation(k, "%s on spheroid eq=%r pol=%r at latitude %r rad: got %r, expected %s"
                              % (what, b[1], b[2], la, got, want))
        e2 = 1 - (L(b[2]) / L(b[1])) ** 2
        cond = float((L(b[1]) / L(b[2])) ** 2)
        eps = 4e-15 * cond + 1e-14
        R = g.radius(la_)
        gl, cl = g.graphic(la_), g.centric(la_)
        bad("radius", a[1][0], R, R * eps, "centric radius")
        bad("graphic", a[2][0], gl, eps, "planetographic latitude")
        bad("centric", a[3][0], cl, eps, "planetocentric latitude")
        bad("odd", a[5][0], -L(a[2][0]), 1e-15, "planetographic latitude of the mirrored point")
        bad("odd", a[6][0], -L(a[3][0]), 1e-15, "planetocentric latitude of the mirrored point")
        bad("even", a[7][0], L(a[1][0]), L(a[1][0]) * 1e-15, "radius of the mirrored point")
        bad("flattening", a[0][2], (L(b[1]) - L(b[2])) / L(b[1]), 1e-15, "flattening")
        bad("eccentricity", a[0][3] ** 2, e2, 1e-15, "squared eccentricity")
        if (a[0][0], a[0][1], bool(a[0][4])) != (b[1], b[2], b[0]):
            ctx.violation("body", "body parameters %r came back as %r" % (b, a[0]))
        # at the surface the radius lies between the two radii
        if not b[2] * (1 - 1e-15) <= a[1][0] <= b[1] * (1 + 1e-15):
            ctx.violation("bounds", "radius %r outside [%r, %r]" % (a[1][0], b[2], b[1]))
        s2 = np.sin(gl) ** 2
        w = 1 - e2 * s2
        Nn = L(b[1]) / np.sqrt(w)
        bad("N", a[4][1], Nn, Nn * eps * 30, "prime vertical radius of curvature")
        M = L(b[1]) * (1 - e2) / w ** L(1.5)
        bad("M", a[4][0], M, M * eps * 60, "meridional radius of curvature")
        back.append((b, la, a[2][0], a[3][0], eps))
        ctx.saw("prograde" if b[0] else "retrograde")
        ctx.saw("sphere" if b[1] == b[2] else "flattened")
    # the two conversions undo each other
    res = ctx.ask("geo", [["centric %s %s" % (bt(b), h(gl)), "graphic %s %s" % (bt(b), h(cl))]
                          for b, la, gl, cl, eps in back])
    for (b, la, gl, cl, eps), a in zip(back, res):
        if None in a:
            continue
        ctx.saw("round_trips")
        for got, what in ((a[0][0], "centric(graphic(x))"), (a[1][0], "graphic(centric(x))")):
            if not abs(got - la) <= 4 * eps:
                ctx.violation("roundtrip", "%s = %r for x = %r on eq=%r pol=%r" % (what, got, la, b[1], b[2]))
