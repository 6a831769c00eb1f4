"""Cosines of the emission, incidence and phase angles."""
import math
import numpy as np
from vf import geom
from vf.geom import L, PI
from ._g import h, body, bt, lat, lon
LEVEL = "exploration"
MIN = 2000


def run(ctx):
    r = ctx.rng
    groups, meta = [], []
    for _ in range(ctx.n(4000, 80000)):
        b = body(r)
        if b[2] / b[1] < 0.05:
            b = (b[0], b[1], b[1] * 0.3)
        ol, oo, sl, so = lat(r), lon(r), lat(r), lon(r)
        q = r.random()
        la, lo = lat(r), lon(r)
        if q < 0.15:
            la, lo = ol, oo           # the sub-observer point itself
        elif q < 0.25:
            la, lo = sl, so
        elif q < 0.35:
            la, lo = -ol, oo + math.pi
        if r.random() < 0.1:
            sl, so = ol, oo           # observer in front of the Sun
        R = b[1] * (1.0000001 + 10 ** r.uniform(-6, 8))
        groups.append(["mu %s %s" % (bt(b), " ".join(map(h, (ol, oo, la, lo, R)))),
                       "mu0 %s %s" % (bt(b), " ".join(map(h, (sl, so, la, lo)))),
                       "phase %s %s" % (bt(b), " ".join(map(h, (ol, oo, sl, so, la, lo, R)))),
                       "mu %s %s" % (bt((not b[0],) + b[1:]), " ".join(map(h, (ol, -oo, la, -lo, R))))])
        meta.append((b, ol, oo, sl, so, la, lo, R))
    ctx.rule = "one case = one (spheroid, observer, Sun, surface point) configuration; distinct by its numbers"
    for m, a in zip(meta, ctx.ask("geo", groups)):
        b, ol, oo, sl, so, la, lo, R = m
        if any(x is None for x in a):
            continue
        g = geom.Body(b[1], b[2], b[0])
        A = lambda v: np.array([L(v)])
        want = (g.mu(L(ol), L(oo), A(la), A(lo), L(R))[0], g.mu0(L(sl), L(so), A(la), A(lo))[0],
                g.cos_phase(L(ol), L(oo), L(sl), L(so), A(la), A(lo), L(R))[0])
        # relative accuracy of the line of sight, which is short for close observers
        p = g.radius(A(la)) * g.unit(A(la), A(lo))
        d = (L(R) * g.unit(L(ol), L(oo))).reshape(3, 1) - p
        dist = float(np.sqrt((d * d).sum()))
        tol = (1e-14 + 3e-15 * (b[1] / b[2]) ** 2) * (2 + float(R) / dist) ** 2
        tol = (tol, 1e-13 + 3e-15 * (b[1] / b[2]) ** 2, tol)
        if tol[0] > 1e-6:
            ctx.saw("ill_conditioned_skipped")
            continue
        ctx.case(m)
        ctx.sample({"config": m, "mu_mu0_phase": [x[0] for x in a[:3]]})
        for j, n in enumerate(("emission", "incidence", "phase")):
            got = a[j][0]
            if not isinstance(got, float) or not abs(got) <= 1 + tol[j]:
                ctx.violation("range", "cosine of the %s angle is %r for %r" % (n, got, m))
                continue
            # near +-1 a cosine computed through an angle is still accurate
            if not abs(L(got) - want[j]) <= tol[j]:
                ctx.violation(n, "cosine of the %s angle is %r, expected %s, for %r" % (n, got, want[j], m))
            ctx.saw("%s_%s" % (n, "positive" if got > 0 else "negative"))
        if isinstance(a[3][0], float) and abs(a[3][0] - a[0][0]) > 4 * tol[0]:
            ctx.violation("mirror", "mirroring the longitudes changed the emission cosine from %r to %r for %r"
                          % (a[0][0], a[3][0], m))
