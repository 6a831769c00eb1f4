"""Line/spheroid intersection: where a line of sight meets the body."""
import math
import numpy as np
from vf import geom
from vf.geom import L, PI
from ._g import h, body, bt
LEVEL = "exploration"
MIN = 2000


def run(ctx):
    r = ctx.rng
    groups, meta = [], []
    for _ in range(ctx.n(5000, 100000)):
        b = body(r)
        if b[2] / b[1] < 0.05:
            b = (b[0], b[1], b[1] * 0.2)
        # an observer outside the body, a target near the body
        u = [r.gauss(0, 1) for _ in range(3)]
        if r.random() < 0.15:
            u = [0.0, -1.0, 0.0]
        n = math.sqrt(sum(x * x for x in u))
        R = b[1] * (1.001 + 10 ** r.uniform(-2, 5))
        o = [x / n * R for x in u]
        if r.random() < 0.15 and b[2] < 0.97 * b[1]:   # above a pole, nearer to the centre than the equator is
            z = r.uniform(b[2] * 1.005, b[1])
            o = [u[0] / n * 0.05 * b[2], u[1] / n * 0.05 * b[2], math.copysign(z, u[2])]
            ctx.saw("within_equatorial_radius")
        q = r.random()
        k = 1.0 if q < 0.1 else r.uniform(0, 1.0) if q < 0.6 else r.uniform(0.9, 1.1) if q < 0.8 else r.uniform(0, 3)
        w = [r.gauss(0, 1) for _ in range(3)]
        m = math.sqrt(sum(x * x for x in w))
        t = [w[0] / m * b[1] * k, w[1] / m * b[1] * k, w[2] / m * b[2] * k]
        if r.random() < 0.1:              # close to a pole
            g = 10 ** r.uniform(-8, -2) * b[1]
            t = [w[0] / m * g, w[1] / m * g, math.copysign(b[2], o[2])]
            ctx.saw("near_pole")
        s = 10 ** r.uniform(-3, 3)
        if r.random() < 0.4:              # a unit vector, or a very short or long one
            s = 10 ** r.choice([0, 0, r.uniform(-9, 9)]) / math.sqrt(sum((t[j] - o[j]) ** 2 for j in range(3)))
        d = [(t[j] - o[j]) * s for j in range(3)]
        groups.append(["ell %s %s %s" % (bt(b), " ".join(map(h, o)), " ".join(map(h, d)))])
        meta.append((b, o, d))
    ctx.rule = ("one case = one line of sight from a point outside a spheroid; the reported point must be the one "
                "nearest to the observer, and a miss must be a miss; distinct by the numbers")
    for (b, o, d), a in zip(meta, ctx.ask("geo", groups)):
        a = a[0]
        if a is None:
            continue
        W = np.array([1 / L(b[1]), 1 / L(b[1]), 1 / L(b[2])])
        oo, dd = np.array([L(x) for x in o]) * W, np.array([L(x) for x in d]) * W
        A, B, C = (dd * dd).sum(), (oo * dd).sum(), (oo * oo).sum() - 1
        D = B * B - A * C
        mar = D / (A * C)                  # relative clearance of the limb
        ill = 1e-12 * float(np.sqrt((oo * oo).sum()) ** 2)
        if abs(mar) < 1e-9 + ill / float(C if C > 1e-9 else 1e-9):
            ctx.saw("grazing_skipped")
            if a[0] not in (0, 1):
                ctx.violation("status", "status %r for a grazing line of sight" % (a,))
            continue
        ctx.case((b, tuple(o), tuple(d)))
        hit = D > 0 and B < 0
        if D > 0 and B >= 0:
            ctx.saw("behind_skipped")      # the line continues backwards to the body
            continue
        ctx.saw("hit" if hit else "miss")
        ctx.sample({"body": b, "from": o, "along": d, "answer": a})
        if hit != (a[0] == 0):
            ctx.violation("status", "line of sight from %r along %r at eq=%r pol=%r %s the body, status %r"
                          % (o, d, b[1], b[2], "meets" if hit else "misses", a[0]))
            continue
        if hit:
            k = (-B - np.sqrt(D)) / A
            p = np.array([L(o[j]) + k * L(d[j]) for j in range(3)])
            lat = np.arctan2(p[2], np.hypot(p[0], p[1]))
            lon = np.arctan2(p[0], -p[1])
            tol = 1e-10 + 3e-15 * float(np.sqrt((oo * oo).sum())) ** 2 / max(float(np.sqrt(abs(mar))), 1e-9)
            if not abs(L(a[1]) - lat) <= tol * 10:
                ctx.violation("latitude", "from %r along %r at eq=%r pol=%r: latitude %r, expected %s"
                              % (o, d, b[1], b[2], a[1], lat))
            dl = abs(math.remainder(float(L(a[2]) - lon), 2 * math.pi))
            rho = float(np.hypot(p[0], p[1])) / b[1]      # distance from the axis of rotation
            if not dl * rho <= min(tol * 10, 1e-13 * (float(np.sqrt((oo * oo).sum())) + 1) * (1 + 1 / float(np.sqrt(abs(mar)))) + tol * 10 * rho):
                ctx.violation("longitude", "from %r along %r at eq=%r pol=%r: longitude %r, expected %s"
                              % (o, d, b[1], b[2], a[2], lon))
