"""Numerical building blocks: quadratic roots, root finding, rotations, vectors and matrices."""
import math
from fractions import Fraction as Fr
import numpy as np
from vf.geom import L, PI
from ._g import h
LEVEL = "exploration"
MIN = 3000


def num(r, lo=-6, hi=6):
    q = r.random()
    if q < 0.1:
        return 0.0
    if q < 0.25:
        return float(r.randint(-9, 9))
    return math.copysign(10 ** r.uniform(lo, hi), r.random() - .5)


def quad(ctx, n):
    r = ctx.rng
    req = []
    for _ in range(n):
        q = r.random()
        if q < 0.5:
            a, b, c = (num(r) or 1.0), num(r), num(r)
        else:
            # built from chosen roots, often nearly equal or of very different size
            x1, x2 = num(r), num(r)
            if q < 0.65:
                x2 = x1
            a = num(r, -2, 2) or 1.0
            b, c = -a * (x1 + x2), a * x1 * x2
        req.append((a, b, c))
    for (a, b, c), z in zip(req, ctx.ask("geo", [["quad %s %s %s" % tuple(map(h, q))] for q in req])):
        z = z[0]
        if z is None:
            continue
        ctx.case(("quad", a, b, c))
        A, B, C = Fr(a), Fr(b), Fr(c)
        D = B * B - 4 * A * C
        scale = B * B + abs(4 * A * C)
        if D != 0 and abs(D) < scale * Fr(1, 10 ** 13):
            ctx.saw("quadratic_double_root")
            if z[0]:
                # both answers near -b/2a
                m = -B / (2 * A)
                for x in z[1:]:
                    if not math.isfinite(x) or abs(Fr(x) - m) > abs(m) * Fr(1, 10 ** 5) + Fr(1, 10 ** 200):
                        ctx.violation("quadratic", "roots of %r x^2 + %r x + %r: %r" % (a, b, c, z))
            continue
        if (D >= 0) != bool(z[0]):
            ctx.violation("quadratic", "%r x^2 + %r x + %r: real roots reported %r, discriminant %s" % (a, b, c, z[0], float(D)))
            continue
        if not z[0]:
            ctx.saw("quadratic_no_root")
            continue
        ctx.saw("quadratic_roots")
        if not all(isinstance(x, float) and math.isfinite(x) for x in z[1:]):
            ctx.violation("quadratic", "roots of %r x^2 + %r x + %r: %r" % (a, b, c, z[1:]))
            continue
        s = Fr(math.sqrt(float(D / (A * A)))) if D else Fr(0)
        m = -B / A
        want = sorted([float((m - s) / 2), float((m + s) / 2)])
        # the smaller root without cancellation
        big = max(want, key=abs)
        if big:
            other = float(C / A / Fr(big))
            want = sorted([big, other])
        got = sorted(z[1:])
        for g, w in zip(got, want):
            if abs(g - w) > abs(w) * 1e-6 + 1e-300 and abs(g - w) > max(map(abs, want)) * 1e-6:
                ctx.violation("quadratic", "roots of %r x^2 + %r x + %r: %r, expected %r" % (a, b, c, got, want))
                break
        # the residual is what callers rely on: no cancellation
        for g in got:
            res = A * Fr(g) ** 2 + B * Fr(g) + C
            if abs(res) > Fr(1, 10 ** 11) * (abs(A) * Fr(g) ** 2 + abs(B * Fr(g)) + abs(C)):
                ctx.violation("quadratic", "root %r of %r x^2 + %r x + %r leaves a relative residual of %g"
                              % (g, a, b, c, float(res / (abs(A) * Fr(g) ** 2 + abs(B * Fr(g)) + abs(C)))))
                break
    ctx.sample({"quadratic": req[0]})


def root(ctx, n):
    r = ctx.rng
    groups, meta = [], []
    for _ in range(n):
        c = num(r, -3, 2)
        span = 10 ** r.uniform(-2, 2)
        s, k, t, w, e, hh = 0.0, 0.0, 0.0, 1.0, 0.0, 1.0
        q = r.random()
        if q < 0.4:
            s = 10 ** r.uniform(-1, 1)
        if q > 0.25:
            k = 10 ** r.uniform(-1, 1)
        if r.random() < 0.5:
            t, w = 10 ** r.uniform(-1, 2), 10 ** r.uniform(0, 3) / span
        if r.random() < 0.4:
            e, hh = 10 ** r.uniform(-2, 1), span * r.uniform(0.1, 2)
        if s == k == t == e == 0:
            s = 1.0
        sg = r.choice([1, 1, -1])
        s, k, t, e = s * sg, k * sg, t * sg, e * sg
        lo, hi = c - span * r.random(), c + span * (r.random() + 0.01)

        up = 0.0 if r.random() < 0.5 else num(r, -2, 3)

        def f(x, c=c, s=s, k=k, t=t, w=w, e=e, hh=hh, up=up):
            z = x - c
            return s * z + k * z ** 3 + t * math.atan(w * z) + e * math.expm1(z / hh) + up
        mode = r.choice([1, 1, 1, 1, 1, 2, 3])
        x = {2: lo, 3: hi}.get(mode) or r.choice([c if lo < c < hi else (lo + hi) / 2, lo + (hi - lo) * 1e-6]
                                                 + [lo + (hi - lo) * r.uniform(1e-6, 1 - 1e-6)] * 8)
        y = f(x)
        groups.append(["root %d " % mode + " ".join(map(h, (y, lo, hi, c, s, k, t, w, e, hh, up)))])
        meta.append((f, y, lo, hi, x))
    for (f, y, lo, hi, x), z, g in zip(meta, ctx.ask("geo", groups), groups):
        z = z[0]
        if z is None:
            continue
        ctx.case(("root", g[0]))
        ctx.saw("root_searches")
        if z[0] == "EXC":
            ctx.violation("root", "root search failed although the root %r lies in [%r, %r]: %s" % (x, lo, hi, g[0]))
            continue
        if not (isinstance(z[0], float) and lo <= z[0] <= hi):
            ctx.violation("root", "root %r outside [%r, %r]: %s" % (z[0], lo, hi, g[0]))
            continue
        ctx.saw("root_evaluations", z[1])
        # closeness in x or in f
        if abs(z[0] - x) > 1e-7 * max(hi - lo, abs(x)) and abs(f(z[0]) - y) > 1e-9 * max(abs(f(lo)), abs(f(hi)), 1e-300):
            ctx.violation("root", "f(%r) = %r, wanted %r (root %r in [%r, %r]): %s" % (z[0], f(z[0]), y, x, lo, hi, g[0]))
    ctx.sample({"root_request": groups[0][0]})


def linear(ctx, n):
    r = ctx.rng
    groups, meta = [], []

    def v(k):
        return [num(r, -3, 3) for _ in range(k)]
    for _ in range(n):
        k = r.choice(["rot", "mul", "mops", "vops", "mag"])
        if k == "rot":
            ax, g, a = r.choice("xyz"), r.choice([r.uniform(-7, 7), 0.0, math.pi / 2, math.pi]), v(3)
            groups.append(["rot %s %s %s" % (ax, h(g), " ".join(map(h, a)))])
            meta.append((k, ax, g, a))
        elif k == "mul":
            a, b = v(6), v(12)
            groups.append(["mul " + " ".join(map(h, a + b))])
            meta.append((k, a, b))
        elif k in ("mops", "vops"):
            m = 6 if k == "mops" else 3
            a, b, x = v(m), v(m), num(r)
            if r.random() < 0.5:
                b = list(a)
                if r.random() < 0.6:        # they differ in one element only
                    i = r.randrange(m)
                    b[i] = b[i] * (1 + r.choice([1e-15, -1e-9, 1e-3])) if b[i] else 1e-12
                    ctx.saw("one_element_differs")
            groups.append([k + " " + " ".join(map(h, a + b + [x]))])
            meta.append((k, a, b, x))
        else:
            m = r.choice([1, 2, 3, 5])
            a = v(m)
            if not any(a):
                a[0] = -2.0
            if m < 4 and r.random() < 0.3:      # lengths whose squares leave the range of numbers
                q = 10.0 ** r.choice([-200, -170, 160, 200, 290])
                a = [x * q for x in a]
                ctx.saw("extreme_lengths")
            groups.append(["mag%d " % m + " ".join(map(h, a))])
            meta.append((k, a))
    for m, z in zip(meta, ctx.ask("geo", groups)):
        z = z[0]
        if z is None:
            continue
        k = m[0]
        ctx.case(m)
        ctx.saw(k)
        z = [float(x) for x in z]

        def same(name, got, want, tol=1e-12):
            sc = max([abs(x) for x in want] + [0]) * tol + (1e-300 if name != "magnitude" else 0)
            if len(got) != len(want) or any(not abs(g - w) <= sc for g, w in zip(got, want)):
                ctx.violation(name, "%r: got %r, expected %r" % (m, got, want))
        if k == "rot":
            _, ax, g, a = m
            c, s = math.cos(g), -math.sin(g)  # the axes are rotated, not the vector
            R = {"x": [[1, 0, 0], [0, c, -s], [0, s, c]], "y": [[c, 0, s], [0, 1, 0], [-s, 0, c]],
                 "z": [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[ax]
            w = [sum(R[i][j] * a[j] for j in range(3)) for i in range(3)]
            tol = 1e-12
            sc = max(map(abs, a)) or 1
            same("rotation", [x / sc for x in z[:3]], [x / sc for x in w])
            same("rotation matrix", z[3:12], [x for q in R for x in q])
            same("rotation matrix", [x / sc for x in z[12:15]], [x / sc for x in w])
            same("rotation inverse", [x / sc for x in z[15:18]], [x / sc for x in a])
        elif k == "mul":
            A, B = np.array(m[1]).reshape(2, 3), np.array(m[2]).reshape(3, 4)
            same("product", z, list((A @ B).ravel()), 1e-10)
        elif k in ("mops", "vops"):
            _, a, b, x = m
            n_ = len(a)
            same("sum", z[:n_], [p + q for p, q in zip(a, b)])
            same("difference", z[n_:2 * n_], [p - q for p, q in zip(a, b)])
            same("scaled", z[2 * n_:3 * n_], [p * x for p in a])
            same("scaled", z[3 * n_:4 * n_], [p * x for p in a])
            rest = z[4 * n_:]
            if k == "mops":
                same("transpose", rest[:6], list(np.array(a).reshape(2, 3).T.ravel()))
                rest = rest[6:]
            else:
                d = math.fsum(p * q for p, q in zip(a, b))
                if abs(rest[0] - d) > 1e-12 * math.fsum(abs(p * q) for p, q in zip(a, b)) + 1e-300:
                    ctx.violation("dot", "%r: %r" % (m, rest[0]))
                rest = rest[1:]
            if (rest[0] != 0) != (a == b) or (rest[1] != 0) != (a != b):
                ctx.violation("equality", "%r: %r" % (m, rest))
            if k == "mops" and rest[2:] != [1.0, 1.0]:
                ctx.violation("index", "%r: elements by checked index, indices out of range refused: %r" % (m, rest[2:]))
        else:
            a = m[1]
            w = math.hypot(*a)
            same("magnitude", z[:1], [w])
            same("unit", z[1:1 + len(a)], [x / w for x in a])
            if z[1 + len(a):] != [1.0, 1.0, 1.0]:
                ctx.violation("index", "%r: elements by checked index, indices out of range refused: %r" % (m, z[1 + len(a):]))


def gll(ctx, n):
    """the lens distortion correction and its inverse"""
    r = ctx.rng
    groups = []
    meta = []
    for _ in range(n):
        S = r.choice([400, 800, 801, 200, 1024])
        l, s = r.uniform(-200, 1000), r.uniform(-200, 1000)
        if r.random() < 0.1:
            l = s = 400.0 if S > 400 else 200.0
        groups.append(["gll %d %s %s" % (S, h(l), h(s))])
        meta.append((S, l, s))
    for (S, l, s), z in zip(meta, ctx.ask("geo", groups)):
        z = z[0]
        if z is None:
            continue
        ctx.case(("gll", S, l, s))
        ctx.saw("lens_corrections")
        k = 2 if S <= 400 else 1
        x, y = s * k - 400, l * k - 400
        f = 1 + 6.58e-9 * (x * x + y * y)
        w = ((y * f + 400) / k, (x * f + 400) / k)
        if max(abs(z[0] - w[0]), abs(z[1] - w[1])) > 1e-8:
            ctx.violation("lens", "object to image of line %r sample %r (%d samples): %r expected %r" % (l, s, S, z[:2], w))
        for a, b in ((2, 3), (6, 7)):
            if max(abs(z[a] - l), abs(z[b] - s)) > 1e-6:
                ctx.violation("lens", "correction and its inverse do not cancel at line %r sample %r: %r" % (l, s, z))


def run(ctx):
    ctx.rule = "one case = one request (quadratic, root search, rotation, vector/matrix operation, lens correction)"
    quad(ctx, ctx.n(3000, 100000))
    root(ctx, ctx.n(3000, 100000))
    linear(ctx, ctx.n(1500, 40000))
    gll(ctx, ctx.n(300, 5000))
