import math
from vf import geom
from vf.geom import L, DEG, PI


def h(x):
    return float(x).hex()


def body(r):
    """(prograde, eq, pol): real bodies, random ones, spheres and extremely flat ones"""
    q = r.random()
    if q < 0.45:
        from vf import gen
        n, a, c = r.choice(gen.BODIES)
    else:
        a = 10 ** r.uniform(-3, 7)
        c = a * (1 if q < 0.55 else r.uniform(0.02, 1) if q < 0.7 else 1 - 10 ** r.uniform(-12, -1))
    return r.random() < 0.5, float(a), float(c)


def bt(b):
    return "%d %s %s" % (b[0], h(b[1]), h(b[2]))


def lat(r):
    q = r.random()
    if q < 0.08:
        return r.choice([0.0, math.pi / 2, -math.pi / 2, math.pi / 4, -0.0])
    if q < 0.2:
        return math.copysign(math.pi / 2 - 10 ** r.uniform(-12, -1), r.random() - .5)
    if q < 0.3:
        return math.copysign(10 ** r.uniform(-12, -1), r.random() - .5)
    return r.uniform(-math.pi / 2, math.pi / 2)


def lon(r):
    q = r.random()
    if q < 0.1:
        return r.choice([0.0, math.pi, 2 * math.pi, math.pi / 2, -math.pi])
    return r.uniform(-2 * math.pi, 2 * math.pi)
