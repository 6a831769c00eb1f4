"""Surface point -> image position, visibility, image position -> surface point, disc mask."""
import math
import numpy as np
from vf import geom, gen
from vf.geom import L, DEG, PI
from ._g import h, bt
LEVEL = "exploration"
MIN = 3000


def config(r):
    q = r.random()
    if q < 0.6:
        _, a, c = r.choice(gen.BODIES)
    else:
        a = 10 ** r.uniform(-1, 5)
        c = a * r.uniform(0.4, 1)
    b = (r.random() < 0.5, float(a), float(c))
    S, N = r.randint(4, 60), r.randint(4, 60)
    eq = b[1]
    o = dict(sub=(gen.lat(r, r.choice([85, 85, 89.9])) if r.random() < 0.9 else
                  math.copysign(90 - 10 ** r.uniform(-1.5, 0.7), r.random() - .5), gen.lon(r)), sun=(gen.lat(r), gen.lon(r)), pa=gen.angle(r, -360, 360),
             rng=eq * r.choice([1.05, 2, 3, 8, 30, 300, 1e4]) * r.uniform(1, 2))
    for k in ("sub", "sun"):              # the same longitude, written differently
        if r.random() < 0.2 and o[k][1] > 0:
            o[k] = (o[k][0], o[k][1] - 360)
    kmpp = eq / (min(S, N) * r.choice([0.2, 0.45, 0.7, 1.5, 4]))
    q = r.random()
    if q < 0.6:
        o["kmpp"] = kmpp
    elif q < 0.8:
        o["arcsec"] = kmpp / o["rng"] / (math.pi / 648000)
    else:
        sc = r.choice([1.0, 25.4, 100.0])
        o["lens"] = (o["rng"] / kmpp / sc, sc)
    o["center"] = (round(S / 2 + r.uniform(-.6, .6) * S, 3), round(N / 2 + r.uniform(-.6, .6) * N, 3))
    if r.random() < 0.1:
        o["center"] = (S / 2, N / 2)
    if r.random() < 0.4:
        o["oa"] = (round(S / 2 + r.uniform(-.7, .7) * S, 3), round(N / 2 + r.uniform(-.7, .7) * N, 3))
    if r.random() < 0.2:                  # the body centre close to the optical axis, or exactly on it
        q = r.choice([0, 10 ** r.uniform(-7, -1)])
        c = o.get("oa", (S / 2, N / 2))
        o["center"] = (c[0] + q * r.uniform(-1, 1), c[1] + q * r.choice([0, r.uniform(-1, 1)]))
        if q == 0 and r.random() < 0.2:
            o["sub"] = (r.choice([-90.0, 90.0]), o["sub"][1])
    if r.random() < 0.4:
        o["emi"] = gen.angle(r, 0, 90)
    if r.random() < 0.4:
        o["term"] = 1
    return b, S, N, o


def text(b, S, N, o):
    t = ["view", bt(b)]
    for k, v in o.items():
        t.append(k)
        if k == "term":
            t.append("1")
        else:
            t += [h(x) for x in (v if isinstance(v, tuple) else (v,))]
    return " ".join(t + ["size %d %d" % (S, N)])


def around(la0, lo0, az, t):
    """points at the angular distance t from a point, in the directions az (radians)"""
    s = math.sin(la0) * np.cos(t) + math.cos(la0) * np.sin(t) * np.cos(az)
    la = np.arcsin(np.clip(s, -1, 1))
    return la, lo0 + np.arctan2(np.sin(az) * np.sin(t) * math.cos(la0), np.cos(t) - math.sin(la0) * s)


def edges(r, f, la0, lo0, n):
    """points close to where f, positive at la0, lo0, changes its sign"""
    az = np.array([r.uniform(0, 2 * math.pi) for _ in range(n)])
    lo, hi = np.zeros(n), np.full(n, math.pi)
    for _ in range(44):
        t = (lo + hi) / 2
        up = f(*around(la0, lo0, az, t)) > 0
        lo, hi = np.where(up, t, lo), np.where(up, hi, t)
    off = np.array([r.choice([-1, 1]) * 10 ** r.uniform(-7, -1.5) for _ in range(n)])
    la, lo = around(la0, lo0, az, np.clip(lo + off, 0, math.pi))
    return [(float(a), float(b)) for a, b in zip(la, lo)]


def run(ctx):
    r = ctx.rng
    npt = 24
    groups, meta = [], []
    for _ in range(ctx.n(1500, 20000)):
        b, S, N, o = config(r)
        g = geom.Body(b[1], b[2], b[0])
        cam = geom.Camera(g, o["sub"][0], o["sub"][1], o["pa"], o["rng"], S, N, kmpp=o.get("kmpp"),
                          arcsec=o.get("arcsec"), focal=o.get("lens", (None,))[0], scale=o.get("lens", (0, None))[1],
                          center=o["center"], oa=o.get("oa"))
        if not cam.ok:
            ctx.saw("no_unique_orientation_skipped")
            continue
        pts = []
        for _ in range(npt):
            if r.random() < 0.7:
                # around the sub-observer point, so that many are visible
                la = max(-90, min(90, o["sub"][0] + r.gauss(0, 45)))
                lo = o["sub"][1] + r.gauss(0, 50)
            else:
                la, lo = math.degrees(math.asin(r.uniform(-1, 1))), r.uniform(0, 360)
            pts.append((math.radians(la), math.radians(lo)))
        # the limb (or the emission angle limit) and the terminator
        s0, s1 = math.radians(o["sub"][0]), math.radians(o["sub"][1])
        lim = math.cos(math.radians(o["emi"])) if "emi" in o else 0.0
        pts += edges(r, lambda a, c: (g.mu(L(s0), L(s1), a.astype(L), c.astype(L), L(o["rng"])) - lim).astype(float), s0, s1, 8)
        if o.get("term"):
            s0, s1 = math.radians(o["sun"][0]), math.radians(o["sun"][1])
            pts += edges(r, lambda a, c: g.mu0(L(s0), L(s1), a.astype(L), c.astype(L)).astype(float), s0, s1, 6)
        req = [text(b, S, N, o)]
        for la, lo in pts:
            req += ["vis %s %s" % (h(la), h(lo)), "l2p %s %s" % (h(la), h(lo))]
        # image positions on and off the disc
        pix = [(r.uniform(-.2, 1.2) * S, r.uniform(-.2, 1.2) * N) for _ in range(8)]
        req += ["p2l %s %s" % (h(x), h(z)) for x, z in pix]
        req.append("mask %d %d" % (S, N))
        groups.append(req)
        meta.append((b, S, N, o, g, cam, pts, pix))
    ctx.rule = ("one case = one surface point or image position under one viewing geometry, judged against a pinhole camera "
                "model in extended precision; distinct by geometry and point")
    ctx.assumptions.append("geometries whose north direction is ambiguous or unattainable are skipped (counted)")
    back, bmeta = [], []
    for m, a in zip(meta, ctx.ask("geo", groups)):
        b, S, N, o, g, cam, pts, pix = m
        if a[0] is None or a[0][0] != 1:
            if a[0] is not None:
                ctx.violation("setup", "valid viewing geometry refused: %r for %r" % (a[0], m[:4]))
            continue
        ctx.saw("geometries")
        if abs(o["sub"][0]) == 90:
            ctx.saw("observer_above_a_pole")
        e = cam.err_px()
        la = np.array([L(p[0]) for p in pts])
        lo = np.array([L(p[1]) for p in pts])
        x, z = cam.pix(la, lo)
        mu = g.mu(L(o["sub"][0]) * DEG, L(o["sub"][1]) * DEG, la, lo, L(o["rng"]))
        lim = np.cos(L(o["emi"]) * DEG) if "emi" in o else L(0)
        vis = mu > lim
        unk = abs(mu - lim) < 1e-9
        if o.get("term"):
            m0 = g.mu0(L(o["sun"][0]) * DEG, L(o["sun"][1]) * DEG, la, lo)
            vis &= m0 > 0
            unk |= abs(m0) < 1e-12
        rt = [a[0] and text(b, S, N, o)]
        rtm = []
        for j in range(len(pts)):
            v, p = a[1 + 2 * j], a[2 + 2 * j]
            if v is None or p is None:
                continue
            ctx.case((b, tuple(sorted(o.items())), pts[j]))
            if unk[j]:
                ctx.saw("marginal_visibility")
                continue
            what = "lat %r lon %r rad with %r on %r image %dx%d" % (pts[j][0], pts[j][1], o, b, S, N)
            if bool(v[0]) != bool(vis[j]):
                ctx.violation("visible", "%s: visible = %r, emission cosine %s limit %s" % (what, v[0], mu[j], lim))
                continue
            ctx.saw("visible" if vis[j] else "hidden")
            if bool(p[0]) != bool(vis[j]):
                # the position may also be refused when it is not on the image
                inside = 0 <= x[j] < S and 0 <= z[j] < N
                ctx.violation("hit", "%s: mapped = %r although visible = %r (position %s %s)" % (what, p[0], v[0], x[j], z[j]))
                continue
            if not vis[j]:
                continue
            if not (abs(L(p[1]) - x[j]) <= e + abs(x[j]) * 1e-9 and abs(L(p[2]) - z[j]) <= e + abs(z[j]) * 1e-9):
                ctx.violation("position", "%s: image position (%r, %r), expected (%s, %s)" % (what, p[1], p[2], x[j], z[j]))
                continue
            ctx.sample({"geometry": o, "body": b, "point": pts[j], "pixel": p[1:]})
            if mu[j] > 0.02:
                rt.append("p2l %s %s" % (h(p[1]), h(p[2])))
                rtm.append((pts[j], float(mu[j])))
        if rtm:
            back.append(rt)
            bmeta.append((m, rtm, e))
        off = 1 + 2 * len(pts)
        for j, (px, pz) in enumerate(pix):
            q = a[off + j]
            if q is None:
                continue
            mar = cam.on_body(L(px), L(pz), o["center"])
            if abs(mar) < max(1e-6, 300 * e):
                continue
            ctx.case((b, tuple(sorted(o.items())), px, pz))
            ctx.saw("positions_on_disc" if mar > 0 else "positions_on_sky")
            if bool(q[0]) != (mar > 0):
                ctx.violation("disc", "image position (%r, %r) reported %s the disc with %r on %r"
                              % (px, pz, "on" if q[0] else "off", o, b))
            elif q[0]:
                xx, zz = cam.pix(np.array([L(q[1])]), np.array([L(q[2])]))
                # only the near side projects back with a visible angle
                mm = g.mu(L(o["sub"][0]) * DEG, L(o["sub"][1]) * DEG, np.array([L(q[1])]), np.array([L(q[2])]), L(o["rng"]))
                if mm[0] < -1e-6 or not (abs(xx[0] - px) < 1e-5 + 10 * e and abs(zz[0] - pz) < 1e-5 + 10 * e):
                    ctx.violation("inverse", "image position (%r, %r) gives lat %r lon %r, which lies at (%s, %s) with %r on %r"
                                  % (px, pz, q[1], q[2], xx[0], zz[0], o, b))
        mk = a[off + len(pix)]
        if mk is not None:
            mk = np.array([c == "1" for c in str(mk[0]).zfill(S * N)]).reshape(N, S) if mk else None
        if mk is not None:
            ii, kk = np.meshgrid(np.arange(S), np.arange(N))
            mar = cam.on_body(ii.astype(L), kk.astype(L), o["center"])
            sure = abs(mar) > max(1e-6, 300 * e)
            badm = sure & (mk != (mar > 0))
            ctx.saw("mask_pixels", int(sure.sum()))
            if badm.any():
                k, i = [int(q[0]) for q in np.nonzero(badm)]
                ctx.violation("mask", "disc mask wrong at sample %d line %d with %r on %r" % (i, k, o, b))
    for (m, rtm, e), a in zip(bmeta, ctx.ask("geo", back)):
        b, S, N, o, g, cam, pts, pix = m
        scale = float(cam.kmpp) / b[2]
        for (p, mu), q in zip(rtm, a[1:]):
            if q is None:
                continue
            ctx.saw("round_trips")
            tol = 1e-7 + 20 * e * scale / mu
            dl = abs(math.remainder(q[2] - p[1], 2 * math.pi)) * math.cos(p[0]) if q[0] else 9
            if not q[0] or abs(q[1] - p[0]) > tol or dl > tol:
                ctx.violation("roundtrip", "lat %r lon %r -> image -> %r with %r on %r" % (p[0], p[1], q, o, b))
