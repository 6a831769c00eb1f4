"""Random but realistic (and hostile) map entries."""
import math, os
import numpy as np
from . import fits, model
from .model import Map, Plane, Img

BODIES = [("Jupiter", 71492.0, 66854.0), ("Saturn", 60268.0, 54364.0), ("Mars", 3396.19, 3376.2),
          ("Earth", 6378.137, 6356.7523142), ("Venus", 6051.8, 6051.8), ("Moon", 1738.1, 1736.0),
          ("Egg", 1000.0, 400.0), ("Ball", 1.0, 1.0), ("Tiny", 0.25, 0.2)]


def body(r):
    n, a, c = r.choice(BODIES)
    if r.random() < 0.25:
        a = round(10 ** r.uniform(-1, 5), 4)
        c = a * r.uniform(0.5, 1)
        n = "B%d" % r.randrange(1000)
    b = dict(name=n, eq=a, pol=c, pro=r.random() < 0.5)
    g = r.random()
    if g < 0.2:
        b["flat"] = 1 - c / a
        b["given"] = r.choice(["eq,flat", "flat,eq"])
    elif g < 0.35:
        b["flat"] = 1 - c / a
        b["given"] = r.choice(["pol,flat", "flat,pol"])
    elif g < 0.5:
        b["given"] = "pol,eq"
    if "flat" in b.get("given", ""):
        b["given"] = {"flat,eq": "eq,flat", "flat,pol": "pol,flat"}.get(b["given"], b["given"])
    return b


def angle(r, lo, hi):
    q = r.random()
    if q < 0.15:
        return float(r.choice([v for v in (lo, hi, 0, 45, 90, 180, 270, -45, 30) if lo <= v <= hi]))
    if q < 0.3:
        return float(r.randint(math.ceil(lo), math.floor(hi)))
    return round(r.uniform(lo, hi), r.choice([1, 3, 9]))


def lat(r, lim=90):
    return angle(r, -lim, lim)


def lon(r):
    return angle(r, 0, 360)


def dims(r, mx=40):
    q = r.random()
    if q < 0.15:
        return r.randint(1, 4), r.randint(1, 4)
    if q < 0.3:
        n = r.randint(2, mx)
        return n, n
    return r.randint(2, mx), r.randint(2, mx)


def simple_c(r):
    p = dict(kind="SIMPLE_C")
    if r.random() < 0.6:
        p["lat_type"] = r.choice(["CENTRIC", "GRAPHIC"])
    if r.random() < 0.6:
        a, b = sorted((lat(r), lat(r)))
        if b - a > 0.5:
            p["lat"] = (a, b)
    if r.random() < 0.6:
        p["lon"] = (lon(r), lon(r)) if r.random() < 0.8 else (angle(r, -360, 360), angle(r, -360, 360))
        a, b = [v % 360 for v in p["lon"]]
        if 0 < abs(a - b) < 0.5:
            del p["lon"]
    q = r.random()
    if q < 0.06:                   # the whole circle, starting elsewhere
        p["lon"] = (lon(r),) * 2
    elif q < 0.16:                 # a narrow strip, anywhere (also across the prime meridian)
        a, w = r.choice([lon(r), 0.0, 360.0]), 10 ** r.uniform(-6, -0.5)
        if r.random() < 0.3:
            a -= w / 2
        p["lon"] = (round(a % 360, 9), round((a + w) % 360, 9))
        if p["lon"][0] == p["lon"][1]:
            del p["lon"]
    if q > 0.92:
        a, w = lat(r, 89), 10 ** r.uniform(-6, -0.5)
        p["lat"] = (round(a, 9), round(a + w, 9))
    return p


def mercator(r):
    return dict(kind="MERCATOR")


def p_stereo(r):
    p = dict(kind="P_STEREO")
    if r.random() < 0.85:
        p["pole"] = r.choice(["NORTH", "SOUTH", "N", "S"])
        if r.random() < 0.7:
            n = p["pole"][0] == "N"
            m = abs(angle(r, 0, 85))
            if r.random() < 0.2:
                m = -min(m, 60.0)
            p["max_lat"] = float(m if n else -m) + 0.0
    return p


def visibility(b, sub, q):
    """cosine of the emission angle at q seen from very far above sub (degrees)"""
    R = math.radians
    g = math.atan2((b["eq"] / b["pol"]) ** 2 * math.sin(R(q[0])), math.cos(R(q[0])))
    return (math.sin(g) * math.sin(R(sub[0])) + math.cos(g) * math.cos(R(sub[0])) * math.cos(R(q[1] - sub[1])))


def near_limb(r, b, sub, side):
    """a place just visible (side 1) or just hidden (-1) from sub"""
    for _ in range(200):
        q = (round(r.uniform(-89, 89), 4), round(r.uniform(0, 360), 4))
        # walk in longitude (or latitude) to the limb
        if side * visibility(b, sub, q) <= 2e-3:
            continue
        o = (round(r.uniform(-89, 89), 4), q[1]) if r.random() < 0.5 else (q[0], q[1] + 180)
        if side * visibility(b, sub, o) > 0:
            continue
        for _ in range(40):
            m = ((q[0] + o[0]) / 2, (q[1] + o[1]) / 2)
            if side * visibility(b, sub, m) > 2e-3:
                q = m
            else:
                o = m
        q = (round(q[0], 6), round(q[1] % 360, 6))
        if side * visibility(b, sub, q) > 1e-3:
            return q
    return None


def ortho(r, b):
    p = dict(kind="ORTHO")
    q = r.random()
    if q < 0.08:
        return p
    if q < 0.14:
        p["pa"] = angle(r, -360, 360)
        return p
    if q < 0.2:
        p["kmpp"] = b["eq"] / r.uniform(5, 40)
        return p
    if q < 0.26:
        p["center"] = tuple(r.choice([r.uniform(-5, 40)] * 5 + [0.0]) for _ in range(2))
        return p
    p["sub"] = (lat(r, 89), lon(r))
    if r.random() < 0.15:
        p["sub"] = (r.choice([90.0, -90.0]), lon(r))
    elif r.random() < 0.1:                # close to a pole, but not above it
        p["sub"] = (round(math.copysign(90 - 10 ** -r.uniform(0, 8), r.random() - .5), 9), lon(r))
    if q < 0.36:
        return p
    p["pa"] = angle(r, -360, 360)
    if q < 0.46:
        return p
    p["kmpp"] = b["eq"] / r.uniform(3, 40)
    if q < 0.6:
        return p
    if r.random() < 0.6:
        p["center"] = tuple(r.choice([round(r.uniform(-5, 40), 3)] * 5 + [0.0]) for _ in range(2))
    elif abs(p["sub"][0]) == 90:
        p["llc"] = (round(math.copysign(r.uniform(20, 90), p["sub"][0]), 4), lon(r))
    elif abs(p["sub"][0]) < 89.5:
        # a point near the sub-observer point is always visible
        la = max(-89, min(89, p["sub"][0] + r.uniform(-25, 25)))
        p["llc"] = (round(la, 4), round((p["sub"][1] + r.uniform(-25, 25)) % 360, 4))
        if r.random() < 0.5:
            p["llc"] = near_limb(r, b, p["sub"], 1) or p["llc"]
    return p


def proj(r, b, kind=None):
    kind = kind or r.choice(["SIMPLE_C", "MERCATOR", "P_STEREO", "ORTHO"])
    return {"SIMPLE_C": simple_c, "MERCATOR": mercator, "P_STEREO": p_stereo}.get(kind, lambda q: ortho(q, b))(r)


def fix_dims(r, p, S, N):
    """Mercator maps taller than about eleven times their width cannot be
    represented in double precision (they are refused)."""
    if p["kind"] == "MERCATOR" and N > 8 * S:
        N = max(1, 8 * S)
    return S, N


def virtual_plane(r, b):
    k = r.choice(["MU", "MU0", "PHASE", "LATITUDE", "LONGITUDE"])
    return Plane(k, sub=(lat(r), lon(r)), sun=(lat(r), lon(r)),
                 rng=float(b["eq"]) * r.choice([1.5, 3, 10, 1e3, 1e6]) * r.uniform(1, 2),
                 lat_type=r.choice(["CENTRIC", "GRAPHIC", "CENTRIC"]) if k == "LATITUDE" else None,
                 legacy=r.random() < 0.2)


def source_image(r, d, name, S=None, N=None, bitpix=None, nan=True, **opt):
    """Write a FITS source image; returns decoded physical array, extra info"""
    q = r.random()
    if q < 0.06:            # the smallest ones, and thin ones
        S, N = S or r.randint(2, 4), N or r.randint(2, 4)
    elif q < 0.1:
        S, N = (S or 2 + r.randrange(2), N or r.randint(20, 90)) if r.random() < 0.5 else (S or r.randint(20, 90), N or 2 + r.randrange(2))
    S = S or r.randint(4, 36)
    N = N or r.randint(4, 36)
    bp = bitpix or r.choice([8, 16, 32, 64, -32, -64])
    rs = np.random.RandomState(r.randrange(2**31))
    extra = []
    info = dict(bitpix=bp, S=S, N=N)
    if bp > 0:
        lo, hi = {8: (0, 255), 16: (-30000, 30000), 32: (-10**6, 10**6), 64: (-10**9, 10**9)}[bp]
        a = rs.randint(lo, hi, size=(N, S))
    else:
        a = (rs.rand(N, S) * 2000 - 1000)
        if bp == -32:
            a = a.astype(np.float32)
    # values that stand out: zeros, the ends of the type, constant areas, one sign only
    style = r.random()
    if style < 0.15:
        a = np.where(rs.rand(N, S) < 0.3, 0, a).astype(a.dtype)
    elif style < 0.22:
        ends = {8: (0, 255), 16: (-2**15, 2**15 - 1), 32: (-2**31, 2**31 - 1), 64: (-2**52, 2**52), -32: (-1e30, 1e30),
                -64: (-1e200, 1e200)}[bp]
        m = rs.rand(N, S)
        a = np.where(m < 0.1, np.array(ends[0], a.dtype), np.where(m > 0.9, np.array(ends[1], a.dtype), a)).astype(a.dtype)
    elif style < 0.27:
        a = np.full_like(a, a[0, 0])
    elif style < 0.32:
        a = -np.abs(a) if bp != 8 else a
    elif style < 0.36 and bp > 0:
        a = rs.randint(0, 2, size=(N, S))
    elif style < 0.42 and bp < 0:
        a = (a * r.choice([1e-3, 1e-6, 1e-12])).astype(a.dtype)
    phys = a.astype(np.float64)
    if opt.get("scaled"):
        bs, bz = opt["scaled"]
        extra += [("BSCALE", float(bs)), ("BZERO", float(bz))]
        phys = phys * bs + bz
        info["bscale"], info["bzero"] = bs, bz
    if nan and r.random() < 0.6:
        m = rs.rand(N, S) < r.choice([0.02, 0.2])
        if bp > 0:
            blank = int(rs.randint(lo, hi))
            if r.random() < 0.3:            # usual ones
                blank = r.choice({8: [0, 255], 16: [0, -1, -32768], 32: [0, -1, -2**31], 64: [0, -1, -2**52]}[bp])
            m |= a == blank
            a = np.where(m, blank, a)
            extra.append(("BLANK", blank))
            info["blank"] = blank
        else:
            a = np.where(m, np.nan, a)
        phys[m] = np.nan
    if opt.get("limits") and np.isfinite(phys).any():
        # whole numbers, some of them values of the image
        v = np.trunc(phys[np.isfinite(phys)])
        least, most = sorted(float(v[r.randrange(len(v))]) for _ in range(2))
        q = r.random()
        if least < most:
            if q < 0.7:
                opt["DATAMIN"] = info["datamin"] = least
            if q > 0.3:
                opt["DATAMAX"] = info["datamax"] = most
    for k in ("AUTHOR", "ORIGIN", "OBJECT", "BUNIT", "INSTRUME", "TELESCOP", "OBSERVER", "REFERENC", "EQUINOX",
              "DATAMIN", "DATAMAX"):
        if k in opt:
            extra.append((k, opt[k]))
    fits.write(os.path.join(d, name), a, bp, extra)
    return phys, info


def photo(r, d, name, b, S=None, N=None, nan=True, bitpix=None, hard=True, **kw):
    """A source image that shows the body more or less well framed."""
    src = kw.pop("src", None)
    free, src = src is None, dict(src or {})
    if hard and free and r.random() < 0.15:
        src["limits"] = True
    phys, info = source_image(r, d, name, S, N, bitpix, nan, **src)
    N, S = phys.shape
    if b.get("given") == "pol,flat":
        eq = b["pol"] / (1 - b["flat"])
    else:
        eq = b["eq"]
    rng = eq * r.choice([3, 8, 30, 300, 1e4]) * r.uniform(1, 2)
    # apparent radius in pixels
    rad = min(S, N) * r.choice([0.3, 0.45, 0.7, 1.5])
    kmpp = eq / rad
    o = dict(sub=(lat(r, 80), lon(r)), pa=angle(r, -360, 360), sun=(lat(r), lon(r)), rng=rng)
    q = r.random()
    if q < 0.7:
        o["kmpp"] = kmpp
    elif q < 0.85:
        o["arcsec"] = kmpp / rng / (math.pi / 648000)
    else:
        sc = r.choice([1.0, 25.4, 100.0])
        o["lens"] = (rng / kmpp / sc, sc)
    o["center"] = (round(S / 2 + r.uniform(-.3, .3) * S, 3), round(N / 2 + r.uniform(-.3, .3) * N, 3))
    if r.random() < 0.3:
        o["oa"] = (round(S / 2 + r.uniform(-.5, .5) * S, 3), round(N / 2 + r.uniform(-.5, .5) * N, 3))
    # "north" must have a unique solution: keep away from the degenerate set
    if hard:
        if r.random() < 0.45:
            if r.random() < 0.4:
                o["nib"] = {"all": r.randint(0, max(0, (min(S, N) - 1) // 2 - 1))}
            else:
                o["nib"] = {}
                for k, m in (("left", S), ("right", S), ("top", N), ("bottom", N)):
                    if r.random() < 0.6:
                        o["nib"][k] = r.randint(0, max(0, m // 2 - 1))
                if r.random() < 0.3:        # one side only, beyond the middle
                    k, k2, m = r.choice([("left", "right", S), ("right", "left", S), ("top", "bottom", N), ("bottom", "top", N)])
                    o["nib"][k] = r.randint(m // 2, max(m // 2, m - 3))
                    o["nib"].pop(k2, None)
        o["invert"] = r.choice([None, None, "VERTICAL", "HORIZONTAL", "BOTH"])
        o["interp"] = r.choice([None, None, False, True])
        o["sky"] = r.choice([None, None, False, True])
        if r.random() < 0.35:
            o["emi"] = angle(r, 0, 90)
        o["term"] = r.choice([None, False, True])
        if r.random() < 0.1:
            o["geom_correct"] = False
    o.update(kw)
    im = Img(name, phys, **o)
    im.blank = info.get("blank")
    if "limits" in src:
        im.datamin, im.datamax = info.get("datamin"), info.get("datamax")
    return im, info


def settle(pl):
    """drop limits that contradict those of the plane's only source"""
    im = pl.imgs[0] if len(pl.imgs) == 1 else None
    if im and ((pl.dmin is not None and im.datamax is not None and pl.dmin >= im.datamax)
               or (pl.dmax is not None and im.datamin is not None and pl.dmax <= im.datamin)):
        pl.dmin = pl.dmax = None
