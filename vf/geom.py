"""Independent geometry oracles in extended precision (numpy longdouble),
written from the definitions (vectors, map equations), not from MaRC's code."""
import numpy as np

L = np.longdouble
np.seterr(all="ignore")
PI = L("3.14159265358979323846264338327950288")
DEG = PI / 180


class Body:
    def __init__(self, eq, pol, prograde=True):
        self.a, self.c, self.pro = L(eq), L(pol), prograde
        self.e = np.sqrt((self.a - self.c) * (self.a + self.c)) / self.a

    def radius(self, lat):
        """distance centre -> surface at planetocentric latitude (radians)"""
        return self.a * self.c / np.sqrt((self.c * np.cos(lat)) ** 2 + (self.a * np.sin(lat)) ** 2)

    def graphic(self, lat):
        return np.arctan2(self.a ** 2 * np.sin(lat), self.c ** 2 * np.cos(lat))

    def centric(self, latg):
        return np.arctan2(self.c ** 2 * np.sin(latg), self.a ** 2 * np.cos(latg))

    # right-handed frame, east-west sense irrelevant for dot products
    @staticmethod
    def unit(lat, lon):
        return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat) + 0 * lon])

    def mu(self, slat, slon, lat, lon, rng):
        p = self.radius(lat) * self.unit(lat, lon)
        n = self.unit(self.graphic(lat), lon)
        o = (rng * self.unit(L(slat), L(slon))).reshape(3, *([1] * (p.ndim - 1)))
        d = o - p
        return (d * n).sum(0) / np.sqrt((d * d).sum(0))

    def mu0(self, slat, slon, lat, lon):
        n = self.unit(self.graphic(lat), lon)
        s = self.unit(L(slat), L(slon)).reshape(3, *([1] * (n.ndim - 1)))
        return (s * n).sum(0)

    def cos_phase(self, olat, olon, slat, slon, lat, lon, rng):
        p = self.radius(lat) * self.unit(lat, lon)
        o = (rng * self.unit(L(olat), L(olon))).reshape(3, *([1] * (p.ndim - 1)))
        s = self.unit(L(slat), L(slon)).reshape(3, *([1] * (p.ndim - 1)))
        d = o - p
        return (d * s).sum(0) / np.sqrt((d * d).sum(0))


def bisect(f, lo, hi, y, inc=True, n=90):
    """vectorised bisection, f monotone"""
    lo = np.full(np.shape(y), lo, dtype=L)
    hi = np.full(np.shape(y), hi, dtype=L)
    for _ in range(n):
        m = (lo + hi) / 2
        up = (f(m) < y) if inc else (f(m) > y)
        lo = np.where(up, m, lo)
        hi = np.where(up, hi, m)
    return (lo + hi) / 2


# ---- projections: each gives lat, lon (radians) for every pixel centre -----

def simple_cyl(b, S, N, lo_lat=-90, hi_lat=90, lo_lon=0, hi_lon=360, graphic=False):
    """lo/hi lat in planetocentric degrees; returns lat(N,S), lon(N,S)"""
    l0, l1 = L(lo_lat) * DEG, L(hi_lat) * DEG
    if graphic:
        l0, l1 = b.graphic(l0), b.graphic(l1)
    m0, m1 = L(lo_lon) * DEG, L(hi_lon) * DEG
    if m0 > m1:
        m0 = m0 - 2 * PI
    elif abs(m0 - m1) < L(1e-13):
        m1 = m1 + 2 * PI
    k = np.arange(N, dtype=L) + L(0.5)
    i = np.arange(S, dtype=L) + L(0.5)
    lat = l0 + k / N * (l1 - l0)
    if graphic:
        lat = b.centric(lat)
    lon = (m1 - i / S * (m1 - m0)) if b.pro else (m0 + i / S * (m1 - m0))
    return np.repeat(lat[:, None], S, 1), np.repeat(lon[None, :], N, 0)


def mercator_y(b, latg):
    t = b.e * np.sin(latg)
    return np.arctanh(np.sin(latg)) - b.e * np.arctanh(t)


def mercator(b, S, N):
    k = np.arange(N, dtype=L) + L(0.5)
    # equal scale in both directions; equator in the middle
    y = (k - L(N) / 2) * (2 * PI / S)
    lat = b.centric(bisect(lambda p: mercator_y(b, p), -PI / 2, PI / 2, y))
    i = np.arange(S, dtype=L) + L(0.5)
    lon = i / S * 2 * PI
    if b.pro:
        lon = 2 * PI - lon
    return np.repeat(lat[:, None], S, 1), np.repeat(lon[None, :], N, 0)


def stereo_rho(b, latg):
    """distance from the (north) pole, up to a constant factor"""
    t = b.e * np.sin(latg)
    # tan(pi/4 - latg/2) * ((1+t)/(1-t))^(e/2)
    return np.tan((PI / 2 - latg) / 2) * np.exp(b.e * np.arctanh(t))


def polar_stereo(b, S, N, max_lat=0.0, north=True):
    ml = b.graphic(L(max_lat) * DEG)
    rmax = stereo_rho(b, ml if north else -ml)
    m = min(S, N)
    X = (np.arange(N, dtype=L) + L(0.5) - L(N) / 2)[:, None]
    Y = (np.arange(S, dtype=L) + L(0.5) - L(S) / 2)[None, :]
    r = np.hypot(X, Y)
    rho = r * 2 * rmax / m
    lat = b.centric(bisect(lambda p: stereo_rho(b, p), -PI / 2, PI / 2, rho, inc=False))
    if not north:
        lat = -lat
    ccw = (north and b.pro) or (not north and not b.pro)
    lon = np.arctan2(Y if ccw else -Y, X + 0 * Y)
    return lat, lon


def ortho(b, S, N, sub_lat=0.0, sub_lon=0.0, pa=0.0, kmpp=None, center=None, latlon_center=None):
    """orthographic: returns lat, lon, on-body mask, and a 'margin' (how far
    inside the limb the ray passes, dimensionless discriminant)"""
    polar = abs(abs(sub_lat) - 90) < 1e-9
    phi, lam, th = L(sub_lat) * DEG, L(sub_lon) * DEG, L(pa) * DEG
    if polar:
        # MaRC's documented convention for the polar orthographic case
        lam = L(0)
        phi = PI / 2 if sub_lat > 0 else -PI / 2
    if kmpp is None:
        kmpp = 2 * b.a / (L("0.9") * min(S, N))
    kmpp = L(kmpp)
    # image basis in body frame: observer direction o, "up" u (north projected,
    # rotated by PA counter-clockwise), right r.  Body frame: -y toward the
    # observer's meridian.
    o = np.array([L(0), -np.cos(phi), np.sin(phi)])
    up0 = np.array([L(0), np.sin(phi), np.cos(phi)])
    r0 = np.array([L(1), L(0), L(0)])
    up = up0 * np.cos(th) + r0 * np.sin(th)
    rt = r0 * np.cos(th) - up0 * np.sin(th)
    if polar:
        # the meridian of longitude zero points up
        up = np.array([L(0), L(-1), L(0)])
        rt = np.array([L(-1) if sub_lat > 0 else L(1), L(0), L(0)])
        o = np.array([L(0), L(0), L(1) if sub_lat > 0 else L(-1)])
    def body_lon(x, y):
        l = np.arctan2(x, -y)     # angle from the observer's meridian
        return l
    if latlon_center is not None:
        la, lo = L(latlon_center[0]) * DEG, L(latlon_center[1]) * DEG
        d = (lam - lo) if b.pro else (lo - lam)
        R = b.radius(la)
        p = np.array([R * np.cos(la) * np.sin(d), -R * np.cos(la) * np.cos(d), R * np.sin(la)])
        sc = L(S) / 2 - (p * rt).sum() / kmpp
        lc = L(N) / 2 - (p * up).sum() / kmpp
    elif center is not None:
        sc, lc = L(center[0]), L(center[1])
    else:
        sc, lc = L(S) / 2, L(N) / 2
    X = ((np.arange(S, dtype=L) + L(0.5) - sc) * kmpp)[None, :]
    Z = ((np.arange(N, dtype=L) + L(0.5) - lc) * kmpp)[:, None]
    base = [X * rt[j] + Z * up[j] for j in range(3)]
    w = [1 / b.a, 1 / b.a, 1 / b.c]
    A = sum((o[j] * w[j]) ** 2 for j in range(3))
    B = sum(o[j] * base[j] * w[j] ** 2 for j in range(3))
    C = sum((base[j] * w[j]) ** 2 for j in range(3)) - 1
    D = B * B - A * C
    # scale-free margin
    marg = D / A
    on = D > 0
    t = (-B + np.sqrt(np.where(on, D, 0))) / A
    p = [base[j] + t * o[j] for j in range(3)]
    lat = np.arctan2(p[2], np.hypot(p[0], p[1]))
    d = np.arctan2(p[0], -p[1])
    lon = lam - d if b.pro else lam + d
    return lat, lon, on, marg


class Camera:
    """Perspective camera: the definition behind mapping a surface point to a
    source image pixel.  Camera frame: x to the right, y along the optical
    axis away from the observer, z up."""

    def __init__(self, b, sub_lat, sub_lon, pa, rng, S, N, kmpp=None, arcsec=None, focal=None, scale=None,
                 center=None, latlon_center=None, oa=None):
        self.b = b
        self.phi, self.lam, self.th = L(sub_lat) * DEG, L(sub_lon) * DEG, L(pa) * DEG
        self.R = L(rng)
        self.oa = (L(S) / 2, L(N) / 2) if oa is None else (L(oa[0]), L(oa[1]))
        u = np.array([-np.sin(self.th), L(0), np.cos(self.th)])  # image direction of north
        y = np.array([L(0), L(1), L(0)])
        f_px = None
        if arcsec is not None:
            kmpp = PI / 648000 * L(arcsec) * self.R
        elif focal is not None:
            f_px = L(focal) * L(scale)
            kmpp = self.R / np.sqrt((self.oa[0] - L(center[0])) ** 2 + (self.oa[1] - L(center[1])) ** 2 + f_px ** 2) \
                if center is not None else None
        self.ok = True
        robs = np.array([L(0), -self.R * np.cos(self.phi), self.R * np.sin(self.phi)])
        self.robs = robs
        nb = np.array([L(0), L(0), L(1)])
        if latlon_center is None:
            kmpp = L(kmpp)
            ro = np.array([(self.oa[0] - L(center[0])) * kmpp, L(0), (L(center[1]) - self.oa[1]) * kmpp])
            mag2 = (ro * ro).sum()
            if mag2 >= self.R ** 2:
                self.ok = False
                return
            nr = np.sqrt(self.R ** 2 - mag2)
            ro[1] = -nr
            rh = ro / np.sqrt((ro * ro).sum())
            # body north in the camera frame: cosB*u + sinB*y with n.rh = sin(phi)
            A, C, Sx = (u * rh).sum(), rh[1], np.sin(self.phi)
            self.A = A
            h = np.hypot(A, C)
            if abs(Sx) > h:
                self.ok = False
                return
            base, dl = np.arctan2(C, A), np.arccos(Sx / h)
            sol = []
            for B in (base + dl, base - dl):
                B = np.arctan2(np.sin(B), np.cos(B))
                if np.cos(B) > 0:
                    sol.append(B)
            self.nsol = len(sol)
            # an observer exactly above a pole, looking at the body centre: the limit of observers close to that
            pole = abs(float(sub_lat)) == 90 and mag2 == 0
            if len(sol) != 1 and not pole:
                self.ok = False
                return
            n = np.cos(sol[0]) * u + np.sin(sol[0]) * y if not pole else -np.sign(Sx) * y
            my = rh - n * (n * rh).sum()
            m = np.sqrt((my * my).sum())
            if m < L(4e-4) and not pole:
                self.ok = False
                return
            yb = -my / m if not pole else np.sign(Sx) * u
            xb = np.cross(yb.astype(L), n.astype(L))
            # rows: body axes in camera coordinates; cam = M^T body
            self.M = np.array([xb, yb, n])
            self.nr = nr
        else:
            la, lo = L(latlon_center[0]) * DEG, L(latlon_center[1]) * DEG
            d = (self.lam - lo) if b.pro else (lo - self.lam)
            r = b.radius(la)
            p = np.array([r * np.cos(la) * np.sin(d), -r * np.cos(la) * np.cos(d), r * np.sin(la)])
            ax = p - robs
            ax = ax / np.sqrt((ax * ax).sum())
            ub = nb - ax * (nb * ax).sum()
            m = np.sqrt((ub * ub).sum())
            if m < L(1e-3):
                self.ok = False
                return
            ub = ub / m                    # body vector of image-north
            # camera: ax -> y ; ub -> u=(-sin th,0,cos th); v = ax x ub ... right-handed (x,y,z)
            rb = np.cross(ax.astype(L), ub.astype(L))   # y x z = x for th = 0
            xb_ = np.cos(self.th) * rb - np.sin(self.th) * ub
            zb_ = np.sin(self.th) * rb + np.cos(self.th) * ub
            # columns: camera axes in body coordinates
            xc = np.cos(self.th) * rb + -np.sin(self.th) * ub
            zc = np.sin(self.th) * rb + np.cos(self.th) * ub
            self.M = np.array([xc, ax, zc]).T    # body = M cam
            self.nr = -(robs * ax).sum()
            if f_px is not None and kmpp is None:
                kmpp = self.nr / f_px
        self.kmpp = L(kmpp)
        self.f = f_px if f_px is not None else self.nr / self.kmpp

    def err_px(self):
        """how far (pixels) double precision can move a point: the orientation
        is badly conditioned when the observer is above a pole"""
        D = float(self.R / self.kmpp)
        e = 2e-14 * D
        if getattr(self, "A", None) is not None:
            c = max(1e-4, float(np.cos(self.phi)))
            e *= 2 / c * max(1.0, 0.09 / c) if c > 1e-4 else 10
        return 1e-6 + e

    def pix(self, lat, lon):
        b = self.b
        d = (self.lam - lon) if b.pro else (lon - self.lam)
        r = b.radius(lat)
        p = [r * np.cos(lat) * np.sin(d) - self.robs[0], -r * np.cos(lat) * np.cos(d) - self.robs[1],
             r * np.sin(lat) - self.robs[2]]
        cam = [sum(self.M[j][i] * p[j] for j in range(3)) for i in range(3)]
        return cam[0] / cam[1] * self.f + self.oa[0], self.oa[1] - cam[2] / cam[1] * self.f

    def on_body(self, s, l, center):
        """does the ray through image position (s,l) hit the body: signed margin"""
        x, z = (L(1) * s - self.oa[0]) / self.f, (self.oa[1] - L(1) * l) / self.f
        v = [x, 1 + 0 * x, z]
        d = [sum(self.M[j][i] * v[i] for i in range(3)) for j in range(3)]
        w = [1 / self.b.a, 1 / self.b.a, 1 / self.b.c]
        A = sum((d[j] * w[j]) ** 2 for j in range(3))
        B = sum(d[j] * self.robs[j] * w[j] ** 2 for j in range(3))
        C = sum((self.robs[j] * w[j]) ** 2 for j in range(3)) - 1
        return (B * B - A * C) / (A * max(C, L(1e-12)))


def wrap360(deg):
    return np.mod(deg, 360)


def ang_diff(a, b):
    """smallest absolute difference of two angles in degrees"""
    d = np.mod(np.asarray(a, dtype=L) - np.asarray(b, dtype=L) + 180, 360) - 180
    return np.abs(d)
