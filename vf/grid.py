"""Where the latitude/longitude lines of a grid lie on a map (continuous pixel
coordinates, first pixel covers [0,1]); judges a grid image."""
import numpy as np
from . import geom
from .geom import L, DEG, PI


def forward(b, p, S, N):
    """function (lat, lon radians arrays) -> x, y, ok (float64); ok: on the map's visible side with some margin"""
    k = p["kind"]
    if k == "SIMPLE_C":
        la = p.get("lat", (-90, 90))
        lo = p.get("lon", (0, 360))
        l0, l1 = L(la[0]) * DEG, L(la[1]) * DEG
        if p.get("lat_type") == "GRAPHIC":
            l0, l1 = b.graphic(l0), b.graphic(l1)
        m0, m1 = L(lo[0]) * DEG, L(lo[1]) * DEG
        if m0 > m1:
            m0 -= 2 * PI
        elif abs(m0 - m1) < L(1e-13):
            m1 += 2 * PI

        def f(lat, lon):          # lat in the map's own latitude type
            d = np.mod(lon - m0, 2 * PI)
            x = d / (m1 - m0) * S
            if b.pro:
                x = S - x
            return x, (lat - l0) / (l1 - l0) * N, np.ones(np.shape(x), bool)
        return f
    if k == "MERCATOR":
        def f(lat, lon):
            x = np.mod(lon, 2 * PI) / (2 * PI) * S
            if b.pro:
                x = S - x
            return x, geom.mercator_y(b, b.graphic(lat)) / (2 * PI) * S + L(N) / 2, np.ones(np.shape(x), bool)
        return f
    if k == "P_STEREO":
        north = p.get("pole", "NORTH")[0] == "N"
        ml = b.graphic(L(p.get("max_lat") or 0.0) * DEG)
        rmax = geom.stereo_rho(b, ml if north else -ml)
        ccw = (north and b.pro) or (not north and not b.pro)

        def f(lat, lon):
            g = b.graphic(lat)
            rho = geom.stereo_rho(b, g if north else -g) / rmax * min(S, N) / 2
            return (L(S) / 2 + (1 if ccw else -1) * rho * np.sin(lon), L(N) / 2 + rho * np.cos(lon),
                    np.ones(np.shape(rho), bool))
        return f
    # orthographic
    sub = p.get("sub", (0.0, 0.0))
    polar = abs(abs(sub[0]) - 90) < 1e-9
    phi, lam, th = L(sub[0]) * DEG, L(sub[1]) * DEG, L(p.get("pa", 0.0)) * DEG
    if polar:
        lam = L(0)
    kmpp = L(p["kmpp"]) if "kmpp" in p else 2 * b.a / (L("0.9") * min(S, N))
    o = np.array([L(0), -np.cos(phi), np.sin(phi)])
    up0 = np.array([L(0), np.sin(phi), np.cos(phi)])
    r0 = np.array([L(1), L(0), L(0)])
    up = up0 * np.cos(th) + r0 * np.sin(th)
    rt = r0 * np.cos(th) - up0 * np.sin(th)
    if polar:
        up = np.array([L(0), L(-1), L(0)])
        rt = np.array([L(-1) if sub[0] > 0 else L(1), L(0), L(0)])
        o = np.array([L(0), L(0), L(1) if sub[0] > 0 else L(-1)])

    def pos(lat, lon):
        d = (lam - lon) if b.pro else (lon - lam)
        R = b.radius(lat)
        return [R * np.cos(lat) * np.sin(d), -R * np.cos(lat) * np.cos(d), R * np.sin(lat)]
    if "llc" in p:
        q = pos(L(p["llc"][0]) * DEG, L(p["llc"][1]) * DEG)
        sc = L(S) / 2 - sum(q[j] * rt[j] for j in range(3)) / kmpp
        lc = L(N) / 2 - sum(q[j] * up[j] for j in range(3)) / kmpp
    elif "center" in p:
        sc, lc = L(p["center"][0]), L(p["center"][1])
    else:
        sc, lc = L(S) / 2, L(N) / 2

    def f(lat, lon):
        q = pos(lat, lon)
        n = [q[0] / b.a ** 2, q[1] / b.a ** 2, q[2] / b.c ** 2]
        m = np.sqrt(sum(x * x for x in n))
        vis = sum(n[j] * o[j] for j in range(3)) / m
        return (sc + sum(q[j] * rt[j] for j in range(3)) / kmpp, lc + sum(q[j] * up[j] for j in range(3)) / kmpp, vis)
    return f


def lines(lat_int, lon_int, kind):
    lats = []
    n = -90 + lat_int
    while n < 90 - 1e-9:
        lats.append(n)
        n += lat_int
    lons = []
    m = 360.0
    while m > 1e-9:
        lons.append(m)
        m -= lon_int
    return lats, lons


def judge(b, p, S, N, lat_int, lon_int, img):
    """list of complaints about a grid image (N x S, 0/255); statistics"""
    out, st = [], {}
    f = forward(b, p, S, N)
    ortho = p["kind"] == "ORTHO"
    white = img == 255
    if (~white & (img != 0)).any():
        out.append(("values", "grid pixels hold values other than 0 and 255"))
    lats, lons = lines(lat_int, lon_int, p["kind"])
    if p["kind"] in ("SIMPLE_C", "MERCATOR"):
        return _cylindrical(b, p, S, N, lats, lons, f, white, out, st)
    near = np.zeros((N, S), bool)        # pixels a line may have coloured
    need = []
    # dense enough that steps are well under a pixel
    scale = max(S, N, 30)
    if ortho and "kmpp" in p:
        scale = max(scale, int(4 * float(b.a / L(p["kmpp"]))))
    D = min(20000, 16 * scale)
    long = (np.arange(D, dtype=L) / D) * 2 * PI
    latg = (np.arange(1, D, dtype=L) / D - L(0.5)) * PI
    latg = np.sort(np.concatenate([latg, np.arcsin(np.tanh(np.linspace(-9, 9, D).astype(L)))]))
    paths = [("lat %g" % n, np.full(D, L(n) * DEG), long) for n in lats]
    if ortho:
        pass
    paths += [("lon %g" % m, latg, np.full(len(latg), L(m) * DEG)) for m in lons]
    for name, la, lo in paths:
        x, y, vis = f(la, lo)
        if ortho:
            v_may, v_must = vis > -0.02, vis > 0.12
        else:
            v_may = v_must = vis
        x, y = x.astype(float), y.astype(float)
        ok = np.isfinite(x) & np.isfinite(y) & (np.abs(x) < 1e7) & (np.abs(y) < 1e7)
        xm, ym = x[ok & v_may], y[ok & v_may]
        i, k = np.floor(xm).astype(int), np.floor(ym).astype(int)
        for di in (-1, 0, 1):
            for dk in (-1, 0, 1):
                a, c = i + di, k + dk
                s = (a >= 0) & (a < S) & (c >= 0) & (c < N)
                near[c[s], a[s]] = True
        mu = ok & v_must & (x > 1.0) & (x < S - 1.5) & (y > 1.0) & (y < N - 1.5)
        need.append((name, x[mu], y[mu], la[mu], lo[mu]))
    wrong = white & ~near
    st["white"] = int(white.sum())
    st["black"] = int((~white).sum())
    if wrong.any():
        k, i = [int(q[0]) for q in np.nonzero(wrong)]
        out.append(("stray", "%d grid pixels away from any grid line, first at sample %d line %d" % (int(wrong.sum()), i, k)))
    # completeness: a coloured pixel within one pixel of the line
    grow = np.zeros((N + 2, S + 2), bool)
    for di in (0, 1, 2):
        for dk in (0, 1, 2):
            grow[dk:dk + N, di:di + S] |= white
    grow = grow[1:-1, 1:-1]
    st["line_points"] = 0
    for name, x, y, la, lo in need:
        st["line_points"] += len(x)
        miss = ~grow[np.floor(y).astype(int), np.floor(x).astype(int)]
        if miss.any():
            j = int(np.nonzero(miss)[0][0])
            out.append(("missing", "grid line %s is missing at sample %.2f line %.2f (%d of %d points)"
                        % (name, x[j], y[j], int(miss.sum()), len(x))))
            break
    return out, st


def _cylindrical(b, p, S, N, lats, lons, f, white, out, st):
    """lines are whole rows and columns"""
    if p["kind"] == "MERCATOR":
        period = float(S)
    else:
        lo = p.get("lon", (0, 360))
        w = lo[1] - lo[0]
        if w < 0:
            w += 360
        elif abs(w) < 1e-9:
            w = 360
        period = S * 360.0 / w
    xs = []
    for m in lons:
        x = float(f(L(0.1), L(m) * DEG)[0])
        xs += [x + j * period for j in (-1, 0, 1) if -2 < x + j * period < S + 2]
    ys = [float(f(L(n) * DEG, L(1))[1]) for n in lats]
    cols, rows = np.arange(S), np.arange(N)

    def near(pos, idx):
        """may be coloured: drawn at round(pos) or floor(pos)"""
        q = np.zeros(len(idx), bool)
        for v in pos:
            q |= (idx >= np.floor(v) - 1) & (idx <= np.floor(v) + 1)
        return q
    may = near(ys, rows)[:, None] | near(xs, cols)[None, :]
    st["white"] = int(white.sum())
    st["black"] = int((~white).sum())
    wrong = white & ~may
    if wrong.any():
        k, i = [int(q[0]) for q in np.nonzero(wrong)]
        out.append(("stray", "%d grid pixels away from any grid line, first at sample %d line %d" % (int(wrong.sum()), i, k)))
    st["line_points"] = 0
    for name, pos, n, full in (("latitude", ys, N, white.all(axis=1)), ("longitude", xs, S, white.all(axis=0))):
        for v in pos:
            if 1 < v < n - 1.5:
                st["line_points"] += S + N - n
                a = int(np.floor(v))
                if not full[max(0, a - 1):a + 2].any():
                    out.append(("missing", "%s grid line at pixel coordinate %.2f is missing" % (name, v)))
    return out, st
