"""A reference model of one map entry: emits the MaRC input text for it and
computes, independently of MaRC, what every pixel of the result must be."""
import numpy as np
from . import geom
from .geom import L, DEG, PI

BITPIX = {"BYTE": 8, "SHORT": 16, "LONG": 32, "LONGLONG": 64, "FLOAT": -32, "DOUBLE": -64}
RANGES = {8: (0, 255), 16: (-2**15, 2**15 - 1), 32: (-2**31, 2**31 - 1), 64: (-2**63, 2**63 - 1)}


class Spelled(float):
    """a number together with the way it is written in the map entry"""
    def __new__(cls, value, text):
        v = float.__new__(cls, value)
        v.text = text
        return v


def num(v):
    """a number the MaRC input language accepts"""
    if isinstance(v, Spelled):
        return v.text
    if isinstance(v, str):
        return v
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    s = repr(float(v)).upper()
    return s


# status of a pixel
ABSENT, PRESENT, UNKNOWN = 0, 1, 2


class Img:
    """One source photo of a plane."""
    def __init__(self, fname, phys, **kw):
        self.fname = fname
        self.phys = np.asarray(phys, float)     # decoded physical values, NaN = undefined
        self.N, self.S = self.phys.shape
        self.nib = kw.get("nib", {})            # subset of all/left/right/top/bottom
        self.invert = kw.get("invert")          # None VERTICAL HORIZONTAL BOTH
        self.interp = kw.get("interp")          # None True False
        self.sky = kw.get("sky")
        self.center = kw.get("center")
        self.llc = kw.get("llc")
        self.oa = kw.get("oa")
        self.flat = kw.get("flat")              # (fname, phys)
        self.geom_correct = kw.get("geom_correct")
        self.emi = kw.get("emi")
        self.term = kw.get("term")
        self.sub = kw.get("sub", (0.0, 0.0))
        self.pa = kw.get("pa", 0.0)
        self.sun = kw.get("sun", (0.0, 0.0))
        self.rng = kw.get("rng", 1e6)
        self.rng_text = kw.get("rng_text")
        self.kmpp = kw.get("kmpp")
        self.arcsec = kw.get("arcsec")
        self.lens = kw.get("lens")              # (focal, scale)
        self.def_nib = kw.get("def_nib", (0, 0, 0, 0))  # from the user configuration: l r t b
        self.datamin = kw.get("datamin")
        self.datamax = kw.get("datamax")

    def text(self):
        o = ["  IMAGE: " + self.fname]
        n = self.nib
        if "all" in n:
            o.append("    NIBBLE: %d" % n["all"])
        for k in ("left", "right", "top", "bottom"):
            if k in n:
                o.append("    NIBBLE_%s: %d" % (k.upper(), n[k]))
        if self.invert:
            o.append("    INVERT: " + self.invert)
        for v, k in ((self.interp, "INTERPOLATE"), (self.sky, "REMOVE_SKY")):
            if v is not None:
                o.append("    %s: %s" % (k, "YES" if v else "NO"))
        if self.center is not None:
            o += ["    SAMPLE_CENTER: " + num(self.center[0]), "    LINE_CENTER: " + num(self.center[1])]
        else:
            o += ["    LAT_AT_CENTER: " + num(self.llc[0]), "    LON_AT_CENTER: " + num(self.llc[1])]
        if self.oa is not None:
            o += ["    SAMPLE_OA: " + num(self.oa[0]), "    LINE_OA: " + num(self.oa[1])]
        if self.flat is not None:
            o.append("    FLAT_FIELD: " + self.flat[0])
        if self.geom_correct is not None:
            o.append("    GEOM_CORRECT: " + ("YES" if self.geom_correct else "NO"))
        if self.emi is not None:
            o.append("    EMI_ANG_LIMIT: " + num(self.emi))
        if self.term is not None:
            o.append("    TERMINATOR: " + ("YES" if self.term else "NO"))
        o += ["    SUB_OBSERV_LAT: " + num(self.sub[0]), "    SUB_OBSERV_LON: " + num(self.sub[1]),
              "    POSITION_ANGLE: " + num(self.pa),
              "    SUB_SOLAR_LAT: " + num(self.sun[0]), "    SUB_SOLAR_LON: " + num(self.sun[1]),
              "    RANGE: " + (self.rng_text or num(self.rng))]
        if self.kmpp is not None:
            o.append("    KM_PER_PIXEL: " + num(self.kmpp))
        elif self.arcsec is not None:
            o.append("    ARCSEC_PER_PIX: " + num(self.arcsec))
        else:
            o += ["    FOCAL_LENGTH: " + num(self.lens[0]), "    PIXEL_SCALE: " + num(self.lens[1])]
        return "\n".join(o)

    def nibbles(self):
        l, r, t, b = self.def_nib
        n = self.nib
        if "all" in n:
            l = r = t = b = n["all"]
        return n.get("left", l), n.get("right", r), n.get("top", t), n.get("bottom", b)

    def camera(self, body):
        return geom.Camera(body, self.sub[0], self.sub[1], self.pa, self.rng, self.S, self.N,
                           kmpp=self.kmpp, arcsec=self.arcsec,
                           focal=self.lens[0] if self.lens else None, scale=self.lens[1] if self.lens else None,
                           center=self.center, latlon_center=self.llc, oa=self.oa)

    def pixels(self):
        p = self.phys
        if self.flat is not None:
            p = p - self.flat[1]
        if self.invert in ("HORIZONTAL", "BOTH"):
            p = p[:, ::-1]
        if self.invert in ("VERTICAL", "BOTH"):
            p = p[::-1, :]
        return p

    def eval(self, body, lat, lon):
        """status, value, weight for arrays of surface points"""
        cam = self.camera(body)
        sh = lat.shape
        if not cam.ok:
            return np.full(sh, UNKNOWN), np.full(sh, np.nan), np.full(sh, np.nan)
        mu = body.mu(L(self.sub[0]) * DEG, L(self.sub[1]) * DEG, lat, lon, L(self.rng))
        lim = L(0) if self.emi is None else np.cos(L(self.emi) * DEG)
        with np.errstate(all="ignore"):
            x, z = cam.pix(lat, lon)
        EPS = self.err_px = cam.err_px()
        vis = mu > lim
        unk = np.abs(mu - lim) < 1e-8
        if self.term:
            m0 = body.mu0(L(self.sun[0]) * DEG, L(self.sun[1]) * DEG, lat, lon)
            vis &= m0 > 0
            unk |= np.abs(m0) < 1e-8
        x = np.where(np.isfinite(x), x, -1e9).astype(np.float64)
        z = np.where(np.isfinite(z), z, -1e9).astype(np.float64)
        i, k = np.floor(x).astype(np.int64), np.floor(z).astype(np.int64)
        near = (np.abs(x - np.round(x)) < EPS) | (np.abs(z - np.round(z)) < EPS)
        l, r, t, b = self.nibbles()
        inside = (i >= l) & (i < self.S - r) & (k >= t) & (k < self.N - b)
        ic, kc = np.clip(i, 0, self.S - 1), np.clip(k, 0, self.N - 1)
        pix = self.pixels()
        st = np.where(vis & inside, PRESENT, ABSENT)
        # a point well outside the picture stays ABSENT even when the visibility is marginal
        far = (x < l - 1) | (x > self.S - r + 1) | (z < t - 1) | (z > self.N - b + 1)
        val = pix[kc, ic]
        if self.interp:
            okb = (i >= l) & (i + 1 < self.S - r) & (k >= t) & (k + 1 < self.N - b)
            st = np.where(vis & okb, PRESENT, ABSENT)
            i1, k1 = np.clip(i + 1, 0, self.S - 1), np.clip(k + 1, 0, self.N - 1)
            u, v = x - i, z - k
            c = [pix[kc, ic], pix[kc, i1], pix[k1, ic], pix[k1, i1]]
            w = [(1 - u) * (1 - v), u * (1 - v), (1 - u) * v, u * v]
            nan = [np.isnan(q) for q in c]
            anynan = nan[0] | nan[1] | nan[2] | nan[3]
            allnan = nan[0] & nan[1] & nan[2] & nan[3]
            # undefined neighbours do not contribute
            ws = sum(np.where(nan[j], 0, w[j]) for j in range(4))
            val = sum(w[j] * np.where(nan[j], 0, c[j]) for j in range(4))
            val = np.where(anynan & (ws > 0), val / np.where(ws > 0, ws, 1), val)
            st = np.where((st == PRESENT) & anynan & ~allnan & (ws < 1e-3), UNKNOWN, st)
            st = np.where((st == PRESENT) & allnan, ABSENT, st)
        else:
            st = np.where((st == PRESENT) & np.isnan(val), ABSENT, st)
        wgt = np.minimum(np.minimum(ic, self.S - ic), np.minimum(kc, self.N - kc)).astype(float)
        wunk = np.zeros(sh, bool)
        if self.sky:
            on, off = self.sky_mask(cam)
            mk_on, mk_off = on[kc, ic], off[kc, ic]
            st = np.where((st == PRESENT) & mk_off, ABSENT, st)
            st = np.where((st == PRESENT) & ~mk_on & ~mk_off, UNKNOWN, st)
            lo, hi = self.sky_weight(on, off, l, r, t, b)
            wl, wh = np.minimum(wgt, lo[kc, ic]), np.minimum(wgt, hi[kc, ic])
            wunk = wl != wh
            wgt = np.where(wunk, np.nan, wl)
        st = np.where((near | unk) & ~far, UNKNOWN, st)
        st = np.where(unk & far, ABSENT, st)
        return st, val, wgt

    def sky_mask(self, cam):
        """on: the position (sample, line) of the pixel lies on the disc; off: it does not (as in G04)"""
        ii, kk = np.meshgrid(np.arange(self.S), np.arange(self.N))
        m = cam.on_body(ii.astype(L), kk.astype(L), self.center)
        mt = max(1e-6, 300 * cam.err_px())
        return m > mt, m < -mt

    def sky_weight(self, on, off, l, r, t, b):
        """bounds of the distance to the nearest sky pixel along row/column."""
        big = 10**9
        N, S = on.shape
        lo = np.full((N, S), float(big))
        hi = np.full((N, S), float(big))
        x0, x1, y0, y1 = l, S - r, t, N - b
        for k in range(y0, y1):
            for i in range(x0, x1):
                if not on[k, i]:
                    continue
                for dx, dy in ((-1, 0), (1, 0), (0, -1), (0, 1)):
                    d = 0
                    ii, kk = i, k
                    first = None
                    while True:
                        ii += dx
                        kk += dy
                        d += 1
                        if not (x0 <= ii < x1 and y0 <= kk < y1):
                            break
                        if not on[kk, ii] and first is None:
                            first = d
                        if off[kk, ii]:
                            hi[k, i] = min(hi[k, i], d)
                            break
                    if first is not None:
                        lo[k, i] = min(lo[k, i], first)
        return lo, hi


class Plane:
    def __init__(self, kind, **kw):
        self.kind = kind            # IMAGE MU MU0 PHASE LATITUDE LONGITUDE
        self.imgs = kw.get("imgs", [])
        self.dmin = kw.get("dmin")
        self.dmax = kw.get("dmax")
        self.sub = kw.get("sub", (0.0, 0.0))
        self.sun = kw.get("sun", (0.0, 0.0))
        self.rng = kw.get("rng", 1e6)
        self.lat_type = kw.get("lat_type")      # None CENTRIC GRAPHIC
        self.number = kw.get("number")
        self.swap = kw.get("swap", False)       # DATA_MAX before DATA_MIN
        self.legacy = kw.get("legacy", False)   # with the geometry that older versions wanted

    def text(self):
        o = [" PLANE:" + (" %d" % self.number if self.number is not None else "")]
        if self.dmin is not None:
            o.append("   DATA_MIN: " + num(self.dmin))
        if self.dmax is not None:
            o.insert(1 if self.swap else len(o), "   DATA_MAX: " + num(self.dmax))
        ob = ["    SUB_OBSERV_LAT: " + num(self.sub[0]), "    SUB_OBSERV_LON: " + num(self.sub[1])]
        su = ["    SUB_SOLAR_LAT: " + num(self.sun[0]), "    SUB_SOLAR_LON: " + num(self.sun[1])]
        rg = ["    RANGE: " + num(self.rng)]
        if self.kind == "IMAGE":
            o += [i.text() for i in self.imgs]
        elif self.kind == "MU":
            o += ["  MU:"] + ob + rg + (su if self.legacy else [])
        elif self.kind == "MU0":
            o += ["  MU0:"] + (ob + rg if self.legacy else []) + su
        elif self.kind == "PHASE":
            o += ["  PHASE:"] + ob + rg + su
        elif self.kind == "LATITUDE":
            o.append("  LATITUDE:" + ("" if self.lat_type is None else " LATITUDE_TYPE: " + self.lat_type))
        else:
            o.append("  LONGITUDE")
        return "\n".join(o)


class Map:
    def __init__(self, fname, body, proj, S, N, planes, **kw):
        """body: dict(name, eq, pol, pro[, given]); proj: dict(kind=..., ...)"""
        self.fname, self.body, self.proj, self.S, self.N, self.planes = fname, body, proj, S, N, planes
        self.author = kw.get("author")
        self.origin = kw.get("origin")
        self.comments = kw.get("comments", [])
        self.xcomments = kw.get("xcomments", [])
        self.offset = kw.get("offset")
        self.scale = kw.get("scale")
        self.dtype = kw.get("dtype")
        self.blank = kw.get("blank")
        self.grid = kw.get("grid")      # None, False, True or (lat, lon)
        self.nplanes = kw.get("nplanes")
        self.counted = None
        self.avg = kw.get("avg")        # None NONE WEIGHTED UNWEIGHTED
        self.gb = geom.Body(self.eff_eq(), self.eff_pol(), body["pro"])

    def count_planes(self, r):
        """write the number of planes, and perhaps that of each plane, as older versions required"""
        self.counted = r.choice(["count", "number"])

    def eff_eq(self):
        b = self.body
        if b.get("given") == "pol,flat":
            return L(b["pol"]) / (1 - L(b["flat"]))
        return L(b["eq"])

    def eff_pol(self):
        b = self.body
        if b.get("given") == "eq,flat":
            return L(b["eq"]) * (1 - L(b["flat"]))
        return L(b["pol"])

    def text(self):
        o = ["MAP: " + self.fname]
        if self.author is not None:
            o.append("AUTHOR: " + self.author)
        if self.origin is not None:
            o.append("ORIGIN: " + self.origin)
        o += ["COMMENT: " + c for c in self.comments]
        o += ["XCOMMENT: " + c for c in self.xcomments]
        b = self.body
        o.append("BODY: " + b["name"])
        g = b.get("given", "eq,pol")
        for w in g.split(","):
            o.append({"eq": "EQ_RAD: ", "pol": "POL_RAD: ", "flat": "FLATTENING: "}[w] + num(b[w]))
        o.append("ROTATION: " + ("PROGRADE" if b["pro"] else "RETROGRADE"))
        if self.offset is not None:
            o.append("DATA_OFFSET: " + num(self.offset))
        if self.scale is not None:
            o.append("DATA_SCALE: " + num(self.scale))
        if self.dtype is not None:
            o.append("DATA_TYPE: " + self.dtype)
        if self.blank is not None:
            o.append("DATA_BLANK: %d" % self.blank)
        if self.grid is False:
            o.append("GRID: NO")
        elif self.grid is not None:
            o.append("GRID: YES")
            if self.grid is not True:
                if self.grid[0] == self.grid[1]:
                    o.append("GRID_INTERVAL: " + num(self.grid[0]))
                else:
                    if self.grid[0] is not None:
                        o.append("LAT_GRID_INTERVAL: " + num(self.grid[0]))
                    if self.grid[1] is not None:
                        o.append("LON_GRID_INTERVAL: " + num(self.grid[1]))
        o.append(self.proj_text())
        if self.counted:
            self.nplanes = len(self.planes)
            for i, p in enumerate(self.planes):
                p.number = i + 1 if self.counted == "number" else None
        if self.nplanes is not None:
            o.append("PLANES: %d" % self.nplanes)
        o += ["SAMPLES: %d" % self.S, "LINES: %d" % self.N]
        o += [p.text() for p in self.planes]
        return "\n".join(o) + "\n"

    def proj_text(self):
        p = self.proj
        av = [] if self.avg is None else ["  AVERAGING: " + self.avg]
        k = p["kind"]
        if k == "MERCATOR":
            return "\n".join(["TYPE: MERCATOR"] + (["OPTIONS:"] + av if av else []))
        if k == "SIMPLE_C":
            o = list(av)
            if p.get("lat_type"):
                o.append("  LATITUDE_TYPE: " + p["lat_type"])
            if "lat" in p:
                o += ["  LO_LAT: " + num(p["lat"][0]), "  HI_LAT: " + num(p["lat"][1])]
            if "lon" in p:
                o += ["  LO_LON: " + num(p["lon"][0]), "  HI_LON: " + num(p["lon"][1])]
            return "\n".join(["TYPE: SIMPLE_C"] + (["OPTIONS:"] + o if o else []))
        if k == "P_STEREO":
            if not av and "pole" not in p:
                return "TYPE: P_STEREO"
            o = av + ["  POLE: " + p.get("pole", "NORTH")]
            if p.get("max_lat") is not None:
                o.append("  MAX_LAT: " + num(p["max_lat"]))
            return "\n".join(["TYPE: P_STEREO", "OPTIONS:"] + o)
        o = list(av)
        if "sub" in p:
            o += ["  SUB_OBSERV_LAT: " + num(p["sub"][0]), "  SUB_OBSERV_LON: " + num(p["sub"][1])]
        if "pa" in p:
            o.append("  POSITION_ANGLE: " + num(p["pa"]))
        if "kmpp" in p:
            o.append("  KM_PER_PIXEL: " + num(p["kmpp"]))
        if "center" in p:
            o += ["  SAMPLE_CENTER: " + num(p["center"][0]), "  LINE_CENTER: " + num(p["center"][1])]
        elif "llc" in p:
            o += ["  LAT_AT_CENTER: " + num(p["llc"][0]), "  LON_AT_CENTER: " + num(p["llc"][1])]
        return "\n".join(["TYPE: ORTHO"] + (["OPTIONS:"] + o if o else []))

    # ---- expected results --------------------------------------------
    def coords(self):
        """lat, lon (radians, longdouble), status per pixel"""
        p, b, S, N = self.proj, self.gb, self.S, self.N
        k = p["kind"]
        if k == "MERCATOR":
            la, lo = geom.mercator(b, S, N)
        elif k == "SIMPLE_C":
            a = p.get("lat", (-90, 90))
            o = p.get("lon", (0, 360))
            # longitudes are taken modulo 360 by the input language
            o = tuple(float(np.fmod(v, 360)) + (360 if np.fmod(v, 360) < 0 else 0) for v in o) if "lon" in p else o
            la, lo = geom.simple_cyl(b, S, N, a[0], a[1], o[0], o[1], p.get("lat_type") == "GRAPHIC")
        elif k == "P_STEREO":
            la, lo = geom.polar_stereo(b, S, N, p.get("max_lat") or 0.0, p.get("pole", "NORTH")[0] == "N")
        else:
            sub = p.get("sub", (0.0, 0.0))
            la, lo, on, marg = geom.ortho(b, S, N, sub[0], sub[1], p.get("pa", 0.0), p.get("kmpp"),
                                          p.get("center"), p.get("llc"))
            st = np.where(on, PRESENT, ABSENT)
            st = np.where(np.abs(marg) < 1e-9, UNKNOWN, st)
            self.limb = marg
            return la, lo, st
        return la, lo, np.full((N, S), PRESENT)

    def plane_values(self, pl, lat, lon, st0):
        """status, physical value (float64/longdouble)"""
        b = self.gb
        if pl.kind == "LATITUDE":
            v = (b.graphic(lat) if pl.lat_type == "GRAPHIC" else lat) / DEG
            return st0.copy(), v
        if pl.kind == "LONGITUDE":
            return st0.copy(), np.mod(lon / DEG, 360)
        if pl.kind == "MU":
            return st0.copy(), b.mu(L(pl.sub[0]) * DEG, L(pl.sub[1]) * DEG, lat, lon, L(pl.rng))
        if pl.kind == "MU0":
            return st0.copy(), b.mu0(L(pl.sun[0]) * DEG, L(pl.sun[1]) * DEG, lat, lon)
        if pl.kind == "PHASE":
            return st0.copy(), b.cos_phase(L(pl.sub[0]) * DEG, L(pl.sub[1]) * DEG, L(pl.sun[0]) * DEG,
                                           L(pl.sun[1]) * DEG, lat, lon, L(pl.rng))
        res = [im.eval(b, lat, lon) for im in pl.imgs]
        avg = self.avg or "WEIGHTED"
        if len(res) == 1:
            st, v, _ = res[0]
        else:
            S_ = np.array([r[0] for r in res])
            V = np.array([r[1] for r in res], dtype=L)
            W = np.array([r[2] for r in res], dtype=L)
            pres = S_ == PRESENT
            unk = S_ == UNKNOWN
            cnt = pres.sum(0)
            st = np.where(cnt > 0, PRESENT, ABSENT)
            if avg == "NONE":
                v = np.full(lat.shape, np.nan, dtype=L)
                done = np.zeros(lat.shape, bool)
                bad = np.zeros(lat.shape, bool)
                for j in range(len(res)):
                    bad |= unk[j] & ~done
                    take = pres[j] & ~done
                    v = np.where(take, V[j], v)
                    done |= take
                st = np.where(bad, UNKNOWN, st)
            else:
                anyu = unk.any(0)
                if avg == "UNWEIGHTED":
                    v = np.where(pres, V, 0).sum(0) / np.maximum(cnt, 1)
                else:
                    wz = np.where(pres, W, 0)
                    wn = (pres & np.isnan(W)).any(0) & (cnt > 1)
                    ws = wz.sum(0)
                    v = np.where(pres, V, 0) * wz
                    v = v.sum(0) / np.where(ws > 0, ws, 1)
                    one = np.where(pres, V, 0).sum(0)
                    v = np.where(cnt == 1, one, v)
                    # all weights zero: no value is promised beyond "one of them"
                    anyu |= wn | ((cnt > 1) & (ws <= 0))
                st = np.where(anyu, UNKNOWN, st)
        st = np.where((st0 == PRESENT), st, np.where(st0 == UNKNOWN, UNKNOWN, ABSENT))
        return st, v

    def limits(self, pl):
        lo, hi = pl.dmin, pl.dmax
        if pl.kind == "IMAGE" and len(pl.imgs) == 1:
            if lo is None:
                lo = pl.imgs[0].datamin
            if hi is None:
                hi = pl.imgs[0].datamax
        return lo, hi
