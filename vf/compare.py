"""Compares one produced map with the reference model."""
import numpy as np
from . import fits, geom, model
from .model import PRESENT, ABSENT, UNKNOWN, RANGES, BITPIX


def blank_of(m, hdu):
    """stored value of a pixel without data"""
    if hdu.bitpix < 0:
        return np.nan
    return hdu.kw.get("BLANK", 0)


def plane_scaling(hdu, j, n):
    """(bscale, bzero) of virtual plane j (1-based) from the header of the map"""
    if hdu.bitpix < 0:
        return 1.0, 0.0
    if n == 1:
        return float(hdu.kw.get("BSCALE", 1.0)), float(hdu.kw.get("BZERO", 0.0))
    h = hdu.text["HISTORY"]
    for i, t in enumerate(h):
        if t.strip().startswith("Plane %d characteristics" % j):
            return float(h[i + 1].split("BSCALE:")[1]), float(h[i + 2].split("BZERO:")[1])
    return None


def compare_plane(m, pl, data, hdu, lat, lon, st0, scaling, stats, tol_deg=1e-7):
    """list of (key, message) for one plane of stored data"""
    out = []
    bp = hdu.bitpix
    st, v = m.plane_values(pl, lat, lon, st0)
    blank = blank_of(m, hdu)
    isblank = np.isnan(data) if bp < 0 else (data == blank)
    lo, hi = m.limits(pl)
    virt = pl.kind != "IMAGE"
    if virt:
        sc, off = scaling if scaling else (1.0, 0.0)
        stored = data.astype(np.longdouble)
        phys = stored * np.longdouble(sc) + np.longdouble(off)
        q = np.abs(np.longdouble(sc)) if bp > 0 else np.longdouble(0)
        # header values carry a limited number of digits
        hdig = np.longdouble(1e-11) * (np.abs(phys) + abs(off)) if bp > 0 else 0
        tol = np.longdouble(tol_deg if pl.kind in ("LATITUDE", "LONGITUDE") else 1e-8)
        tol = tol + q * np.longdouble(1.0001) + hdig
        if bp == -32:
            tol = tol + np.abs(v) * 2e-7
        if pl.kind == "LONGITUDE":
            tol = tol + tol_deg / np.maximum(np.cos(lat), 1e-12)
            d = geom.ang_diff(phys, v)
        else:
            d = np.abs(phys - v)
        pres = st == PRESENT
        if lo is not None or hi is not None:
            # user limits apply to the plane's values (checked on floating point maps only)
            mar = tol * 2
            if lo is not None:
                st = np.where(pres & (v < lo - mar), ABSENT, np.where(pres & (np.abs(v - lo) <= mar), UNKNOWN, st))
            if hi is not None:
                st = np.where((st == PRESENT) & (v > hi + mar), ABSENT,
                              np.where((st == PRESENT) & (np.abs(v - hi) <= mar), UNKNOWN, st))
            pres = st == PRESENT
        if bp > 0:
            # an integer map stores 0 (or BLANK) where nothing was mapped; a
            # value may legitimately coincide with it
            wrong = pres & ~(d <= tol)
            extra = (st == ABSENT) & ~isblank
        else:
            wrong = pres & ~(d <= tol)
            extra = (st == ABSENT) & ~isblank
    else:
        slack = 0.0
        for im in pl.imgs:
            if im.interp:
                px = im.pixels()
                if np.isfinite(px).any():
                    slack += 8 * getattr(im, "err_px", 1e-6) * float(np.nanmax(px) - np.nanmin(px))
            if len(pl.imgs) > 1 or im.interp:       # round-off of sums
                px = im.pixels()
                if np.isfinite(px).any():
                    slack += 1e-12 * float(np.nanmax(np.abs(px)))
        pres = st == PRESENT
        vv = np.asarray(v, dtype=np.float64)
        if lo is not None:
            st = np.where(pres & (vv < lo), ABSENT, st)
        if hi is not None:
            st = np.where((st == PRESENT) & (vv > hi), ABSENT, st)
        exact = not (len(pl.imgs) > 1 and (m.avg or "WEIGHTED") != "NONE") and not any(i.interp for i in pl.imgs)
        if bp > 0:
            a, b = RANGES[bp]
            st = np.where((st == PRESENT) & ((vv < a) | (vv > b)), ABSENT, st)
            pres = st == PRESENT
            exp = np.trunc(np.where(pres, vv, 0))
            d = np.abs(data.astype(np.float64) - exp)
            if exact:
                wrong = pres & (d != 0)
            else:
                frac = np.abs(vv - np.round(vv))
                near = frac < 1e-6 * np.maximum(1, np.abs(vv))
                near |= frac < slack + 1e-9
                wrong = pres & (d > np.where(near, 1, 0) + np.abs(exp) * 1e-6 * (not exact) + slack)
                for lim in (lo, hi, a, b):
                    if lim is not None:
                        wrong &= ~(np.abs(vv - lim) < 1e-6 * max(1, abs(lim)) + slack)
        else:
            if bp == -32:
                # what the type cannot hold is not data
                big = float(np.finfo(np.float32).max)
                st = np.where((st == PRESENT) & (np.abs(vv) > big), ABSENT, st)
            pres = st == PRESENT
            if bp == -32:
                exp = np.where(pres, vv, 0).astype(np.float32).astype(np.float64)
                t = np.abs(exp) * (0 if exact else 4e-7) + (0 if exact else 2e-5) + slack
            else:
                exp = vv
                t = np.abs(exp) * (0 if exact else 1e-9) + (0 if exact else 2e-5) + slack
            d = np.abs(data.astype(np.float64) - exp)
            wrong = pres & ~(d <= t)
            if not exact:
                for lim in (lo, hi):
                    if lim is not None:
                        wrong &= ~(np.abs(vv - lim) < 1e-3 * max(1, abs(lim)) + slack)
        extra = (st == ABSENT) & ~isblank
        if bp > 0:
            # limits wholly beyond the map's data type: known finding limits_beyond_type of M05
            a, b = RANGES[bp]
            if hi is not None and hi < a:
                extra &= ~(np.abs(vv - a) <= slack)
            if lo is not None and lo > b:
                extra &= ~(np.abs(vv - b) <= slack)
        for lim in (lo, hi):
            if lim is not None and not exact:
                extra &= ~(np.abs(vv - lim) < 1e-3 * max(1, abs(lim)) + slack)
            elif lim is not None and bp == -32:
                # limits are kept in the map's type
                at = np.abs(vv - lim) <= 1.2e-7 * abs(lim)
                wrong &= ~at
                extra &= ~at
    stats["present"] = stats.get("present", 0) + int((st == PRESENT).sum())
    stats["absent"] = stats.get("absent", 0) + int((st == ABSENT).sum())
    stats["unknown"] = stats.get("unknown", 0) + int((st == UNKNOWN).sum())
    if wrong.any():
        k, i = [int(q[0]) for q in np.nonzero(wrong)]
        out.append(("value", "%s plane: %d of %d pixels wrong; first at line %d sample %d: stored %r, expected %s "
                    "(lat %.6f lon %.6f)" % (pl.kind, int(wrong.sum()), data.size, k, i, data[k, i].item(),
                                             str(v[k, i]), float(lat[k, i] / geom.DEG), float(lon[k, i] / geom.DEG))))
    if extra.any():
        k, i = [int(q[0]) for q in np.nonzero(extra)]
        out.append(("extra", "%s plane: %d pixels hold data where there is none; first at line %d sample %d: %r"
                    % (pl.kind, int(extra.sum()), k, i, data[k, i].item())))
    return out


def compare_map(m, path, stats, tol_deg=1e-7):
    """list of (key, message)"""
    try:
        hs = fits.read(path)
    except FileNotFoundError:
        return [("missing", "no output file")]
    except fits.FitsError as e:
        return [("badfits", "output is not valid FITS: %s" % e)]
    h = hs[0]
    n = len(m.planes)
    want = [m.S, m.N] + ([n] if n > 1 else [])
    if h.axes != want:
        return [("shape", "axes %s, expected %s" % (h.axes, want))]
    if m.dtype and h.bitpix != BITPIX[m.dtype]:
        return [("bitpix", "BITPIX %s for %s" % (h.bitpix, m.dtype))]
    d = h.data.reshape(n, m.N, m.S)
    lat, lon, st0 = m.coords()
    if m.proj["kind"] == "SIMPLE_C" and tol_deg <= 1e-7:
        # narrow strips: a small part of a pixel
        w = [abs(p[1] - p[0]) % 360 or 360 for p in (m.proj.get("lat", (-90, 90)), m.proj.get("lon", (0, 360)))]
        tol_deg = min(tol_deg, 1e-4 * min(w[0] / m.N, w[1] / m.S) + 1e-11)
    out = []
    for j, pl in enumerate(m.planes):
        sc = None
        if pl.kind != "IMAGE":
            sc = plane_scaling(h, j + 1, n)
            if sc is None:
                out.append(("scaling", "plane %d: no scaling recorded in the header" % (j + 1)))
                continue
        out += [(k, "plane %d: %s" % (j + 1, t))
                for k, t in compare_plane(m, pl, d[j], h, lat, lon, st0, sc, stats, tol_deg)]
    return out
