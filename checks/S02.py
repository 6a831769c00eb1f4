"""Angles, distances and keywords mean the same however they are written."""
import math, re
import numpy as np
from vf import gen, geom, model, prog
from vf.model import Spelled
from ._photo import blank_misfit
LEVEL = "exploration"
MIN = 300
AU = 1.495978707e8
PAIRS = [("SUB_OBSERV_LAT", "SUB_OBSERV_LON"), ("SUB_SOLAR_LAT", "SUB_SOLAR_LON"), ("LO_LAT", "HI_LAT"), ("LO_LON", "HI_LON"),
         ("SAMPLE_CENTER", "LINE_CENTER"), ("SAMPLE_OA", "LINE_OA"), ("LAT_AT_CENTER", "LON_AT_CENTER"), ("DATA_MIN", "DATA_MAX"),
         ("EQ_RAD", "POL_RAD"), ("EQ_RAD", "FLATTENING"), ("POL_RAD", "FLATTENING"), ("FOCAL_LENGTH", "PIXEL_SCALE"),
         ("LAT_GRID_INTERVAL", "LON_GRID_INTERVAL")]
OTHER = [(r"^TYPE:", "PROJECTION:"), (r"LATITUDE_TYPE: GRAPHIC", "GRAPHIC"), (r"LATITUDE_TYPE: CENTRIC", "CENTRIC"),
         (r"^(\s*[A-Z_]+: )YES$", r"\1Y"), (r"^(\s*[A-Z_]+: )NO$", r"\1N"), (r"POLE: NORTH", "POLE: N"), (r"POLE: SOUTH", "POLE: S"),
         (r"POLE: N$", "POLE: NORTH"), (r"POLE: S$", "POLE: SOUTH")]
EXPR = re.compile(r"^\s*(EQ_RAD|POL_RAD|FLATTENING|LO_L|HI_L|SUB_|POSITION|RANGE|KM_PER|ARCSEC|FOCAL|PIXEL_S|SAMPLE_|LINE_|MAX_LAT|L.._AT|"
                  r"EMI|DATA_M|NIBBLE|SAMPLES|LINES|L.._GRID|GRID_I)", re.I)
STR = re.compile(r"^\s*(MAP|BODY|AUTHOR|ORIGIN|COMMENT|XCOMMENT|IMAGE|FLAT_FIELD):", re.I)


def write(r, v):
    """an expression for the number"""
    q = r.random()
    if q < 0.75:
        return model.num(v)
    if q < 0.85:
        k = r.choice([2, 4, 0.5])          # exact in binary
        return "%s * %s" % (model.num(v / k), model.num(k))
    if q < 0.93:
        return "(%s)" % model.num(v)
    return "%s / %s" % (model.num(v * 2), "2")


def lat(r, b, v):
    """a latitude, v as written"""
    q = r.random()
    if q < 0.55:
        t = write(r, v)
    elif v >= 0:
        t = write(r, v) + r.choice([" ", ""]) + r.choice("Nn")
    else:
        t = write(r, -v) + r.choice([" ", ""]) + r.choice("Ss")
    q = r.random()
    c = v
    if q < 0.2:
        t += " " + r.choice("Cc")
    elif q < 0.6:
        t += " " + r.choice("Gg")
        if abs(v) < 90:
            c = float(b.centric(np.longdouble(v) * geom.DEG) / geom.DEG)
    return Spelled(c, t)


def lon(r, pro, v):
    q = r.random()
    t = write(r, v)
    if q < 0.4:
        return Spelled(v, t)
    east = q < 0.7
    t += " " + (r.choice("Ee") if east else r.choice("Ww"))
    if east == pro:
        v = (360 - v % 360)
    return Spelled(v, t)


def pa(r, v):
    q = r.random()
    t = write(r, v)
    if q < 0.35:
        return Spelled(v, t)
    if q < 0.65:
        return Spelled(v, t + " " + r.choice(["CCW", "ccw"]))
    return Spelled(360 - v % 360, t + " " + r.choice(["CW", "cw"]))


def rng(r, v):
    q = r.random()
    if q < 0.4:
        return Spelled(v, write(r, v))
    if q < 0.6:
        return Spelled(v, write(r, v) + " " + r.choice(["KM", "km"]))
    a = v / AU
    return Spelled(a * AU, model.num(a) + " " + r.choice(["AU", "au"]))


class Text(model.Map):
    """the same entry written differently"""
    def text(self):
        r = self.r
        ls = super().text().rstrip("\n").split("\n")
        key = lambda l: l.split(":")[0].strip()
        for a, b in PAIRS:
            for i in range(len(ls) - 1):
                if key(ls[i]) == a and key(ls[i + 1]) == b and r.random() < 0.5:
                    ls[i], ls[i + 1] = ls[i + 1], ls[i]
                    self.swapped = getattr(self, "swapped", 0) + 1
        out = []
        for l in ls:
            for a, b in OTHER:
                if re.search(a, l) and not STR.match(l) and r.random() < 0.4:
                    l = re.sub(a, b, l)
                    self.other = getattr(self, "other", 0) + 1
            if r.random() < 0.1:
                out.append(r.choice(["", "   ", "# a comment: MAP: x", "\t#", "  # SAMPLES: 3"]))
            if r.random() < 0.5 and not STR.match(l):
                k, c, v = l.partition(":")
                k = "".join(q.lower() if r.random() < 0.5 else q for q in k)
                if not re.search(r"[a-z]", v) and not EXPR.match(l):
                    v = v.lower()
                l = k + c + v
            elif STR.match(l) and r.random() < 0.4:
                k, c, v = l.partition(":")
                l = k.lower() + c + v
            if r.random() < 0.3:
                l = l.replace(": ", r.choice([":", ":   ", ":\t"]), 1) if not STR.match(l) else l
            if r.random() < 0.2:
                l = "\t" + l + "  "if not STR.match(l) else l
            if EXPR.match(l) and r.random() < 0.15:
                l += "   # note"
            out.append(l)
        self._t = "\n".join(out) + "\n"
        return self._t


def run(ctx):
    r = ctx.rng
    cases = []
    for c in range(ctx.n(600, 10000)):
        b = gen.body(r)
        if r.random() < 0.6 and b["eq"] == b["pol"]:
            b["pol"] = b["eq"] * 0.8
            b.pop("given", None)
        kind = r.choice(["SIMPLE_C", "P_STEREO", "ORTHO", "SIMPLE_C"])
        p = gen.proj(r, b, kind)
        gb = model.Map("x", b, p, 1, 1, []).gb
        pro = b["pro"]
        nz = lambda v: v if v % 360 else 7.25
        if "lat" in p:
            x, y = (lat(r, gb, v) for v in p["lat"])
            if y - x > 0.5:
                p["lat"] = (x, y)
        if "lon" in p:
            p["lon"] = tuple(lon(r, pro, nz(v)) for v in p["lon"])
            a, z = [v % 360 for v in p["lon"]]
            if min(abs(a - z), 360 - abs(a - z)) < 0.5:
                del p["lon"]
        if p.get("max_lat") is not None and abs(p["max_lat"]) > 0:
            p["max_lat"] = lat(r, gb, p["max_lat"])
        if "sub" in p:
            p["sub"] = (lat(r, gb, p["sub"][0]), lon(r, pro, nz(p["sub"][1])))
        if "pa" in p:
            p["pa"] = pa(r, p["pa"])
        if "llc" in p:
            # the centre has to stay visible
            p["llc"] = (lat(r, gb, p["llc"][0]), Spelled(p["llc"][1], write(r, p["llc"][1])))
            p["sub"] = (p["llc"][0] * 0.8, p["sub"][1])
            p["llc"] = (p["llc"][0], Spelled(float(p["sub"][1]) % 360, model.num(float(p["sub"][1]) % 360)))
        if kind == "ORTHO" and "sub" in p and abs(p["sub"][0]) > 89.9:
            p["sub"] = (45.5, p["sub"][1])
        S, N = gen.fix_dims(r, p, *gen.dims(r, 16))
        d = ctx.newdir()
        pls = [model.Plane("LATITUDE", lat_type=r.choice([None, "CENTRIC", "GRAPHIC"])), model.Plane("LONGITUDE")]
        q = r.random()
        if q < 0.6:
            v = gen.virtual_plane(r, b)
            v.sub = (lat(r, gb, v.sub[0]), lon(r, pro, nz(v.sub[1])))
            v.sun = (lat(r, gb, v.sun[0]), lon(r, pro, nz(v.sun[1])))
            v.rng = rng(r, v.rng)
            pls.append(v)
        else:
            im, _ = gen.photo(r, d, "s.fits", b, nan=False, bitpix=r.choice([8, 16, -32]), interp=False, sky=False)
            im.sub = (lat(r, gb, im.sub[0]), lon(r, pro, nz(im.sub[1])))
            im.sun = (lat(r, gb, im.sun[0]), lon(r, pro, nz(im.sun[1])))
            im.pa = pa(r, im.pa)
            im.rng = rng(r, im.rng)
            pls.append(model.Plane("IMAGE", imgs=[im]))
        if r.random() < 0.3:
            pls[0].dmin, pls[0].dmax = r.choice([-70.5, -31.25, -3.125]), r.choice([5.5, 33.375, 61.0])
        if r.random() < 0.3:
            pls[1].dmin, pls[1].dmax = r.choice([10.5, 80.25]), r.choice([120.5, 300.25])
        for q in pls[:1]:           # longitude 0 is also 360: no limits on one side
            if q.dmin is not None and r.random() < 0.3:
                if r.random() < 0.5:
                    q.dmin = None
                else:
                    q.dmax = None
        m = Text("o.fits", b, p, S, N, pls, dtype="DOUBLE")
        m.r = r
        if r.random() < 0.3:
            m.count_planes(r)
        for k, v in list(p.items()) + list(vars(pls[-1]).items()):
            for w in v if isinstance(v, tuple) else (v,):
                if isinstance(w, Spelled):
                    u = w.text.split()[-1].upper()
                    ctx.saw("unit " + (u if u.isalpha() else "plain"))
        t = m.text()
        m.text = lambda t=t: t
        ctx.saw("other_keywords", getattr(m, "other", 0))
        ctx.saw("pairs_swapped", getattr(m, "swapped", 0))
        cases.append((d, [m], "%d %s" % (c, t)))
    ctx.rule = ("one case = one map entry written with random units, hemispheres, latitude types, orders, letter case, blanks and comments; "
                "the resulting planes against the reference evaluation of the meaning; distinct by text")
    prog.run_cases(ctx, cases, "spelling", tol_deg=1e-6)
