"""Values outside their domain are refused, boundary values inside it are accepted."""
import math, os, re
from vf import gen, model
LEVEL = "exploration"
MIN = 300
TY = {"BYTE": (0, 255), "SHORT": (-2**15, 2**15 - 1), "LONG": (-2**31, 2**31 - 1), "LONGLONG": (-2**63, 2**63 - 1)}


def base(**k):
    v = dict(head="", eq="71492", pol="66854", rot="PROGRADE", data="DATA_TYPE: DOUBLE", grid="", typ="TYPE: SIMPLE_C", planes="", S="6", N="5",
             pl=" PLANE:\n  LATITUDE:")
    v.update(k)
    body = v.get("body", "BODY: Jupiter\nEQ_RAD: %s\nPOL_RAD: %s\nROTATION: %s" % (v["eq"], v["pol"], v["rot"]))
    return "MAP: o.fits\n%s%s\n%s\n%s\n%s\n%s\nSAMPLES: %s\nLINES: %s\n%s\n" % (
        v["head"], body, v["data"], v["grid"], v["typ"], v["planes"], v["S"], v["N"], v["pl"])


PHOTO = dict(pre="", center="    SAMPLE_CENTER: 10\n    LINE_CENTER: 10", post="", sol="3", slon="4", slat="5", sslon="6", pa="7", rng="1E6",
             geo="KM_PER_PIXEL: 9000", src="s.fits")


def photo(**k):
    v = dict(PHOTO)
    v.update(k)
    return (" PLANE:\n  IMAGE: %(src)s\n%(pre)s%(center)s\n%(post)s    SUB_OBSERV_LAT: %(sol)s\n    SUB_OBSERV_LON: %(slon)s\n    POSITION_ANGLE: %(pa)s\n"
            "    SUB_SOLAR_LAT: %(slat)s\n    SUB_SOLAR_LON: %(sslon)s\n    RANGE: %(rng)s\n    %(geo)s" % v)


def mu(lat="1", lon="2", rng="1E7"):
    return " PLANE:\n  MU:\n   SUB_OBSERV_LAT: %s\n   SUB_OBSERV_LON: %s\n   RANGE: %s" % (lat, lon, rng)


def mu0(lat="1", lon="2"):
    return " PLANE:\n  MU0:\n   SUB_SOLAR_LAT: %s\n   SUB_SOLAR_LON: %s" % (lat, lon)


def phase(lat="1", lon="2", slat="3", slon="4", rng="1E7"):
    return (" PLANE:\n  PHASE:\n   SUB_OBSERV_LAT: %s\n   SUB_OBSERV_LON: %s\n   RANGE: %s\n   SUB_SOLAR_LAT: %s\n   SUB_SOLAR_LON: %s"
            % (lat, lon, rng, slat, slon))


def num(v):
    return model.num(float(v))


def table(r):
    """(what, text, valid, may_leave_file)"""
    T = []
    bad = lambda w, t, f=False: T.append((w, t, False, f))
    ok = lambda w, t: T.append((w, t, True, False))

    def above(lim):
        return r.choice([math.nextafter(lim, math.inf), lim + 10 ** r.uniform(-9, 3), lim * 2 + 1, 1e300])

    # dimensions
    for key in ("S", "N"):
        for x in ("0", "-1", str(-r.randint(2, 10**9)), "1" + "0" * r.randint(19, 40), "abc", "", "1 2"):
            bad("%s %s" % (key, x), base(**{key: x}))
        ok(key + " 1", base(**{key: "1"}))
    # body
    for x in ("0", num(-10 ** r.uniform(-3, 5)), "-0.0"):
        bad("equatorial " + x, base(eq=x))
        bad("polar " + x, base(pol=x))
    a = 10 ** r.uniform(-1, 5)
    bad("polar radius larger", base(eq=num(a), pol=num(above(a) if above(a) < 1e200 else a * 3)))
    for e in (3, 6, 9, 12):
        bad("polar radius a little larger", base(eq=num(a), pol=num(a * (1 + 10 ** -r.uniform(e - 1, e)))))
    ok("sphere", base(eq=num(a), pol=num(a)))
    for g, v in (("EQ_RAD", a), ("POL_RAD", a)):
        fb = "BODY: J\n%s: %s\nFLATTENING: %%s\nROTATION: PROGRADE" % (g, num(v))
        for f in (num(-10 ** r.uniform(-9, 1)), "1", num(above(1.0)), "5"):
            bad("flattening %s %s" % (g, f), base(body=fb % f))
        ok("flattening 0 " + g, base(body=fb % "0"))
        ok("flattening .9 " + g, base(body=fb % num(r.uniform(0, 0.95))))
        bad("one radius only " + g, base(body="BODY: J\n%s: %s\nROTATION: PROGRADE" % (g, num(v))))
    bad("no radius", base(body="BODY: J\nROTATION: PROGRADE"))
    bad("rotation", base(rot=r.choice(["SIDEWAYS", "YES", "1", ""])))
    # data type, blank
    for t, (lo, hi) in TY.items():
        for v in (lo - 1, hi + 1, lo - r.randint(1, 10**6), hi + r.randint(1, 10**6)):
            bad("blank %s %d" % (t, v), base(data="DATA_TYPE: %s\nDATA_BLANK: %d" % (t, v)))
        for v in (lo, hi, 0, r.randint(lo, hi)):
            ok("blank %s %d" % (t, v), base(data="DATA_TYPE: %s\nDATA_BLANK: %d" % (t, v)))
    for t in ("FLOAT", "DOUBLE"):
        bad("blank " + t, base(data="DATA_TYPE: %s\nDATA_BLANK: %d" % (t, r.randint(-9, 99))))
    bad("data type", base(data="DATA_TYPE: " + r.choice(["INT", "16", "REAL", ""])))
    # grid
    for k in ("GRID_INTERVAL", "LAT_GRID_INTERVAL", "LON_GRID_INTERVAL"):
        for x in ("0", num(-10 ** r.uniform(-6, 3)), "-0.0"):
            bad("%s %s" % (k, x), base(grid="GRID: YES\n%s: %s" % (k, x)))
        ok(k, base(grid="GRID: YES\n%s: %s" % (k, num(r.uniform(1, 89)))))
    bad("grid word", base(grid="GRID: MAYBE"))
    # latitudes, longitudes, position angles wherever they occur
    LATS = [("simple lo", lambda x: base(typ="TYPE: SIMPLE_C\nOPTIONS:\nLO_LAT: %s\nHI_LAT: 90" % x)),
            ("simple hi", lambda x: base(typ="TYPE: SIMPLE_C\nOPTIONS:\nLO_LAT: -90\nHI_LAT: %s" % x)),
            ("stereo", lambda x: base(typ="TYPE: P_STEREO\nOPTIONS:\nPOLE: NORTH\nMAX_LAT: %s" % x)),
            ("ortho", lambda x: base(typ="TYPE: ORTHO\nOPTIONS:\nSUB_OBSERV_LAT: %s\nSUB_OBSERV_LON: 2" % x)),
            ("ortho centre", lambda x: base(typ="TYPE: ORTHO\nOPTIONS:\nSUB_OBSERV_LAT: 0\nSUB_OBSERV_LON: 2\nPOSITION_ANGLE: 0\nKM_PER_PIXEL: 9000\n"
                                            "LAT_AT_CENTER: %s\nLON_AT_CENTER: 2" % x)),
            ("mu", lambda x: base(pl=mu(lat=x))), ("mu0", lambda x: base(pl=mu0(lat=x))), ("phase", lambda x: base(pl=phase(lat=x))),
            ("phase sun", lambda x: base(pl=phase(slat=x))), ("photo", lambda x: base(pl=photo(sol=x))), ("photo sun", lambda x: base(pl=photo(slat=x)))]
    for w, f in LATS:
        v = above(90.0)
        for x in (num(v), num(-v), num(v) + " N", num(v) + " S", num(-r.uniform(0.001, 90)) + " N", num(-r.uniform(0.001, 90)) + " S", num(v) + " G",
                  num(r.uniform(1, 80)) + " E", num(r.uniform(1, 80)) + " X", num(r.uniform(1, 80)) + " CW", num(3) + " G N"):
            bad("%s latitude %s" % (w, x), f(x))
        for x in (num(r.uniform(1, 80)) + " N", num(r.uniform(1, 80)) + " S", num(r.uniform(-80, 80)) + " G", "0 S"):
            if w == "simple hi" and x in ("0 S",):
                continue
            if w == "ortho centre":
                continue
            ok("%s latitude %s" % (w, x), f(x))
        if w not in ("stereo", "ortho centre", "simple lo"):
            ok("%s latitude 90" % w, f("90"))
        if w not in ("stereo", "ortho centre", "simple hi"):
            ok("%s latitude -90" % w, f("-90"))
    LONS = [("simple", lambda x: base(typ="TYPE: SIMPLE_C\nOPTIONS:\nLO_LON: %s\nHI_LON: 100" % x)),
            ("simple hi", lambda x: base(typ="TYPE: SIMPLE_C\nOPTIONS:\nLO_LON: 100\nHI_LON: %s" % x)),
            ("ortho", lambda x: base(typ="TYPE: ORTHO\nOPTIONS:\nSUB_OBSERV_LAT: 1\nSUB_OBSERV_LON: %s" % x)),
            ("mu", lambda x: base(pl=mu(lon=x))), ("mu0", lambda x: base(pl=mu0(lon=x))), ("phase", lambda x: base(pl=phase(lon=x))),
            ("phase sun", lambda x: base(pl=phase(slon=x))), ("photo", lambda x: base(pl=photo(slon=x))), ("photo sun", lambda x: base(pl=photo(sslon=x)))]
    for w, f in LONS:
        v = above(360.0)
        for x in (num(v), num(-v), num(v) + " E", num(-v) + " W", num(v) + " W", num(-v) + " E", num(r.uniform(1, 80)) + " N", num(r.uniform(1, 80)) + " G",
                  num(r.uniform(1, 80)) + " CCW"):
            bad("%s longitude %s" % (w, x), f(x))
        for x in ("360", "-360", "360 E", "-360 W", "0", num(r.uniform(-360, 360)) + " E"):
            ok("%s longitude %s" % (w, x), f(x))
    PAS = [("ortho", lambda x: base(typ="TYPE: ORTHO\nOPTIONS:\nPOSITION_ANGLE: %s" % x)), ("photo", lambda x: base(pl=photo(pa=x)))]
    for w, f in PAS:
        v = above(360.0)
        for x in (num(v), num(-v), num(v) + " CW", num(-v) + " CW", num(v) + " CCW", num(-v) + " CCW", "5 E", "5 N"):
            bad("%s position angle %s" % (w, x), f(x))
        for x in ("360", "-360", "360 CW", "-360 CCW", num(r.uniform(-360, 360)) + " CW"):
            ok("%s position angle %s" % (w, x), f(x))
    # ranges of latitude and longitude
    v = r.uniform(-80, 80)
    for lo, hi in ((v, v), (v + 10 ** r.uniform(-6, 1), v)):
        bad("latitude range %r %r" % (lo, hi), base(typ="TYPE: SIMPLE_C\nOPTIONS:\nLO_LAT: %s\nHI_LAT: %s" % (num(lo), num(hi))))
        bad("latitude range %r %r swapped" % (lo, hi), base(typ="TYPE: SIMPLE_C\nOPTIONS:\nHI_LAT: %s\nLO_LAT: %s" % (num(hi), num(lo))))
    for o in ("LO_LAT: 10", "HI_LAT: 10", "LO_LON: 10", "HI_LON: 10"):
        bad("half a range " + o, base(typ="TYPE: SIMPLE_C\nOPTIONS:\n" + o))
    # polar stereographic
    for p in ("NORTH", "SOUTH"):
        for x in ("90", "-90", "90 N", "90 S"):
            bad("stereo %s %s" % (p, x), base(typ="TYPE: P_STEREO\nOPTIONS:\nPOLE: %s\nMAX_LAT: %s" % (p, x)))
        ok("stereo " + p, base(typ="TYPE: P_STEREO\nOPTIONS:\nPOLE: %s\nMAX_LAT: %s" % (p, num(r.uniform(1, 89) * (1 if p == "NORTH" else -1)))))
    bad("stereo without pole", base(typ="TYPE: P_STEREO\nOPTIONS:\nMAX_LAT: 10"))
    bad("pole", base(typ="TYPE: P_STEREO\nOPTIONS:\nPOLE: EAST"))
    # orthographic
    for x in ("0", num(-10 ** r.uniform(-5, 5)), "-0.0"):
        bad("ortho scale " + x, base(typ="TYPE: ORTHO\nOPTIONS:\nKM_PER_PIXEL: " + x))
        bad("photo scale " + x, base(pl=photo(geo="KM_PER_PIXEL: " + x)))
        bad("photo arcsec " + x, base(pl=photo(geo="ARCSEC_PER_PIX: " + x)))
        bad("photo focal length " + x, base(pl=photo(geo="FOCAL_LENGTH: %s\n    PIXEL_SCALE: 1" % x)), True)
        bad("photo pixel scale " + x, base(pl=photo(geo="FOCAL_LENGTH: 10\n    PIXEL_SCALE: " + x)), True)
        bad("photo range " + x, base(pl=photo(rng=x)), True)
        bad("photo range " + x + " AU", base(pl=photo(rng=x + " AU")), True)
    bad("photo inside the body", base(pl=photo(rng=num(r.uniform(1, 66000)))), True)
    # above the pole of an oblate body, lower than its equatorial radius
    ok("photo range from above a pole", base(pl=photo(sol=r.choice(["90", "-90"]), rng=num(r.uniform(67000, 71000)))))
    bad("half a centre", base(typ="TYPE: ORTHO\nOPTIONS:\nSUB_OBSERV_LAT: 1"))
    bad("centre of the map behind the body", base(typ="TYPE: ORTHO\nOPTIONS:\nSUB_OBSERV_LAT: 10\nSUB_OBSERV_LON: 20\nPOSITION_ANGLE: 0\nKM_PER_PIXEL: 9000\n"
                                                  "LAT_AT_CENTER: %s\nLON_AT_CENTER: %s" % (num(r.uniform(-30, 5)), num(r.uniform(170, 230)))), True)
    # places just behind and just before the limb of the body used by base()
    J = dict(eq=71492.0, pol=66854.0)
    for side in (-1, 1, -1, 1):
        sub = (round(r.uniform(-80, 80), 3), round(r.uniform(0, 360), 3))
        q = gen.near_limb(r, J, sub, side)
        if q:
            t = base(typ="TYPE: ORTHO\nOPTIONS:\nSUB_OBSERV_LAT: %s\nSUB_OBSERV_LON: %s\nPOSITION_ANGLE: 0\nKM_PER_PIXEL: 9000\n"
                         "LAT_AT_CENTER: %s\nLON_AT_CENTER: %s" % tuple(num(v) for v in sub + q))
            (ok if side > 0 else bad)("centre at the limb %d %r %r" % (side, sub, q), t, *([] if side > 0 else [True]))
    for e in (num(above(90.0)), num(-above(90.0))):
        bad("emission limit " + e, base(pl=photo(post="    EMI_ANG_LIMIT: %s\n" % e)), True)
    for e in ("0", "90", num(r.uniform(0, 90))):
        ok("emission limit " + e, base(pl=photo(post="    EMI_ANG_LIMIT: %s\n" % e)))
    # nibbles of a 20 x 16 photo
    for k in ("NIBBLE", "NIBBLE_LEFT", "NIBBLE_RIGHT", "NIBBLE_TOP", "NIBBLE_BOTTOM"):
        bad(k + " negative", base(pl=photo(pre="    %s: %d\n" % (k, -r.randint(1, 50)))))
        lim = {"NIBBLE": 8, "NIBBLE_LEFT": 20, "NIBBLE_RIGHT": 20}.get(k, 16)
        bad(k + " too large", base(pl=photo(pre="    %s: %d\n" % (k, lim + r.choice([0, 1, 30])))), True)
        ok(k + " largest", base(pl=photo(pre="    %s: %d\n" % (k, lim - 2))))
    bad("nibbles meet", base(pl=photo(pre="    NIBBLE_LEFT: 12\n    NIBBLE_RIGHT: 8\n")), True)
    bad("nibbles meet vertically", base(pl=photo(pre="    NIBBLE_TOP: 9\n    NIBBLE_BOTTOM: 8\n")), True)
    bad("invert", base(pl=photo(pre="    INVERT: UP\n")))
    bad("no such photo", base(pl=photo(src="nothere.fits")), True)
    bad("flat field of another size", base(pl=photo(post="    FLAT_FIELD: f.fits\n")), True)
    bad("no such flat field", base(pl=photo(post="    FLAT_FIELD: nothere.fits\n")), True)
    bad("photo without range", re.sub(r"    RANGE.*\n", "", base(pl=photo())))
    bad("photo without scale", base(pl=photo(geo="")))
    # more bytes than a file offset can count
    for a, c in ((str(r.randint(2**62, 2**63 - 1)), "1"), ("2", str(r.randint(2**62, 2**63 - 1))), (str(2**62 + 3), "2"), ("4", str(2**62)), (str(2**32), str(2**32)),
                 (str(2**31 * 3), str(2**31 * 3)), (str(2**63), "1")):
        bad("size %s x %s" % (a, c), base(S=a, N=c))
    # data limits
    v = r.uniform(-50, 50)
    for lo, hi in ((v, v - 10 ** r.uniform(-6, 2)),):
        for o in ("DATA_MIN: %s\n   DATA_MAX: %s" % (num(lo), num(hi)), "DATA_MAX: %s\n   DATA_MIN: %s" % (num(hi), num(lo))):
            bad("limits " + o, base(pl=" PLANE:\n   %s\n  LATITUDE:" % o))
    ok("limits", base(pl=" PLANE:\n   DATA_MIN: %s\n   DATA_MAX: %s\n  LATITUDE:" % (num(v), num(v + 1))))
    # planes
    bad("no planes", base(pl=""))
    bad("empty plane", base(pl=" PLANE:"))
    bad("numbered plane without count", base(pl=" PLANE: 1\n  LATITUDE:"))
    bad("too few planes", base(planes="PLANES: 2", pl=" PLANE: 1\n  LATITUDE:"))
    bad("too many planes", base(planes="PLANES: 1", pl=" PLANE: 1\n  LATITUDE:\n PLANE: 2\n LATITUDE:"))
    bad("more planes than announced", base(planes="PLANES: 1", pl=" PLANE:\n  LATITUDE:\n PLANE:\n LATITUDE:"))
    bad("fewer planes than announced", base(planes="PLANES: 3", pl=" PLANE:\n  LATITUDE:\n PLANE:\n LATITUDE:"))
    bad("no planes announced", base(planes="PLANES: 0", pl=" PLANE:\n  LATITUDE:"))
    ok("announced planes", base(planes="PLANES: 2", pl=" PLANE:\n  LATITUDE:\n PLANE:\n LATITUDE:"))
    ok("numbered planes", base(planes="PLANES: 2", pl=" PLANE: 1\n  LATITUDE:\n PLANE: 2\n LATITUDE:"))
    bad("wrong plane number", base(planes="PLANES: 2", pl=" PLANE: 1\n  LATITUDE:\n PLANE: 3\n LATITUDE:"))
    bad("zero planes", base(planes="PLANES: 0", pl=" PLANE: 1\n  LATITUDE:"))
    ok("planes", base(planes="PLANES: 2", pl=" PLANE: 1\n  LATITUDE:\n PLANE: 2\n LATITUDE:"))
    bad("latitude type", base(pl=" PLANE:\n  LATITUDE: LATITUDE_TYPE: ROUND"))
    bad("no type for computed planes", base(data=""), True)
    # structure
    bad("no map", base()[len("MAP: o.fits\n"):])
    bad("unknown keyword", base(head="FOO: bar\n"))
    bad("unknown projection", base(typ="TYPE: " + r.choice(["SINUSOID", "FLAT", "PERSPECTIVE", ""])))
    bad("author twice", base(head="AUTHOR: a\nAUTHOR: b\n"))
    bad("order", base(head="SAMPLES: 3\n"))
    ok("plain", base())
    ok("photo", base(pl=photo()))
    return T


def setters(ctx, r):
    """the same domains at the interface of the viewing geometry and of the validation functions"""
    G = dict(sub=(10, 20), sun=(30, 40), rng=(9e5,), pa=(50,), kmpp=(9e3,), center=(5, 6))
    groups, meta = [], []

    def one(k, v, good):
        g = dict(G)
        g[k] = v
        order = [q for q in g if q != "arcsec"] + (["arcsec"] if "arcsec" in g else [])
        if k in ("arcsec", "lens"):
            order.remove("kmpp")
        groups.append(["view 1 71492 66854 " + " ".join(q + " " + " ".join(float(x).hex() if x == x else "nan" for x in g[q]) for q in order)
                       + " size 10 12"])
        meta.append((k, v, good))
    nan, inf = math.nan, math.inf
    for _ in range(ctx.n(40, 400)):
        up = lambda lim: r.choice([math.nextafter(lim, inf), lim + 10 ** r.uniform(-9, 3), 1e300, inf])
        sg = r.choice([-1, 1])
        neg = -10 ** r.uniform(-9, 9)
        for k in ("sub", "sun"):
            one(k, (sg * up(90.0), 1.0), False)
            one(k, (nan, 1.0), False)
            one(k, (1.0, sg * up(360.0)), False)
            one(k, (1.0, nan), False)
            one(k, (r.choice([-90.0, 90.0, r.uniform(-90, 90)]), r.choice([-360.0, 360.0, 0.0, r.uniform(-360, 360)])), True)
        one("pa", (sg * up(360.0),), False)
        one("pa", (nan,), False)
        one("pa", (r.choice([-360.0, 360.0, r.uniform(-360, 360)]),), True)
        one("emi", (sg * up(90.0),), False)
        one("emi", (r.choice([0.0, 90.0, r.uniform(0, 90)]),), True)
        for k in ("kmpp", "arcsec"):
            one(k, (r.choice([0.0, neg]),), False)
            one(k, (10 ** r.uniform(-3, 3),), True)
        one("lens", (r.choice([0.0, neg]), 1.0), False)
        one("lens", (1000.0, r.choice([0.0, neg])), False)
        one("lens", (10 ** r.uniform(1, 3), 10 ** r.uniform(1, 3)), True)
        one("rng", (r.choice([0.0, neg, r.uniform(0, 66854.0), 66854.0, 1e200]),), False)
        one("rng", (71492 * 10 ** r.uniform(1, 5),), True)
        a = 10 ** r.uniform(-2, 6)
        for v, good in (((a, math.nextafter(a, inf)), False), ((a, a * (1 + 10 ** -r.uniform(1, 12))), False), ((a, neg), False), ((neg, a), False),
                        ((0.0, a), False), ((a, 0.0), False), ((nan, a), False), ((a, nan), False), ((a, a), True),
                        ((a, a * r.uniform(.1, 1)), True)):
            groups.append(["body 1 %s %s" % tuple(x.hex() if x == x else "nan" for x in v)])
            meta.append(("body", v, good))
        for k in ("center", "oa"):
            one(k, r.choice([(nan, 1.0), (1.0, nan)]), False)
            one(k, (r.uniform(-99, 99), r.uniform(-99, 99)), True)
    for m, a in zip(meta, ctx.ask("geo", groups)):
        if a[0] is None:
            continue
        k, v, good = m
        ctx.case(("setter", k, repr(v)))
        ctx.saw("setters_valid" if good else "setters_out_of_domain")
        refused = bool(a[0]) and a[0][0] == "EXC"
        if refused == good:
            ctx.violation("setter:" + k, "%s %r at the library interface was %s" % (k, v, "refused" if refused else "accepted"))


def run(ctx):
    r = ctx.rng
    setters(ctx, r)
    ctx.build.marc()
    src = ctx.newdir()
    gen.source_image(r, src, "s.fits", 20, 16, -32, False)
    gen.source_image(r, src, "f.fits", 16, 20, -32, False)
    T = []
    for _ in range(ctx.n(4, 60)):
        T += table(r)

    def go(t):
        d = ctx.newdir()
        for f in ("s.fits", "f.fits"):
            os.link(src + "/" + f, d + "/" + f)
        open(d + "/m.marc", "w").write(t[1])
        return t, d, ctx.marc(d, ["m.marc"])

    ctx.rule = ("one case = one map entry with exactly one value outside its documented domain (must end with a non-zero status and a message, and for values "
                "checked on reading without an output file), or with a value just inside it (must be accepted); distinct by entry")
    for (w, text, valid, leave), d, x in ctx.pmap(go, T):
        ctx.case(text)
        ctx.saw("valid_boundary" if valid else "out_of_domain")
        ex = os.path.exists(d + "/o.fits")
        if x.crashed():
            ctx.violation("crash", "%s: %s" % (w, x.crashed()), files=[d])
        elif valid and (x.rc != 0 or not ex):
            ctx.violation("refused:" + w.split(" ")[0], "valid value refused: %s: %s" % (w, x.err[-300:]), files=[d])
        elif not valid and x.rc == 0:
            ctx.violation("accepted:" + w.split(" ")[0], "accepted: " + w, files=[d])
        elif not valid and not leave and ex:
            ctx.violation("output:" + w.split(" ")[0], "refused but an output file exists: " + w, files=[d])
        elif not valid and not (x.out + x.err).strip():
            ctx.violation("silent", "refused without a message: " + w, files=[d])
    ctx.sample({"cases": [t[0] for t in T[:40]]}, 1)
