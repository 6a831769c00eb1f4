from vf import gen
from ._g import h
import math

TYPES = {"u8": (0, 255), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
         "f": None, "d": None}


def factory(r, kind=None):
    """request text of a map factory plus a description"""
    from vf import gen
    _, a, c = r.choice(gen.BODIES)
    pro = r.random() < 0.5
    b = dict(eq=a, pol=c, pro=pro)
    p = gen.proj(r, b, kind)
    return request(b, p), b, p


def request(b, p):
    t = "%d %s %s " % (b["pro"], h(b["eq"]), h(b["pol"]))
    k = p["kind"]
    if k == "SIMPLE_C":
        la = p.get("lat", (-90.0, 90.0))
        lo = [v % 360 for v in p["lon"]] if "lon" in p else (0.0, 360.0)
        p["lon"], p["lat"] = lo, la
        t += "S %s %s %s %s %d" % (h(la[0]), h(la[1]), h(lo[0]), h(lo[1]), p.get("lat_type") == "GRAPHIC")
    elif k == "MERCATOR":
        t += "M"
    elif k == "P_STEREO":
        t += "P %s %d" % (h(p.get("max_lat") or 0.0), p.get("pole", "N")[0] == "N")
    else:
        sub = p.get("sub", (0.0, 0.0))
        t += "O %s %s %s %s " % (h(sub[0]), h(sub[1]), h(p.get("pa", 0.0)), h(p["kmpp"]) if "kmpp" in p else "nan")
        if "center" in p:
            t += "C %s %s" % (h(p["center"][0]), h(p["center"][1]))
        elif "llc" in p:
            t += "L %s %s" % (h(p["llc"][0]), h(p["llc"][1]))
        else:
            t += "D nan nan"
    return t
