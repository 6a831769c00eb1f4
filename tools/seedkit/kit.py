"""Helpers of the demonstrations: runs MaRC in the current (scratch) directory, reads and writes FITS."""
import math, os, struct, subprocess, sys

MARC = "/repo/_build/src/marc"
FMT = {8: "B", 16: "h", 32: "i", 64: "q", -32: "f", -64: "d"}


def marc(*texts, env=None, args=None):
    names = []
    for i, t in enumerate(texts):
        with open("in%d.marc" % i, "w") as f:
            f.write(t)
        names.append("in%d.marc" % i)
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run([MARC] + (args or names), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    return p.returncode, p.stdout.decode("latin-1")


def read(path):
    """list of (header dict, list of values) of all HDUs"""
    b = open(path, "rb").read()
    out, o = [], 0
    while o < len(b):
        h, done = {}, False
        while not done:
            for c in range(36):
                card = b[o + 80 * c:o + 80 * c + 80].decode("latin-1")
                if card[:8] == "END     ":
                    done = True
                    break
                if card[8:10] == "= ":
                    v = card[10:]
                    if v.lstrip().startswith("'"):
                        v = v.lstrip()[1:].split("'")[0].rstrip()
                    else:
                        v = v.split("/")[0].strip()
                        try:
                            v = int(v)
                        except ValueError:
                            try:
                                v = float(v)
                            except ValueError:
                                pass
                    h[card[:8].strip()] = v
            o += 2880
        n = 1 if h["NAXIS"] else 0
        for i in range(h["NAXIS"]):
            n *= h["NAXIS%d" % (i + 1)]
        f = FMT[h["BITPIX"]]
        size = n * struct.calcsize(f)
        out.append((h, list(struct.unpack(">%d%s" % (n, f), b[o:o + size]))))
        o += (size + 2879) // 2880 * 2880
    return out


def write(path, bitpix, w, hgt, values, **kw):
    cards = ["SIMPLE  =                    T", "BITPIX  = %20d" % bitpix, "NAXIS   =                    2",
             "NAXIS1  = %20d" % w, "NAXIS2  = %20d" % hgt]
    for k, v in kw.items():
        k = k.replace("_", "-")
        cards.append("%-8s= %s" % (k, "'%-8s'" % v if isinstance(v, str) else "%20s" % v))
    cards.append("END")
    h = "".join("%-80s" % c for c in cards)
    h += " " * (-len(h) % 2880)
    d = struct.pack(">%d%s" % (len(values), FMT[bitpix]), *values)
    d += b"\0" * (-len(d) % 2880)
    open(path, "wb").write(h.encode() + d)


def body(eq=71492.0, pol=66854.0, pro=True):
    return "BODY: Jupiter\nEQ_RAD: %r\nPOL_RAD: %r\nROTATION: %s\n" % (eq, pol, "PROGRADE" if pro else "RETROGRADE")


def entry(planes, typ, s, l, bod=None, dtype="DOUBLE", opts="", name="o.fits", extra="", tail=""):
    """planes: list of texts, each a plane; opts: lines of the OPTIONS block; extra: lines after DATA_TYPE"""
    t = "MAP: %s\n%s" % (name, bod or body())
    if dtype:
        t += "DATA_TYPE: %s\n" % dtype
    t += extra + "TYPE: %s\n" % typ
    if opts:
        t += "OPTIONS:\n" + "".join("  %s\n" % x for x in opts.split(";"))
    t += "SAMPLES: %d\nLINES: %d\n%s" % (s, l, tail)
    for p in planes:
        t += " PLANE:\n  %s\n" % p
    return t


def need(cond, msg):
    if not cond:
        print("FAIL: " + msg)
        sys.exit(1)


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol
