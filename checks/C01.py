"""No input makes the program touch memory it does not own, compute undefined results, or die."""
import math, os, re
import numpy as np
from vf import entries, fits, gen, model
LEVEL = "exploration"
MIN = 800
OKSTATUS = (0, 1, 64, 255)
ODD = ["0", "-0.0", "1E-300", "-1E-300", "1E300", "-1E300", "1E308 * 10", "ln(-1)", "sqrt(-1)", "ln(0)", "1E-310", "90", "-90", "360", "-360", "180", "270",
       "89.99999999999999", "4.9E-324", "1E18", "9223372036854775807", "1E10", "-1E10", "2147483648", "1E5", "0.5", "1", "-1", "2 ^ 1024", "0 ^ 0 - 1",
       "exp(-800)", "asin(2)", "tan(1.5707963267948966)", "3 ^ -0.5", "1E-15", "45"]
# lexical junk
JUNK = ["", ":", "::", "#", "\0", "\xff", "(", ")", "MAP", "PLANE:", "E", "N", "-", "1E", "1E999", "\t", "\r", "'", "\"", "%s%n", "A" * 3000, "1" * 400, "{}",
        "{0}", "0x1p5", "(" * 200, "- " * 300 + "1", "sin(" * 100]


def numeric_mutation(r, t, k):
    """replace k numeric values by odd ones (dimensions stay small)"""
    ls = t.split("\n")
    idx = [i for i, l in enumerate(ls) if re.match(r"\s*[A-Z_0-9]+:\s*[-.0-9]", l) and not re.match(r"\s*(PLANES|PLANE|.*GRID_INTERVAL)\b", l)]
    for i in r.sample(idx, min(k, len(idx))):
        key = ls[i].split(":")[0]
        v = r.choice(ODD)
        if key.strip() in ("SAMPLES", "LINES"):
            v = str(r.choice([1, 1, 2, 3, 50, 0, -1, r.randint(2**62, 2**63 - 1), 2**63 - 1, 2**62 + 1, 2**63]))
        elif key.strip() in ("SAMPLE_CENTER", "LINE_CENTER", "SAMPLE_OA", "LINE_OA") and r.random() < 0.5:
            v = r.choice(["-1", "0", "-1E9", "1E9", "3", "2147483647.5", "-2147483649", "1E19", "5.999999999999999"])
        if r.random() < 0.2:
            v += " " + r.choice(["N", "S", "E", "W", "G", "C", "CW", "CCW", "AU", "KM"])
        ls[i] = key + ": " + v
    return "\n".join(ls)


def interval_mutation(r, t):
    return re.sub(r"(GRID_INTERVAL: ).*", lambda m: m.group(1) + r.choice(["0.5", "360", "1E300", "90", "ln(-1)", "1E308 * 10", "89.9999", "0.01", "180", "1E18"]), t)


def text_mutation(r, t):
    b = t
    for _ in range(r.choice([1, 1, 2, 4, 9])):
        q = r.random()
        if q < 0.25 and b:
            i = r.randrange(len(b))
            n = r.choice([1, 1, 5, 30])
            b = b[:i] + b[i + n:]
        elif q < 0.5:
            i = r.randint(0, len(b))
            b = b[:i] + r.choice(JUNK) + b[i:]
        elif q < 0.65:
            ls = b.split("\n")
            i, j = r.randrange(len(ls)), r.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
            b = "\n".join(ls)
        elif q < 0.8:
            ls = b.split("\n")
            i = r.randrange(len(ls))
            ls.insert(r.randrange(len(ls)), ls[i])
            b = "\n".join(ls)
        elif q < 0.9:
            i = r.randint(0, len(b))
            b = b[:i]
        else:
            i = r.randrange(len(b) + 1)
            b = b[:i] + chr(r.randrange(256)) + b[i + 1:]
    return b


def tame(t):
    """dimensions and grids small enough to finish"""
    def dim(m):
        try:
            v = abs(float(m.group(2)))
        except ValueError:
            return m.group(0)
        # more bytes than can be counted: refused at once
        return m.group(0) if v <= 300 or (v >= 2.0 ** 62 and m.group(2).isdigit()) else m.group(1) + "77"
    t = re.sub(r"(?i)((?:SAMPLES|LINES)\s*:\s*)([-+.0-9E]+)", dim, t)

    def gi(m):
        try:
            v = abs(float(m.group(2)))
        except ValueError:
            return m.group(0)
        return m.group(0) if v == 0 or v > 1e-3 else m.group(1) + "0.7"
    return re.sub(r"(?i)(GRID_INTERVAL\s*:\s*)([-+.0-9E]+)", gi, t)


def hostile_image(r, path):
    """damage a FITS file"""
    raw = bytearray(open(path, "rb").read())
    for _ in range(r.choice([1, 1, 2, 3])):
        q = r.random()
        if q < 0.55:
            # a header card
            cards = [i for i in range(0, min(len(raw), 2880), 80) if raw[i:i + 8].strip() not in (b"", b"END")]
            i = r.choice(cards)
            key = raw[i:i + 8].decode("latin-1").strip()
            val = {"BITPIX": ["8", "16", "32", "64", "-32", "-64", "7", "0", "-65"], "NAXIS": ["0", "1", "2", "3", "4", "999", "-1"],
                   "NAXIS1": ["0", "1", "2", "3", "300", "-1", "99999"], "NAXIS2": ["0", "1", "2", "3", "300", "-1"],
                   "SIMPLE": ["F", "T"], "BLANK": ["0", "255", "99999999999", "-1", "'x'", "1.5"],
                   "BSCALE": ["0.0", "1E308", "-1E308", "1E-308", "'x'", "NAN"], "BZERO": ["1E308", "-1E308", "9.3E18", "2147483648"],
                   "DATAMIN": ["1E308", "-1E308", "0", "'x'"], "DATAMAX": ["1E308", "-1E308", "0"]}.get(key, ["1", "'x'", "", "T", "'" + "y" * 60])
            raw[i:i + 80] = ("%-8s= %20s" % (key, r.choice(val))).ljust(80)[:80].encode()
        elif q < 0.7:
            extra = r.choice(["BLANK   =                    5", "BSCALE  =               1.0E30", "BZERO   =             -1.0E300", "DATAMIN =                  1E9",
                              "DATAMAX =                 -1E9", "BSCALE  =                  0.0", "NAXIS3  =                    2", "EXTEND  =                    T",
                              "BLANK   =  9223372036854775807", "EQUINOX =                'old'", "AUTHOR  = '" + "z" * 68, "COMMENT " + "q" * 72])
            e = raw.find(b"END     ")
            if e >= 0 and e + 160 <= 2880:
                raw[e:e + 80] = extra.ljust(80)[:80].encode()
                raw[e + 80:e + 160] = b"END".ljust(80)
        elif q < 0.8:
            raw = raw[:r.choice([0, 10, 80, 2879, 2880, 2881, len(raw) // 2, len(raw) - 1, len(raw) - 2880])]
            if not raw:
                break
        elif q < 0.9:
            for _ in range(r.choice([1, 10])):
                raw[r.randrange(len(raw))] = r.randrange(256)
        else:
            # extreme samples
            v = {0: b"\x7f\xf0\0\0\0\0\0\0", 1: b"\xff\xf0\0\0\0\0\0\0", 2: b"\x7f\xef\xff\xff\xff\xff\xff\xff", 3: b"\x7f\x80\0\0", 4: b"\x80\0\0\0",
                 5: b"\x7f\xff\xff\xff\xff\xff\xff\xff"}[r.randrange(6)]
            for _ in range(20):
                if len(raw) > 2900:
                    p = 2880 + (r.randrange(len(raw) - 2890) // len(v)) * len(v)
                    raw[p:p + len(v)] = v
    open(path, "wb").write(bytes(raw))


def run(ctx):
    r = ctx.rng
    exe = ctx.build.marc()
    jobs = []
    for c in range(ctx.n(2200, 60000)):
        d = ctx.newdir()
        k = r.choice([1, 1, 1, 2])
        ms = [entries.entry(r, d, "o%d" % i, mx=r.choice([3, 8, 16])) for i in range(k)]
        for m in ms:
            # all map types, sources of every type
            m.dtype = r.choice(["BYTE", "SHORT", "LONG", "LONGLONG", "FLOAT", "DOUBLE", m.dtype])
            if m.dtype not in ("LONG", "LONGLONG"):
                m.blank = None
            for p in m.planes:
                for im in p.imgs:
                    if r.random() < 0.4:
                        gen.source_image(r, d, im.fname, im.S, im.N, scaled=r.choice([None, (1e5, 3.0), (-1e-9, 1e300), (1.0, 32768.0)]))
        t = "".join(m.text() for m in ms)
        how = r.choice(["numbers", "numbers", "numbers", "text", "text", "image", "image", "grid", "plain"])
        if how == "numbers":
            t = numeric_mutation(r, t, r.choice([1, 1, 2, 3, 6]))
        elif how == "text":
            t = tame(text_mutation(r, t))
        elif how == "grid":
            t = interval_mutation(r, t)
        elif how == "image":
            fs = [f for f in os.listdir(d) if f.endswith(".fits")]
            for f in r.sample(fs, min(len(fs), r.choice([1, 2]))):
                hostile_image(r, d + "/" + f)
        open(d + "/m.marc", "wb").write(t.encode("latin-1"))
        jobs.append((d, t, how))

    def go(j):
        d, t, how = j
        x = ctx.exec([exe, "m.marc"], d, timeout=20, retry=False, halt=False)
        if x.timeout and how in ("plain", "image"):
            # nothing in such input asks for a long run
            x = ctx.exec([exe, "m.marc"], d, timeout=60)
        if x.rc == 99 and re.search(r"out-of-memory|allocation-size-too-big|requested allocation size|out of memory", x.err):
            # the sanitizer's allocator cannot throw: ask the plain program under a memory limit
            x = ctx.exec(["prlimit", "--as=2000000000", ctx.build.marc("plain"), "m.marc"], d, timeout=20, retry=False, halt=False)
            x.err += "(plain)"
        return j, x

    ctx.rule = ("one case = one program run, instrumented for addresses, undefined behaviour, out-of-range conversions and library assertions, on a valid map file and "
                "its images after numeric, lexical, grid or image damage; it must end with a documented status; distinct by input")
    for (d, t, how), x in ctx.pmap(go, jobs):
        if x.timeout:
            ctx.saw("too_slow_not_judged")
            continue
        ctx.case(how + t + ("" if how != "image" else d[-6:]))
        ctx.saw("runs_" + how)
        ctx.saw("status_%d" % x.rc)
        c = x.crashed()
        if c:
            w = re.search(r"([A-Za-z_]+\.(?:cpp|h|yy|ll|cc)):(\d+)", x.err)
            ctx.violation("died:%s" % (re.sub(r"[0-9.e+-]{3,}|0x[0-9a-f]+", "#", c)[:60]), "%s [%s] %s" % (c, how, w.group(0) if w else ""), files=[d],
                          text=x.err[-3000:])
        elif x.rc not in OKSTATUS:
            ctx.violation("status", "exit status %d [%s]: %s" % (x.rc, how, x.err[-300:]), files=[d])
        ctx.sample({"how": how, "status": x.rc, "input": t[:500]}, 3)
