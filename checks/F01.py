"""Produced files are conforming FITS, complete and self-describing."""
import datetime, os, re, string
import numpy as np
from vf import fits, gen, model, prog
LEVEL = "exploration"
MIN = 400
NAMES = {"SIMPLE_C": "Simple Cylindrical", "MERCATOR": "Mercator", "P_STEREO": "Polar Stereographic", "ORTHO": "Orthographic"}
DT = {"u8": 8, "i16": 16, "i32": 32, "i64": 64, "f": -32, "d": -64}


def text(r, mx=60):
    n = r.choice([1, 5, 20, 60, mx])
    s = "".join(r.choice(string.ascii_letters + string.digits + " .,:;#'\"()*/+-=_&%$!?<>[]{}|~^@\\") for _ in range(n)).strip(" &")
    return s if s and s[0] not in ":" else "x" + s


def squeeze(s):
    return re.sub(r"\s+", "", s)


def structure(hs):
    """complaints about one parsed file"""
    out = []
    for j, h in enumerate(hs):
        a, b = fits.checksum_ok(h)
        if a is not True or b is not True:
            out.append(("checksum", "HDU %d: DATASUM ok=%r CHECKSUM ok=%r" % (j, a, b)))
        if h.dups:
            out.append(("duplicate", "HDU %d: keywords given twice: %r" % (j, h.dups)))
        if h.pad.strip(b"\0"):
            out.append(("padding", "HDU %d: data padding is not zero" % j))
        d = str(h.kw.get("DATE", ""))
        try:
            t = datetime.datetime.fromisoformat(d)
            if abs((datetime.datetime.utcnow() - t).total_seconds()) > 2 * 86400:
                out.append(("date", "HDU %d: DATE %r is not today" % (j, d)))
        except ValueError:
            out.append(("date", "HDU %d: DATE %r" % (j, d)))
        if not str(h.kw.get("CREATOR", "")).startswith("MaRC"):
            out.append(("creator", "HDU %d: CREATOR %r" % (j, h.kw.get("CREATOR"))))
    return out


def run(ctx):
    r = ctx.rng
    cases = []
    for c in range(ctx.n(450, 7000)):
        b = gen.body(r)
        p = gen.proj(r, b)
        S, N = gen.fix_dims(r, p, *gen.dims(r, 30 if c % 40 else 700))
        d = ctx.newdir()
        t = r.choice(["DOUBLE", "FLOAT", "LONGLONG", "LONG", "SHORT", "BYTE"])
        pls = []
        for j in range(r.choice([1, 1, 2, 3, 11] if S * N < 5000 else [1, 2])):
            q = gen.virtual_plane(r, b)
            if t == "BYTE" and q.kind == "LONGITUDE":
                q.kind, q.lat_type = "MU0", None
            if r.random() < 0.15 and t in ("DOUBLE", "FLOAT", "LONGLONG"):
                q = model.Plane("IMAGE", imgs=[gen.photo(r, d, "s%d.fits" % j, b, bitpix=r.choice([8, -32]), nan=False)[0]])
            pls.append(q)
        kw = {}
        if r.random() < 0.6:
            kw["author"] = text(r, r.choice([60, 67, 68, 69, 140, 300]))
        if r.random() < 0.6:
            kw["origin"] = text(r, r.choice([60, 67, 68, 69, 140, 300]))
        kw["comments"] = [text(r, 200) for _ in range(r.choice([0, 0, 1, 3]))]
        kw["xcomments"] = [text(r, 200) for _ in range(r.choice([0, 0, 1, 3]))]
        m = model.Map(r.choice(["o.fits", "o.fits", "out.fit", "Some_Map-1.FITS", "./o.fits"]), b, p, S, N, pls, dtype=t,
                      grid=r.choice([None, None, False, True, (30.0, 45.0)]), **kw)
        old = r.random()
        if old < 0.3:      # an older file of that name is replaced altogether
            with open(os.path.join(d, m.fname), "wb") as f:
                f.write(b"\x7fgarbage" * r.choice([1, 1000, 20000]))
            ctx.saw("old_file_replaced")
        cases.append((d, [m], "%d %s" % (c, m.text())))
    ctx.rule = ("one case = one produced map file (independent FITS parser: blocks, cards, mandatory keywords, axes, checksums, padding, "
                "descriptive keywords, grid extension), or one history of writes to an image; distinct by input")

    def inspect(m, path, x, st):
        hs = fits.read(path)
        out = structure(hs)
        want = 2 if m.grid not in (None, False) else 1
        st["hdus"] = len(hs)
        st["files_over_100000_pixels"] = int(m.S * m.N > 100000)
        st["header_cards"] = sum(len(h.cards) for h in hs)
        if len(hs) != want:
            out.append(("hdus", "%d header/data units, expected %d" % (len(hs), want)))
        h = hs[0]
        for k, v in (("AUTHOR", m.author), ("ORIGIN", m.origin), ("OBJECT", m.body["name"])):
            got = h.kw.get(k)
            if v is None:
                if got is not None and not any(q.kind == "IMAGE" for q in m.planes):
                    out.append(("keyword", "unexpected %s = %r" % (k, got)))
            elif got is None or str(got).strip() != v.strip():
                out.append(("keyword", "%s is %r, the entry says %r" % (k, got, v)))
        com = [squeeze("".join(u.text["COMMENT"])) for u in hs]
        if not com[0].endswith(squeeze("".join(m.comments))):
            out.append(("comment", "comments %r, the entry says %r" % (h.text["COMMENT"], m.comments)))
        if not any(t.strip().startswith("%s projection" % NAMES[m.proj["kind"]]) or NAMES[m.proj["kind"]].split()[0] in t
                   for t in h.text["HISTORY"]):
            out.append(("history", "HISTORY does not name the projection: %r" % h.text["HISTORY"]))
        if len(hs) == 2 and want == 2:
            g = hs[1]
            if g.kw.get("EXTNAME") != "GRID" or g.axes != [m.S, m.N] or g.bitpix != 8:
                out.append(("grid", "grid extension %r axes %r" % (g.kw.get("EXTNAME"), g.axes)))
            if not com[1].endswith(squeeze("".join(m.xcomments))):
                out.append(("xcomment", "extension comments %r, the entry says %r" % (g.text["COMMENT"], m.xcomments)))
            st["grid_extensions"] = 1
        if h.bitpix < 0 and ("BLANK" in h.kw):
            out.append(("blank", "BLANK in a floating point map"))
        return out
    prog.run_cases(ctx, cases, "file", inspect=inspect)
    # histories of writes
    groups, meta = [], []
    d = ctx.newdir()
    for c in range(ctx.n(400, 6000)):
        t = r.choice(list(DT))
        S, N, P = r.choice([(1, 1, 1), (1, 1, 3), (r.randint(1, 40), r.randint(1, 40), r.randint(1, 5))])
        path = os.path.join(d, "w%d.fits" % c)
        wr, want = [], []
        for _ in range(r.randint(0, P + 2)):
            n = S * N if r.random() < 0.8 else max(0, S * N + r.choice([-1, 1, 7]))
            wr.append((n, r.randrange(2**40)))
        lo = "-" if r.random() < 0.5 else str(r.randint(0, 100))
        bl = "-" if r.random() < 0.5 else str(r.randint(0, 100))
        groups.append(["out %s %s %d %d %d %s %s %s - %s" % (t, path, S, N, P, r.choice(["-", "Text"]), bl, lo,
                                                              " ".join("%d %d" % w for w in wr))])
        meta.append((t, path, S, N, P, wr, lo, bl))
    for (t, path, S, N, P, wr, lo, bl), a, g in zip(meta, ctx.ask("fitsmon", groups, with_src=True), groups):
        z = a[0]
        if z is None:
            continue
        ctx.case("w " + g[0].split(" ", 3)[3] + t)
        ctx.saw("write_histories")
        if z and z[0] == "EXC":
            ctx.violation("write:exception", "%r for %s" % (z, g[0]))
            continue
        exp, acc = [], []
        for n, s in wr:
            ok = n == S * N and len(acc) < P
            exp.append(int(ok))
            ctx.saw("writes_accepted" if ok else "writes_refused")
            if ok:
                v = []
                for _ in range(n):
                    s = (s * 6364136223846793005 + 1442695040888963407) % 2**64
                    v.append((s >> 40) % 200)
                acc.append(v)
        if list(z) != exp:
            ctx.violation("write:accept", "writes accepted %r, expected %r: %s" % (z, exp, g[0]))
            continue
        try:
            hs = fits.read(path)
        except (fits.FitsError, OSError) as e:
            ctx.violation("write:badfits", "%s after %s" % (e, g[0]), files=[path])
            continue
        for k, msg in structure(hs):
            ctx.violation("write:" + k, "%s; %s" % (msg, g[0]), files=[path])
        h = hs[0]
        if h.bitpix != DT[t] or h.axes != [S, N] + ([P] if P > 1 else []):
            ctx.violation("write:shape", "BITPIX %r axes %r for %s" % (h.bitpix, h.axes, g[0]))
            continue
        got = np.asarray(h.data).reshape(-1)[:len(acc) * S * N].astype(np.int64).tolist()
        if got != [int(x) for v in acc for x in v]:
            ctx.violation("write:data", "data differ from what was written: %s" % g[0], files=[path])
        if (h.kw.get("BLANK") != int(bl) if bl != "-" and DT[t] > 0 else "BLANK" in h.kw):
            ctx.violation("write:blank", "BLANK %r for %s" % (h.kw.get("BLANK"), g[0]))
        if (float(h.kw.get("DATAMIN", -1)) != float(lo)) if lo != "-" else "DATAMIN" in h.kw:
            ctx.violation("write:datamin", "DATAMIN %r for %s" % (h.kw.get("DATAMIN"), g[0]))
        os.unlink(path)
