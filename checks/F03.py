"""Source images are decoded as the FITS standard says, or refused."""
import gzip, os
import numpy as np
from vf import fits, prog
LEVEL = "exploration"
MIN = 500


def reported(ctx, r):
    """the program tells about sources whose recorded sums do not match, and still maps them"""
    from vf import gen, model
    cases = []
    for c in range(ctx.n(40, 600)):
        d = ctx.newdir()
        b = gen.body(r)
        im, _ = gen.photo(r, d, "source.fits", b, nan=False, bitpix=r.choice([8, 16, 32, -32, -64]), emi=None, nib={})
        path = os.path.join(d, "source.fits")
        h = fits.read(path)[0]
        raw = fits.sums(h.data, h.bitpix, [(k, v) for k, v in h.kw.items() if k not in ("SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "END")])
        how = r.choice(["none", "right", "data", "header", "both"])
        raw = bytearray(raw)
        end = raw.index(b"END" + b" " * 77)
        if how == "none":
            raw = None
        elif how in ("data", "both"):
            i = raw.index(b"DATASUM = ") + 11
            while not 48 <= raw[i] <= 57:
                i += 1
            raw[i] = 48 + (raw[i] - 48 + r.randint(1, 9)) % 10     # also makes the sum of the HDU wrong
        elif how == "header":
            raw[end + 80:end + 160] = raw[end:end + 80]
            raw[end:end + 80] = b"COMMENT changed later".ljust(80)
            if len(raw) % 2880 or (end + 160) % 2880 in (0, 80):
                raw, how = None, "none"
        if raw is not None:
            with open(path, "wb") as f:
                f.write(bytes(raw))
        p = gen.proj(r, b)
        S, N = gen.fix_dims(r, p, 8, 7)
        m = model.Map("o.fits", b, p, S, N, [model.Plane("IMAGE", imgs=[im])], dtype="DOUBLE")
        cases.append((d, [m], "sums %d %s %s" % (c, how, m.text())))

    def inspect(m, path, x, st):
        how = open(os.path.join(os.path.dirname(path), "how")).read()
        st["sums_" + how] = 1
        told = "source.fits" in x.err + x.out
        if told != (how not in ("none", "right")):
            return [("sums", "source with %s checksum(s): printed %r" % (how if how in ("none", "right") else "wrong " + how, (x.err + x.out)[-300:]))]
        return []
    for d, m, t in cases:
        with open(os.path.join(d, "how"), "w") as f:
            f.write(t.split()[2])
    prog.run_cases(ctx, cases, "sums", inspect=inspect)


def run(ctx):
    r = ctx.rng
    d = ctx.newdir()
    groups, meta = [], []
    for c in range(ctx.n(2500, 40000)):
        rs = np.random.RandomState(r.randrange(2**31))
        bp = r.choice([8, 16, 32, 64, -32, -64])
        nd = r.choice([2, 2, 2, 2, 3, 4, 1, 0])
        shape = tuple(r.choice([1, 2, 3, 7, 20, 33]) if r.random() < 0.25 else r.randint(2, 24) for _ in range(nd))
        if nd >= 3:
            shape = tuple(r.randint(1, 3) for _ in range(nd - 2)) + shape[-2:]
        if bp > 0:
            lo, hi = {8: (0, 255), 16: (-2**15, 2**15 - 1), 32: (-2**31, 2**31 - 1), 64: (-2**53, 2**53)}[bp]
            a = rs.randint(lo, hi, size=shape, dtype=np.int64) if nd else np.zeros((0,))
            if nd and r.random() < 0.5:
                a = a // max(1, hi // 100)
            a.reshape(-1)[:1] = lo
            a.reshape(-1)[1:2] = hi
        else:
            a = rs.randn(*shape) * 10 ** r.uniform(-3, 6) if nd else np.zeros((0,))
            if bp == -32:
                a = a.astype(np.float32).astype(float)
        extra, bs, bz, blank = [], 1.0, 0.0, None
        q = r.random()
        if q < 0.25:
            bs, bz = r.choice([(1.0, 32768.0), (1.0, -128.0), (1.0, 2147483648.0), (0.5, 0.0), (-2.0, 3.0)])
        elif q < 0.5:
            bs, bz = float(np.float64(r.uniform(-3, 3)) or 1), round(r.uniform(-1e4, 1e4), 3)
        if q < 0.5:
            extra += [("BSCALE", bs), ("BZERO", bz)]
        und = np.isnan(a)
        if bp > 0 and nd and r.random() < 0.5:
            blank = int(r.choice(a.reshape(-1).tolist()))
            extra.append(("BLANK", blank))
            und = a == blank
        elif bp < 0 and nd:
            m = rs.rand(*shape) < r.choice([0, 0.1])
            a = np.where(m, np.nan, a)
            und = m
        keys = {}
        for k in ("AUTHOR", "BUNIT", "INSTRUME", "OBJECT", "OBSERVER", "ORIGIN", "REFERENC", "TELESCOP"):
            if r.random() < 0.4:
                keys[k] = "".join(r.choice("abcdefgXYZ 0123'_-/") for _ in range(r.choice([1, 8, 30, 60, 68, 69, 150]))).strip() or "x"
                if len(keys[k].replace("'", "''")) > 68:
                    ctx.saw("continued_strings")
                extra.append((k, keys[k]))
        if r.random() < 0.3:
            keys["DATAMIN"] = round(r.uniform(-100, 0), 3)
            keys["DATAMAX"] = round(r.uniform(0, 100), 3)
            extra += [("DATAMIN", keys["DATAMIN"]), ("DATAMAX", keys["DATAMAX"])]
        if r.random() < 0.2:
            extra.append(("DATASUM", "12345"))      # wrong: only a warning
        with np.errstate(all="ignore"):
            phys = a.astype(np.float64) * bs + bz
        phys = np.where(und, np.nan, phys)
        ext = r.random() < 0.15
        arr = a if nd else np.zeros((0,))
        if nd == 0:
            raw = (fits.card("SIMPLE", True) + fits.card("BITPIX", bp) + fits.card("NAXIS", 0) + "END".ljust(80)).encode().ljust(2880)
            ext = False
        elif ext:
            raw = (fits.card("SIMPLE", True) + fits.card("BITPIX", 8) + fits.card("NAXIS", 0) + fits.card("EXTEND", True) +
                   "END".ljust(80)).encode().ljust(2880) + fits.encode(arr, bp, extra, primary=False)
        else:
            raw = fits.encode(arr, bp, extra)
            if r.random() < 0.2 and "DATASUM" not in dict(extra):
                raw = fits.sums(arr, bp, extra)
        damage = r.random() < 0.12
        if damage:
            k = r.random()
            if k < 0.5:
                raw = raw[:r.randrange(len(raw))]
            else:
                raw = bytearray(raw)
                for _ in range(r.randint(1, 30)):
                    raw[r.randrange(min(len(raw), 2880))] = r.randrange(256)
                raw = bytes(raw)
        path = os.path.join(d, "i%d.fits" % c + (".gz" if r.random() < 0.1 else ""))
        with (gzip.open if path.endswith(".gz") else open)(path, "wb") as f:
            f.write(raw)
        groups.append(["read " + path, "keys " + path])
        meta.append((bp, shape, phys, keys, damage, extra, ext, bs, bz, blank, path))
    ctx.rule = ("one case = one generated FITS file (data types, scaling, blanks, NaN, cubes, extensions, compression, damage) read by the "
                "program's own reader; decoded values and metadata against what was encoded; distinct by file")
    for m, a, g in zip(meta, ctx.ask("fitsmon", groups, with_src=True), groups):
        bp, shape, phys, keys, damage, extra, ext, bs, bz, blank, path = m
        z, k = a
        if z is None or k is None:
            continue
        desc = "BITPIX %d shape %r extension=%r cards %r" % (bp, shape, ext, extra)
        ctx.case(desc + str(damage))
        ctx.saw("bitpix_%d" % bp)
        ctx.saw("axes_%d" % len(shape))
        if damage:
            ctx.saw("damaged_refused" if z and z[0] == "EXC" else "damaged_read")
            if z and z[0] != "EXC" and (z[0] < 2 or z[1] < 2 or z[2] != z[0] * z[1] or len(z) != z[2] + 3):
                ctx.violation("damaged", "damaged file was read as %r" % (z[:3],), files=[path])
            continue
        if len(shape) < 2 or shape[-1] < 2 or shape[-2] < 2:
            ctx.saw("unsuitable")
            if z[0] != "EXC":
                ctx.violation("unsuitable", "an image without two dimensions of at least two pixels was accepted: %s" % desc, files=[path])
            continue
        if z[0] == "EXC":
            ctx.violation("refused", "%r for %s" % (z, desc), files=[path])
            continue
        N, S = shape[-2:]
        want = phys.reshape(-1)[:S * N]
        got = np.array([float(x) for x in z[3:]])
        if z[0] != S or z[1] != N or len(got) != S * N:
            ctx.violation("shape", "read as %r: %s" % (z[:3], desc), files=[path])
            continue
        ctx.saw("pixels", S * N)
        ctx.saw("undefined_pixels", int(np.isnan(want).sum()))
        tol = 1e-14 * (np.abs(want) + abs(bz)) * 4
        bad = (np.isnan(want) != np.isnan(got)) | (np.abs(want - got) > tol)
        if bad.any():
            j = int(np.nonzero(bad)[0][0])
            ctx.violation("value", "pixel %d read as %r, expected %r: %s" % (j, got[j], want[j], desc), files=[path])
        names = ["AUTHOR", "BUNIT", "DATE-OBS", "INSTRUME", "OBJECT", "OBSERVER", "ORIGIN", "REFERENC", "TELESCOP"]
        if k[0] == "EXC":
            ctx.violation("keys", "%r for %s" % (k, desc), files=[path])
            continue
        for n, v in zip(names, k[2:11]):
            v = bytes.fromhex(str(v)[1:]).decode("latin-1")
            if v.rstrip() != keys.get(n, "").rstrip():
                ctx.violation("keyword", "%s read as %r, written %r" % (n, v, keys.get(n)), files=[path])
        o = k[11:]
        opts = dict(zip(["BLANK", "BSCALE", "BZERO", "DATAMIN", "DATAMAX", "EQUINOX"], [(o[2 * i], o[2 * i + 1]) for i in range(6)]))
        ex = dict(extra)
        for n, (has, v) in opts.items():
            if bool(has) != (n in ex) or (has and float(v) != float(ex[n])):
                ctx.violation("keyword", "%s read as %r, written %r" % (n, (has, v), ex.get(n)), files=[path])
        ctx.sample({"file": desc[:300], "first": got[:3].tolist()})
        os.unlink(path)
    reported(ctx, r)
