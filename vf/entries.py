"""Random complete map entries of every sort, and the comparison of files produced in different runs."""
import os
from . import fits, gen, model


def essence(path):
    """what a produced file says, without the time it was written"""
    try:
        hs = fits.read(path)
    except OSError:
        return None
    except fits.FitsError as e:
        return "not FITS: %s" % e
    out = []
    for h in hs:
        out.append(tuple(c for c in h.cards if c[:8].strip() not in ("DATE", "CHECKSUM", "DATASUM")))
        out.append(h.data.tobytes() if h.data is not None else b"")
    return out


def differ(a, b):
    """where two essences differ, or None"""
    if a == b:
        return None
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return "%s versus %s" % tuple("no file" if q is None else q if isinstance(q, str) else "a file" for q in (a, b))
    if len(a) != len(b):
        return "%d versus %d image arrays" % (len(a) // 2, len(b) // 2)
    for j, (x, y) in enumerate(zip(a, b)):
        if x == y:
            continue
        if j % 2 == 0:
            dx, dy = [c for c in x if c not in y], [c for c in y if c not in x]
            return "header %d differs: %r versus %r" % (j // 2, [c.rstrip() for c in dx[:3]], [c.rstrip() for c in dy[:3]])
        n = sum(p != q for p, q in zip(x, y)) if len(x) == len(y) else -1
        return "data of array %d differ in %d of %d bytes" % (j // 2, n, len(x))


def entry(r, d, tag, mx=16, same_body=None, photos=True):
    """one random map entry whose sources are written in d"""
    b = same_body or gen.body(r)
    p = gen.proj(r, b)
    S, N = gen.fix_dims(r, p, *gen.dims(r, mx))
    pls, photo = [], False
    for j in range(r.choice([1, 1, 2, 3])):
        if photos and r.random() < 0.55:
            photo = True
            ims = []
            for k in range(r.choice([1, 1, 2, 3])):
                src = {}
                for key in ("AUTHOR", "ORIGIN", "BUNIT", "INSTRUME", "TELESCOP", "OBSERVER"):
                    if r.random() < 0.3:
                        src[key] = "%s of %s %d %d" % (key.lower(), tag, j, k)
                kw = {}
                if r.random() < 0.15:
                    kw["geom_correct"] = r.choice([True, False])
                im, _ = gen.photo(r, d, "%s_%d_%d.fits" % (tag, j, k), b, nan=r.random() < 0.3, src=src,
                                  bitpix=r.choice([-32, -64]), **kw)
                if r.random() < 0.2:
                    ff, _ = gen.source_image(r, d, "%s_%d_%df.fits" % (tag, j, k), im.S, im.N, -32, False)
                    im.flat = ("%s_%d_%df.fits" % (tag, j, k), ff)
                ims.append(im)
            pl = model.Plane("IMAGE", imgs=ims)
        else:
            pl = gen.virtual_plane(r, b)
        if r.random() < 0.2:
            pl.dmin = 0.0 if pl.kind != "IMAGE" else -200.0
        if r.random() < 0.2:
            pl.dmax = 0.5 if pl.kind != "IMAGE" else 300.0
        pls.append(pl)
    kw = {}
    if r.random() < 0.3:
        kw["author"] = "author of " + tag
    if r.random() < 0.3:
        kw["origin"] = "origin of " + tag
    if r.random() < 0.3:
        kw["comments"] = ["comment %d of %s" % (i, tag) for i in range(r.randint(1, 3))]
    if r.random() < 0.3:
        kw["xcomments"] = ["xcomment %d of %s" % (i, tag) for i in range(r.randint(1, 3))]
    if r.random() < 0.5:
        kw["grid"] = r.choice([True, False, (20.0, 20.0), (15.0, 40.0), (30.0, None), (None, 45.0)])
    if r.random() < 0.5:
        kw["avg"] = r.choice(["NONE", "WEIGHTED", "UNWEIGHTED"])
    kw["dtype"] = r.choice(["FLOAT", "DOUBLE", "LONG", "LONGLONG"] + ([None] if photo else []))
    if kw["dtype"] in ("LONG", "LONGLONG"):
        if r.random() < 0.5:
            kw["blank"] = r.choice([-99999, 77777])
        for pl in pls:
            # limits of integer maps are integers
            if pl.kind != "IMAGE":
                pl.dmin = pl.dmax = None
    m = model.Map(tag + ".fits", b, p, S, N, pls, **kw)
    if r.random() < 0.25:
        m.count_planes(r)
    for pl in pls:
        pl.swap = r.random() < 0.3
    return m
