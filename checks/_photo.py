from vf import gen, model, prog


def blank_misfit(x, maps):
    """a source's BLANK that the map's type cannot hold is refused with this message"""
    if "Blank map value does not fit within map data type." not in x.err:
        return False
    for m in maps:
        if m.dtype in ("BYTE", "SHORT", "LONG"):
            lo, hi = model.RANGES[model.BITPIX[m.dtype]]
            for p in m.planes:
                for im in p.imgs:
                    if getattr(im, "blank", None) is not None and not lo <= im.blank <= hi:
                        return True
    return False


def photo_cases(ctx, n, make, dtypes, avgs=(None,), planes=(1,), limits=0.0, bodyf=None):
    """make(r, d, name, body) -> Img; list of program cases"""
    r = ctx.rng
    cases = []
    for c in range(n):
        b = gen.body(r)
        p = gen.proj(r, b)
        S, N = gen.fix_dims(r, p, *gen.dims(r, 30))
        d = ctx.newdir()
        pls = []
        for j in range(r.choice(planes)):
            ims = make(r, d, "s%d" % j, b)
            pl = model.Plane("IMAGE", imgs=ims)
            if r.random() < limits:
                a, z = sorted((r.randint(-900, 900), r.randint(-900, 900)))
                q = r.random()
                if a != z:
                    if q < 0.7:
                        pl.dmin = a
                    if q > 0.3:
                        pl.dmax = z
            gen.settle(pl)
            pls.append(pl)
            for im in ims:
                for k in ("invert", "interp", "sky", "oa", "flat", "emi", "term", "kmpp", "arcsec", "lens", "datamin", "datamax"):
                    v = getattr(im, k)
                    if v is not None and v is not False:
                        ctx.saw("photo_" + k)
                if any(im.nibbles()):
                    ctx.saw("photo_nibble")
        m = model.Map("o.fits", b, p, S, N, pls, dtype=r.choice(dtypes), avg=r.choice(avgs))
        ctx.saw("map_" + p["kind"])
        ctx.saw("dtype_" + str(m.dtype))
        if m.avg:
            ctx.saw("averaging_" + m.avg)
        ctx.saw("photos", sum(len(q.imgs) for q in pls))
        cases.append((d, [m], "%d %s" % (c, m.text())))
    ctx.rule = ("one case = one generated map entry with its source image(s), run through the sanitized program; every pixel of "
                "every plane is compared with an independent evaluation (camera geometry, visibility, which source pixel, value); "
                "pixels whose answer depends on rounding (within a bounded distance of an edge) are not judged; distinct by entry")
    return cases
