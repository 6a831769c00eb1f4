from vf import gen, model, prog


def run_kind(ctx, kind, nq, nt, extra=None):
    r = ctx.rng
    cases = []
    for c in range(ctx.n(nq, nt)):
        b = gen.body(r)
        p = gen.proj(r, b, kind)
        S, N = gen.dims(r, 36 if r.random() < 0.92 else 120)
        S, N = gen.fix_dims(r, p, S, N)
        pls = [model.Plane("LATITUDE"), model.Plane("LONGITUDE")]
        m = model.Map("o.fits", b, p, S, N, pls, dtype="DOUBLE")
        cases.append((ctx.newdir(), [m], "%d %s" % (c, m.text())))
        ctx.saw("prograde" if b["pro"] else "retrograde")
        for k in p:
            if k != "kind":
                ctx.saw("option_" + k)
        if S > N:
            ctx.saw("wide")
        elif S < N:
            ctx.saw("tall")
        else:
            ctx.saw("square")
    ctx.rule = ("one case = one generated map entry (body, rotation, projection options, dimensions) run through the "
                "sanitized program; every pixel's latitude and longitude planes are compared with an extended precision "
                "evaluation of the projection's definition; distinct by entry text")
    ctx.assumptions += ["latitude and longitude planes report the coordinates at which the projection plots each pixel",
                        "agreement within 1e-7 degree (longitude scaled by 1/cos latitude)"]
    prog.run_cases(ctx, cases, kind.lower())
