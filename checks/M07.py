"""Progress notification protocol, at the observer interface and on the console of the real program."""
import re
from vf import gen, model, prog
from ._map import factory
LEVEL = "exploration"
MIN = 300


def run(ctx):
    r = ctx.rng
    groups, meta = [], []
    for c in range(ctx.n(400, 8000)):
        f, b, p = factory(r)
        S, N = gen.fix_dims(r, p, *gen.dims(r, 20))
        planes = r.choice([1, 2, 3])
        nobs = r.choice([1, 2, 3])
        groups.append(["map d %s %d %d - - - 0x1p+10 %d %d %d %s" % (f, S, N, r.randrange(2**40), planes, nobs,
                                                                  " ".join(str(r.choice([0, 1])) for _ in range(planes)))])
        meta.append((p["kind"], S, N, planes, nobs))
    ctx.rule = ("one case = the notifications of one plane seen by one observer (count never decreases, never exceeds the map size, "
                "ends at the map size, then exactly one reset), or the console progress of one program run")
    for m, a, g in zip(meta, ctx.ask("mapmon", groups), groups):
        kind, S, N, planes, nobs = m
        z = a[0]
        if z is None:
            continue
        if z[0] == "EXC":
            ctx.violation("exception", "%s for %s" % (" ".join(map(str, z)), g[0]))
            continue
        it = iter(z)
        nx = lambda: next(it)
        nx()
        for pl in range(planes):
            n = nx()
            for _ in range(2 * n):
                nx()
            for _ in range(nx()):
                nx()
            nx(), nx(), nx()
            tr0 = None
            for ob in range(nx()):
                tr = [(nx(), nx(), nx()) for _ in range(nx())]
                ctx.case("%s|%d|%d" % (g[0], pl, ob))
                ctx.saw("notifications", len(tr))
                bad = None
                last = 0
                resets = [i for i, e in enumerate(tr) if e[0]]
                for e in tr:
                    if e[0]:
                        continue
                    if e[1] != S * N:
                        bad = "map size %d instead of %d" % (e[1], S * N)
                    if e[2] > S * N or e[2] < 1:
                        bad = "count %d of %d" % (e[2], S * N)
                    if e[2] < last:
                        bad = "count went from %d back to %d" % (last, e[2])
                    last = e[2]
                if not tr or len(resets) != 1 or resets[0] != len(tr) - 1:
                    bad = bad or "resets at %r of %d events" % (resets[:5], len(tr))
                if last != S * N:
                    bad = bad or "ended at %d of %d" % (last, S * N)
                if kind != "ORTHO" and len(tr) < S * N:
                    bad = bad or "only %d notifications for %d pixels" % (len(tr), S * N)
                if tr0 is not None and tr != tr0:
                    bad = bad or "two observers saw different histories"
                tr0 = tr
                if bad:
                    ctx.violation("protocol", "%s (plane %d, observer %d): %s" % (bad, pl + 1, ob + 1, g[0]))
                ctx.saw(kind)
    # console
    cases = []
    for c in range(ctx.n(60, 600)):
        b = gen.body(r)
        p = gen.proj(r, b)
        S, N = gen.fix_dims(r, p, *gen.dims(r, 30))
        n = r.choice([1, 2, 11]) if S * N < 200 else 1
        m = model.Map("o.fits", b, p, S, N, [model.Plane("LATITUDE") for _ in range(n)], dtype="DOUBLE")
        cases.append((ctx.newdir(), [m], "console %d %s" % (c, m.text())))

    def inspect(m, path, x, st):
        n = len(m.planes)
        w = len(str(n))
        bar = "".join("100%" if q == 100 else str(q) if q % 20 == 0 else "." for q in range(2, 101, 2))
        lines = [l for l in re.sub(r"\[[^\]\n]*\]\[\w+\][^\n]*\n", "", x.out).split("\n") if l.startswith("Plane ")]
        st["console_planes"] = len(lines)
        want = ["Plane %*d / %d: %s" % (w, j + 1, n, bar) for j in range(n)]
        if lines != want:
            return [("console", "console progress %r, expected %r" % (lines[:3], want[:3]))]
    prog.run_cases(ctx, cases, "console", inspect=inspect)
