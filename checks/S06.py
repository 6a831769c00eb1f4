"""Results depend on the input alone: not on memory contents, time, place, environment or earlier runs."""
import os, re, shutil
from vf import entries
LEVEL = "exploration"
MIN = 150


def console(t):
    return re.sub(r"in [0-9.e+-]+ seconds", "in T seconds", re.sub(r"\[debug\][^\n]*\n", "", t))


def run(ctx):
    r = ctx.rng
    ctx.build.marc("zero")
    ctx.build.marc("pattern")
    jobs = []
    for c in range(ctx.n(260, 5000)):
        d = ctx.newdir()
        ms = [entries.entry(r, d, "o%d" % i, mx=24) for i in range(r.choice([1, 1, 2]))]
        for m in ms:
            for p in m.planes:
                for im in p.imgs:
                    if im.geom_correct is None and r.random() < 0.2:
                        im.geom_correct = True
        open(d + "/m.marc", "w").write("".join(m.text() for m in ms))
        jobs.append((d, ms))
    nv = ctx.n(16, 200)
    VARIANTS = [("pattern", dict(MALLOC_PERTURB_="170", TZ="Asia/Tokyo"), False), ("zero", dict(MALLOC_PERTURB_="85", LC_ALL="C", COLUMNS="20"), True),
                ("pattern", dict(MALLOC_PERTURB_="255", MALLOC_ARENA_MAX="1", MALLOC_TOP_PAD_="100000", PADDING="x" * 5000), True)]

    def go(jn):
        n, (d, ms) = jn
        bad = []
        base = None
        want = console_want = None
        for i, (tag, env, move) in enumerate([("zero", {}, False)] + VARIANTS):
            dd = d
            if move:
                # another place: file names and their length must not matter
                dd = d + "_" + "long" * 20
                shutil.copytree(d, dd)
            for m in ms:
                try:
                    os.unlink(dd + "/" + m.fname)
                except OSError:
                    pass
            x = ctx.marc(dd, ["m.marc"], env=env, tag=tag)
            e = [entries.essence(dd + "/" + m.fname) for m in ms]
            if x.rc < 0 or x.crashed():
                bad.append(("crash", "%s: %s" % (tag, x.crashed())))
            if i == 0:
                want, console_want, rc = e, console(x.out), x.rc
                if rc != 0:
                    bad.append(("refused", "valid entry refused: %s" % x.err[-300:]))
            else:
                for m, p, q in zip(ms, want, e):
                    w = entries.differ(p, q)
                    if w:
                        bad.append(("differs", "%s differs between runs on the same input (%s, %r): %s"
                                    % (m.fname, tag, {k: v[:20] for k, v in env.items()}, w)))
                if console(x.out) != console_want:
                    bad.append(("console", "console output differs between runs on the same input"))
                if x.rc != rc:
                    bad.append(("status", "exit status %d, then %d" % (rc, x.rc)))
            if move:
                shutil.rmtree(dd)
        vg = None
        if n < nv:
            x = ctx.exec(["valgrind", "-q", "--error-exitcode=97", "--track-origins=no", ctx.build.marc("zero"), "m.marc"], d, timeout=100)
            vg = x.rc != 97
            if not vg:
                bad.append(("valgrind", "valgrind: " + x.err[-1500:]))
        return d, ms, bad, vg

    ctx.rule = ("one case = one map file run four times: stack variables left unset read as zero or as a pattern, heap memory perturbed, other time zone, "
                "environment, directory; files (apart from the date) and console must be the same; some also under valgrind; distinct by entry")
    # small ones for valgrind first
    jobs.sort(key=lambda j: sum(m.S * m.N * len(m.planes) for m in j[1]) < 60)
    for d, ms, bad, vg in ctx.pmap(go, list(enumerate(jobs))):
        ctx.case("".join(m.text() for m in ms))
        ctx.saw("runs", 4)
        if vg is not None:
            ctx.saw("valgrind_clean_runs" if vg else "valgrind_errors")
        ctx.sample({"entry": ms[0].text()[:500]}, 2)
        for k, m in bad[:3]:
            ctx.violation(k, m, files=[d])
