"""A map is the same whether its entry is processed alone or among others, in any order, from one file or many."""
import copy, os, shutil
from vf import entries, gen
LEVEL = "exploration"
MIN = 150


def twin(r, m, tag):
    """the same entry for another shape or rotation of the body, or with other planes: whatever is kept between entries that
    look alike is wrong"""
    t = copy.deepcopy(m)
    t.fname = tag + ".fits"
    q = r.random()
    b = t.body
    if "llc" in t.proj or any(im.llc for pl in t.planes if pl.kind == "IMAGE" for im in pl.imgs):
        return t                            # the given centre may not be visible on another body
    if q < 0.5:
        b["given"] = "eq,pol"
        b["pol"] = b["pol"] * r.choice([0.6, 0.8, 0.95])
    elif q < 0.7:
        b["pro"] = not b["pro"]
    else:
        k = t.planes[0].kind
        if k != "IMAGE" and t.dtype not in ("BYTE", "SHORT"):
            t.planes[0] = gen.virtual_plane(r, b)
    return t


def run(ctx):
    r = ctx.rng
    ctx.build.marc()
    jobs = []
    for c in range(ctx.n(110, 2500)):
        d = ctx.newdir()
        k = r.choice([2, 2, 3, 4, 5])
        body = None
        ms = []
        for i in range(k):
            if ms and r.random() < 0.4:
                m = twin(r, ms[-1], "o%d" % i)
                ctx.saw("twins")
            else:
                m = entries.entry(r, d, "o%d" % i, same_body=body if r.random() < 0.5 else None)
                if r.random() < 0.3 and m.proj["kind"] in ("SIMPLE_C", "P_STEREO", "ORTHO"):
                    m.S, m.N = r.randint(1, 3), 1
                    if r.random() < 0.6 and not any(q.kind == "IMAGE" for q in m.planes):
                        m.planes = m.planes[:1]
                        m.planes[0] = gen.virtual_plane(r, m.body)
            body = m.body
            ms.append(m)
        for i in range(k):
            with open(d + "/alone%d.marc" % i, "w") as f:
                f.write(ms[i].text())
        with open(d + "/all.marc", "w") as f:
            f.write("\n".join(m.text() for m in ms))
        perm = list(range(k))
        r.shuffle(perm)
        cut = r.randint(1, k - 1)
        for n, part in (("p1", perm[:cut]), ("p2", perm[cut:])):
            with open(d + "/%s.marc" % n, "w") as f:
                f.write("\n".join(ms[i].text() for i in part))
        perm2 = list(range(k))
        r.shuffle(perm2)
        jobs.append((d, k, perm, cut, perm2, ms))

    def go(j):
        d, k, perm, cut, perm2, ms = j
        outs, bad = {}, []

        def runit(name, args):
            for i in range(k):
                try:
                    os.unlink(d + "/o%d.fits" % i)
                except OSError:
                    pass
            x = ctx.marc(d, args)
            if x.crashed():
                bad.append(("crash", "%s: %s" % (name, x.crashed())))
            return x, [entries.essence(d + "/o%d.fits" % i) for i in range(k)]
        alone = []
        for i in range(k):
            x, e = runit("alone", ["alone%d.marc" % i])
            if x.rc != 0:
                bad.append(("refused", "valid entry %d refused alone: %s" % (i, x.err[-300:])))
            alone.append(e[i])
            for q in range(k):
                if q != i and e[q] is not None:
                    bad.append(("stray", "entry %d alone produced the file of entry %d" % (i, q)))
        for name, args in (("one file", ["all.marc"]), ("two files", ["p1.marc", "p2.marc"]),
                           ("a file each", ["alone%d.marc" % i for i in perm2])):
            x, e = runit(name, args)
            if x.rc != 0:
                bad.append(("together", "%s: exit status %d: %s" % (name, x.rc, x.err[-300:])))
                continue
            for i in range(k):
                w = entries.differ(alone[i], e[i])
                if w:
                    bad.append(("differs", "entry %d processed with others (%s, %s) is not what it is alone: %s"
                                % (i, name, args, w)))
        # two entries for the same file: the later one makes it
        with open(d + "/dup.marc", "w") as f:
            f.write(ms[0].text() + "\n" + ms[1].text().replace("MAP: o1.fits", "MAP: o0.fits", 1))
        x, e = runit("same name", ["dup.marc"])
        if x.rc != 0:
            bad.append(("together", "two entries for one file: exit status %d: %s" % (x.rc, x.err[-300:])))
        else:
            w = entries.differ(alone[1], e[0])
            if w:
                bad.append(("samename", "two entries for the same file: it is not the map of the later entry: %s" % w))
        return j, bad

    ctx.rule = ("one case = one map entry processed alone, with others in one file, in two files in another order and in separate files; the file "
                "it produces must be the same every time (header and data, apart from the date); distinct by entry")
    for (d, k, perm, cut, perm2, ms), bad in ctx.pmap(go, jobs):
        for m in ms:
            ctx.case(m.text())
            ctx.saw("files_compared", 3)
            ctx.saw("map_" + m.proj["kind"])
        ctx.sample({"entries": k, "orders": [perm, perm2], "first": ms[0].text()[:600]}, 2)
        for key, msg in bad[:2]:
            ctx.violation(key, msg, files=[d])
