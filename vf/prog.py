"""Runs map entries through the real program and compares with the model."""
import os
from . import compare


def run_cases(ctx, cases, key="map", tol_deg=1e-7, inspect=None, env=None, allow_refusal=None, sample=True):
    """cases: list of (dir, [Map...], label).  Every map of the entry must be
    produced and agree with the model."""
    ctx.build.marc()
    for d, maps, _ in cases:
        with open(os.path.join(d, "m.marc"), "w") as f:
            f.write("\n".join(m.text() for m in maps))

    def go(c):
        d, maps, label = c
        x = ctx.marc(d, ["m.marc"], env=env)
        out, st = [], {}
        if x.crashed():
            out.append(("crash", x.crashed() + "\n" + x.err[-1500:]))
        elif x.rc != 0:
            if allow_refusal and allow_refusal(x, maps):
                st["refused"] = 1
            else:
                out.append(("refused", "exit status %d for a valid map entry: %s" % (x.rc, x.err[-400:])))
        else:
            for m in maps:
                o = compare.compare_map(m, os.path.join(d, m.fname), st, tol_deg)
                if inspect and not o:
                    o = inspect(m, os.path.join(d, m.fname), x, st) or []
                out += o
        return d, maps, label, x, out, st

    for d, maps, label, x, out, st in ctx.pmap(go, cases):
        for k, v in st.items():
            ctx.saw("pixels_" + k if k in ("present", "absent", "unknown") else k, v)
        ctx.case(str(label), st.get("present", 0) + st.get("absent", 0) > 0)
        ctx.saw("program_runs")
        if sample:
            ctx.sample({"case": str(label), "map": maps[-1].text()[:900], "pixels": st})
        for k, msg in out[:3]:
            ctx.violation("%s:%s" % (key, k), msg, files=[d], text="\nexit status %d\n%s" % (x.rc, x.err[-2000:]))
