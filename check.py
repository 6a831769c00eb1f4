#!/usr/bin/env python3-vt
"""python3-vt check.py <PROPERTY>: decides one property on /repo's current tree."""
import importlib, os, resource, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, build
import numpy, warnings
warnings.simplefilter("ignore")
numpy.seterr(all="ignore")


def main():
    # whatever the code under test writes stays within bounds
    resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))
    pid = sys.argv[1]
    ctx = None
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    try:
        mod = importlib.import_module("checks." + pid)
        ctx = core.Ctx(pid, getattr(mod, "LEVEL", "exploration"))
        try:
            mod.run(ctx)
        except core.Stop:
            pass
        rc = ctx.finish(getattr(mod, "MIN", 1))
    except build.BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (pid, e))
        rc = 3
    except core.Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 4
    finally:
        if ctx is not None:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.exit(rc)


main()
