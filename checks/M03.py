from ._proj import run_kind
LEVEL = "exploration"
MIN = 100


def run(ctx):
    run_kind(ctx, "P_STEREO", 700, 12000)
