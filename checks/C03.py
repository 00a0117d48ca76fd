from symex import *
from transport_shapes import *


def run(ctx):
    quick = ctx.tier == "quick"
    bounds(ctx, quick)
    ctx.bound("crash points: before every store to the arena made by lock, allocation, eviction, commit, clear, resize and unlock, and at every 8-byte boundary inside block copies; stores take effect in program order")
    hs = []
    for n, up in shapes(quick):
        c = ["COMMITTED=%d" % (n & 1)] if quick else []
        hs.append(tp("write", n, up, ["OP_WRITE", "FORWARD_ONLY"] + ([] if n > 2 and quick else ["PROBE"]) + c, file="h_tcrash.c", crash=True, reach_optional=["died between making room and committing"] if n == 0 else []))
        hs.append(tp("clear", n, up, ["OP_CLEAR", "FORWARD_ONLY"] + c, file="h_tcrash.c", crash=True))
        hs.append(tp("resize", n, up, ["OP_RESIZE", "FORWARD_ONLY"] + c, file="h_tcrash.c", crash=True))
    run_all(ctx, hs)
