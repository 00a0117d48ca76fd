from symex import *
from transport_shapes import *


def run(ctx):
    quick = ctx.tier == "quick"
    bounds(ctx, quick)
    ctx.bound("requested size: every 64-bit value")
    hs = []
    for n, up in shapes(quick):
        hs.append(tp("write", n, up, ["OP_WRITE", "FORWARD_ONLY"], reach_optional=["all evicted", "no eviction"]))
    hs.append(tp("fresh", 0, 0, ["OP_WRITE", "FRESH"]))
    run_all(ctx, hs)
