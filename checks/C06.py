from symex import *
from transport_shapes import *


def run(ctx):
    quick = ctx.tier == "quick"
    bounds(ctx, quick)
    ctx.bound("resize argument: every 64-bit value; what follows an accepted resize is checked for new sizes up to the mapped size")
    hs = []
    for n, up in shapes(quick):
        hs.append(tp("resize", n, up, ["OP_RESIZE", "REFUSE", "SPACE", "FORWARD_ONLY"], reach_optional=["all evicted", "no eviction"]))
        hs.append(tp("write", n, up, ["OP_WRITE", "SPACE", "NO_LIVE"], reach_optional=["all evicted", "no eviction"]))
        hs.append(tp("clear", n, up, ["OP_CLEAR", "SPACE", "NO_LIVE"]))
    run_all(ctx, hs)
