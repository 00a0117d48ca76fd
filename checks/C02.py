from symex import *
from transport_shapes import *


def run(ctx):
    quick = ctx.tier == "quick"
    bounds(ctx, quick)
    ctx.bound("cursors: on every live message or never placed, left behind by the operation")
    hs = []
    for n, up in shapes(quick):
        hs.append(tp("write", n, up, ["OP_WRITE"], reach_optional=["all evicted", "no eviction"]))
        hs.append(tp("clear", n, up, ["OP_CLEAR"]))
        hs.append(tp("cursor", n, up, ["OP_WRITE", "CURSOR", "NO_LIVE", "COMMITTED=0"], reach_optional=["all evicted", "no eviction", "refused"] + (["valid cursor"] if n == 0 else [])))
        hs.append(tp("cclear", n, up, ["OP_CLEAR", "CURSOR", "NO_LIVE"], reach_optional=["valid cursor"]))
    hs.append(tp("fresh", 0, 0, ["OP_WRITE", "FRESH"]))
    run_all(ctx, hs)
