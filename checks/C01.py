from symex import *
from transport_shapes import *


def run(ctx):
    quick = ctx.tier == "quick"
    bounds(ctx, quick)
    ctx.bound("contents: one arbitrary byte at an arbitrary position of an arbitrary live message, and of the new one, is followed through the operation")
    hs = []
    for n, up in shapes(quick):
        hs.append(tp("write", n, up, ["OP_WRITE", "PROBE", "FORWARD_ONLY"], reach_optional=["all evicted", "no eviction"]))
        hs.append(tp("abandon", n, up, ["OP_WRITE", "PROBE", "ABANDON", "FORWARD_ONLY"], reach_optional=["all evicted", "no eviction"]))
        hs.append(tp("clear", n, up, ["OP_CLEAR", "PROBE", "FORWARD_ONLY"]))
        hs.append(tp("resize", n, up, ["OP_RESIZE", "PROBE", "FORWARD_ONLY"], reach_optional=["refused"]))
    hs.append(tp("fresh", 0, 0, ["OP_WRITE", "PROBE", "FRESH", "FORWARD_ONLY"]))
    run_all(ctx, hs)
