from symex import *
from transport_shapes import *


def run(ctx):
    quick = ctx.tier == "quick"
    bounds(ctx, quick)
    ctx.bound("jump offset: every 64-bit value; recorded message size at an arbitrary offset: every 64-bit value")
    hs = []
    for n, up in shapes(quick):
        if n:
            hs.append(tp("live", n, up, ["LIVE"], file="h_tjump.c"))
    for n, up in [(0, 0), (1, 1)]:
        hs.append(tp("any", n, up, file="h_tjump.c"))
    run_all(ctx, hs)
