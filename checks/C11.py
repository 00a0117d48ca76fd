from symex import *
from transport_shapes import *


def run(ctx):
    quick = ctx.tier == "quick"
    bounds(ctx, quick)
    k = 3 if quick else 4
    ctx.bound("histories from any ring: creating a reader, one operation chosen from write of any size, abandoned write, clear and read (all three kinds of read), then two reads")
    ctx.bound("histories in an arena of 3 equal places, occupied from any place on: creating a reader, %d such operations (writes taking 1, 2 or all places), then two reads" % k)
    ctx.bound("copying reads: one header with any 2-character value, payloads of 0..3 arbitrary bytes, allocation succeeding or failing")
    hs = []
    srcs = SRCS + ["reader.c"]
    for n, up in [(0, 0), (1, 1), (2, 2), (2, 1)] + ([] if quick else [(3, 2), (3, 1)]):
        hs.append(tp("read", n, up, ["STEPS=1", "COMMITTED=0"], file="h_reader.c", srcs=srcs))
    for n in [0, 2, 3]:
        for init in range(3):
            hs.append(tp("history%d" % init, n, n, ["STEPS=%d" % k, "COMMITTED=0", "GRID=3", "INIT=%d" % init], file="h_reader.c", srcs=srcs))
    hs.append(S("copy", "h_readcopy.c", srcs + ["packet.c"]))
    run_all(ctx, hs)
