from symex import *

# headers per block: (first, second, third); three-block shapes allow an empty middle block
SHAPES = [(0, 0, None), (1, 0, None), (2, 0, None), (1, 1, None), (0, 1, None), (1, 0, 1)]
SHAPES_T = [(3, 0, None), (1, 2, None), (0, 0, 2), (2, 1, 1)]


def run(ctx):
    quick = ctx.tier == "quick"
    ctx.bound("at most 2 headers (4 in the thorough tier) in up to 3 blocks, keys/values up to 2 bytes, payload up to 3 bytes, ids: all")
    ctx.stub("allocator: returns a fixed buffer of the requested size, or fails")
    hs = []
    for a, b, c in SHAPES + ([] if quick else SHAPES_T):
        d = ["NB0=%d" % a, "NB1=%d" % b] + (["NB2=%d" % c, "BLOCKS3"] if c is not None else [])
        n = "%d_%d_%s" % (a, b, c)
        for m in ["FLAT", "DESER", "COPY", "ITER"]:
            hs.append(S("packet_%s_%s" % (m.lower(), n), "h_packet.c", ["packet.c", "err.c"],
                        ["H_" + m] + d, native_extra=[os.path.join(VERIF, "harness", "stub_uuid.c")]))
    run_all(ctx, hs)
