from symex import *


def run(ctx):
    ctx.bound("all 2^128 outputs of the random source per id; every pair of random outputs giving the same text")
    ctx.stub("the 32-bit random generator returns arbitrary values (how it is seeded is outside)")
    hs = [S("form", "h_uuid.c", ["uuid.c"], ["H_FORM"]),
          S("packet", "h_uuid.c", ["uuid.c", "packet.c", "err.c"], ["H_PACKET"]), S("inj", "h_uuid.c", ["uuid.c"], ["H_INJ"])]
    run_all(ctx, hs)
