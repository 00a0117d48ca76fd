from symex import *


def run(ctx):
    quick = ctx.tier == "quick"
    ctx.bound("arena sizes: every value from 144 to 2048 bytes; payload: 4 arbitrary bytes (8 after a merge), two headers of the caller; two writes in a row from an empty transport")
    ctx.bound("compositions: one or two middleware composed onto the writer and one wrapped around it, each any of the eight shipped ones or one of the user that may refuse the packet; a message of another writer may arrive at any time the lock is free")
    ctx.stub("mutex, clocks, id generation and the json library are replaced by stand-ins; json parsing, merging and writing may fail at each step")
    hs = []
    srcs = ["transport.c", "err.c", "packet.c", "writer.c", "middleware.c", "strconv.c"]
    hs.append(S("plain", "h_writer.c", srcs, ["DEPTH=0", "OTHERS"], reach_optional=["skipped"]))
    for k in range(9):
        hs.append(S("stack%d" % k, "h_writer.c", srcs, ["DEPTH=3", "FIRST=%d" % k, "OTHERS"], reach_optional=["skipped"]))
    run_all(ctx, hs)
