from symex import *


def run(ctx):
    n = 3 if ctx.tier == "quick" else 4
    ctx.bound("histories of %d steps out of writing, conditional writing, reading and both kinds of blocking read, one other writer getting in whenever the lock is free; values of 4 arbitrary bytes, or one that does not fit" % n,
              "arenas of 2048 bytes, and of 768 so that old values make room")
    ctx.stub("mutex and condition variable (other writers run when the lock is taken and during waits), clocks, ids, opening the topic, allocation that may fail")
    srcs = ["cfg.c", "transport.c", "err.c", "packet.c", "writer.c", "middleware.c", "reader.c", "strconv.c"]
    opt = ["refused", "written", "left alone", "nothing there", "timed out", "read"]
    hs = []
    for f in range(5):
        for size in (2048, 768):
            hs.append(S("h%d_%d" % (f, size), "h_cfg.c", srcs, ["FIRST=%d" % f, "STEPS=%d" % n, "OTHERS=1", "SIZE=%d" % size], reach_optional=opt, timeout=3000))
    ctx.bound("watching: up to 3 values before the start and up to 3 in each of two batches after it, over a log that readers follow as their options say")
    hs.append(S("watch", "h_cfgwatch.c", ["cfg.c", "packet.c", "err.c"], []))
    run_all(ctx, hs)
