from symex import *


def run(ctx):
    quick = ctx.tier == "quick"
    ctx.bound("listeners: every level and reader option; up to 3 packets before and after the start, one of them (thorough: two) with a level text of up to 5 arbitrary bytes or none, in any place among the headers",
              "loggers: two calls of any logging function, heard by a listener of every level")
    ctx.stub("topic file: an append-only log; readers follow it as their options say, writers append, either may fail")
    srcs = ["log.c", "packet.c", "err.c"]
    run_all(ctx, [
        S("listen_old", "h_log.c", srcs, ["LISTEN", "BEFORE=2", "AFTER=0"]),
        S("listen_new", "h_log.c", srcs, ["LISTEN", "BEFORE=1", "AFTER=1"]),
        S("listen_first", "h_log.c", srcs, ["LISTEN", "BEFORE=0", "AFTER=%d" % (1 if quick else 2)], timeout=3000),
        S("log", "h_log.c", srcs, []),
    ])
