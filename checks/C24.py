from symex import *


def run(ctx):
    ctx.bound("addition: every 64-bit nanosecond duration, every normalised timestamp within +-2^61 s",
              "conversion: deadlines up to 9223372034 s (292 years) away in either direction, any two clock readings")
    ctx.stub("clock_gettime: arbitrary readings, or failure")
    C = ["-Dclock_gettime=vh_clock_gettime"]
    srcs = ["time.c", "strconv.c", "err.c"]
    run_all(ctx, [S("add", "h_clock.c", srcs, ["H_ADD"], src_cflags=C), S("convert", "h_clock.c", srcs, ["H_CONVERT"], src_cflags=C)])
