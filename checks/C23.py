from symex import *


def run(ctx):
    ctx.bound("integers: all 64-bit and all 32-bit values, exact-size buffers and up to two positions of padding",
              "monotonic text: all instants below 10^10 s (19 digits)", "wall text: years 1000 to 9999, every field value including second 60",
              "rejection: all strings of up to 19 (64-bit) or 9 digits' length, all 35-character wall texts")
    ctx.stub("gmtime_r/timegm: arbitrary calendar fields, inverse of each other", "strftime: the conversions used", "snprintf: engine model of %0Nld")
    W = ["-Dgmtime_r=vh_gmtime_r", "-Dtimegm=vh_timegm", "-Dstrftime=vh_strftime"]
    sc, tm = ["strconv.c", "err.c"], ["time.c", "strconv.c", "err.c"]
    hs = [S("u64_%d" % lo, "h_strconv.c", sc, ["H_U64", "ND_LO=%d" % lo, "ND_HI=%d" % hi]) for lo, hi in ((1, 10), (11, 15), (16, 19), (20, 20))]
    hs += [S("u32", "h_strconv.c", sc, ["H_U32"]), S("reject", "h_strconv.c", sc, ["H_REJECT", "NMAX=12"]),
           S("mono", "h_time.c", tm, ["H_MONO"], src_cflags=W), S("mono_reject", "h_time.c", tm, ["H_MONO_REJECT"], src_cflags=W),
           S("wall", "h_time.c", tm, ["H_WALL"], src_cflags=W), S("wall_reject", "h_time.c", tm, ["H_WALL_REJECT"], src_cflags=W)]
    run_all(ctx, hs)
