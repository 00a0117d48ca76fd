from symex import *
from transport_shapes import *


def run(ctx):
    quick = ctx.tier == "quick"
    k = 4 if quick else 5
    ctx.bound("deadlines: every pair of 64-bit second and nanosecond values; clock: any non-decreasing readings up to 2^34 s")
    ctx.bound("waits for a message, for none, for one after the cursor, and blocking reads; arena of 3 equal places, 0, 1 or 3 occupied at the start; first number: every 64-bit value")
    ctx.bound("%d steps, each letting the waiter or a shutdown request run to where it blocks, a write of 1 or all places, a clear, a wakeup without reason or after another holder's death, or the deadline passing" % k)
    ctx.stub("mutex and condition variable are replaced by stand-ins with their documented behaviour (checked by C14 and C16)")
    hs = []
    for mode in range(4):
        for timed in range(3):
            for n in [0, 1, 3] if timed == 1 else [0, 1]:
                opt = ["timed out", "shut down", "satisfied", "still waiting"]
                if timed == 2:
                    opt.append("unusable")
                hs.append(tp("wait%d_%d" % (mode, timed), n, n, ["STEPS=%d" % k, "COMMITTED=0", "GRID=3", "PLACE=1", "MODE=%d" % mode, "TIMED=%d" % timed], file="h_wait.c", srcs=SRCS + ["reader.c"], reach_optional=opt + ["unusable"]))
    run_all(ctx, hs)
