from symex import *
from transport_shapes import *


def run(ctx):
    quick = ctx.tier == "quick"
    k = 5 if quick else 6
    ctx.bound("arena of 3 equal places, 0..3 of them occupied at the start; writes take 1 or all places; first number: every 64-bit value")
    ctx.bound("schedules of the reader's thread, one closing thread and the writers, %d scheduling steps (a step lets a thread run to where it takes the lock, waits or joins; or is a write, a clear or a spurious wakeup), then both threads run until they rest" % k)
    ctx.stub("mutex, condition variable, event, thread creation and join are replaced by stand-ins with their documented behaviour (checked by C14, C16, C17)")
    hs = []
    srcs = SRCS + ["reader.c"]
    for n in [0, 1, 3]:
        for init in range(3):
            d = ["STEPS=%d" % k, "COMMITTED=0", "GRID=3", "PLACE=1", "INIT=%d" % init]
            hs.append(tp("thread%d" % init, n, n, d, file="h_rthread.c", srcs=srcs))
    hs.append(tp("selfclose", 1, 1, ["STEPS=4", "COMMITTED=0", "GRID=3", "PLACE=1", "INIT=0", "SELF_CLOSE"], file="h_rthread.c", srcs=srcs, reach_optional=["closed"]))
    hs.append(S("copy", "h_rtcopy.c", srcs + ["packet.c"]))
    run_all(ctx, hs)
