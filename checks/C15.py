from locks import *
from symex import S, run_all

OPS = ["lock", "try", "timed", "unlock", "wait", "twait", "d_try", "d_take", "d_release", "d_see", "d_watch"]


def run(ctx):
    quick = ctx.tier == "quick"
    steps = 3 if quick else 4
    ctx.bound("histories of up to %d operations locking and unlocking 3 mutexes and a deadman in every order, possibly with a fork in between, then one more operation" % steps)
    ctx.bound("that operation is cut short before each of its stores to a lock or to the list head, and inside each of its system calls; the lock may be free, held, waited for, or left by a dead owner, and the kernel answers in every way it can")
    ctx.stub("stores happen in the order of the compiled IR; threads other than the one that dies do not run between two of its stores except through the kernel's answers (their interleavings: C14, C16, C18)")
    hs = []
    for i, op in enumerate(OPS):
        for s in range(steps + 1):
            hs.append(S("%s_%d" % (op, s), "h_robust.c", ["mtx.c", "robust.c", "tid.c", "err.c", "deadman_mtx.c"], ["LAST=%d" % i, "STEPS=%d" % s],
                        src_cflags=SYSINC, crash=True, reach_optional=["found as pending", "several held", "forked", "died inside"]))
    run_all(ctx, hs)
