from locks import *

ROLES = ["take", "try", "timed", "keep", "watch", "twatch", "see", "shut"]
TAKE, TRY, TIMED, KEEP, WATCH, TWATCH, SEE, SHUT = range(8)
SRCS = ["deadman_mtx.c", "robust.c", "tid.c", "err.c", "mtx.c"]
OPT = {"taken", "taken after a death", "seen taken", "seen released", "shut down"}


def run(ctx):
    quick = ctx.tier == "quick"
    kernel_notes(ctx)
    rounds_note(ctx, 4 if quick else 5)
    ctx.bound("2 or 3 threads, each taking (plainly, by trying, or with a deadline) and releasing or keeping a deadman, waiting for it to be taken and then released, or shutting a handle down; up to two deaths; any first token")
    ctx.stub("a handle is used by one thread at a time, besides its shutdown")
    hs = []

    def add(roles, rounds, deaths=0):
        name = "dead_" + "_".join(ROLES[r] for r in roles) + "_r%d_d%d" % (rounds, deaths)
        must = set()
        if any(r in (TAKE, TRY, TIMED, KEEP) for r in roles):
            must.add("taken")
        hs.append(ilv.I(name, "h_il_dead.c", SRCS, len(roles), rounds,
                        ["DEATHS=%d" % deaths] + ["R%d=%d" % (i + 1, r) for i, r in enumerate(list(roles) + [0] * (3 - len(roles)))],
                        reach_optional=OPT - must, timeout=700 if quick else 2500))
    r = 0 if quick else 1
    add((TAKE, TAKE, WATCH), 4, 1)
    add((TAKE, TAKE, TAKE), 3 + r, 1 + r)
    add((TRY, TAKE, WATCH), 4 + r, 1 + r)
    add((SEE, TAKE, KEEP), 4 + r, 1 + r)
    add((SEE, TAKE, TAKE), 4 + r, 2)
    add((WATCH, WATCH, TAKE), 4 + r, 2)
    add((WATCH, TAKE, TAKE), 4, 0)
    add((TWATCH, TAKE, TIMED), 3 + r, 1)
    add((SEE, SEE, KEEP), 3 + r)
    add((TAKE, SHUT, TAKE), 4 + r)
    add((WATCH, SHUT, TAKE), 4 + r)
    add((SEE, SHUT), 5)
    add((TAKE, TAKE), 5 + r, 1)
    add((WATCH, TAKE), 5 + r, 1)
    ilv.run_all(ctx, hs)
