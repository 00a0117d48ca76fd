from locks import *

ROLES = ["wait", "timed", "set", "ask", "arrive"]
WAIT, TIMED, SET, ASK, ARRIVE = range(5)


def run(ctx):
    quick = ctx.tier == "quick"
    kernel_notes(ctx)
    rounds_note(ctx, 3 if quick else 4)
    ctx.bound("2 or 3 threads waiting for, setting or asking an event, or waiting for, counting down, arriving at or asking a latch")
    ctx.bound("latch counts and steps: every value as long as no sum leaves 32 bits; steps are not negative")
    hs = []

    def add(latch, roles, rounds):
        name = ("latch_" if latch else "event_") + "_".join(ROLES[r] for r in roles) + "_r%d" % rounds
        opt = {"nothing to wait for", "waited", "a wait that never ends", "timed out"}
        if WAIT in roles or ARRIVE in roles:
            opt -= {"waited"}
        if TIMED in roles:
            opt -= {"timed out"}
        hs.append(ilv.I(name, "h_il_ev.c", MTX + ["event.c", "latch.c"], len(roles), rounds,
                        (["LATCH=1"] if latch else []) + ["R%d=%d" % (i + 1, r) for i, r in enumerate(list(roles) + [0] * (4 - len(roles)))],
                        reach_optional=opt, timeout=700 if quick else 2500))
    r = 0 if quick else 1
    add(1, (ARRIVE, SET, WAIT), 3 + r)
    add(1, (WAIT, WAIT, SET), 3 + r)
    add(1, (ARRIVE, ARRIVE), 4 + r)
    add(1, (WAIT, SET, SET), 3 + r)
    add(0, (WAIT, WAIT, SET), 3 + r)
    add(1, (WAIT, SET), 4 + r)
    add(0, (WAIT, SET, SET), 3 + r)
    add(0, (TIMED, SET), 4 + r)
    add(0, (WAIT, SET), 4 + r)
    add(0, (ASK, SET), 3 + r)
    add(1, (ASK, SET), 3 + r)
    ilv.run_all(ctx, hs)
