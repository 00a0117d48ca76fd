from locks import *


def run(ctx):
    quick = ctx.tier == "quick"
    r = 0 if quick else 1
    kernel_notes(ctx)
    rounds_note(ctx, 3 + r)
    ctx.bound("1 to 3 waiters and 1 or 2 wakers (signal or broadcast, under the lock or after it), waits with and without deadline, ended by a wakeup, the deadline or a signal; one death",
              "deadlines: every pair of 64-bit seconds and nanoseconds, clocks up to 2^34 s, every kernel answer")
    hs = []

    def add(name, threads, rounds, *defs, must=("woken",)):
        hs.append(ilv.I("cnd_" + name, "h_il_cnd.c", MTX, threads, rounds, defs, timeout=700 if quick else 2500,
                        reach_optional={"timed out", "timed out after a death", "woken"} - set(must)))
    add("death", 3, 3, "WAITERS=1", "DEATHS=1")
    add("two_bcast", 3, 3 + r, "WAITERS=2", "BCAST=1", "ADD=2")
    add("one_signal", 2, 4 + r, "WAITERS=1")
    add("one_signal_out", 2, 4 + r, "WAITERS=1", "OUTSIDE=1")
    add("two_wakers", 3, 3 + r, "WAITERS=1")
    add("two_wakers_out", 3, 3 + r, "WAITERS=1", "OUTSIDE=1")
    add("three_bcast", 4, 2, "WAITERS=3", "BCAST=1", "ADD=3")
    add("two_bcast_out", 3, 3 + r, "WAITERS=2", "BCAST=1", "ADD=2", "OUTSIDE=1")
    add("two_signal", 3, 3, "WAITERS=2")
    add("timed", 2, 4, "WAITERS=1", "TIMED=1", must=["woken", "timed out"])
    add("intr", 2, 4, "WAITERS=1", "INTR=1")
    add("quiet", 2, 3, "WAITERS=1", "TIMED=1", "QUIET=1", "DEATHS=1", must=["timed out", "timed out after a death"])
    ilv.run_all(ctx, hs)
    if not ctx.violations:
        symex.run_all(ctx, [symex.S("dl_cond", "h_dl.c", MTX, ["COND=1", "VALID=1"], src_cflags=SYSINC, linear=True),
                            symex.S("dl_bad", "h_dl.c", MTX, ["COND=1", "VALID=0"], src_cflags=SYSINC, linear=True, reach_optional=["before the clock began", "converted"])])
