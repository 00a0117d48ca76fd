from locks import *

KINDS = ["lock", "try", "timed", "relock", "rogue"]
OPT = {"told", "busy", "timed out", "refused"}


def run(ctx):
    quick = ctx.tier == "quick"
    kernel_notes(ctx)
    rounds_note(ctx, 3)
    ctx.bound("3 threads using the lock once each, or 2 using it twice, in combinations of lock, try-lock, timed lock, lock with relock, and unlock without owning",
              "one death at any place (two in some combinations)",
              "deadlines of timed locks: every valid pair of 64-bit seconds and nanoseconds, clocks up to 2^34 s")
    hs = []

    def add(kinds, rounds=3, deaths=1, reps=None):
        n = len(kinds)
        reps = reps or [1] * n
        name = "mtx_" + "_".join(KINDS[k] for k in kinds) + "_%s_r%d_d%d" % ("".join(map(str, reps)), rounds, deaths)
        must = {"every thread ended"}
        if deaths and len([k for k in kinds if k != 4]) > 1:
            must.add("told")
        if 1 in kinds:
            must.add("busy")
        if 2 in kinds:
            must.add("timed out")
        if 4 in kinds:
            must.add("refused")
        hs.append(ilv.I(name, "h_il_mtx.c", MTX, n, rounds, ["K%d=%d" % (i + 1, k) for i, k in enumerate(kinds)] +
                        ["R%d=%d" % (i + 1, r) for i, r in enumerate(reps)] + ["DEATHS=%d" % deaths], reach_optional=OPT - must, timeout=700 if quick else 2500))
    for k in [(0, 0, 0), (1, 0, 0), (0, 1, 2), (2, 2, 0), (0, 3, 0), (4, 0, 0), (1, 1, 0)]:
        add(k)
    add((0, 0), 3, 1, [2, 2])
    add((0, 1), 3, 1, [2, 2])
    add((0, 0, 1), 2, 2)
    if not quick:
        for a in range(4):
            for b in range(4):
                for c in range(a, 4):
                    add((a, b, c), 4, 1)
        add((0, 0, 0), 4, 2)
        add((1, 0, 0), 4, 2)
        add((0, 0), 4, 1, [2, 2])
        add((1, 2), 4, 1, [2, 2])
    ilv.run_all(ctx, hs)
    if not ctx.violations:
        symex.run_all(ctx, [symex.S("dl_lock", "h_dl.c", MTX, ["COND=0", "VALID=1"], src_cflags=SYSINC, linear=True, reach_optional=["before the clock began"])])
