from symex import *
import fsmodel


def run(ctx):
    quick = ctx.tier == "quick"
    hs = []

    def mk(name, *d, **kw):
        hs.append(S(name, "h_disc.c", ["discovery.c", "file.c", "pathglob.c", "map.c", "cmp.c", "err.c"], list(d), src_cflags=fsmodel.flags(more=fsmodel.NOTIFY),
                    reach_optional=["announced", "faults"], **kw))
    n = 2 if quick else 3
    for p in range(4):
        for s in range(5):
            mk("any_%d_%d" % (p, s), "PATTERN=%d" % p, "START=%d" % s, "ACTIONS=%d" % n, "ANYTIME", timeout=3000)
    for p in range(2):
        for s in range(3):
            mk("later_%d_%d" % (p, s), "PATTERN=%d" % p, "START=%d" % s, "ACTIONS=%d" % (n + 1), "LATER", timeout=3000)
        for s in range(1, 5):
            mk("fault_%d_%d" % (p, s), "PATTERN=%d" % p, "START=%d" % s, "ACTIONS=%d" % (n - 1), "FAULTS=1")
    mk("top_gone", "PATTERN=0", "START=1", "ACTIONS=3", "LATER", "TOPGONE",
       expect_known=("top-directory-removed", "a file in a directory that was removed and made again is announced"))
    ctx.bound("four patterns; two directories and four files, of which any of five combinations exists at the start",
              "%d creations or removals by others before any system call, or %d while discovery is idle" % (n, n + 1),
              "with one failing directory read, watch or wait and %d changes, safety only: no wrong or repeated announcement, no memory error, and the watch goes on" % (n - 1),
              "events are never dropped for lack of queue space; files are created or linked, not moved in; listings tell files from directories")
    ctx.stub("the file system and change notification: small models (harness/fs.h, h_disc.c)", "the watching thread runs when called; other processes act inside the system calls it makes")
    run_all(ctx, hs)
