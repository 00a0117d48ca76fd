from symex import *
import fsmodel


def run(ctx):
    quick = ctx.tier == "quick"
    hs = []

    def mk(name, f, r, *d, **kw):
        hs.append(S(name, "h_file.c", ["file.c", "err.c"], ["FAULTS=%d" % f, "RIVALS=%d" % r] + list(d), src_cflags=fsmodel.flags(),
                    reach_optional=["another removes it", "another creates it", "failed", "opened"], **kw))
    for s in range(5):
        mk("faults_%d" % s, 1 if quick else 2, 0, "START=%d" % s, timeout=2000)
        mk("rivals_%d" % s, 0, 3 if quick else 4, "START=%d" % s, timeout=2000)
        mk("both_%d" % s, 1, 2, "START=%d" % s, timeout=2000)
    ctx.bound("start: directory missing, file missing, file there, empty file there, symbolic link to nowhere; each arena mode; relative or absolute path",
              "%s failing system calls, each at any call with any error, and up to 2 creations or removals of the file by another process before any call; without failures up to %d of them" % (("one", 3) if quick else ("two", 4)))
    ctx.stub("the file system: directories, names, hard and symbolic links, descriptors and mappings of a small model (harness/fs.h); its calls fail when the solver says so")
    run_all(ctx, hs)
