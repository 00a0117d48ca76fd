from symex import *
import fsmodel


def run(ctx):
    quick = ctx.tier == "quick"
    top, sub = (2, 2) if quick else (3, 2)
    hs = []

    def mk(name, *d, **kw):
        calls = ["lstat", "stat", "opendir", "readdir", "closedir"] if "LONG" in d else None
        hs.append(S(name, "h_fstree.c", ["file.c", "err.c"], list(d), src_cflags=fsmodel.flags(calls),
                    reach_optional=["faults", "refused", "fits", "does not fit"], **kw))
    size = ["TOP=%d" % top, "SUB=%d" % sub]
    mk("remove", "REMOVE", *size, timeout=2000)
    mk("remove_fault", "REMOVE", "FAULTS=1", "TOP=2", "SUB=%d" % (1 if quick else 2), timeout=2000)
    mk("other", "OTHER", "FAULTS=1")
    mk("list", "FAULTS=0", "TOP=3", "SUB=1", timeout=2000)
    mk("list_fault", "FAULTS=1", "TOP=2", "SUB=1")
    for lo, hi in ((2, 5), (3838, 3842), (4090, 4093), (4094, 4098)):
        mk("long_%d" % lo, "LONG", "LO=%d" % lo, "HI=%d" % hi)
    ctx.bound("trees: up to %d entries in the named directory, each missing, a file, a directory of up to %d such entries, a symbolic link to a directory outside or to nowhere; names starting with dots included" % (top, sub),
              "named relative to the root or absolute, with or without a slash at the end; one system call failing at any point with any error",
              "what is named may also be a file, a symbolic link or missing", "lengths: directories of 2 to 5, 3838 to 3842 and 4090 to 4098 bytes with names of 1, 2, 3, 254 and 255",
              "file systems report the kind of each entry when listing (no unknown kind)")
    ctx.stub("the file system: a small model (harness/fs.h); nothing real is removed")
    run_all(ctx, hs)
