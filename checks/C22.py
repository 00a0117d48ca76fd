from symex import *


def run(ctx):
    quick = ctx.tier == "quick"
    n = 5 if quick else 8
    ctx.bound("topic names up to %d arbitrary bytes, template text up to %d arbitrary bytes on each side of the placeholder" % (n, n),
              "templates without placeholder up to 7 bytes", "paths up to %d bytes and roots up to %d bytes for resolution" % (n + 2, n + 1))
    ctx.stub("opening the file (records the path)", "getenv (arbitrary value or unset)")
    G = ["-Dgetenv=vh_getenv"]
    d = ["NP=%d" % n, "NS=%d" % n, "NT=%d" % n]
    run_all(ctx, [
        S("path", "h_topic.c", ["topic.c", "err.c"], ["H_PATH"] + d),
        S("noplace", "h_topic.c", ["topic.c", "err.c"], ["H_NOPLACE"]),
        S("abs", "h_topic.c", ["file.c", "env.c", "err.c"], ["H_ABS", "NP=%d" % (n + 1), "NT=%d" % (n + 2)], src_cflags=G),
        S("env", "h_topic.c", ["env.c", "err.c"], ["H_ENV"], src_cflags=G),
    ])
