from symex import *


def run(ctx):
    quick = ctx.tier == "quick"
    n = 5 if quick else 6
    ctx.bound("patterns and paths of up to %d arbitrary bytes after the leading '/'" % n, "depth 30 to 35 components")
    ctx.stub("absolute path resolution returns the absolute string given (the real one is decided under C22/C31)")
    hs = []
    for g in range(0, n + 1):
        for r in range(0, n + 1):
            if g + r > 2 * n - 1 and quick:
                continue
            opt = ["matched"] + (["not matched"] if g == 0 and r == 0 else [])
            parts = [[]] if g < 4 else [["G1='*'"], ["G1='/'"], ["G1NOT"]]
            for k, p in enumerate(parts):
                hs.append(S("glob_%d_%d_%d" % (g, r, k), "h_pathglob.c", ["pathglob.c", "err.c"], ["H_MATCH", "NG=%d" % g, "NR=%d" % r] + p, reach_optional=opt))
    shapes = [("/??/??", "/??/??"), ("/**/?/**/?", "/?/?/?/?"), ("/**/?/?/**/?", "/?/?/?/?/?"), ("/?/**/**/?", "/?/?/?"), ("/**/?/**/?/?", "/?/?/?/?/?/?")]
    if not quick:
        shapes += [("/??/??/??", "/??/??/??"), ("/**/??/**/??", "/??/??/??/??"), ("/**/?/**/?/**/?", "/?/?/?/?/?/?/?"), ("/?/**/?/?/**/?", "/?/?/?/?/?/?/?")]
    for k, (g, r) in enumerate(shapes):
        ctx.bound("shape %s against %s, ? any byte but '/'" % (g, r))
        hs.append(S("shape_%d" % k, "h_pathglob.c", ["pathglob.c", "err.c"], ["H_MATCH", 'GT="%s"' % g, 'RT="%s"' % r, "NG=%d" % (len(g) - 1), "NR=%d" % (len(r) - 1)]))
    hs.sort(key=lambda h: -sum(int(d[3:]) for d in h.defines if d[:3] in ("NG=", "NR=")))
    hs.append(S("glob_depth", "h_pathglob.c", ["pathglob.c", "err.c"], ["H_DEPTH"]))
    run_all(ctx, hs)
