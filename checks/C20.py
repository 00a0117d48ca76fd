from cbmc import *


def run(ctx):
    ctx.bound("u32 and pointer values: all", "strings up to 3 bytes, buffers up to 3 bytes compared by content",
              "buffers up to 2^34 bytes compared by size only", "ids: all values of all 37 bytes")
    hs = [H("cmp_" + n, "h_cmp.c", ["cmp.c"], ["H_" + n.upper()], unwind=u, solver=["--z3"] if n == "u32" else []) for n, u in
          [("u32", 2), ("ptr", 2), ("str", 6), ("buf", 6), ("bigbuf", 4), ("uuid", 39)]]
    run_all(ctx, hs)
