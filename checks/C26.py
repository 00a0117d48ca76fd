from symex import *
from rpc_session import MU, session


def run(ctx):
    hs = session(ctx, [], "rpc.c")
    ctx.bound("blocking requests: up to %d packets arrive before the answer or the timeout" % (2 if ctx.tier == "quick" else 3))
    hs += [S("blocking", "h_rpc_block.c", ["rpc.c", "map.c", "cmp.c", "packet.c", "err.c"], ["LIMIT=%d" % (2 if ctx.tier == "quick" else 3)], src_cflags=MU, timeout=3000)]
    run_all(ctx, hs)
