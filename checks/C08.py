from symex import *
from transport_shapes import *


def run(ctx):
    quick = ctx.tier == "quick"
    bounds(ctx, quick)
    ctx.bound("each arena is opened once or twice; blank arenas in shared or exclusive mode (a read-only arena cannot be initialised), existing ones in every mode")
    ctx.bound("crash points: before every store of the first initialisation and every 8-byte boundary inside its block copies, in program order; the conversion from the old format is not interrupted")
    hs = [tp("blank", 0, 0, ["BLANK"], file="h_topen.c"),
          tp("crash", 0, 0, ["CRASH"], file="h_topen.c", crash=True)]
    for n, up in shapes(quick):
        hs.append(tp("existing", n, up, ["EXISTING"], file="h_topen.c"))
        hs.append(tp("old", n, up, ["OLD_FORMAT"], file="h_topen.c"))
    run_all(ctx, hs)
