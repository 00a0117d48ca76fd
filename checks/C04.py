from symex import *
from transport_shapes import *


def run(ctx):
    quick = ctx.tier == "quick"
    bounds(ctx, quick)
    ctx.bound("at most two allocations outstanding; abandoned by unlocking, by death with arbitrary bookkeeping left behind, or by the death of another process while this one waits")
    hs = []

    def add(name, n, up, defs, **kw):
        hs.append(tp(name, n, up, defs + ["FORWARD_ONLY"], file="h_tvisible.c", **kw))
    for n, up in shapes(quick):
        add("left", n, up, ["LEFT_BEHIND"])
        add("unlock", n, up, ["UNLOCK"])
        add("reopen", n, up, ["UNLOCK", "REOPEN"])
        add("twice", n, up, ["TWICE"])
        if n <= 1:
            add("evicting", n, up, ["TWICE", "TWICE_EVICTING"],
                expect_known=("second-allocation-evicts", "an allocation followed by an evicting one is not visible when both are abandoned"),
                reach_optional=["two committed", "two abandoned"])
        add("then_clear", n, up, ["THEN_CLEAR"])
        add("wait", n, up, ["WAIT"])
        add("shutdown", n, up, ["SHUTDOWN"])
    ctx.bound("several allocations under one lock where a later one evicts, abandoned: known finding, see known_findings.txt")
    run_all(ctx, hs)
