"""Shared by the transport checks: which ring states are covered."""
from symex import S

SRCS = ["transport.c", "err.c"]


def shapes(quick):
    """(live messages, how many of them lie at increasing positions before the wrap)"""
    s = [(0, 0), (1, 1), (2, 2), (2, 1), (3, 3), (3, 2), (3, 1)]
    if not quick:
        s += [(4, 4), (4, 3), (4, 2), (4, 1)]
    return s


def bounds(ctx, quick):
    ctx.bound("live messages in the starting state: 0..%d, wrapped and unwrapped, with any gaps between them" % (3 if quick else 4))
    ctx.bound("arena size: every value from the 144-byte header to 2^40 bytes; message positions and sizes: every value that fits; first number: every 64-bit value from 1 to 2^64-65536")
    ctx.bound("the starting state's unused bookkeeping copy, free bytes and unused link fields are arbitrary (as after the death of a writer)")
    ctx.stub("the shared mutex and condition variable are replaced by recording stand-ins (checked by C14 and C16)")


def tp(name, n, up, defines=(), file="h_transport.c", srcs=SRCS, **kw):
    return S("%s_%d%d" % (name, n, up), file, srcs, ["N=%d" % n, "UP=%d" % up] + list(defines), linear=True, **kw)
