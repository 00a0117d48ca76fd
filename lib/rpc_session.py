from symex import *

MU = ["-Dpthread_mutex_init=vh_mu_init", "-Dpthread_mutex_destroy=vh_mu_destroy", "-Dpthread_mutex_lock=vh_mu_lock", "-Dpthread_mutex_unlock=vh_mu_unlock"]


def session(ctx, proto, src):
    quick = ctx.tier == "quick"
    srcs = [src, "map.c", "cmp.c", "packet.c", "err.c"]
    opt = ["delivered", "ignored", "cancel seen", "end"]

    def mk(name, *d, **kw):
        return S(name, "h_rpc.c", srcs, proto + list(d), src_cflags=MU, reach_optional=opt, **kw)
    kinds = [k for k in range(6) if proto or k != 2]
    n = 3 if quick else 4
    hs = [mk("foreign_%d" % k, "PRE=2", "STEPS=1", "FIRST=3", "KIND=%d" % k) for k in kinds]
    hs += [mk("history_%d" % o, "STEPS=%d" % n, "PRE=%d" % p, "FIRST=%d" % o, timeout=3000) for p, o in ((0, 0), (1, 0), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3))]
    for i, h in enumerate(hs[len(kinds):]):
        h.name += "_%d" % i
    hs += [mk("reenter_%d" % o, "STEPS=2", "PRE=2", "FIRST=%d" % o, "REENTER") for o in (2, 3)]
    hs += [mk("writefail", "STEPS=2", "PRE=0", "WRITEFAIL")]
    hs += [S("startup", "h_rpc_init.c", srcs, proto, src_cflags=MU)]
    ctx.bound("histories: 0, 1 or 2 outstanding requests, then up to %d arbitrary steps out of sending, cancelling, replying to any request received and a well-formed foreign packet, with delivery after any of them" % n,
              "ids: two characters arbitrary and one of two values in a third, so that they agree or differ inside and outside the part that is hashed",
              "foreign packets to 2 outstanding requests: no type, each type, or any text one letter away from one; no id, an arbitrary id, an id one character short or long; either header order; cancel payloads of 0, 1, 35, 36, 37 and 40 bytes",
              "one callback may send or cancel while it runs; starting may fail at each of its steps")
    ctx.stub("topic file: an append-only log; readers follow it as their options say, writers append, either may fail", "process-private mutex: pairing is checked")
    return hs
