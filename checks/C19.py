from symex import *


def run(ctx):
    quick = ctx.tier == "quick"
    ctx.bound("histories: n distinct insertions (n <= 3 quick, 4 thorough) followed by 1 (n >= 3) or 2 (n <= 2) arbitrary put/del/pop on any of the n+1 keys, then a lookup of any key and a full iteration; pop after n = 3 only in the thorough tier",
              "hash values: all 64-bit values per key, so every collision pattern", "key sizes 1 and 17 bytes, value sizes 1, 4 and 20 bytes")
    ctx.stub("hash and comparison callbacks: arbitrary hash per key, bytewise comparison", "malloc does not fail")
    opt = ("put", "del", "pop")

    def mk(name, *d, **kw):
        return S(name, "h_map.c", ["map.c", "err.c"], list(d), reach_optional=opt, **kw)
    hs = [mk("map_3_put", "NPUT=3", "NOPS=1", "FIRST_OP=0"), mk("map_3_del", "NPUT=3", "NOPS=1", "FIRST_OP=1")]
    hs += [mk("map_2_%d" % o, "NPUT=2", "FIRST_OP=%d" % o) for o in (0, 1, 2)]
    hs += [mk("map_1", "NPUT=1"), mk("map_0", "NPUT=0", "EMPTY_FIRST"),
           mk("map_sizes_a", "NPUT=2", "NOPS=1", "KS=17", "VS=20"), mk("map_sizes_b", "NPUT=2", "NOPS=1", "KS=1", "VS=1")]
    if not quick:
        hs += [mk("map_3_pop", "NPUT=3", "NOPS=1", "FIRST_OP=2")]
        hs += [mk("map_4_%d" % o, "NPUT=4", "NOPS=1", "FIRST_OP=%d" % o, timeout=3000) for o in (0, 1, 2)]
        hs += [mk("map_3_2_%d" % o, "NPUT=3", "NOPS=2", "FIRST_OP=%d" % o, timeout=3000) for o in (0, 1, 2)]
    run_all(ctx, hs)
