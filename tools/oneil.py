"""Runs some of a check's interleaving harnesses: oneil.py C17 name-part [name-part...]"""
import importlib, sys
sys.path[:0] = ["/verif/lib", "/verif/checks"]
import ilv, symex, time
from common import Ctx
pid, want = sys.argv[1], sys.argv[2:]
m = importlib.import_module(pid)
ctx = Ctx(pid, "quick")


def some(ctx, hs, workers=8):
    ilv.ensure_tool()
    import concurrent.futures as cf
    hs = [h for h in hs if any(w in h.name for w in want)]

    def one(h):
        t = time.time()
        r = ilv.run_harness(ctx, h)
        print("%s: %.1fs (cbmc %.1f) %d/%d vars %s" % (h.name, time.time() - t, r["t"], r["dis"], r["obl"], r["info"].get("variables")))
        for k in ("missed", "unconf", "incon"):
            for x in r[k]:
                print("   ", k, x)
        for x in r["viol"]:
            print("    VIOL", x)
        sys.stdout.flush()
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(one, hs))


ilv.run_all = some
symex.run_all = lambda *a, **k: None
m.run(ctx)
import shutil
shutil.rmtree(ctx.scratch, ignore_errors=True)
