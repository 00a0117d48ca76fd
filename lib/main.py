import importlib.util, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Ctx, VERIF


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = importlib.util.spec_from_file_location("chk", os.path.join(VERIF, "checks", prop + ".py"))
    mod = importlib.util.module_from_spec(spec)
    ctx = Ctx(prop, tier)
    try:
        spec.loader.exec_module(mod)
        mod.run(ctx)
    except BaseException:
        import shutil
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        raise
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
