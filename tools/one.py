"""Debug aid: build one harness of a check and run the engine on it, printing its raw output.
usage: one.py <check> <harness name> [engine options]"""
import json, os, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import importlib, symex
from common import Ctx
chk = importlib.import_module(sys.argv[1])
ctx = Ctx(sys.argv[1], os.environ.get("TIER", "quick"))
hs = []
chk.run_all = lambda c, h: hs.extend(h)
chk.run(ctx)
symex.ensure_tool()
for h in hs:
    if h.name == sys.argv[2]:
        bc, log = symex.build_bc(ctx, h)
        if not bc:
            print(log)
            sys.exit(1)
        cmd = [symex.TOOL, "run", bc, "--time", "60", "--query-time", "20"] + sys.argv[3:]
        if h.linear:
            cmd += ["--linear", "1"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
        print(bc)
        try:
            j = json.loads(r.stdout)
        except ValueError:
            print(r.stdout[-3000:])
            sys.exit(2)
        for k in ("samples", "sample_mem", "reach_mem", "functions", "asserts"):
            if not os.environ.get("FULL"):
                j.pop(k, None)
        for v in j["violations"]:
            v.pop("mem", None)
        for k, v in j.items():
            print(k, ":", str(v)[:2000])
        sys.exit(r.returncode)
