"""Rebuild a saved counterexample's harness with /repo's current sources and run it.

usage: replay.py <replay dir>   exit 0: no longer fails, 1: reproduces, 2: cannot build
"""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ilv, symex
from common import Ctx
import shutil


def interleaving(d, spec):
    h = ilv.I.__new__(ilv.I)
    h.__dict__.update(spec)
    ctx = Ctx("replay", "quick")
    try:
        ilv.ensure_tool()
        os.environ["IL_TRACE"] = "1"
        ok, log = ilv.build(ctx, h)
        exe, log = ilv.native(ctx, h) if ok else (None, log)
        if not exe:
            print(log)
            return 2
        kind, out = ilv.replay(ctx, h, exe, open(os.path.join(d, "values.txt")).read().split(), "r")
        places = {}
        for line in open(os.path.join(ctx.scratch, h.name, "g.c")):
            m = re.match(r"  if \(pc(\d) == (\d+) .*// (.*)", line)
            if m:
                places[m.group(1), m.group(2)] = m.group(3)
        for line in out.splitlines():
            m = re.match(r"IL (\d) (\d+)$", line)
            print("thread %s at %s" % (m.group(1), places.get(m.groups(), "waking up")) if m else line)
        print("replay outcome:", kind)
        return 1 if kind in ("fail", "memory") else 0
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def main():
    d = os.path.abspath(sys.argv[1])
    spec = json.load(open(os.path.join(d, "harness.json")))
    if spec.get("engine") == "ilv":
        return interleaving(d, spec)
    h = symex.S.__new__(symex.S)
    h.__dict__.update(spec)
    ctx = Ctx("replay", "quick")
    try:
        symex.ensure_tool()
        bc, log = symex.build_bc(ctx, h)
        native, log = symex.build_native(ctx, h, bc)
        if not native:
            print(log)
            return 2
        vals = [int(x) for x in open(os.path.join(d, "values.txt")).read().split()]
        mem = []
        for line in open(os.path.join(d, "mem.txt")):
            a, o, hx = line.split()
            mem.append((int(a), int(o), hx))
        kind, out = symex.replay(ctx, h, native, vals, mem, "r")
        print(out)
        print("replay outcome:", kind)
        return 1 if kind in ("fail", "memory", "hang") else 0
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


sys.exit(main())
