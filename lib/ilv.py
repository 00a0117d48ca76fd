"""All interleavings of a few threads within a number of rounds, decided by CBMC.

clang lowers the harness and the current /repo sources to IR, engine/ilv.cpp
turns each thread into a step machine in C that gives way before every access
to shared memory and every system call, and CBMC decides with one symbolic
schedule.  Counterexample schedules are replayed on the compiled code, with
coroutines for threads and the same kernel model behind syscall().
"""
import concurrent.futures as cf
import fcntl, json, os, re, signal, subprocess, threading, time
from common import *
import symex
from symex import _src, _incs, _missing, WRAP

TOOL = os.path.join(VERIF, "build", "ilv")
SRC = os.path.join(VERIF, "engine", "ilv.cpp")


def ensure_tool():
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    with open(TOOL + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(SRC):
            return
        r = sh(["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", SRC, "-o", TOOL + ".tmp",
                "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        if r.returncode:
            raise RuntimeError("building ilv failed: " + r.stdout[-2000:])
        os.rename(TOOL + ".tmp", TOOL)


class I:
    def __init__(self, name, file, srcs, threads, rounds, defines=(), timeout=400, unwind=6, reach_optional=(), expect_known=None, weight=1):
        self.name, self.file, self.srcs, self.threads, self.rounds = name, file, list(srcs), threads, rounds
        self.defines = ["THREADS=%d" % threads, "ROUNDS=%d" % rounds] + list(defines)
        self.timeout, self.unwind, self.reach_optional, self.expect_known = timeout, unwind, set(reach_optional), expect_known
        self.cflags, self.src_cflags = [], []


def build(ctx, h):
    d = os.path.join(ctx.scratch, h.name)
    os.makedirs(d, exist_ok=True)
    base = ["clang-18", "-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-U_FORTIFY_SOURCE",
            "-fno-builtin", "-emit-llvm", "-c", "-w"] + CFLAGS + ["-DVH_SYMEX"] + ["-D" + x for x in h.defines] + _incs()
    objs = []
    for i, f in enumerate([os.path.join(VERIF, "harness", h.file)] + [_src(s) for s in h.srcs]):
        o = os.path.join(d, "%d.bc" % i)
        r = sh(base + [f, "-o", o], timeout=120)
        if r.returncode:
            return None, r.stdout
        objs.append(o)
    p = lambda n: os.path.join(d, n)
    r = sh(["llvm-link-18"] + objs + ["-o", p("l.bc")], timeout=60)
    if r.returncode:
        return None, r.stdout
    if _missing(p("l.bc"), "llvm-nm-18"):
        lib = []
        for i, f in enumerate(symex._others(h)):
            o = p("x%d.bc" % i)
            if sh(base + [f, "-o", o], timeout=120).returncode == 0:
                lib.append(o)
        for _ in range(3):
            if not _missing(p("l.bc"), "llvm-nm-18"):
                break
            for o in lib:
                if sh(["llvm-link-18", "--only-needed", p("l.bc"), o, "-o", p("l.bc.n")], timeout=60).returncode == 0:
                    os.replace(p("l.bc.n"), p("l.bc"))
    r = sh([TOOL, "mark", p("l.bc"), p("m.bc")], timeout=60)
    if r.returncode:
        return None, r.stdout
    funcs = {f for f in r.stdout.split() if f.lower().startswith("a0_") or f.startswith("robust_")}
    for cmd in ([["opt-18", "-passes=always-inline,globaldce,function(sroa,simplifycfg)", p("m.bc"), "-o", p("o.bc")],
                 ["opt-18", "-passes=function(sroa,instsimplify,simplifycfg)", p("o.bc"), "-o", p("o2.bc")],
                 [TOOL, "emit", p("o2.bc"), p("g.c"), p("n.bc")]]):
        r = sh(cmd, timeout=120)
        if r.returncode:
            return None, r.stdout
    info = json.loads(r.stdout)
    r = sh(["goto-cc", "-std=gnu11", "-D_GNU_SOURCE", "-DVH_CBMC"] + ["-D" + x for x in h.defines] + _incs() + [p("g.c"), "-o", p("g.gb")], timeout=120)
    if r.returncode:
        return None, r.stdout
    return (funcs, info), ""


def native(ctx, h):
    d = os.path.join(ctx.scratch, h.name)
    out = os.path.join(d, "native")
    cmd = ["clang-18", "-g1", "-O0", "-w", "-D_GNU_SOURCE", "-DVH_NATIVE", "-DNT=%d" % h.threads] + ["-D" + x for x in h.defines] + _incs() + [
        os.path.join(d, "n.bc"), os.path.join(VERIF, "harness", "il_native.c"), os.path.join(VERIF, "harness", "vh_native.c"), "-o", out, "-lpthread"] + WRAP
    r = sh(cmd, timeout=120)
    return (out if r.returncode == 0 else None), r.stdout


def replay(ctx, h, exe, vals, tag, timeout=20):
    vf = os.path.join(ctx.scratch, h.name, tag + ".vals")
    with open(vf, "w") as f:
        f.write("\n".join(map(str, vals)) + "\n")
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VH_VALUES=vf), timeout=timeout,
                           cwd=os.path.join(ctx.scratch, h.name))
    except subprocess.TimeoutExpired:
        return "hang", ""
    out = p.stdout.decode(errors="replace")
    return {42: "fail", 77: "diverged", 0: "ok"}.get(p.returncode, "memory" if p.returncode < 0 else "exit %d" % p.returncode), out


def values(r):
    vals = []
    for s in r.get("trace", []):
        if s.get("stepType") == "assignment" and s.get("lhs") == "vh_val" and not s.get("hidden", False):
            b = s["value"].get("binary")
            vals.append(int(b, 2) if b is not None else 0)
    return vals


def run_harness(ctx, h, stop=None):
    rep = {"name": h.name, "obl": 0, "dis": 0, "q": 0, "t": 0.0, "reach": [], "missed": [], "viol": [], "unconf": [], "incon": [], "known": [],
           "funcs": set(), "validated": 0, "info": {}}
    if stop is not None and stop.is_set():
        return rep
    ok, log = build(ctx, h)
    if ok is None:
        rep["incon"].append("%s: building the encoding failed: %s" % (h.name, log[-500:]))
        return rep
    rep["funcs"], rep["info"] = ok
    left = min(h.timeout, ctx.left() - 20)
    if left < 5:
        rep["incon"].append("%s: no time left" % h.name)
        return rep
    gb = os.path.join(ctx.scratch, h.name, "g.gb")
    cmd = ["cbmc", gb, "--json-ui", "--verbosity", "8", "--unwind", str(h.unwind), "--unwinding-assertions", "--drop-unused-functions",
           "--no-standard-checks", "--sat-solver", "cadical", "--trace"]
    t0 = time.time()
    of = os.path.join(ctx.scratch, h.name, "cbmc.json")
    with open(of, "w") as o:
        p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.DEVNULL, start_new_session=True)
    while p.poll() is None:
        if (stop is not None and stop.is_set()) or time.time() - t0 > left:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            if time.time() - t0 > left:
                rep["incon"].append("%s: timeout after %ds" % (h.name, left))
            return rep
        time.sleep(0.05)
    rep["t"] = time.time() - t0
    try:
        js = json.load(open(of))
    except ValueError:
        rep["incon"].append("%s: solver exit %d without a result" % (h.name, p.returncode))
        return rep
    res = None
    for x in js:
        if "result" in x:
            res = x["result"]
        elif "messageText" in x:
            rep["q"] += "SAT checker" in x["messageText"]
            m = re.match(r"(\d+) variables, (\d+) clauses", x["messageText"])
            if m:
                rep["info"]["variables"], rep["info"]["clauses"] = int(m.group(1)), int(m.group(2))
    if res is None:
        rep["incon"].append("%s: no result" % h.name)
        return rep
    exe, log = native(ctx, h)
    if exe is None:
        rep["incon"].append("%s: native build failed: %s" % (h.name, log[-500:]))
        return rep
    real, wit = [], {}
    for r in res:
        d = r["description"]
        if d.startswith("REACH"):
            if r["status"] == "FAILURE":
                wit[d[6:]] = r
            else:
                wit.setdefault(d[6:], None)
            continue
        rep["obl"] += 1
        rep["dis"] += r["status"] == "SUCCESS"
        if r["status"] == "FAILURE":
            real.append(r)
        elif r["status"] != "SUCCESS":
            rep["incon"].append("%s: %s undecided" % (h.name, d))
    if not real:
        for i, (m, r) in enumerate(sorted(wit.items())):
            if r is None:
                if m not in h.reach_optional:
                    rep["missed"].append("%s: %s" % (h.name, m))
                continue
            rep["reach"].append("%s: %s" % (h.name, m))
            kind, out = replay(ctx, h, exe, values(r), "w%d" % i)
            if kind == "ok" and ("VH_REACH " + m) in out:
                rep["validated"] += 1
            else:
                rep["incon"].append("%s: encoding and native run disagree on witness '%s' (native: %s %s)" % (h.name, m, kind, out[-300:]))
        return rep
    kf = known_findings(ctx.prop)

    def is_known(r):
        return bool(h.expect_known and h.expect_known[0] in kf and r["description"] == "PROP " + h.expect_known[1])
    real.sort(key=lambda r: (is_known(r), not r["description"].startswith("PROP"), ".unwind." in r["property"]))
    confirmed = False
    for i, r in enumerate(real):
        what = "%s: %s" % (h.name, r["description"])
        vals = values(r)
        kind, out = replay(ctx, h, exe, vals, "v%d" % i)
        m = re.search(r"VH_FAIL (.*)", out)
        if kind in ("fail", "memory"):
            tail = m.group(1) if m else kind
            if is_known(r) and tail == h.expect_known[1]:
                rep["known"].append(kf[h.expect_known[0]])
                confirmed = True
                continue
            d = ctx.save_replay(h.name, {
                "values.txt": "\n".join(map(str, vals)) + "\n", "output.txt": out[-8000:],
                "what.txt": what + "\nreplayed natively: " + tail + "\n",
                "harness.json": json.dumps(dict({k: (sorted(v) if isinstance(v, set) else v) for k, v in h.__dict__.items()}, engine="ilv")),
                "replay.sh": "#!/bin/bash\nexec python3-vt %s \"$(dirname \"$0\")\"\n" % os.path.join(VERIF, "lib", "replay.py"),
            })
            rep["viol"].append((what + " -> native replay: " + tail, d))
            confirmed = True
            break
        rep["unconf"].append("%s [native: %s %s]" % (what, kind, out[-200:]))
    if rep["viol"]:
        rep["unconf"] = []
    return rep


def run_all(ctx, hs, workers=8):
    ensure_tool()
    stop = threading.Event()

    def one(h):
        rep = run_harness(ctx, h, stop)
        if rep["viol"]:
            stop.set()
        return rep
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        reps = list(ex.map(one, hs))
    for h, rep in zip(hs, reps):
        ctx.obligations += rep["obl"]
        ctx.discharged += rep["dis"]
        ctx.queries += rep["q"]
        ctx.solver_s += rep["t"]
        ctx.functions |= rep["funcs"]
        ctx.reach_hit += rep["reach"]
        ctx.reach_missed += rep["missed"]
        ctx.unconfirmed += rep["unconf"]
        ctx.inconclusive += rep["incon"]
        ctx.validated += rep["validated"]
        ctx.harnesses.append(dict({"name": rep["name"], "engine": "ilv+cbmc", "obligations": rep["obl"], "discharged": rep["dis"], "queries": rep["q"],
                                   "seconds": round(rep["t"], 2), "defines": h.defines}, **rep["info"]))
        for what, d in rep["viol"]:
            ctx.violation(what, d)
        for k in rep["known"]:
            if k not in ctx.known:
                ctx.known.append(k)
