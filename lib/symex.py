"""Path-forking symbolic execution of /repo's C sources (LLVM IR + z3).

clang lowers the harness and the current /repo sources to IR, engine/symex.cpp
executes main() with symbolic inputs, and every assertion and memory access on
every feasible path is a solver obligation.  Counterexamples are replayed on a
native build (AddressSanitizer) of the same harness and sources.
"""
import concurrent.futures as cf
import fcntl, json, os, re, signal, subprocess, threading, time
from common import *

Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
TOOL = os.path.join(VERIF, "build", "symex")
SRC = os.path.join(VERIF, "engine", "symex.cpp")


def ensure_tool():
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    with open(TOOL + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(SRC):
            return
        r = sh(["clang++-18", "-std=c++17", "-O2", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", "-I" + Z3DIR + "/include", SRC,
                "-o", TOOL + ".tmp", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", Z3DIR + "/lib/libz3.so", "-Wl,-rpath," + Z3DIR + "/lib"])
        if r.returncode:
            raise RuntimeError("building symex failed: " + r.stdout[-2000:])
        os.rename(TOOL + ".tmp", TOOL)


class S:
    """expect_known=(key, message): the assertion that the known finding `key` fails.
    crash=True: native replay runs the instrumented bitcode so that crash points line up."""

    def __init__(self, name, file, srcs, defines=(), timeout=400, query_time=20, steps=3000000, cflags=(), native_extra=(),
                 native_flags=(), crash=False, expect_known=None, reach_optional=(), src_cflags=(), hang=True, opt_passes=None, linear=False):
        self.name, self.file, self.srcs, self.defines = name, file, list(srcs), list(defines)
        self.timeout, self.query_time, self.steps = timeout, query_time, steps
        self.cflags, self.src_cflags = list(cflags), list(src_cflags)
        self.native_extra, self.native_flags, self.crash = list(native_extra), list(native_flags), crash
        self.expect_known, self.reach_optional, self.hang = expect_known, set(reach_optional), hang
        self.linear = linear
        self.opt_passes = opt_passes or "sroa,early-cse,simplifycfg,early-cse"


def _src(s):
    return s if os.path.isabs(s) else os.path.join(REPO, "src", s)


def _incs():
    return ["-I", os.path.join(VERIF, "harness"), "-I", os.path.join(VERIF, "harness", "stubinc"),
            "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src")]


def _missing(f, tool):
    r = sh([tool, "-u" if tool == "nm" else "--undefined-only", f], timeout=60)
    return {l.split()[-1] for l in r.stdout.splitlines() if l.split() and l.split()[-1].lower().startswith("a0_")}


def _others(h):
    import glob
    have = {_src(s) for s in h.srcs}
    return [f for f in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))) if f not in have]


def build_bc(ctx, h):
    d = os.path.join(ctx.scratch, h.name)
    os.makedirs(d, exist_ok=True)
    objs = []
    base = ["clang-18", "-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-U_FORTIFY_SOURCE",
            "-fno-builtin", "-emit-llvm", "-c", "-w"] + CFLAGS + h.cflags

    def comp(f, extra, o):
        return sh(base + extra + ["-DVH_SYMEX"] + ["-D" + x for x in h.defines] + _incs() + [f, "-o", o], timeout=120)
    for i, (f, extra) in enumerate([(os.path.join(VERIF, "harness", h.file), [])] + [(_src(s), h.src_cflags) for s in h.srcs]):
        o = os.path.join(d, "%d.bc" % i)
        r = comp(f, extra, o)
        if r.returncode:
            return None, r.stdout
        objs.append(o)
    a, b = os.path.join(d, "l.bc"), os.path.join(d, "o.bc")
    r = sh(["llvm-link-18"] + objs + ["-o", a], timeout=60)
    if r.returncode:
        return None, r.stdout
    # Code the listed files call may live in (or have moved to) other files of the library.
    if _missing(a, "llvm-nm-18"):
        lib = []
        for i, f in enumerate(_others(h)):
            o = os.path.join(d, "x%d.bc" % i)
            if comp(f, h.src_cflags, o).returncode == 0:
                lib.append(o)
        for _ in range(3):
            miss = _missing(a, "llvm-nm-18")
            if not miss:
                break
            for o in lib:
                r = sh(["llvm-link-18", "--only-needed", a, o, "-o", a + ".n"], timeout=60)
                if r.returncode == 0:
                    os.replace(a + ".n", a)
    r = sh(["opt-18", "-passes=" + h.opt_passes, a, "-o", b], timeout=60)
    if r.returncode:
        return None, r.stdout
    return b, ""


WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]


def build_native(ctx, h, bc):
    out = os.path.join(ctx.scratch, h.name, "native")
    rt = os.path.join(VERIF, "harness", "vh_native.c")
    if h.crash:
        ib = os.path.join(ctx.scratch, h.name, "i.bc")
        r = sh([TOOL, "instrument", bc, ib], timeout=60)
        if r.returncode:
            return None, r.stdout
        cmd = ["clang-18", "-g1", "-O0", "-w", ib, rt, "-o", out, "-lpthread", "-lm"] + WRAP + h.native_flags
        r = sh(cmd, timeout=180)
        return (out if r.returncode == 0 else None), " ".join(cmd) + "\n" + r.stdout
    d = os.path.join(ctx.scratch, h.name)
    base = ["clang-18", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-w"]
    base += CFLAGS + h.cflags + ["-DVH_NATIVE"] + ["-D" + x for x in h.defines] + _incs()
    objs = []
    for i, f in enumerate([os.path.join(VERIF, "harness", h.file), rt] + [_src(s) for s in h.srcs]):
        o = os.path.join(d, "n%d.o" % i)
        r = sh(base + (h.src_cflags if i > 1 else []) + ["-c", f, "-o", o], timeout=120)
        if r.returncode:
            return None, r.stdout
        objs.append(o)
    cmd = base + objs + h.native_extra + ["-o", out, "-lpthread", "-lm"] + WRAP + h.native_flags
    r = sh(cmd, timeout=180)
    if r.returncode and "undefined reference to `" in r.stdout:
        lib = os.path.join(d, "lib.a")
        for i, f in enumerate(_others(h)):
            o = os.path.join(d, "nx%d.o" % i)
            if sh(base + h.src_cflags + ["-c", f, "-o", o], timeout=120).returncode == 0:
                sh(["ar", "rcs", lib, o])
        cmd = base + objs + h.native_extra + ["-o", out, lib, "-Wl,--allow-multiple-definition", "-lpthread", "-lm"] + WRAP + h.native_flags
        r = sh(cmd, timeout=180)
    return (out if r.returncode == 0 else None), " ".join(cmd) + "\n" + r.stdout[-3000:]


def replay(ctx, h, native, vals, mem, tag, timeout=20):
    d = os.path.join(ctx.scratch, h.name)
    vf, mf = os.path.join(d, tag + ".vals"), os.path.join(d, tag + ".mem")
    with open(vf, "w") as f:
        f.write("\n".join(str(v) for v in vals) + "\n")
    with open(mf, "w") as f:
        for a, off, hx in mem:
            f.write("%d %d %s\n" % (a, off, hx))
    wd = os.path.join(d, tag + ".cwd")
    os.makedirs(wd, exist_ok=True)
    env = dict(os.environ, VH_VALUES=vf, VH_MEM=mf, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1")
    p = subprocess.Popen([native], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=wd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return "hang", out.decode(errors="replace")
    out = out.decode(errors="replace")
    if p.returncode == 42:
        return "fail", out
    if p.returncode == 99 or p.returncode < 0:
        return "memory", out
    if p.returncode == 77:
        return "diverged", out
    return "ok", out


def run_harness(ctx, h, stop=None):
    rep = {"name": h.name, "obl": 0, "dis": 0, "q": 0, "t": 0.0, "wall": 0.0, "reach": [], "missed": [], "viol": [], "unconf": [],
           "incon": [], "known": [], "funcs": set(), "validated": 0, "paths": 0, "instrs": 0, "mem": 0}
    if stop is not None and stop.is_set():
        rep["skipped"] = True
        return rep
    bc, log = build_bc(ctx, h)
    if bc is None:
        rep["incon"].append("%s: compiling to IR failed: %s" % (h.name, log[-500:]))
        return rep
    left = min(h.timeout, ctx.left() - 20)
    if left < 5:
        rep["incon"].append("%s: no time left" % h.name)
        return rep
    cmd = [TOOL, "run", bc, "--time", str(left), "--query-time", str(h.query_time), "--steps", str(h.steps), "--linear", "1" if h.linear else "0",
           "--grace", "100000" if h.expect_known else "10"]
    of, ef = os.path.join(ctx.scratch, h.name, "engine.json"), os.path.join(ctx.scratch, h.name, "engine.err")
    with open(of, "w") as o, open(ef, "w") as e:
        p = subprocess.Popen(cmd, stdout=o, stderr=e)
    end = time.time() + left + 60
    while p.poll() is None:
        if stop is not None and stop.is_set():
            p.kill()
            p.wait()
            rep["skipped"] = True
            return rep
        if time.time() > end:
            p.kill()
            p.wait()
            rep["incon"].append("%s: timeout" % h.name)
            return rep
        time.sleep(0.02)
    try:
        js = json.load(open(of))
    except ValueError:
        rep["incon"].append("%s: engine exit %d: %s" % (h.name, p.returncode, open(ef).read()[-300:]))
        return rep
    rep.update(obl=js["obligations"], dis=js["discharged"], q=js["queries"], t=js["solver_s"], wall=js["wall_s"],
               paths=js["paths"], instrs=js["instructions"], mem=js["memory_checks"])
    rep["funcs"] = {f for f in js["functions"] if f.lower().startswith("a0_") or f.startswith("robust_")}
    rep["incon"] += ["%s: %s" % (h.name, x) for x in js["incomplete"]]
    native, blog = build_native(ctx, h, bc)
    if native is None:
        rep["incon"].append("%s: native build for replay failed: %s" % (h.name, blog[-600:]))
        return rep
    # Witnesses: every declared reach point must be hit, and must also be hit natively with the solver's inputs.
    declared = set(re.findall(r'vh_reach_\(\s*"([^"]*)"\s*\)', preprocessed(h)))
    for m in sorted(declared):
        if m in js["reach"]:
            rep["reach"].append("%s: %s" % (h.name, m))
        elif m not in h.reach_optional and not js["violations"]:
            rep["missed"].append("%s: %s" % (h.name, m))
    if not js["violations"]:
        for i, (m, vals) in enumerate(sorted(js["reach"].items())[:6]):
            kind, out = replay(ctx, h, native, vals, js["reach_mem"].get(m, []), "w%d" % i)
            if kind in ("ok", "diverged") and ("VH_REACH " + m) in out:
                rep["validated"] += 1
            else:
                rep["incon"].append("%s: engine and native run disagree on witness '%s' (native: %s %s)" % (h.name, m, kind, out[-300:]))
        for i, vals in enumerate(js["samples"][:6]):
            kind, out = replay(ctx, h, native, vals, js["sample_mem"][i], "s%d" % i)
            if kind == "ok":
                rep["validated"] += 1
            elif not (kind == "diverged" and "cannot map" in out):
                rep["incon"].append("%s: engine and native run disagree on a sampled path (native: %s %s)" % (h.name, kind, out[-300:]))
        return rep
    confirmed = False
    kf = known_findings(ctx.prop)

    def is_known(v):
        return bool(h.expect_known and h.expect_known[0] in kf and v["kind"] == "PROP" and v["msg"] == h.expect_known[1])
    vs = sorted(js["violations"], key=lambda v: (is_known(v), v["kind"] != "PROP", v["kind"] == "hang"))
    for i, v in enumerate(vs[:12]):
        kind, out = replay(ctx, h, native, v["vals"], v["mem"], "v%d" % i)
        what = "%s: %s %s (%s)" % (h.name, v["kind"], v["msg"], v["loc"])
        if kind in ("fail", "memory") or (kind == "hang" and v["kind"] == "hang" and h.hang):
            m = re.search(r"VH_FAIL (.*)", out)
            a = re.search(r"ERROR: AddressSanitizer: (\S+)", out)
            tail = m.group(1) if m else (a.group(1) if a else kind)
            d = ctx.save_replay(h.name, {
                "values.txt": "\n".join(map(str, v["vals"])) + "\n",
                "mem.txt": "".join("%d %d %s\n" % tuple(x) for x in v["mem"]),
                "output.txt": out[-8000:],
                "what.txt": what + "\nreplayed natively: " + tail + "\n",
                "build.txt": blog,
                "harness.json": json.dumps({k: (sorted(v) if isinstance(v, set) else v) for k, v in h.__dict__.items()}),
                "replay.sh": "#!/bin/bash\nexec python3-vt %s \"$(dirname \"$0\")\"\n" % os.path.join(VERIF, "lib", "replay.py"),
            })
            if is_known(v) and tail == v["msg"]:
                rep["known"].append(kf[h.expect_known[0]])
            else:
                rep["viol"].append((what + " -> native replay: " + tail, d))
            confirmed = True
            break
        rep["unconf"].append("%s [native: %s]" % (what, kind))
    if confirmed:
        rep["unconf"] = []
    return rep


_pp = {}


def preprocessed(h):
    key = (h.file, tuple(h.defines))
    if key not in _pp:
        r = sh(["clang-18", "-E", "-P"] + CFLAGS + h.cflags + ["-DVH_SYMEX"] + ["-D" + x for x in h.defines] + _incs() +
               [os.path.join(VERIF, "harness", h.file)])
        _pp[key] = r.stdout
    return _pp[key]


def run_all(ctx, hs, workers=8):
    ensure_tool()
    # The first confirmed violation decides the check; the rest is not needed.
    stop = threading.Event()

    def one(h):
        rep = run_harness(ctx, h, stop)
        if rep["viol"]:
            stop.set()
        return rep
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        reps = list(ex.map(one, hs))
    for h, rep in zip(hs, reps):
        ctx.obligations += rep["obl"]
        ctx.discharged += rep["dis"]
        ctx.queries += rep["q"]
        ctx.solver_s += rep["t"]
        ctx.functions |= rep["funcs"]
        ctx.reach_hit += rep["reach"]
        ctx.reach_missed += rep["missed"]
        ctx.unconfirmed += rep["unconf"]
        ctx.inconclusive += rep["incon"]
        ctx.validated += rep["validated"]
        ctx.harnesses.append({"name": rep["name"], "engine": "symex", "obligations": rep["obl"], "discharged": rep["dis"],
                              "paths": rep["paths"], "ir_instructions": rep["instrs"], "memory_accesses_checked": rep["mem"], "queries": rep["q"],
                              "solver_s": round(rep["t"], 2), "seconds": round(rep["wall"], 2), "defines": h.defines})
        for what, d in rep["viol"]:
            ctx.violation(what, d)
        for k in rep["known"]:
            if k not in ctx.known:
                ctx.known.append(k)
