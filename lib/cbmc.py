"""Bounded symbolic execution of /repo's C sources with CBMC.

Each harness is compiled together with the current /repo sources by goto-cc.
Every `PROP` assertion and every built-in memory-safety check is an obligation.
`REACH` assertions are vacuity witnesses and must be violated.
Counterexamples are replayed on a native build (AddressSanitizer) of the same
harness and sources; only what reproduces is reported.
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, time
from common import *

# Built-in checks that a native run can confirm.
SAFETY = ["--bounds-check", "--pointer-check"]


class H:
    def __init__(self, name, file, srcs, defines=(), unwind=8, unwindset=(), timeout=300,
                 flags=(), native_srcs=None, safety=True, cflags=(), native_flags=(), expect_known=None,
                 max_unwind=None, entry=None, native_extra=(), solver=()):
        self.name, self.file, self.srcs = name, file, list(srcs)
        self.defines, self.unwind, self.unwindset = list(defines), unwind, list(unwindset)
        self.timeout, self.flags, self.safety = timeout, list(flags), safety
        self.native_srcs = list(native_srcs) if native_srcs is not None else self.srcs
        self.cflags, self.native_flags = list(cflags), list(native_flags)
        self.expect_known = expect_known
        self.max_unwind = max_unwind or unwind * 4
        self.entry = entry
        self.native_extra = list(native_extra)
        self.solver = list(solver)


def _src(s):
    return s if os.path.isabs(s) else os.path.join(REPO, "src", s)


def _incs():
    return ["-I", os.path.join(VERIF, "harness"), "-I", os.path.join(VERIF, "harness", "stubinc"),
            "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src")]


def build_goto(ctx, h, tag=""):
    out = os.path.join(ctx.scratch, h.name + tag + ".gb")
    cmd = ["goto-cc"] + CFLAGS + h.cflags + ["-DVH_CBMC"] + ["-D" + d for d in h.defines] + _incs()
    cmd += [os.path.join(VERIF, "harness", h.file)] + [_src(s) for s in h.srcs] + ["-o", out]
    if h.entry:
        cmd += ["--function", h.entry]
    r = sh(cmd, timeout=120)
    if r.returncode != 0:
        return None, r.stdout
    return out, r.stdout


def build_native(ctx, h):
    out = os.path.join(ctx.scratch, h.name + ".native")
    cmd = ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-w"]
    cmd += CFLAGS + h.cflags + ["-DVH_NATIVE"] + ["-D" + d for d in h.defines] + _incs()
    cmd += [os.path.join(VERIF, "harness", h.file), os.path.join(VERIF, "harness", "vh_native.c")]
    cmd += [_src(s) for s in h.native_srcs] + h.native_extra + ["-o", out, "-lpthread", "-lm"] + h.native_flags
    r = sh(cmd, timeout=180)
    return (out if r.returncode == 0 else None), " ".join(cmd) + "\n" + r.stdout


def run_cbmc(gb, h, unwind, timeout, extra=()):
    cmd = ["cbmc", gb, "--json-ui", "--verbosity", "8", "--unwind", str(unwind), "--unwinding-assertions", "--drop-unused-functions",
           "--no-standard-checks", "--no-malloc-may-fail", "--object-bits", "9", "--slice-formula"]
    if h.safety:
        cmd += SAFETY
    for u in h.unwindset:
        cmd += ["--unwindset", u]
    cmd += h.flags + h.solver + list(extra)
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "timeout after %ds" % timeout, time.time() - t, 0
    dt = time.time() - t
    try:
        js = json.loads(out)
    except Exception as e:
        return None, "unreadable output (%s), exit %s" % (e, p.returncode), dt, 0
    res, msgs, nq = None, [], 0
    for x in js:
        if "result" in x:
            res = x["result"]
        elif "messageText" in x:
            msgs.append(x["messageText"])
            if "SAT checker" in x["messageText"] or "SMT" in x["messageText"] and "solver" in x["messageText"]:
                nq += 1
    if res is None:
        return None, "no result: " + " | ".join(msgs[-4:]), dt, nq
    return res, None, dt, nq


def functions_of(gb):
    r = sh(["goto-instrument", "--reachable-call-graph", gb], timeout=60)
    fs = set()
    for m in re.finditer(r"^(\S+) -> (\S+)$", r.stdout, re.M):
        fs.update(m.groups())
    return {f for f in fs if f.startswith("a0_") or f.startswith("A0_")}


def trace_values(result):
    vals = []
    for s in result.get("trace", []):
        if s.get("stepType") == "assignment" and s.get("lhs") == "vh_val" and not s.get("hidden", False):
            b = s["value"].get("binary")
            vals.append(int(b, 2) if b is not None else 0)
    return vals


def replay(ctx, h, vals, native, timeout=20):
    vf = os.path.join(ctx.scratch, h.name + ".vals")
    with open(vf, "w") as f:
        f.write("\n".join(str(v) for v in vals) + "\n")
    wd = os.path.join(ctx.scratch, h.name + ".cwd")
    os.makedirs(wd, exist_ok=True)
    env = dict(os.environ, VH_VALUES=vf, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0")
    p = subprocess.Popen([native], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=wd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return "hang", out.decode(errors="replace")
    out = out.decode(errors="replace")
    if p.returncode == 42:
        return "fail", out
    if p.returncode == 99 or p.returncode < 0:
        return "memory", out
    if p.returncode == 77:
        return "diverged", out
    return "ok", out


def run_harness(ctx, h):
    """Returns a dict of measurements; runs in a worker thread."""
    rep = {"name": h.name, "unwind": h.unwind, "obl": 0, "dis": 0, "q": 0, "t": 0.0, "reach": [], "missed": [],
           "viol": [], "unconf": [], "incon": [], "funcs": set(), "validated": 0}
    gb, log = build_goto(ctx, h)
    if gb is None:
        rep["incon"].append("%s: goto-cc failed: %s" % (h.name, log[-400:]))
        return rep
    rep["funcs"] = functions_of(gb)
    unwind = h.unwind
    while True:
        left = min(h.timeout, ctx.left())
        if left < 5:
            rep["incon"].append("%s: no time left" % h.name)
            return rep
        res, err, dt, nq = run_cbmc(gb, h, unwind, left)
        rep["t"] += dt
        rep["q"] += nq
        if res is None:
            rep["incon"].append("%s: %s" % (h.name, err))
            return rep
        fails = [r for r in res if r["status"] == "FAILURE"]
        unw = [r for r in fails if ".unwind." in r["property"] or "unwinding assertion" in r["description"] or "recursion" in r["property"]]
        if unw and unwind * 2 <= h.max_unwind:
            unwind *= 2
            continue
        break
    rep["unwind"] = unwind
    real, unknown = [], 0
    for r in res:
        if r["description"].startswith("REACH"):
            (rep["reach"] if r["status"] == "FAILURE" else rep["missed"]).append("%s: %s" % (h.name, r["description"][6:]))
            continue
        rep["obl"] += 1
        if r["status"] == "SUCCESS":
            rep["dis"] += 1
        elif r["status"] == "FAILURE":
            real.append(r)
        else:
            unknown += 1
    if unknown and not real:
        rep["incon"].append("%s: %d obligations undecided" % (h.name, unknown))
    if not real:
        return rep
    native, blog = build_native(ctx, h)
    if native is None:
        rep["incon"].append("%s: native build for replay failed: %s" % (h.name, blog[-600:]))
        return rep
    # Property assertions first, then memory checks, then unwinding.
    real.sort(key=lambda r: (not r["description"].startswith("PROP"), ".unwind." in r["property"]))
    confirmed = False
    for r in real[:6]:
        left = min(h.timeout, ctx.left())
        if left < 5:
            rep["incon"].append("%s: no time to replay %s" % (h.name, r["description"]))
            break
        res2, err, dt, nq = run_cbmc(gb, h, unwind, left, ["--trace", "--property", r["property"]])
        rep["t"] += dt
        rep["q"] += nq
        if res2 is None:
            rep["incon"].append("%s: trace for %s: %s" % (h.name, r["property"], err))
            continue
        rr = [x for x in res2 if x["property"] == r["property"] and "trace" in x]
        if not rr:
            continue
        vals = trace_values(rr[0])
        kind, out = replay(ctx, h, vals, native)
        loc = r.get("sourceLocation", {})
        what = "%s: %s (%s:%s)" % (h.name, r["description"], os.path.basename(loc.get("file", "?")), loc.get("line", "?"))
        is_unwind = ".unwind." in r["property"]
        if kind in ("fail", "memory") or (kind == "hang" and is_unwind):
            m = re.search(r"VH_FAIL (.*)", out)
            tail = m.group(1) if m else kind
            d = ctx.save_replay(h.name + "-" + r["property"], {
                "values.txt": "\n".join(map(str, vals)) + "\n",
                "output.txt": out[-8000:],
                "what.txt": what + "\nreplayed natively: " + tail + "\n",
                "build.txt": blog,
                "replay.sh": "#!/bin/bash\n# Rebuilds the harness with /repo's current sources and feeds it the counterexample.\n"
                             "d=$(cd \"$(dirname \"$0\")\" && pwd)\nt=$(mktemp -d)\n%s || exit 2\n"
                             "VH_VALUES=$d/values.txt ASAN_OPTIONS=detect_leaks=0 timeout 30 $t/a.out; rc=$?\nrm -rf \"$t\"\nexit $rc\n"
                             % blog.split("\n")[0].replace(native, "$t/a.out"),
            })
            rep["viol"].append((what + " -> native replay: " + tail, d))
            confirmed = True
            break
        rep["unconf"].append("%s [native: %s]" % (what, kind))
    if confirmed:
        rep["unconf"] = []
    return rep


def run_all(ctx, hs, workers=8):
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        reps = list(ex.map(lambda h: run_harness(ctx, h), hs))
    for h, rep in zip(hs, reps):
        ctx.obligations += rep["obl"]
        ctx.discharged += rep["dis"]
        ctx.queries += rep["q"]
        ctx.solver_s += rep["t"]
        ctx.functions |= rep["funcs"]
        ctx.reach_hit += rep["reach"]
        ctx.reach_missed += rep["missed"]
        ctx.unconfirmed += rep["unconf"]
        ctx.inconclusive += rep["incon"]
        ctx.harnesses.append({"name": rep["name"], "engine": "cbmc", "obligations": rep["obl"], "discharged": rep["dis"],
                              "unwind": rep["unwind"], "seconds": round(rep["t"], 2), "defines": h.defines})
        for what, d in rep["viol"]:
            kf = known_findings(ctx.prop)
            if h.expect_known and h.expect_known in kf:
                ctx.known.append(kf[h.expect_known])
            else:
                ctx.violation(what, d)
