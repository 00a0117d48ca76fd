"""Shared pieces of every check: scratch space, budgets, evidence, verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# What the repository's own build passes (src/Makefile release flags).
CFLAGS = ["-std=gnu11", "-DNDEBUG", "-D_GNU_SOURCE"]


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.budget = 780.0 if tier == "quick" else 5400.0
        self.scratch = tempfile.mkdtemp(prefix="a0v_%s_" % prop)
        self.replay_dir = os.path.join(VERIF, "replays", prop)
        self.obligations = 0
        self.discharged = 0
        self.queries = 0
        self.solver_s = 0.0
        self.functions = set()
        self.harnesses = []
        self.bounds = []
        self.stubs = []
        self.reach_hit = []
        self.reach_missed = []
        self.violations = []
        self.unconfirmed = []
        self.inconclusive = []
        self.known = []
        self.validated = 0

    def left(self):
        return self.budget - (time.time() - self.t0)

    def bound(self, *texts):
        for t in texts:
            if t not in self.bounds:
                self.bounds.append(t)

    def stub(self, *texts):
        for t in texts:
            if t not in self.stubs:
                self.stubs.append(t)

    def save_replay(self, name, files):
        """files: {basename: text}. Returns the directory."""
        d = os.path.join(self.replay_dir, re.sub(r"[^A-Za-z0-9_.-]", "_", name))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        for k, v in files.items():
            with open(os.path.join(d, k), "w") as f:
                f.write(v)
        return d

    def violation(self, what, replay):
        self.violations.append({"what": what, "replay": replay})

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        level = "proof"
        for c in manifest.get("checks", []):
            if c["property"] == self.prop:
                level = c["level"]
        cov = {
            "obligations": self.obligations,
            "discharged": self.discharged,
            "checker_cmd": "./check %s %s" % (self.prop, self.tier),
            "trusted_base": TRUSTED + ["stub: " + s for s in self.stubs],
            "bounded": True,
            "bounds": self.bounds,
            "solver_queries": self.queries,
            "solver_s": round(self.solver_s, 2),
            "functions_encoded": sorted(self.functions),
            "harnesses": self.harnesses,
            "reachability_witnesses": len(self.reach_hit),
            "reachability_missed": self.reach_missed,
            "witnesses_replayed_on_real_code": self.validated,
            "unconfirmed_counterexamples": self.unconfirmed,
            "inconclusive": self.inconclusive,
            "samples": self.reach_hit[:8],
        }
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": cov,
            "assumptions": self.stubs + self.bounds,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        if self.violations:
            ev["violation_details"] = self.violations
        if self.known:
            ev["known_findings"] = self.known
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for u in self.unconfirmed:
            print("note: counterexample not reproduced on the real code, not reported: %s" % u)
        for u in self.inconclusive[:8]:
            print("note: inconclusive: %s" % u[:700])
        for r in self.reach_missed:
            print("note: witness not reached: %s" % r)
        print("%s %s: %d/%d obligations discharged, %d solver queries, %.1f s solver, %.1f s wall" % (
            self.prop, self.tier, self.discharged, self.obligations, self.queries, self.solver_s, time.time() - self.t0))
        if self.violations:
            for v in self.violations:
                print("violated: %s" % v["what"])
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0]["replay"]))
            return 1
        if self.inconclusive or self.unconfirmed or self.reach_missed:
            print("%s: no verdict, see the notes above" % self.prop)
            return 2
        return 0


TRUSTED = [
    "cbmc 6.11 / z3 / clang 18 front ends and solvers",
    "the harness, reference model and stubs under /verif",
]


def known_findings(prop):
    """Lines `known: property=<id> key=<key> <text>` of known_findings.txt."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
