"""Shared driver code: building from /repo's working tree, verdicts, evidence, known findings."""
import hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = 800  # seconds for one check, all included


def env(target):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target,
             RUSTFLAGS="", CARGO_TERM_COLOR="never")
    return e


def sha(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()[:16]


class Check:
    """Collects the outcome of one run of one property's check."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.budget = BUDGET if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "3600"))
        self.violations, self.errors, self.incomplete, self.known, self.nobuild = [], [], [], [], []
        self.parts, self.samples = [], []
        self.states = self.transitions = self.replayed = self.queries = self.solver_ms = 0
        self.functions, self.bounds, self.outside = [], [], []
        self.sources = {}

    def left(self):
        return self.budget - (time.time() - self.t0)

    def source(self, *rel):
        for r in rel:
            self.sources[r] = sha(os.path.join(REPO, r))

    def violation(self, engine, check, what, replay):
        """replay: text of a shell script that reproduces the failure natively (exit != 0)"""
        for k in known_findings():
            if k["property"] == self.prop and k["engine"] == engine and k["match"] and re.fullmatch(k["match"], check + " | " + what):
                self.known.append(k["what"])
                return
        self.violations.append((engine, check, what, replay))

    def finish(self, level="model_checking", explanation=None):
        # an engine whose harness does not fit the working tree leaves its part undecided; all of them: no answer
        (self.incomplete if self.states else self.errors).extend(self.nobuild)
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        reps = []
        for i, (engine, check, what, replay) in enumerate(self.violations):
            f = os.path.join(d, "%s-%d.sh" % (self.prop, i))
            open(f, "w").write("#!/bin/sh\n# %s: %s\n# %s\n%s\n" % (self.prop, check.replace("\n", " "), what.replace("\n", " "), replay))
            os.chmod(f, 0o755)
            reps.append(f)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.replayed,
                   samples=self.samples[:12], queries_discharged=self.queries, solver_seconds=round(self.solver_ms / 1000, 2),
                   functions_encoded=self.functions, bounds=self.bounds, outside_bounds=self.outside,
                   sources=self.sources, parts=self.parts, incomplete=self.incomplete, errors=self.errors,
                   violations=[dict(engine=e, check=c, what=w, replay=r) for (e, c, w, _), r in zip(self.violations, reps)],
                   known_findings=sorted(set(self.known)),
                   explanation=explanation or ("states = complete symbolic paths; transitions = branch alternatives decided by the solver "
                                               "(feasible and infeasible); traces_validated_against_impl = satisfying assignments and "
                                               "counterexamples re-run natively on the compiled code"))
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 2))
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for e in self.errors:
            print("ERROR property=%s %s" % (self.prop, e))
        for i in self.incomplete:
            print("INCOMPLETE property=%s %s" % (self.prop, i))
        for (e, c, w, _), r in zip(self.violations, reps):
            print("VIOLATION property=%s replay=%s" % (self.prop, r))
            print("  %s: %s: %s" % (e, c, w))
        print("%s %s: paths/states %d, queries %d, solver %.1f s, wall %.1f s" % (self.prop, self.tier, self.states, self.queries, self.solver_ms / 1000, time.time() - self.t0))
        sys.stdout.flush()
        if self.violations:
            return 1
        return 2 if self.errors else 0


_known = None


def known_findings():
    """known_findings.txt: one 'open:' line per recorded finding; 'fixed:' lines suppress nothing.
    open: property=<id> engine=<e> match=/<regex over 'check | what'>/ <what fails>"""
    global _known
    if _known is None:
        _known = []
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"open: property=(\S+) engine=(\S+) match=/(.*?)/ (.*)$", l.strip())
            if m:
                _known.append(dict(property=m[1], engine=m[2], match=m[3], what=m[4]))
    return _known


def cargo(crate, target, args, timeout=700):
    r = subprocess.run(["cargo"] + args, cwd=os.path.join(VERIF, "harness", crate), env=env(target), capture_output=True, text=True, timeout=timeout)
    return r.returncode == 0, r.stdout + r.stderr
