"""Evidence, violations, known findings: the frame every check runs in."""
import json, os, sys, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.findings_hit = []
        try:
            with open(FINDINGS) as f:
                self.known = [k for k in json.load(f)["findings"] if k["property"] == pid]
        except FileNotFoundError:
            self.known = []

    # -- coverage
    def tlc(self, r, what=None):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        if what:
            self.cov.setdefault("models", {})[what] = dict(distinct=r.distinct, generated=r.generated)

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=3):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def assume(self, s):
        self.assumptions.append(s)

    # -- outcomes
    def violation(self, what, detail, key=None):
        """what: one line; detail: JSON-able replay data; key: identifies the specific failing input/site."""
        for k in self.known:
            if key is not None and k["key"] == key:
                self.findings_hit.append((k, what))
                return
        self.violations.append((what, detail))

    def finish(self):
        for k, what in {k["key"]: (k, w) for k, w in self.findings_hit}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        self.cov["traces_validated_against_impl"] += self.cov.get("law_cases", 0)   # samples of runs judged by an exact law
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        if self.violations:
            d = os.path.join(VERIF, "out")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-violation.json" % self.pid)
            with open(path, "w") as f:
                json.dump([dict(what=w, detail=x) for w, x in self.violations[:20]], f, indent=1, default=str)
            for w, _ in self.violations[:10]:
                print("  " + w)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s: held (%s, %d traces, %d states, %.1f s)" % (
            self.pid, self.tier, self.cov["traces_validated_against_impl"], self.cov["states"], time.time() - self.t0))
        return 0


def main(pid, body):
    """Runs body(check).  An exception raised inside the code under test is reported by the harness as a violation
    (see rec.observe); any other exception is a failure of the machinery: exit 2."""
    c = Check(pid)
    try:
        body(c)
        rc = c.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        if c.violations:      # what was already established stands
            rc = c.finish()
        else:
            print("ERROR property=%s machinery failure" % pid)
            rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    if os.environ.get("VERIF_PROFILE"):
        return
    os._exit(rc)
