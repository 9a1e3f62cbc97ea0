"""Running TLC and reading what it says."""
import os, re, shutil, subprocess, tempfile, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The machinery failed: neither 'held' nor 'violated'."""


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.ok = "Model checking completed. No error has been found" in out
        self.invariant = None
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|property (\S+) was violated", out)
        if m:
            self.invariant = next(g for g in m.groups() if g)

    @property
    def printed(self):
        """JSON values printed with PrintT("@@" \\o ToJson(..))."""
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith('"@@'):
                s = json.loads(line) if _valid_json_string(line) else line[1:-1]
                res.append(json.loads(s[2:]))
        return res


def _valid_json_string(line):
    try:
        return isinstance(json.loads(line), str)
    except ValueError:
        return False


def run(module, cfg, env=None, workers=1, timeout=600, extra=(), xmx="4g"):
    """Runs TLC on spec/<module>.tla with configuration text `cfg`."""
    work = tempfile.mkdtemp(prefix="tlc-")
    try:
        cfgp = os.path.join(work, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE",
               "-config", cfgp, *extra, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module)
        return TlcResult(p.stdout, p.returncode)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(module, cfg, **kw):
    """Model checks the specification itself; anything but success is a failure of the machinery
    (the specification does not depend on /repo)."""
    r = run(module, cfg, **kw)
    if not r.ok:
        raise MachineryError("TLC does not accept %s:\n%s" % (module, r.out[-4000:]))
    return r


def validate(module, traces, cfg=None, timeout=600, **kw):
    """Feeds recorded traces to trace specification `module`.  Returns (rejections, result) where rejections is a
    list of dicts with keys tid (index into traces), l (event index, 1-based) and clause."""
    fd, path = tempfile.mkstemp(suffix=".ndjson", prefix="trace-")
    try:
        with os.fdopen(fd, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        r = run(module, cfg or "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n", env={"TRACES": path},
                timeout=timeout, **kw)
    finally:
        os.unlink(path)
    if not r.ok:
        raise MachineryError("TLC failed on trace specification %s:\n%s" % (module, r.out[-6000:]))
    rej, done = [], None
    for v in r.printed:
        if "done" in v:
            done = v["done"]
        elif "reject" in v:
            rej.append(dict(tid=v["reject"] - 1, l=v["l"], clause=v["clause"]))
    if done != len(traces):
        raise MachineryError("trace specification %s finished %s of %d traces:\n%s"
                             % (module, done, len(traces), r.out[-3000:]))
    return rej, r


def laws(module, cases, timeout=600, **kw):
    """The exact laws of the cases, computed by TLC: list of dicts outcome(tuple) -> Fraction."""
    from fractions import Fraction
    fd, path = tempfile.mkstemp(suffix=".ndjson", prefix="cases-")
    try:
        with os.fdopen(fd, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        r = run(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"CASES": path}, timeout=timeout, **kw)
    finally:
        os.unlink(path)
    if not r.ok:
        raise MachineryError("TLC failed on %s:\n%s" % (module, r.out[-4000:]))
    out = [None] * len(cases)
    for v in r.printed:
        if v["total"] != [1, 1]:
            raise MachineryError("law of case %d is not normalised" % v["case"])
        out[v["case"]] = {_tup(o): Fraction(n, d) for o, n, d in v["d"]}
    if any(o is None for o in out):
        raise MachineryError("missing laws from %s:\n%s" % (module, r.out[-3000:]))
    return out, r


def _tup(o):
    return tuple(_tup(x) for x in o) if isinstance(o, list) else o
