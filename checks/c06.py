import _path  # noqa
import numpy as np
from lib import report, tlc, gibbsrec as g, tracecheck as tc


def canaries(ts):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in ts[:8]:
        f = [i for i, e in enumerate(t["ev"]) if e["e"] == "ret"]
        if not f:
            continue
        add(t, "measurement index", lambda e: e["e"] == "lik", lambda e: e.update(v=e["vp"]))
        add(t, "x0 of the forward path", lambda e: e["e"] == "fwd", lambda e: e.update(x=e["x"] + 1))
        add(t, "flags", lambda e: e["e"] == "ret", lambda e: e["fl"].__setitem__(0, not e["fl"][0]))
        add(t, "trajectory", lambda e: e["e"] == "ret", lambda e: e.update(us=e["us"][::-1]))
        add(t, "x0", lambda e: e["e"] == "ret", lambda e: e.update(x=e["us"][0]))
    return out


def body(c):
    for n, k, st, mode, meth in ([(2, 2, 1, "kernel", ""), (1, 2, 2, "kernel", "")] if not c.thorough
                                 else [(2, 2, 1, "kernel", ""), (1, 3, 3, "kernel", ""), (2, 1, 2, "kernel", ""), (3, 1, 1, "kernel", "")]):
        r = tlc.check("GibbsMC", 'SPECIFICATION Spec\nCONSTANTS N=%d K=%d STEPS=%d MODE="%s" METHOD="%s" WMAX=1\n'
                                 'INVARIANTS RefKept Ends Returned NoStuck\nCHECK_DEADLOCK FALSE\n' % (n, k, st, mode, meth),
                      workers=8, timeout=3000, xmx="12g")
        c.tlc(r, "GibbsMC N=%d K=%d steps=%d" % (n, k, st))
    rng = np.random.default_rng(c.seed * 7919 + 6)
    configs = [(3, 3, (2,), (1,)), (5, 2, (), (2,)), (2, 4, (2, 2), (3,))]
    if c.thorough:
        configs += [(int(rng.integers(1, 8)), int(rng.integers(1, 7)), [(1,), (2,), (2, 3), ()][int(rng.integers(4))],
                     [(1,), (2,), ()][int(rng.integers(3))]) for _ in range(20)]
    traces = []
    for j, (n, K, shape, vshape) in enumerate(configs):
        for i in range(16 if c.thorough else 8):
            b = i + j
            traces.append(g.kernel_trace(rng, int(rng.integers(2 ** 30)), n, K, shape, vshape, 3, bool(i & 1), bool(i & 2), bool(i & 4),
                                         use_kw=b % 3 != 0, garbage=b % 2 == 0, jit=i == 5 and j == 0))
    tc.validate(c, "GibbsTrace", traces, canaries(traces))
    if not c.violations:
        ok, msg = g.reference_ok(g.reference_draws("kernel", c.seed + 6))
        c.count("reference_draws", 12000)
        c.sample(dict(case="explicit_final reference particles", result=msg))
        if not ok:
            c.violation("explicit_final: initial particles are not independent standard normals: " + msg, dict(msg=msg))


report.main("C06", body)
