import _path  # noqa
import numpy as np
from lib import report, tlc, csmcrec, tracecheck as tc


def canaries(t):
    out = []

    def add(what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    add("v shifted in lik", lambda e: e["e"] == "lik", lambda e: e.update(v=e["v"] - 1))
    add("reference slot", lambda e: e["e"] == "res", lambda e: e.update(j=e["j"] + 1))
    add("weights permuted", lambda e: e["e"] == "res" and len(set(e["q"])) > 1, lambda e: e.update(q=e["q"][1:] + e["q"][:1]))
    add("ancestors", lambda e: e["e"] == "fret", lambda e: e["As"][-1].__setitem__(0, e["As"][-1][0] + 1))
    add("unselected propagated", lambda e: e["e"] == "prop", lambda e: e.update(us=e["us"][1:] + e["us"][:1]))
    out.append(("no return", dict(t, ev=t["ev"][:-1])))
    return out


def body(c):
    for n, K, m, w in ([(2, 2, "fwd", 1), (3, 1, "fwd", 1)] if not c.thorough else [(2, 3, "fwd", 1), (3, 2, "fwd", 1), (3, 1, "fwd", 2)]):
        r = tlc.check("CSMCMC", 'SPECIFICATION Spec\nCONSTANTS N=%d K=%d MODE="%s" WMAX=%d\nINVARIANTS RefKept Genealogy Counts NoStuck\n'
                                'CHECK_DEADLOCK FALSE\n' % (n, K, m, w), workers=8, timeout=3000, xmx="12g")
        c.tlc(r, "CSMCMC N=%d K=%d %s" % (n, K, m))
    rng = np.random.default_rng(c.seed * 7919 + 4)
    configs = [(3, 3, (1,), (1,)), (1, 2, (2,), ()), (4, 4, (), (1,)), (2, 1, (2, 3), (2, 2)), (12, 2, (2,), (2,)), (2, 9, (1,), (1,))]
    if c.thorough:
        configs += [(int(rng.integers(1, 10)), int(rng.integers(1, 9)), [(1,), (2,), (2, 3), ()][int(rng.integers(4))],
                     [(1,), (2,), ()][int(rng.integers(3))]) for _ in range(40)]
    traces = []
    for j, (n, K, shape, vshape) in enumerate(configs):
        for i in range(16 if c.thorough else 8):
            traces.append(csmcrec.trace(rng, int(rng.integers(2 ** 31)), n, K, shape, vshape, "fwd", use_kw=i % 3 != 2,
                                        jit=i == 4 and j == 0))
    tc.validate(c, "CSMCTrace", traces, canaries(traces[0]))


report.main("C04", body)
