import _path  # noqa
import numpy as np
from lib import report, tlc, twrec, tracecheck as tc


def canaries(t):
    out = []

    def add(what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    add("time skipped", lambda e: e["e"] == "prop", lambda e: e.update(t=e["t"] + 1))
    add("twisting value", lambda e: e["e"] == "tw", lambda e: e["w"].__setitem__(0, e["w"][0] + 1))
    add("ancestors", lambda e: e["e"] == "td", lambda e: e.update(up=e["up"][1:] + [99]))
    add("weights", lambda e: e["e"] == "ret", lambda e: e["q"].__setitem__(0, e["q"][0] + 500))
    out.append(("no return", dict(t, ev=t["ev"][:-1])))
    return out


def body(c):
    for n, K, m in ([(2, 1, 1), (1, 3, 1)] if not c.thorough else [(2, 2, 1), (3, 1, 1), (1, 4, 2)]):
        r = tlc.check("TwistedMC", "SPECIFICATION Spec\nCONSTANTS N=%d K=%d EMAX=%d\nINVARIANT Telescopes\nCHECK_DEADLOCK FALSE\n" % (n, K, m),
                      workers=8, timeout=3000, xmx="12g")
        c.tlc(r, "TwistedMC N=%d K=%d" % (n, K))
    rng = np.random.default_rng(c.seed * 7919 + 12)
    configs = [(4, 3, (1,), (1,)), (1, 2, (2,), ()), (3, 5, (), (2,)), (5, 1, (2, 3), (2, 2)), (9, 4, (2,), (1,))]
    if c.thorough:
        configs += [(int(rng.integers(1, 10)), int(rng.integers(1, 9)), [(1,), (2,), (2, 3), ()][int(rng.integers(4))],
                     [(1,), (2,), ()][int(rng.integers(3))]) for _ in range(40)]
    traces = []
    for j, (n, K, shape, ys) in enumerate(configs):
        for i in range(16 if c.thorough else 9):
            traces.append(twrec.trace(rng, int(rng.integers(2 ** 30)), n, K, shape, ys, use_kw=i % 3 != 2, jit=i == 4 and j == 0))
    tc.validate(c, "TwistedTrace", traces, canaries(traces[0]))


report.main("C12", body)
