import _path  # noqa
import numpy as np
from c01lib import canaries
from lib import report, tlc, pf, tracecheck as tc


def body(c):
    consts = dict(N=2, K=2) if not c.thorough else dict(N=2, K=3)
    r = tlc.check("PFMC", "SPECIFICATION Spec\nCONSTANTS N=%(N)d K=%(K)d ORDER=\"prop-first\"\n"
                          "INVARIANTS Genealogy Count Evidence Finishes NoStuck\nCHECK_DEADLOCK FALSE\n" % consts, workers=4)
    c.tlc(r, "PFMC prop-first %s" % consts)
    rng = np.random.default_rng(c.seed * 7919 + 1)
    traces = []
    shapes, vshapes = [(1,), (2,), (2, 3), (), (3, 1, 2)], [(1,), (2,), (2, 2), ()]
    configs = [(4, 3, (1,), (1,)), (1, 2, (2,), ()), (3, 4, (), (1,)), (5, 1, (2, 3), (2, 2)), (7, 3, (2,), (2,)),
               (33, 2, (1,), (1,)), (3, 12, (1,), (1,))]
    if c.thorough:
        configs += [(int(rng.integers(1, 12)), int(rng.integers(1, 9)), shapes[int(rng.integers(5))],
                     vshapes[int(rng.integers(4))]) for _ in range(60)]
    for j, (n, K, shape, vshape) in enumerate(configs):
        for i in range(16 if c.thorough else 9):
            traces.append(pf.bootstrap_trace(rng, int(rng.integers(2 ** 31)), n, K, shape, vshape, log=i % 4 != 1,
                                             return_last=i % 3 == 1, use_kw=i % 5 != 2, jit=i == 4 and j == 0))
    tc.validate(c, "PFTrace", traces, canaries(traces[0]))
    c.assume("user callbacks see concrete values (jit disabled) or are called through jax.pure_callback")


report.main("C01", body)
