import _path  # noqa
import numpy as np
from lib import report, tlc, emrec, tracecheck as tc


def body(c):
    r = tlc.check("EMMC", "SPECIFICATION Spec\nCONSTANTS TIMES={%s} NMAX=%d\nINVARIANTS Inside Spacing Travelled Count\nCHECK_DEADLOCK FALSE\n"
                  % (("0,1,2,3,4,6", 5) if c.thorough else ("0,1,2,3", 4)), workers=8)
    c.tlc(r, "EMMC")
    rng = np.random.default_rng(c.seed + 17)
    R0, m = (400, 6) if c.thorough else (128, 1)
    ts = [emrec.trace(rng, j, ["em", "rev"][j % 2], R0) for j in range(36 * m)]
    tc.validate(c, "EMTrace", ts, emrec.canaries(ts), timeout=1800)
    c.assume("noise law at 6.5 standard errors over %d runs with independent keys; drift, times and substeps exactly, through noise-free and displaced runs" % (R0 * R0))


report.main("C17", body)
