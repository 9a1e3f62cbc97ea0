"""Comparison of empirical outcome counts with an exact law computed by TLC."""
import numpy as np
from scipy import stats

PMIN = 1e-9      # a test fails below this p-value
GHOST = 1e-4     # outcomes of probability zero may only appear through floating point ties


def outcome_counts(arr):
    """Rows of an integer array (N, m) -> dict tuple -> count."""
    arr = np.asarray(arr)
    if arr.ndim == 1:
        arr = arr[:, None]
    if arr.shape[1] == 0:
        return {(): len(arr)}
    lo, hi = int(arr.min()), int(arr.max())
    base = hi - lo + 1
    if base ** arr.shape[1] > 2 ** 62:
        u, n = np.unique(arr, axis=0, return_counts=True)
        return {tuple(int(x) for x in r): int(k) for r, k in zip(u, n)}
    pw = base ** np.arange(arr.shape[1] - 1, -1, -1, dtype=np.int64)
    u, first, n = np.unique((arr.astype(np.int64) - lo) @ pw, return_index=True, return_counts=True)
    return {tuple(int(x) for x in arr[i]): int(k) for i, k in zip(first, n)}


def compare(counts, law, N=None):
    """Returns (ok, description).  law: dict outcome -> Fraction."""
    N = N or sum(counts.values())
    zero = {o: k for o, k in counts.items() if law.get(o, 0) == 0}
    ghosts = sum(zero.values())
    if ghosts > max(3, GHOST * N):
        return False, "impossible outcomes occurred %d times of %d, e.g. %s" % (ghosts, N, sorted(zero.items(), key=lambda z: -z[1])[0])
    exp = sorted(((float(p) * N, counts.get(o, 0), o) for o, p in law.items() if p > 0))
    cells, pe, po = [], 0.0, 0
    for e, k, o in exp:
        pe, po = pe + e, po + k
        if pe >= 10:
            cells.append((pe, po))
            pe, po = 0.0, 0
    if pe > 0:
        if cells:
            cells[-1] = (cells[-1][0] + pe, cells[-1][1] + po)
        else:
            cells.append((pe, po))
    if len(cells) < 2:
        return True, "one cell"
    E = np.array([c[0] for c in cells])
    O = np.array([c[1] for c in cells], float)
    x2 = float(((O - E) ** 2 / E).sum())
    p = float(stats.chi2.sf(x2, len(cells) - 1))
    if p < PMIN:
        worst = max(exp, key=lambda z: (z[1] - z[0]) ** 2 / max(z[0], 1e-9))
        return False, "chi2=%.1f on %d cells, p=%.2g; worst outcome %s: expected %.1f observed %d of %d" % (
            x2, len(cells), p, worst[2], worst[0], worst[1], N)
    return True, "chi2=%.1f on %d cells, p=%.3g" % (x2, len(cells), p)


def mean_test(x, exact, name=""):
    """z-test of the mean of samples x against an exact value."""
    x = np.asarray(x, np.float64)
    se = x.std(ddof=1) / np.sqrt(x.size)
    d = abs(x.mean() - exact)
    if not np.isfinite(d):
        return False, "non-finite samples"
    if se < 1e-9 * max(1, abs(exact)):
        ok = d <= 1e-4 * max(1.0, abs(exact))
        return ok, "deterministic value %.8g, exact %.8g" % (x.mean(), exact)
    z = d / se
    return z < 6.5 or d < 2e-6 * max(1.0, abs(exact)), "mean %.6g, exact %.6g, z=%.2f (N=%d)" % (x.mean(), exact, z, x.size)
