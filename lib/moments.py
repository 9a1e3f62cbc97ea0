"""Empirical moments as events of Moments.tla."""
import numpy as np
from .obs import obs, HUGE

BAD = [HUGE, 0]


def entry(r):
    """mean, var, z, kurt of one sample of residuals."""
    r = np.asarray(r, np.float64).ravel()
    if not np.all(np.isfinite(r)):
        return dict(var=BAD, z=BAD, kurt=BAD, mean=BAD)
    m, v = r.mean(), r.var()
    mean = obs(m, 10, 30)
    if v < 1e-10:
        return dict(mean=mean, var=obs(v), z=obs(0.0 if abs(m) < 1e-3 else 60.0, 12), kurt=obs(3.0, 12))
    return dict(mean=mean, var=obs(v), z=obs(np.clip(m / np.sqrt(v / r.size), -60, 60), 12), kurt=obs(min(((r - m) ** 4).mean() / v ** 2, 60), 12))


def maxcorr(cols):
    """Largest absolute correlation between two different columns (constant columns are left out), also of their squares."""
    X = np.asarray(cols, np.float64)
    X = X[:, X.var(axis=0) > 1e-10] if np.all(np.isfinite(X)) else np.full((2, 2), np.nan)
    if not np.all(np.isfinite(X)):
        return BAD
    if X.shape[1] < 2:
        return obs(0.0, 12)
    X = X - X.mean(axis=0)
    C = np.corrcoef(X, rowvar=False)
    return obs(np.max(np.abs(C - np.diag(np.diag(C)))), 16)
