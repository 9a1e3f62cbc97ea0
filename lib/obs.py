"""Observed numbers and exact rationals in the encoding of Num.tla."""
import math
from fractions import Fraction
import numpy as np

HUGE = 2 ** 30


def rat(x):
    f = Fraction(x)
    return [f.numerator, f.denominator]


def rats(x):
    return [rats(y) for y in x] if isinstance(x, (list, tuple, np.ndarray)) else rat(x)


def obs(x, A=22, bits=20):
    """<<q, B>>: value q * 2^-B, B at most A (absolute quantum 2^-A), |q| about 2^bits."""
    x = np.asarray(x)
    if x.size != 1:
        return [HUGE, 0]
    x = float(x.reshape(()))
    if not math.isfinite(x):
        return [HUGE, 0]
    B = A if x == 0 else min(A, bits - math.ceil(math.log2(abs(x)) if abs(x) > 1e-300 else -1000))
    return [int(round(x * 2.0 ** B)), B]


def obss(x, A=22, bits=20):
    x = np.asarray(x)
    return obs(x, A, bits) if x.ndim == 0 else [obss(y, A, bits) for y in x]


def mobs(x, A=22, bits=20):
    """A matrix whose entries share the quantum that suits the largest of them."""
    x = np.asarray(x, np.float64)
    m = float(np.max(np.abs(x))) if x.size and np.all(np.isfinite(x)) else 1.0
    B = min(A, bits - math.ceil(math.log2(m))) if m > 1e-300 else A

    def one(y):
        if y.ndim:
            return [one(z) for z in y]
        return [int(round(float(y) * 2.0 ** B)), B] if np.isfinite(y) else [HUGE, 0]
    return one(x)
