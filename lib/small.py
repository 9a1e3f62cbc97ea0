"""Rat.tla's operations with its 32 bit limit: instances are admitted when a formula stays inside it."""
from math import gcd

LIM = 2 ** 31 - 1


class Over(Exception):
    pass


def _c(*v):
    for x in v:
        if abs(x) > LIM:
            raise Over
    return v[0]


class S:
    def __init__(self, n, d=1):
        g = gcd(n, d) * (1 if d > 0 else -1)
        self.n, self.d = n // g, d // g
        _c(self.n, self.d)

    def __add__(a, b):
        b = b if isinstance(b, S) else S(b)
        g = gcd(a.d, b.d)
        u, v = a.n * (b.d // g), b.n * (a.d // g)
        _c(u, v, u + v, (a.d // g) * b.d)
        return S(u + v, (a.d // g) * b.d)

    def __neg__(a):
        return S(-a.n, a.d)

    def __sub__(a, b):
        return a + (-(b if isinstance(b, S) else S(b)))

    def __mul__(a, b):
        b = b if isinstance(b, S) else S(b)
        return S(a.n * b.n, a.d * b.d)

    __rmul__ = __mul__

    def inv(a):
        return S(a.d, a.n)

    def __float__(a):
        return a.n / a.d

    def __eq__(a, b):
        b = b if isinstance(b, S) else S(b)
        return (a.n, a.d) == (b.n, b.d)

    def pair(a):
        return [a.n, a.d]


def of(m):
    return [of(x) for x in m] if isinstance(m, (list, tuple)) else (m if isinstance(m, S) else S(int(m)))


def dot(u, v):
    r = S(0)
    for a, b in reversed(list(zip(u, v))):
        r = a * b + r
    return r


def mul(A, B):
    return [[dot(r, [B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for r in A]


def add(A, B):
    return [[a + b for a, b in zip(r, s)] for r, s in zip(A, B)]


def sub(A, B):
    return [[a - b for a, b in zip(r, s)] for r, s in zip(A, B)]


def scale(a, A):
    return [[a * x for x in r] for r in A]


def T(A):
    return [list(r) for r in zip(*A)]


def eye(n):
    return [[S(int(i == j)) for j in range(n)] for i in range(n)]


def vec(A, x):
    return [dot(r, x) for r in A]


def det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    if n == 2:
        return A[0][0] * A[1][1] - A[0][1] * A[1][0]
    m = lambda i, j, k, l: A[1][i] * A[2][j] - A[1][k] * A[2][l]
    return (A[0][0] * m(1, 2, 2, 1) - A[0][1] * m(0, 2, 2, 0)) + A[0][2] * m(0, 1, 1, 0)


def inv(A):
    n, d = len(A), det(A).inv()
    if n == 1:
        return [[d]]
    mi = lambda i, j: [[A[a + (a >= i)][b + (b >= j)] for b in range(n - 1)] for a in range(n - 1)]
    return [[d * (det(mi(j, i)) if (i + j) % 2 == 0 else -det(mi(j, i))) for j in range(n)] for i in range(n)]


def pair(m):
    return [pair(x) for x in m] if isinstance(m, list) else m.pair()


def fl(m):
    return [fl(x) for x in m] if isinstance(m, list) else float(m)
