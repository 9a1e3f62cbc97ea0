"""Linear SDEs and grids on which every transition is rational (LinSDE.tla)."""
from fractions import Fraction as Fr
import math
from .obs import rat

LN2 = math.log(2.0)


# -- configurations on which everything is rational
def config(rng):
    cls = str(rng.choice(["const", "ou", "lin", "exp"]))
    if cls in ("const", "ou"):
        al = Fr(int(rng.choice([1, 2, 4, -1])), int(rng.choice([1, 2])))
        V = Fr(int(rng.integers(1, 5)), int(rng.choice([1, 2, 4]))) * (1 if al > 0 else -1)
        start = Fr(int(rng.integers(-3, 8)), 2)
        ts = [start]
        for _ in range(4):
            ts.append(ts[-1] + Fr(int(rng.choice([0, 1, 1, 2, 3]))) / abs(al))
        return dict(cls=cls, al=al, V=V, start=start), ts
    if cls == "lin":
        while True:
            t0 = Fr(int(rng.integers(-2, 4)), 2)
            T = t0 + Fr(int(rng.choice([1, 2, 4])))
            bmin, bmax = [Fr(int(rng.integers(0, 13)), 4) for _ in range(2)]
            c = dict(cls=cls, t0=t0, T=T, bmin=bmin, bmax=bmax, V=Fr(1))
            grid = [t0 + (T - t0) * Fr(k, 8) for k in range(9)]
            start = grid[int(rng.integers(0, 7))]
            ts = [t for t in grid if t >= start and clock(c, t, start).denominator == 1]
            if len(ts) >= 3 and (bmax != bmin or rng.random() < 0.2):
                if len(ts) > 3 and rng.random() < 0.5:
                    ts = [t for k, t in enumerate(ts) if k == 0 or rng.random() < 0.7 or k == len(ts) - 1]
                return dict(c, start=start), ts
    ka = Fr(int(rng.choice([1, -1, 2, 1])), int(rng.choice([1, 2])))
    al, V = ka * int(rng.choice([1, 2])), Fr(int(rng.integers(1, 5)), int(rng.choice([1, 2])))
    if ka < 0:
        al = -al * 2
    z = Fr(int(rng.integers(-2, 5)), 2)
    ks = [0, 1, 2, 3] if ka > 0 else [-2, -1, 0, 1]
    ts = sorted(z + Fr(k) / abs(ka) for k in ks)
    if rng.random() < 0.3:
        ts = ts[:2] + ts[1:]
    return dict(cls=cls, al=al, ka=ka, z=z, V=V, start=ts[0]), ts


def clock(c, t, s):
    if c["cls"] in ("const", "ou"):
        return c["al"] * (t - s)
    if c["cls"] == "lin":
        m = (t + s) / 2
        return (t - s) * (c["bmin"] + (c["bmax"] - c["bmin"]) * (m - c["t0"]) / (c["T"] - c["t0"]))
    e = lambda x: Fr(2) ** int(c["ka"] * (x - c["z"]))
    return c["al"] / c["ka"] * (e(t) - e(s))


def build(c, linear):
    """The code's SDE, its discretisation and the unit of its rates."""
    f = float
    if c["cls"] in ("const", "ou"):
        a, b = -LN2 * f(c["al"]), math.sqrt(2 * LN2 * f(c["al"] * c["V"]))
        if c["cls"] == "ou":
            d = linear.make_ou_sde(a, b)[0]
            return None, (lambda t, s: d(t - s)), LN2
        sde = linear.StationaryConstLinearSDE(a=a, b=b)
    elif c["cls"] == "lin":
        sde = linear.StationaryLinLinearSDE(beta_min=2 * LN2 * f(c["bmin"]), beta_max=2 * LN2 * f(c["bmax"]), t0=f(c["t0"]), T=f(c["T"]))
    else:
        a, b = -LN2 ** 2 * f(c["al"]), math.sqrt(2 * LN2 ** 2 * f(c["al"] * c["V"]))
        sde = linear.StationaryExpLinearSDE(a=a, b=b, c=f(c["ka"]) * LN2, z=f(c["z"]))
    return sde, linear.make_linear_sde(sde)[0], LN2 ** 2 if c["cls"] == "exp" else LN2


def header(c):
    return {k: (v if isinstance(v, str) else rat(v)) for k, v in c.items()}
