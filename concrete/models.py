"""The library's models with their mathematical specification."""
import importlib
import numpy as np

ITO = ['ou', 'cir']
SWI = ['ou', 'ou2', 'ou3']


def ito(n): return importlib.import_module('ctbayes.ito.models.' + n)
def swi(n): return importlib.import_module('ctbayes.switching.models.' + n)


def pick(t):
    kind = 'ito' if t.rng.integers(2) else 'switching'
    return kind, str(t.rng.choice(ITO if kind == 'ito' else SWI))


def thi_ito(t, n):
    if n == 'ou': return t.rng.lognormal(0, .7, 2)
    # cir: all regimes of the shape parameter
    b, s = t.rng.lognormal(0, .5), t.rng.lognormal(0, .4)
    k = float(t.rng.choice([t.rng.uniform(.1, .9), t.rng.uniform(1.05, 2.9), t.rng.uniform(3.1, 8)]))   # 4 b mu / s^2
    return np.array([b, k * s * s / (4 * b), s])


def thi_swi(t, n, k): return t.rng.lognormal(0, .7, (k, 2))


def drift(kind, n, th, x):
    if kind == 'ito':
        if n == 'ou': return -th[0] * x
        return (2 * th[0] * th[1] / th[2] ** 2 - .5) / x - th[0] / 2 * x
    return -th[0] * x if n != 'ou3' else -th[0] * th[1] * x


def ddrift(kind, n, th, x):
    if kind == 'ito':
        if n == 'ou': return -th[0] + 0 * x
        return -(2 * th[0] * th[1] / th[2] ** 2 - .5) / x ** 2 - th[0] / 2
    return (-th[0] if n != 'ou3' else -th[0] * th[1]) + 0 * x


def sdrift(kind, n, th, x):
    if kind == 'ito':
        if n == 'ou': return -th[0] * x ** 2 / 2
        return (2 * th[0] * th[1] / th[2] ** 2 - .5) * np.log(x) - th[0] / 4 * x ** 2
    return (-th[0] if n != 'ou3' else -th[0] * th[1]) * x ** 2 / 2


def vol(kind, n, th):
    if kind == 'ito': return 1.0
    return {'ou': 1 / th[1], 'ou2': th[0] / th[1], 'ou3': th[0]}[n]


def disc(kind, n, th, x): return (drift(kind, n, th, x) ** 2 / vol(kind, n, th) ** 2 + ddrift(kind, n, th, x)) / 2


def reduce(kind, n, th, v):
    if kind == 'ito': return v / th[1] if n == 'ou' else 2 * np.sqrt(v) / th[2]
    return v


def dv_reduce(kind, n, th, v):
    if kind == 'ito': return 1 / th[1] + 0 * v if n == 'ou' else 1 / (np.sqrt(v) * th[2])
    return 1.0 + 0 * v


def obs(t, kind, n, k):
    return t.rng.lognormal(0, .6, k) if n == 'cir' else t.rng.normal(0, 1.5, k)
