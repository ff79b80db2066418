"""The models of the library as the contracts see them."""
from pyvc import core, npmodel as M

ITO = {'ou': 2, 'cir': 3}
SWI = {'ou': 2, 'ou2': 2, 'ou3': 2}


def ito(name): return 'ctbayes.ito.models.%s:' % name
def swi(name): return 'ctbayes.switching.models.%s:' % name


def ito_thi(v, name, nm='thi'):
    """An arbitrary parameter of an Ito model."""
    return v.vec(nm, ITO[name], lambda i, x: x > 0)


def swi_thi(v, name, nm='thi', n=None):
    """Arbitrary parameters of a switching model with any number of regimes."""
    n = v.dim('regimes', 1) if n is None else n
    return v.array(nm, (n, 2), lambda ij, x: x > 0), n


def regimes(v, name, k, n):
    """k regime indices below n."""
    return v.vec(name, k, lambda i, y: [y >= 0, y < n], sort='i')


# spec: drift, volatility on the transformed scale (written from the model definitions)
def drift(kind, name, th, x):
    if kind == 'ito':
        if name == 'ou': return -th[0] * x
        return (2 * th[0] * th[1] / (th[2] * th[2]) - core.Fraction(1, 2)) / x - th[0] / 2 * x
    if name in ('ou', 'ou2'): return -th[0] * x
    return -(th[0] * th[1]) * x


def vol(kind, name, th):
    if kind == 'ito': return 1
    return {'ou': lambda: 1 / th[1], 'ou2': lambda: th[0] / th[1], 'ou3': lambda: th[0]}[name]()


def ddrift(kind, name, th, x):
    if kind == 'ito':
        if name == 'ou': return -th[0]
        return -(2 * th[0] * th[1] / (th[2] * th[2]) - core.Fraction(1, 2)) / (x * x) - th[0] / 2
    if name in ('ou', 'ou2'): return -th[0]
    return -(th[0] * th[1])


def disc(kind, name, th, x):
    d, s = drift(kind, name, th, x), vol(kind, name, th)
    return (d * d / (s * s) + ddrift(kind, name, th, x)) / 2
