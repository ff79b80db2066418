"""Mathematical specification functions shared by the contracts."""
from pyvc import core
from pyvc.core import ite, sexp, slog, ssqrt, smin2, smax2, sabs

H = 'ctbayes.sdelib.hitting:'
P = 'ctbayes.sdelib.paths:'
L = 'ctbayes.sdelib.layers:'
TR = 'ctbayes.sdelib.transforms:'
MO = 'ctbayes.sdelib.moments:'
INT = 'ctbayes.sdelib.interpolators:'
MJ = 'ctbayes.mjplib.skeleton:'
INF_ = 'ctbayes.mjplib.inference:'
EK = 'ctbayes.ea3lib.skeleton:'
ES = 'ctbayes.ea3lib.seed:'
AR = 'ctbayes.misc.ars:'
AD = 'ctbayes.misc.adapt:'
BF = 'ctbayes.misc.bfactories:'
IS = 'ctbayes.ito.static:'
IM = 'ctbayes.ito.mcmc:'
IE = 'ctbayes.ito.mcem:'
SS = 'ctbayes.switching.static:'
SM = 'ctbayes.switching.mcmc:'
SE = 'ctbayes.switching.mcem:'
INF = float('inf')


def F_min(m, T, a, b):
    """P(minimum of a Brownian bridge a -> b over T lies below m)."""
    return ite(m < smin2(a, b), sexp(-2 * (a - m) * (b - m) / T), 1)
