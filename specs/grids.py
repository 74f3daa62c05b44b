import numpy
import environment
import common
from common import UNITS


def default_size(n, k):
    return (n if n else environment.get('MOMENTUM_SAMPLES')), (k if k else environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)


def seen(g):
    return g.MIN_MOMENTUM, g.MAX_MOMENTUM, g.BOUNDS, g.MOMENTUM_SAMPLES, g.TEMPLATE


def linear_code(n, k):
    return seen(common.LinearSpacedGrid(n, k))


def linear(n, k):
    n, k = default_size(n, k)
    return 0, k, (0, k), n, numpy.linspace(0, k, num=n, endpoint=True)


def log_code(n, k):
    return seen(common.LogSpacedGrid(n, k))


def log(n, k):
    n, k = default_size(n, k)
    return 0, k, (0, k), n, k * (1.2**numpy.arange(0, n, 1) - 1) / (1.2**(n - 1) - 1)


def default_grid():
    return seen(common.GRID)


def default_grid_required():
    return linear(None, None)


def theta(f):
    return 1. if f > 0 else (0.5 if f == 0 else 0.)


def theta_code(f):
    return common.theta(f)


def node(grid, x):
    return max(numpy.searchsorted(grid, x) - 1, 0)


def line(f, g, i, x):
    return f[i] + (f[i + 1] - f[i]) * (x - g[i]) / (g[i + 1] - g[i])


def linear_interpolation(f, g, x):
    j = numpy.searchsorted(g, x)
    if j >= len(g):
        return f[len(g) - 1]
    if x == g[j]:
        return f[j]
    return line(f, g, node(g, x), x)


def linear_interpolation_code(f, g, x):
    return common.linear_interpolation(f, g)(x)


def cubic_interpolation(f, g, x):
    """Catmull-Rom spline inside, straight line in the first and last interval"""
    j = numpy.searchsorted(g, x)
    if j >= len(g):
        return f[len(g) - 1]
    if x == g[j]:
        return f[j]
    i = node(g, x)
    if i == 0 or i == len(g) - 2:
        return line(f, g, i, x)
    u = (x - g[i]) / (g[i + 1] - g[i])
    m0, m1 = (f[i + 1] - f[i - 1]) / 2, (f[i + 2] - f[i]) / 2
    return (2 * u**3 - 3 * u**2 + 1) * f[i] + (u**3 - 2 * u**2 + u) * m0 + (3 * u**2 - 2 * u**3) * f[i + 1] + (u**3 - u**2) * m1


def cubic_interpolation_code(f, g, x):
    return common.cubic_interpolation(f, g)(x)


def binary_find(grid, x):
    t = grid.TEMPLATE
    if t[-1] < x:
        return grid.MOMENTUM_SAMPLES - 1, -1
    if t[0] > x:
        return -1, 0
    if x in t:
        pos = numpy.where(t == x)
        return pos, pos
    j = numpy.searchsorted(t, x, side='right')
    return j - 1, j


def energy_weight(p, f):
    return 1 / f - p.eta


def interp(p, k, m):
    if p.in_equilibrium:
        return 1 / (numpy.exp(p.conformal_energy(k, m) / p.aT) + p.eta)
    i, j = common.binary_find(p.grid, k)
    if i == -1:
        raise ValueError("Input momentum is too small for the given grid")
    E = p.conformal_energy(k, m)
    if j == -1:
        return p._distribution[-1] * numpy.exp((p.conformal_energy(p.grid.MAX_MOMENTUM, m) - E) / p.aT)
    if i == j:
        return p._distribution[i]
    w0, w1 = energy_weight(p, p._distribution[i]), energy_weight(p, p._distribution[j])
    if not w1 > 0 or not w0 > 0:
        return 0
    E0, E1 = p.conformal_energy(p.grid.TEMPLATE[i], m), p.conformal_energy(p.grid.TEMPLATE[j], m)
    g = 1 / (numpy.exp(((E - E0) * numpy.log(w1) + (E1 - E) * numpy.log(w0)) / (E1 - E0)) + p.eta)
    return g if numpy.isfinite(g) else 0
