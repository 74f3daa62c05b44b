"""Collision integrals of three and four particles: kernels, distribution
functional, kinematic region."""
import numpy
from numpy import sqrt, exp, log
from .cxxrt import indicator


# -- kernels: closed forms of the oscillating integrals ---------------------------------------
def moments(sines, brackets):
    """(4 / pi) fp int_0^inf dl / l^2 prod sin(q l) prod (q cos(q l) - sin(q l) / l),
    every factor written in exponentials"""
    qs = list(sines) + list(brackets)
    ns = len(sines)
    total = 0
    for c in range(2 ** len(qs)):
        s = [1 - 2 * (c // 2 ** j % 2) for j in range(len(qs))]
        a = 0
        for j in range(len(qs)):
            a = a + s[j] * qs[j]
        w = 1
        for j in range(ns):
            w = w * s[j]
        # coefficients of powers of 1 / l
        e = [1]
        for j in range(ns, len(qs)):
            e = [(qs[j] * e[k] if k < len(e) else 0) + (s[j] * e[k - 1] if k > 0 else 0) for k in range(len(e) + 1)]
        f = 1
        for m in range(len(e)):
            f = f * (m + 1)
            total = total + w * (-1) ** m * e[m] * abs(a) * a ** m / f
    return total / 8 * (1 if ns == 2 else -1)


def need_D1(q1, q2, q3, q4):
    return moments([q1, q2, q3, q4], [])


def need_D2(q1, q2, q3, q4):
    return moments([q1, q2], [q3, q4])


def need_D3(q1, q2, q3, q4):
    return moments([], [q1, q2, q3, q4])


def sgn(x):
    return indicator(x > 0) - indicator(x < 0)


def need_Db1(q2, q3, q4):
    """derivative of D1 in its first momentum at zero"""
    return (sgn(q2 + q3 - q4) + sgn(q2 - q3 + q4) - sgn(q2 - q3 - q4) - sgn(q2 + q3 + q4)) / 2


def need_Db2(q2, q3, q4):
    """derivative of D2 in its first momentum at zero"""
    total = 0
    for s2 in (1, -1):
        for s3 in (1, -1):
            for s4 in (1, -1):
                a = s2 * q2 + s3 * q3 + s4 * q4
                e = (q3 * q4, s3 * q4 + s4 * q3, s3 * s4)
                # d/dq1 of |a| a^m / (m + 1)!, even in the sign of q1
                total = total + s2 * (e[0] * sgn(a) - e[1] * abs(a) + e[2] * abs(a) * a / 2)
    return total / 4


def need_D(p, E, m, K1, K2, order, sides):
    i, j, k, l = order
    d1 = need_D1(p[0], p[1], p[2], p[3])
    d2 = sides[k] * sides[l] * need_D2(p[i], p[j], p[k], p[l])
    d2r = sides[i] * sides[j] * need_D2(p[k], p[l], p[i], p[j])
    d3 = sides[0] * sides[1] * sides[2] * sides[3] * need_D3(p[0], p[1], p[2], p[3])
    return K1 * (E[0] * E[1] * E[2] * E[3] * d1 + E[i] * E[j] * d2 + E[k] * E[l] * d2r + d3) \
        + K2 * m[i] * m[j] * (E[k] * E[l] * d1 + d2)


def need_Db(p, E, m, K1, K2, order, sides):
    """limit of D / (p0 E0) for a particle at rest"""
    i, j, k, l = order
    d1 = need_Db1(p[1], p[2], p[3])
    if i == 0 or j == 0:
        o = i + j
        d2 = sides[k] * sides[l] * need_Db2(p[o], p[k], p[l])
        return K1 * (E[1] * E[2] * E[3] * d1 + E[o] * d2) + (K2 * m[o] * (E[k] * E[l] * d1 + d2) if m[0] != 0 else 0)
    o = k + l
    d2 = sides[i] * sides[j] * need_Db2(p[o], p[i], p[j])
    return K1 * (E[1] * E[2] * E[3] * d1 + E[o] * d2) + K2 * m[i] * m[j] * E[o] * d1


# -- distribution functional -------------------------------------------------------------------
def eta(particle):
    return particle.eta


def forward(reaction, f, skip):
    r = 1
    for n in range(len(reaction)):
        if n != skip:
            r = r * (f[n] if reaction[n].side == -1 else 1 - reaction[n].specie.eta * f[n])
    return r


def backward(reaction, f, skip):
    r = 1
    for n in range(len(reaction)):
        if n != skip:
            r = r * (f[n] if reaction[n].side == 1 else 1 - reaction[n].specie.eta * f[n])
    return r


FULL, F_1, F_F, FULL_VACUUM, F_1_VACUUM, F_F_VACUUM, F_CREATION, F_DECAY = range(8)


def functional(kind, reaction, f):
    n = len(reaction) - 1
    for x in range(n + 1):
        if f[x] < 0 and (x != 0 or kind == F_CREATION) and kind not in (F_1_VACUUM, F_F_VACUUM, FULL_VACUUM):
            raise RuntimeError()
    gain, loss = backward(reaction, f, 0), forward(reaction, f, 0)
    if kind == F_CREATION:
        return backward(reaction, f, -1)
    if kind == F_DECAY:
        return -loss
    if kind == F_1_VACUUM:
        return f[n]
    if kind == F_F_VACUUM:
        return -1
    if kind == FULL_VACUUM:
        return f[n] - f[0]
    if kind == F_1:
        return gain
    if kind == F_F:
        return -loss - reaction[0].specie.eta * gain
    return gain * (1 - reaction[0].specie.eta * f[0]) - loss * f[0]


def energy(p, m):
    return sqrt(p ** 2 + m ** 2)


def need_interpolation(grid, distribution, p, m, eta, T, in_equilibrium):
    """Fermi or Bose distribution; off equilibrium, the exponent is linear in energy
    between neighbouring nodes, and beyond the grid the tail is thermal"""
    if in_equilibrium:
        return 1 / (exp(energy(p, m) / T) + eta)
    n = len(grid)
    if p < grid[0]:
        raise RuntimeError()
    if p > grid[n - 1]:
        return distribution[n - 1] * exp((energy(grid[n - 1], m) - energy(p, m)) / T)
    for k in range(n):
        if p == grid[k]:
            return distribution[k]
    for k in range(n - 1):
        if grid[k] < p and p < grid[k + 1]:
            x, y = 1 / distribution[k] - eta, 1 / distribution[k + 1] - eta
            if not (x > 0) or not (y > 0):
                return 0
            e, a, b = energy(p, m), energy(grid[k], m), energy(grid[k + 1], m)
            return 1 / (exp((log(x) * (b - e) + log(y) * (e - a)) / (b - a)) + eta)


def occupation(specie, p):
    return need_interpolation(specie.grid.grid, specie.grid.distribution, p, specie.m, specie.eta, specie.T, specie.in_equilibrium != 0)


# -- integrands ----------------------------------------------------------------------------------
def triangle(q):
    """some orientation of the momenta adds up to zero"""
    total = 0
    for x in q:
        total = total + x
    for x in q:
        if 2 * x > total:
            return False
    return True


def integrand_4p(p0, p1, p2, reaction, Ms, kind):
    ms = [r.specie.m for r in reaction]
    ss = [r.side for r in reaction]
    ps = [p0, p1, p2]
    es = [energy(ps[n], ms[n]) for n in range(3)]
    e3 = -ss[3] * (ss[0] * es[0] + ss[1] * es[1] + ss[2] * es[2])
    if e3 < ms[3]:
        return 0
    ps = ps + [sqrt(e3 ** 2 - ms[3] ** 2)]
    es = es + [e3]
    if not triangle(ps):
        return 0
    measure = 1
    for n in (1, 2):
        if ms[n] != 0:
            measure = measure * ps[n] / es[n]
    if Ms[0].K != 0:
        d = Ms[0].K
    else:
        d = 0
        for M in Ms:
            if p0 != 0:
                d = d + need_D(ps, es, ms, M.K1, M.K2, M.order, ss) / (p0 * es[0])
            else:
                d = d + need_Db(ps, es, ms, M.K1, M.K2, M.order, ss)
    f = [occupation(reaction[n].specie, ps[n]) for n in range(4)]
    return measure * d * functional(kind, reaction, f)


def root(x):
    """the momentum at total energy x over a mass, if there is one"""
    return sqrt(x)


def two_body(p0, p1, ms):
    """momentum of the second particle at the ends of the region where the first one is
    at rest: total energy, total momentum and invariant mass are fixed"""
    e = ms[0] + energy(p1, ms[1])
    s = e ** 2 - p1 ** 2
    along = p1 * (s + ms[2] ** 2 - ms[3] ** 2)
    across = e * sqrt((s - ms[2] ** 2 - ms[3] ** 2) ** 2 - 4 * ms[2] ** 2 * ms[3] ** 2)
    return (across - along) / (2 * s), (across + along) / (2 * s)


def larger(x, y):
    return x if x > y else y


def scattering_limits(p0, p1, ms):
    if p0 != 0:
        return 0, sqrt((energy(p0, ms[0]) + energy(p1, ms[1]) - ms[3]) ** 2 - ms[2] ** 2)
    if ms[0] != 0:
        if ms[0] + ms[1] > ms[2] + ms[3]:
            lo, hi = two_body(p0, p1, ms)
            return larger(lo, 0), larger(hi, 0)
        return 0, sqrt((ms[0] + energy(p1, ms[1]) - ms[3]) ** 2 - ms[2] ** 2)
    if ms[1] != 0:
        b = p1 * (ms[1] ** 2 + ms[2] ** 2 - ms[3] ** 2)
        t = (p1 ** 2 + ms[1] ** 2) * ((ms[1] ** 2 - ms[2] ** 2 - ms[3] ** 2) ** 2 - 4 * ms[2] ** 2 * ms[3] ** 2)
        t = sqrt(t) if t > 0 else 0
        return abs(t - b) / (2 * ms[1] ** 2), (t + b) / (2 * ms[1] ** 2)
    return 0, p1


def need_integration(ps, min_1, max_1, min_2, max_2, max_3, reaction, Ms, stepsize, kind):
    return [collision_4p(p, min_1, max_1, max_3, reaction, Ms, kind) for p in ps]


def collision_4p(p0, min_1, max_1, max_3, reaction, Ms, kind):
    ms = [r.specie.m for r in reaction]
    n = 0
    for r in reaction:
        n = n + r.side
    e0 = energy(p0, ms[0])
    if n == 2:
        def limits(p1):
            return 0, sqrt((e0 - energy(p1, ms[1]) - ms[3]) ** 2 - ms[2] ** 2)
        lo, hi = min_1, sqrt((e0 - ms[2] - ms[3]) ** 2 - ms[1] ** 2)
    elif n == 0:
        def limits(p1):
            return scattering_limits(p0, p1, ms)
        # enough energy for the products
        short = ms[2] + ms[3] - e0
        lo = sqrt(short ** 2 - ms[1] ** 2) if short > ms[1] else 0
        hi = larger(max_1, 3 * lo)
    else:
        if ms[3] == 0:
            return 0
        top = energy(max_3, ms[3])

        def limits(p1):
            rest = top - e0 - energy(p1, ms[1])
            if rest <= ms[2]:
                return None
            short = ms[3] - e0 - energy(p1, ms[1])
            return (sqrt(short ** 2 - ms[2] ** 2) if short > ms[2] else 0), sqrt(rest ** 2 - ms[2] ** 2)
        rest = top - ms[2] - e0
        if rest <= ms[1]:
            return 0
        lo, hi = 0, sqrt(rest ** 2 - ms[1] ** 2)

    def over_p1(p1):
        at = limits(p1)
        if at is None:
            return 0
        return quadrature(lambda p2: integrand_4p(p0, p1, p2, reaction, Ms, kind), at[0], at[1])
    return quadrature(over_p1, lo, hi)


def quadrature(f, lo, hi):
    """definite integral"""


# -- three particles --------------------------------------------------------------------------------
def rest_momentum(M, a, b):
    return sqrt((M ** 2 - a ** 2 - b ** 2) ** 2 - 4 * a ** 2 * b ** 2) / (2 * M)


def integrand_3p(p0, p1, reaction, kind):
    ms = [r.specie.m for r in reaction]
    ss = [r.side for r in reaction]
    e0, e1 = energy(p0, ms[0]), energy(p1, ms[1])
    e2 = -ss[2] * (ss[0] * e0 + ss[1] * e1)
    if e2 < ms[2]:
        return 0
    ps = [p0, p1, sqrt(e2 ** 2 - ms[2] ** 2)]
    if p0 == 0:
        measure = p1
    else:
        # twice the step function of the triangle
        measure = sgn(ps[0] + ps[1] - ps[2]) + sgn(ps[0] - ps[1] + ps[2]) + sgn(ps[1] + ps[2] - ps[0]) - sgn(ps[0] + ps[1] + ps[2])
        if ms[1] != 0:
            measure = measure * p1 / e1
        measure = measure / (p0 * e0)
    f = [occupation(reaction[n].specie, ps[n]) for n in range(3)]
    return measure * functional(kind, reaction, f)


def need_integration_3(ps, min_1, max_1, max_2, reaction, stepsize, kind):
    return [collision_3p(p, max_2, reaction, kind) for p in ps]


def collision_3p(p0, max_2, reaction, kind):
    ms = [r.specie.m for r in reaction]
    n = 0
    for r in reaction:
        n = n + r.side
    e0 = energy(p0, ms[0])
    if p0 == 0:
        return integrand_3p(p0, rest_momentum(ms[0], ms[1], ms[2]) if ms[0] != 0 else 0, reaction, kind)
    if n == 1:
        lo, hi = boosted(p0, ms)
    else:
        top = energy(max_2, ms[2]) - e0
        if top <= ms[1]:
            return 0
        hi = sqrt(top ** 2 - ms[1] ** 2)
        if ms[0] == 0:
            d = ms[2] ** 2 - ms[1] ** 2
            lo = abs(4 * p0 ** 2 * ms[1] ** 2 - d ** 2) / (4 * p0 * abs(d))
        else:
            lo, far = absorbed(p0, ms)
            hi = far if far < hi else hi
        if lo >= hi:
            return 0
    return quadrature(lambda p1: integrand_3p(p0, p1, reaction, kind), lo, hi)


def boosted(p0, ms):
    """momenta of a product of the decay of a moving particle"""
    along = p0 * (ms[0] ** 2 + ms[1] ** 2 - ms[2] ** 2)
    across = energy(p0, ms[0]) * 2 * ms[0] * rest_momentum(ms[0], ms[1], ms[2])
    return abs(across - along) / (2 * ms[0] ** 2), (across + along) / (2 * ms[0] ** 2)


def absorbed(p0, ms):
    """momenta of the partner with which a moving particle makes the heavy one"""
    along = p0 * (ms[2] ** 2 - ms[0] ** 2 - ms[1] ** 2)
    t = (p0 ** 2 + ms[0] ** 2) * ((ms[2] ** 2 - ms[0] ** 2 - ms[1] ** 2) ** 2 - 4 * ms[0] ** 2 * ms[1] ** 2)
    across = sqrt(t) if t > 0 else 0
    return abs(across - along) / (2 * ms[0] ** 2), (across + along) / (2 * ms[0] ** 2)


# -- the compiled modules, as they are called --------------------------------------------------------
def code(name, args):
    import cxx4
    return getattr(cxx4, 'exported_' + name)(*args)


def code3(name, args):
    import cxx3
    return getattr(cxx3, 'exported_' + name)(*args)


class Record(object):
    def __init__(self, **fields):
        for k, v in fields.items():
            setattr(self, k, v)


def need_reaction(rows):
    return [Record(specie=Record(eta=e, m=m, grid=Record(grid=g, distribution=d), in_equilibrium=q, T=T), side=s) for (e, m, g, d, q, T, s) in rows]


def bound(module, name, **kw):
    """the exported record, built with keyword arguments"""


def code_reaction(rows):
    return [bound(4, 'reaction_t', side=s, specie=bound(4, 'particle_t', m=m, grid=bound(4, 'grid_t', grid=g, distribution=d), eta=e, in_equilibrium=q, T=T))
            for (e, m, g, d, q, T, s) in rows]


def code_reaction3(rows):
    return [bound(3, 'reaction_t3', side=s, specie=bound(3, 'particle_t3', m=m, grid=bound(3, 'grid_t3', grid=g, distribution=d), eta=e, in_equilibrium=q, T=T))
            for (e, m, g, d, q, T, s) in rows]


def code_4p(ps, bounds, rows, Ms, stepsize, kind):
    import cxx4
    lo1, hi1, lo2, hi2, hi3 = bounds
    return cxx4.exported_integration(ps, lo1, hi1, lo2, hi2, hi3, code_reaction(rows), [bound(4, 'M_t', order=o, K1=a, K2=b, K=c) for (o, a, b, c) in Ms], stepsize, kind)


def need_4p(ps, bounds, rows, Ms, stepsize, kind):
    lo1, hi1, lo2, hi2, hi3 = bounds
    return need_integration(ps, lo1, hi1, lo2, hi2, hi3, need_reaction(rows), [Record(order=o, K1=a, K2=b, K=c) for (o, a, b, c) in Ms], stepsize, kind)


def code_3p(ps, bounds, rows, stepsize, kind):
    import cxx3
    lo1, hi1, hi2 = bounds
    return cxx3.exported_integration_3(ps, lo1, hi1, hi2, code_reaction3(rows), stepsize, kind)


def need_3p(ps, bounds, rows, stepsize, kind):
    lo1, hi1, hi2 = bounds
    return need_integration_3(ps, lo1, hi1, hi2, need_reaction(rows), stepsize, kind)


def need_binary_find(grid, x):
    """neighbouring nodes around x: the node twice where x is on it, -1 beyond the grid"""
    n = len(grid)
    if x < grid[0]:
        return (-1, 0)
    if x > grid[n - 1]:
        return (n - 1, -1)
    for k in range(n):
        if x == grid[k]:
            return (k, k)
    for k in range(n - 1):
        if grid[k] < x and x < grid[k + 1]:
            return (k, k + 1)
