import numpy
import environment
from common import UNITS, CONST, Params, statistics as STATISTICS


def update(self, rho, S):
    T0, a0 = self.T, self.a
    if environment.get('LOGARITHMIC_TIMESTEP'):
        self.dx = self.x * self.dy
    self.rho = rho
    self.S = S
    self.H = numpy.sqrt(8. * numpy.pi / 3. * rho) / CONST.M_p
    rho_photon = 2 * numpy.pi**2 / 30. * T0**4
    rho_neutrino = 7. / 8. * 2 * numpy.pi**2 / 30. * (T0 / 1.401)**4
    self.N_eff = (rho - rho_photon) / rho_neutrino
    self.a = self.x / self.m
    self.T = self.aT / self.a
    self.t = self.t + (1 - a0 / self.a) / self.H


def infer(self):
    self.x = self.a * self.m
    self.aT = self.a * self.T
    if environment.get('LOGARITHMIC_TIMESTEP'):
        self.y = numpy.log(self.a)
        self.dx = self.a * self.m * self.dy
        self.h = self.dy
    else:
        self.dy = None
        self.h = self.dx


def init_time(self, rho):
    t = numpy.sqrt(3. / (32. * numpy.pi * rho)) * CONST.M_p
    self.t = t
    return t


def entropic_dof_eq(universe):
    return sum(p.dof * (7. / 8. if p.statistics == STATISTICS.FERMION else 1)
               for p in universe.particles
               if universe.params.T > p.mass and p.in_equilibrium)


def init(m, T, dy, dx, t, log):
    a = m / T
    return (a, a, m, T, a * m, a * T, t,
            numpy.log(a) if log else None,
            a * m * dy if log else dx,
            dy if log else None,
            dy if log else dx)


def started_code(given, T, dy, dx):
    try:
        if given == 'none':
            return Params(T=T).h
        if given == 'y':
            return Params(T=T, dy=dy).h
        if given == 'x':
            return Params(T=T, dx=dx).h
        return Params(T=T, dy=dy, dx=dx).h
    except Exception:
        return "refused"


def started(given, T, dy, dx):
    """a run needs the size of the step it is going to make"""
    log = environment.get('LOGARITHMIC_TIMESTEP')
    step = dy if log else dx
    if given in ('both', 'y' if log else 'x') and step:
        return step
    return "refused"
