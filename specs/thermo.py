import numpy
import environment
from scipy.integrate import simps
from common import statistics as STATISTICS
from common import integrators, linear_interpolation
from common.integrators import gauss_laguerre
from particles import REGIMES, RadiationParticle, DustParticle, IntermediateParticle, NonEqParticle


def g(p):
    return p.dof


# ---- ultra-relativistic ------------------------------------------------------
def radiation_density(p):
    k = 3. / 4. if p.statistics == STATISTICS.FERMION else 1.
    return k * 1.2 / numpy.pi**2 * p.dof * p.T**3


def radiation_energy_density(p):
    k = 7. / 8. if p.statistics == STATISTICS.FERMION else 1.
    return k * numpy.pi**2 / 30. * p.dof * p.T**4


def radiation_pressure(p):
    return radiation_energy_density(p) / 3.


def radiation_entropy(p):
    return (radiation_energy_density(p) + radiation_pressure(p)) / p.params.T


def radiation_numerator(p):
    return 0.


def radiation_denominator(p):
    k = 7. / 8. if p.statistics == STATISTICS.FERMION else 1.
    return k * 2 * numpy.pi**2 / 15. * p.dof * p.aT**3


# ---- non-relativistic ----------------------------------------------------------
def dust_density(p):
    return p.dof * (p.mass * p.T / (2 * numpy.pi))**(3. / 2.) * numpy.exp(-p.mass / p.T)


def dust_energy_density(p):
    return dust_density(p) * (p.mass + 3. / 2. * p.T)


def dust_pressure(p):
    return dust_density(p) * p.T


def dust_entropy(p):
    return (5. / 2. + p.mass / p.params.T) * dust_density(p)


# ---- Fermi-Dirac / Bose-Einstein integrals ----------------------------------------
def occupation(p, k):
    E = numpy.sqrt(k**2 + p.mass**2)
    return 1. / (numpy.exp(E / p.T) + (1. if p.statistics == STATISTICS.FERMION else -1.))


def intermediate_density(p):
    return integrators.integrate_1D(
        lambda k: p.dof / (2 * numpy.pi**2) * k**2 * occupation(p, k), (0, 20 * p.T))[0]


def intermediate_energy_density(p):
    return integrators.integrate_1D(
        lambda k: p.dof / (2 * numpy.pi**2) * k**2 * numpy.sqrt(k**2 + p.mass**2) * occupation(p, k), (0, 20 * p.T))[0]


def intermediate_pressure(p):
    return integrators.integrate_1D(
        lambda k: p.dof / (6 * numpy.pi**2) * k**4 / numpy.sqrt(k**2 + p.mass**2) * occupation(p, k), (0, 20 * p.T))[0]


def intermediate_entropy(p):
    return (intermediate_energy_density(p) + intermediate_pressure(p)) / p.params.T


def moment(p, n):
    """ g/2pi^2 int dy y^n e^(E/aT) / (e^(E/aT) + eta)^2 """
    aT, M = p.params.aT, p.mass * p.params.a
    eta = 1. if p.statistics == STATISTICS.FERMION else -1.
    if environment.get('LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES'):
        # E = aT (eps + r), r = M/aT: y = aT sqrt(eps (eps + 2 r)), y dy = aT^2 (eps + r) d eps
        r = M / aT
        return p.dof / (2 * numpy.pi**2) * aT**(n + 1) * numpy.exp(-r) * gauss_laguerre.integrate_1D(
            lambda eps: (eps + r) * (eps * (eps + 2 * r))**((n - 1) / 2.) / (numpy.exp(-(eps + r)) + eta)**2)[0]
    return p.dof / (2 * numpy.pi**2) * integrators.integrate_1D(
        lambda y: y**n * numpy.exp(numpy.sqrt(y**2 + M**2) / aT)
        / (numpy.exp(numpy.sqrt(y**2 + M**2) / aT) + eta)**2,
        (p.grid.MIN_MOMENTUM, p.grid.MAX_MOMENTUM))[0]


def intermediate_numerator(p):
    return p.mass**2 * p.params.x / p.params.m**2 / p.params.aT * moment(p, 2)


def intermediate_denominator(p):
    return (moment(p, 4) + (p.mass * p.params.a)**2 * moment(p, 2)) / p.params.aT**2


dust_numerator = intermediate_numerator
dust_denominator = intermediate_denominator


# ---- sampled distributions -----------------------------------------------------------
def energy(p, y):
    return numpy.sqrt(y**2 + (p.mass * p.params.a)**2)


def integrate(p, f):
    if environment.get('SIMPSONS_NONEQ_PARTICLES'):
        return simps(f(p.grid.TEMPLATE), p.grid.TEMPLATE)
    return integrators.integrate_1D(f, p.grid.BOUNDS)[0]


def noneq_density(p):
    return integrate(p, lambda y: p.dof / (2 * numpy.pi**2) / p.params.a**3 * y**2 * p.distribution(y))


def noneq_energy_density(p):
    return integrate(p, lambda y: p.dof / (2 * numpy.pi**2) / p.params.a**4 * y**2 * energy(p, y) * p.distribution(y))


def noneq_pressure(p):
    return integrate(p, lambda y: p.dof / (6 * numpy.pi**2) / p.params.a**4 * y**4 / energy(p, y) * p.distribution(y))


def noneq_entropy(p):
    eta = 1. if p.statistics == STATISTICS.FERMION else -1.

    def s(y):
        f = p.distribution(y)
        if f > 0:
            return (-p.dof / (2 * numpy.pi**2) / p.params.a**3 * y**2
                    * (f * numpy.log(f) + eta * (1 - eta * f) * numpy.log(1 - eta * f)))
        return 0.
    return integrate(p, s)


def noneq_denominator(p):
    return 0.


def noneq_numerator_simps(p):
    y = p.grid.TEMPLATE
    return simps(-p.dof / (2 * numpy.pi**2) * y**2 * energy(p, y) * p.collision_integral / p.params.x, y)


def noneq_numerator_gauss(p):
    I = linear_interpolation(p.collision_integral / p.params.x, p.grid.TEMPLATE)
    return integrators.integrate_1D(lambda y: -p.dof / (2 * numpy.pi**2) * y**2 * energy(p, y) * I(y), p.grid.BOUNDS)[0]


def noneq_numerator(p):
    if environment.get('SIMPSONS_NONEQ_PARTICLES'):
        return noneq_numerator_simps(p)
    return noneq_numerator_gauss(p)


# ---- regime and energies ----------------------------------------------------------------
def in_equilibrium(self):
    if self.thermal_dyn:
        return self.T > self.decoupling_temperature
    return False


def regime(self):
    factor = environment.get('REGIME_SWITCHING_FACTOR')
    if not (self.thermal_dyn and self.T > self.decoupling_temperature):
        return REGIMES.NONEQ
    if self.T > self.mass * factor:
        return REGIMES.RADIATION
    if self.T * factor < self.mass:
        return REGIMES.DUST
    return REGIMES.INTERMEDIATE


def particle_energy(self, p):
    return numpy.sqrt(p**2 + self.mass**2)


def conformal_energy(self, y, conformal_mass=None):
    M = self.mass * self.params.a if conformal_mass is None else conformal_mass
    if self.mass > 0:
        return numpy.sqrt(y**2 + M**2)
    return numpy.absolute(y)


def conformal_mass(self):
    return self.mass * self.params.a


def fermi(e, mu=0):
    return 1. / (numpy.exp(e - mu) + 1.)


def bose(e, mu=0):
    return 1. / (numpy.exp(e - mu) - 1.)


def regime_module(p):
    k = environment.get('REGIME_SWITCHING_FACTOR')
    if not in_equilibrium(p):
        return NonEqParticle
    if p.T > p.mass * k:
        return RadiationParticle
    if p.T * k < p.mass:
        return DustParticle
    return IntermediateParticle
