import numpy
import particles
from common import kinematics, statistics as STATISTICS
from specs import thermo
from common.integrators import adams_moulton_solver
from interactions.four_particle.cpp.integral import distribution_interpolation, CollisionIntegralKind


def zeros(self):
    return numpy.zeros(self.grid.MOMENTUM_SAMPLES)


def coupled(self):
    return self.thermal_dyn and self.T > self.decoupling_temperature


def thermal(self, aT, conf_mass=None):
    if not self.thermal_dyn:
        return zeros(self)
    return self.equilibrium_distribution_function(self.conformal_energy(self.grid.TEMPLATE, conf_mass) / aT)


def init_distribution(self, conf_mass=None):
    self._distribution = thermal(self, self.aT, conf_mass)
    return self._distribution


def equilibrium_distribution(self, y=None, aT=None, conf_mass=None):
    T = self.aT if aT is None else aT
    k = self.grid.TEMPLATE if y is None else y
    return self.equilibrium_distribution_function(self.conformal_energy(k, conf_mass) / T)


def set_grid(self, grid):
    self.grid = grid
    self._distribution = numpy.zeros(grid.MOMENTUM_SAMPLES)
    self.collision_integral = numpy.zeros(grid.MOMENTUM_SAMPLES)


def set_params(self, params):
    self.params = params
    self.T = params.T
    self.aT = params.aT
    self.t_decoupling = 0
    if not self.thermal_dyn and self.decoupling_temperature == 0:
        self.decoupling_temperature = params.T
    if hasattr(self, 'fast_decay'):
        self.num_creation = 0
    self._distribution = thermal(self, params.aT)
    self.data['distribution'].append(self._distribution)
    self.populate_methods()
    self.update()


def update(self, force_print=False):
    was = coupled(self)
    self.oldeq = was
    if was or (not self.thermal_dyn and self.Q != 0):
        self._distribution = thermal(self, self.aT)
        self.aT = self.params.aT
    self.T = self.aT / self.params.a
    if was and not coupled(self):
        self.t_decoupling = self.params.t
        self._distribution = thermal(self, self.aT)
    self.collision_integral = zeros(self)
    self.populate_methods()
    self.data['params'].append({
        'a': self.params.a,
        't': self.params.t,
        'T': self.params.T,
        'density': self.density,
        'energy_density': self.energy_density
    })


def populate_methods(self):
    r = self.regime
    return (r.density(self), r.energy_density(self), r.pressure(self), r.entropy(self), r.numerator(self), r.denominator(self))


def distribution(self, p):
    if coupled(self):
        return 1. / (numpy.exp(self.conformal_energy(p, self.mass * self.params.a) / self.aT) + self.eta)
    return distribution_interpolation(
        self.grid.TEMPLATE, self._distribution, p,
        self.mass * self.aT / self.decoupling_temperature,
        int(self.eta), self.aT, self.in_equilibrium)


def update_distribution(self):
    if coupled(self):
        return
    I = self.collision_integral
    if not numpy.all(numpy.isfinite(I)):
        I = numpy.where(numpy.isnan(I), 0., I)
        self.collision_integral = I
    if not hasattr(self, 'fast_decay'):
        self.old_distribution = self._distribution
        f = self._distribution + I * self.params.h
    else:
        if self.t_decoupling == 0:
            self.t_decoupling = self.data['params']['t'][1]
        if self.thermal_dyn:
            f = self.equilibrium_distribution_function(
                self.conformal_energy(self.grid.TEMPLATE, self.mass * self.aT / self.decoupling_temperature) / self.aT)
            f = f * numpy.exp((self.t_decoupling - self.params.t) / self.lifetime)
        else:
            f = zeros(self)
    self._distribution = numpy.maximum(f, 0)
    self.collision_integrals = []
    self.data['collision_integral'].append(self.collision_integral)
    self.data['distribution'].append(self._distribution)


FULL = [CollisionIntegralKind.Full, CollisionIntegralKind.Full_vacuum_decay]
LOSS = [CollisionIntegralKind.F_f_vacuum_decay, CollisionIntegralKind.F_decay]


def calculate_collision_integral(self, ps):
    if not self.collision_integrals or self.decayed:
        return numpy.zeros(len(ps))
    if kinematics.has_decayed(self, ps):
        return numpy.zeros(len(ps))
    if hasattr(self, 'fast_decay'):
        return kinematics.Icoll_fast_decay(self, ps)
    h = self.params.h
    total = 0
    slope = 0
    for integral in self.collision_integrals:
        r = integral.integrate(ps, stepsize=h)
        if integral.kind in FULL:
            total = total + r[0]
            slope = slope + r[1]
        else:
            total = total + r
            if integral.kind in LOSS:
                slope = slope + r
    f = self.distribution(ps)
    history = list(self.data['collision_integral'][-5:])
    new = adams_moulton_solver(y=f, fs=history, A=total - slope * f, B=slope, h=h)
    return (new - f) / h


def methods_of_regime_code(p):
    p.populate_methods()
    return (p.density, p.energy_density, p.pressure, p.entropy, p.numerator(), p.denominator())


def methods_of_regime(p):
    m = thermo.regime_module(p)
    return (m.density(p), m.energy_density(p), m.pressure(p), m.entropy(p), m.numerator(p), m.denominator(p))


def constructed(mass, Td, dof, stat, grid, thermal):
    p = particles.Particle(mass=mass, decoupling_temperature=Td, dof=dof, statistics=stat, grid=grid, thermal_dyn=thermal,
                           name='x', symbol='y', Q=7)
    return (p.mass, p.decoupling_temperature, p.dof, p.statistics, p.grid, p.thermal_dyn, p.name, p.symbol, p.Q, p.eta,
            p.equilibrium_distribution_function, p._distribution, p.collision_integral, p.collision_integrals, p.decayed,
            p.params)


def constructed_required(mass, Td, dof, stat, grid, thermal):
    z = numpy.zeros(grid.MOMENTUM_SAMPLES)
    return (mass, Td, dof, stat, grid, thermal, 'x', 'y', 7, 1. if stat == STATISTICS.FERMION else -1.,
            stat, z, z, [], False, None)


def defaults():
    p = particles.Particle()
    return (p.mass, p.decoupling_temperature, p.dof, p.statistics, p.thermal_dyn, p.params)


def defaults_required():
    return (0, 0, 2, STATISTICS.FERMION, True, None)


def integrate_collisions(self):
    return calculate_collision_integral(self, self.grid.TEMPLATE)
