import environment
from common import CONST, Params
from common.integrators import adams_bashforth_correction


def integrand(self, t, y):
    for particle in self.particles:
        particle.update()
    for interaction in self.interactions:
        interaction.initialize()
    for particle in [p for p in self.particles if p.collision_integrals]:
        particle.collision_integral = particle.integrate_collisions()
    mix(self)
    for particle in self.particles:
        particle.update_distribution()
    N = 0
    D = 0
    for particle in self.particles:
        N = N + particle.numerator()
        D = D + particle.denominator()
    rate = N / D
    if environment.get('LOGARITHMIC_TIMESTEP'):
        rate = rate * self.params.x
    self.fraction = rate
    return rate


def calculate_temperature_terms(self):
    return sum(p.numerator() for p in self.particles), sum(p.denominator() for p in self.particles)


def mix(self):
    if self.oscillations:
        self.oscillation_parameters()
        pattern, particles = self.oscillations
        if any(self.params.T < A.decoupling_temperature for A in particles):
            before = {A.flavour: A.collision_integral for A in particles}
            for A in particles:
                A.collision_integral = sum(pattern[(A.flavour, B.flavour)] * before[B.flavour] for B in particles)


def update_distributions(self):
    mix(self)
    for particle in self.particles:
        particle.update_distribution()


def oscillation_parameters(self):
    MSW_12 = 0.
    MSW_13 = 0.
    if self.oscillation_matter:
        V = CONST.MSW_constant * self.oscillation_particles[0].grid.TEMPLATE**2 * self.params.T**4 / self.params.a**2
        MSW_12 = V / CONST.delta_m12_sq
        MSW_13 = V / CONST.delta_m13_sq
        if not environment.get('NORMAL_HIERARCHY_NEUTRINOS'):
            MSW_13 = -MSW_13
    pattern = self.pattern_function(MSW_12, MSW_13, self.oscillation_matter)
    self.oscillations = (pattern, self.oscillation_particles)


def make_step(self):
    self.integrand(self.params.x, self.params.aT)
    if self.step_monitor:
        self.step_monitor(self)
    if environment.get('ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'):
        history = list(self.data['fraction'][-5:]) + [self.fraction]
        self.params.aT = self.params.aT + adams_bashforth_correction(fs=history, h=self.params.h)
    else:
        self.params.aT = self.params.aT + self.fraction * self.params.h
    self.params.x = self.params.x + self.params.dx
    self.params.update(total_energy_density(self), total_entropy(self))


def total_energy_density(self):
    return sum(p.energy_density for p in self.particles)


def total_entropy(self):
    return sum(p.entropy for p in self.particles)


def save_params(self):
    p = self.params
    self.data.append({'aT': p.aT, 'T': p.T, 'a': p.a, 'x': p.x, 'rho': p.rho, 'N_eff': p.N_eff, 't': p.t,
                      'fraction': self.fraction, 'S': p.S})


def save(self):
    self.save_params()
    if self.kawano and self.params.T <= self.kawano.T_kawano:
        rates = self.kawano.baryonic_rates(self.params.a)
        # T = aT / a: dT/dt = (d(aT)/dlna - aT) H / a
        slope = self.fraction if environment.get('LOGARITHMIC_TIMESTEP') else self.fraction * self.params.a * self.params.m
        T = self.params.T * self.params.a
        dTdt = (slope - T) * self.params.H / self.params.a
        c = self.kawano_data.columns
        row = {c[0]: self.params.t, c[1]: self.params.x, c[2]: self.params.T, c[3]: dTdt, c[4]: self.params.rho, c[5]: self.params.H}
        for i in range(6):
            row[c[6 + i]] = rates[i]
        self.kawano_data.append(row)
        if self.kawano_log:
            self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")


def QCD_transition(self, hadrons=None, quarkic_interactions=None, hadronic_interactions=None, secondary_interactions=None):
    self.data.truncate()
    g_before = Params.entropic_dof_eq(self)
    gone = ['Up quark', 'Down quark', 'Charm quark', 'Strange quark', 'Top quark', 'Bottom quark', 'Gluon']
    self.particles = [p for p in self.particles if p.name not in gone]
    self.add_particles(hadrons)
    g_after = Params.entropic_dof_eq(self)
    self.params.aT = self.data['aT'][-1] * (g_before / g_after)**(1. / 3.)
    self.params.update(total_energy_density(self), total_entropy(self))
    for particle in self.particles:
        particle.update()
    if quarkic_interactions and self.interactions:
        for inter in quarkic_interactions:
            self.interactions.remove(inter)
    if hadronic_interactions:
        self.interactions += hadronic_interactions
    if secondary_interactions:
        self.interactions += secondary_interactions


def evolve(self, T_final, export=True, init_time=True):
    if init_time:
        self.params.init_time(self.total_energy_density())
    if self.params.rho is None:
        self.params.update(self.total_energy_density(), self.total_entropy())
    self.save_params()
    while self.params.T > T_final:
        self.make_step()
        self.save()
        self.step += 1
    if export:
        self.export()
    return self.data
