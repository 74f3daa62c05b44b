#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo; every check has to stay quiet on them.
usage: refactors.py [name..]   (scratch copies under /tmp, removed afterwards)"""
import warnings
warnings.simplefilter('ignore')
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
R = {}


def r(name, *edits):
    R[name] = edits


EV, PA = 'evolution.py', 'particles/__init__.py'
r('ev_loop_sum', (EV, "        return sum(particle.energy_density for particle in self.particles)",
   "        total = 0\n        for particle in self.particles:\n            total += particle.energy_density\n        return total"))
r('ev_terms_generator', (EV, """        numerator = 0
        denominator = 0

        for particle in self.particles:
            numerator += particle.numerator()
            denominator += particle.denominator()

        return numerator, denominator""", """        species = self.particles
        return (sum(p.numerator() for p in species), sum([p.denominator() for p in species]))"""))
r('ev_fraction_helper', (EV, """        if environment.get('LOGARITHMIC_TIMESTEP'):
            self.fraction = self.params.x * numerator / denominator
        else:
            self.fraction = numerator / denominator

        return self.fraction""", """        self.fraction = self._rate(numerator / denominator)
        return self.fraction

    def _rate(self, ratio):
        if not environment.get('LOGARITHMIC_TIMESTEP'):
            return ratio
        return ratio * self.params.x"""))
r('ev_step_reordered', (EV, """        if environment.get('ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'):
            fs = (list(self.data['fraction'][-MAX_ADAMS_BASHFORTH_ORDER:]) + [self.fraction])

            self.params.aT += adams_bashforth_correction(fs=fs, h=self.params.h)
        else:
            self.params.aT += self.fraction * self.params.h

        self.params.x += self.params.dx
""", """        params = self.params
        if not environment.get('ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'):
            change = params.h * self.fraction
        else:
            history = list(self.data['fraction'][-MAX_ADAMS_BASHFORTH_ORDER:])
            history.append(self.fraction)
            change = adams_bashforth_correction(history, params.h)

        params.x = params.x + params.dx
        params.aT = params.aT + change
"""))
r('ev_dump_helper', (EV, """                    with open(os.path.join(self.folder, "evolution.txt"), "wb") as f:
                        self.data.savetxt(f)
                    if self.kawano:
                        with open(os.path.join(self.folder, "kawano.txt"), "wb") as f:
                            self.kawano_data.savetxt(f)
""", """                    self._dump(self.data, "evolution")
                    if self.kawano:
                        self._dump(self.kawano_data, "kawano")
"""), (EV, """    def make_step(self):
""", """    def _dump(self, table, name):
        path = os.path.join(self.folder, name + ".txt")
        with open(path, "wb") as out:
            table.savetxt(out)

    def make_step(self):
"""), (EV, """            with open(os.path.join(self.folder, "evolution.txt"), "wb") as f:
                self.data.savetxt(f)

""", """            self._dump(self.data, "evolution")

"""), (EV, """        if self.folder:
            if self.kawano:

                self.kawano_log.close()""", """        if not self.folder:
            return
        if True:
            if self.kawano:

                self.kawano_log.close()"""))
r('ev_init_order', (EV, """        self.params = params
        if not self.params:
            self.params = Params()

        self.folder = folder
""", """        self.folder = folder
        self.fraction, self.step = 0, 1
        self.params = params or Params()

"""), (EV, """        self.fraction = 0

        self.step = 1
""", ""))
r('ev_msw_factored', (EV, """            MSW_12 = CONST.MSW_constant * self.oscillation_particles[0].grid.TEMPLATE**2 * self.params.T**4 / CONST.delta_m12_sq / self.params.a**2
            MSW_13 = CONST.MSW_constant * self.oscillation_particles[0].grid.TEMPLATE**2 * self.params.T**4 / CONST.delta_m13_sq / self.params.a**2
            if not environment.get("NORMAL_HIERARCHY_NEUTRINOS"):
                MSW_13 *= -1
""", """            momenta = self.oscillation_particles[0].grid.TEMPLATE
            potential = CONST.MSW_constant * (momenta / self.params.a)**2 * self.params.T**4
            sign = 1 if environment.get("NORMAL_HIERARCHY_NEUTRINOS") else -1
            MSW_12, MSW_13 = potential / CONST.delta_m12_sq, sign * potential / CONST.delta_m13_sq
"""))
r('ev_mix_loop', (EV, """                integrals = {A.flavour: A.collision_integral for A in particles}

                for A in particles:
                    A.collision_integral = sum(pattern[(A.flavour, B.flavour)] * integrals[B.flavour]
                                               for B in particles)
""", """                before = {}
                for A in particles:
                    before[A.flavour] = A.collision_integral

                for A in particles:
                    mixed = 0
                    for B in particles:
                        mixed = mixed + before[B.flavour] * pattern[(A.flavour, B.flavour)]
                    A.collision_integral = mixed
"""))
r('ev_collisions_inline', (EV, """        particles = [particle for particle in self.particles if particle.collision_integrals]

        with utils.printoptions(precision=3, linewidth=100):
            for particle in particles:
""", """        with utils.printoptions(precision=3, linewidth=100):
            for particle in self.particles:
                if not particle.collision_integrals:
                    continue
"""))
r('ev_save_row', (EV, """        self.data.append({
            'aT': self.params.aT,
            'T': self.params.T,
            'a': self.params.a,
            'x': self.params.x,
            'rho': self.params.rho,
            'N_eff': self.params.N_eff,
            't': self.params.t,
            'fraction': self.fraction,
            'S': self.params.S
        })""", """        p = self.params
        row = dict(aT=p.aT, T=p.T, a=p.a, x=p.x, t=p.t, S=p.S, rho=p.rho)
        row['N_eff'] = p.N_eff
        row['fraction'] = self.fraction
        self.data.append(row)"""))
r('ev_kawano_row', (EV, """            if environment.get('LOGARITHMIC_TIMESTEP'):
                dTdt = (self.fraction - self.params.aT) * self.params.H / self.params.a
            else:
                dTdt = (self.fraction - self.params.T / self.params.m) * self.params.H * self.params.m

            row = {
                self.kawano_data.columns[0]: self.params.t,
                self.kawano_data.columns[1]: self.params.x,
                self.kawano_data.columns[2]: self.params.T,
                self.kawano_data.columns[3]: dTdt,
                self.kawano_data.columns[4]: self.params.rho,
                self.kawano_data.columns[5]: self.params.H
            }

            row.update({self.kawano_data.columns[i]: rate
                        for i, rate in enumerate(rates, 6)})
""", """            p = self.params
            if environment.get('LOGARITHMIC_TIMESTEP'):
                cooling = (self.fraction - p.aT) / p.a
            else:
                cooling = self.fraction * p.m - p.T

            values = [p.t, p.x, p.T, cooling * p.H, p.rho, p.H] + list(rates)
            row = dict(zip(self.kawano_data.columns, values))
"""))
r('ev_qcd_names', (EV, """        self.particles = utils.particle_filter(
                            ['Up quark', 'Down quark', 'Charm quark',
                            'Strange quark', 'Top quark', 'Bottom quark', 'Gluon'],
                            self.particles
                            )
""", """        coloured = ['%s quark' % name for name in ('Up', 'Down', 'Charm', 'Strange', 'Top', 'Bottom')]
        self.particles = utils.particle_filter(coloured + ['Gluon'], self.particles)
"""))
r('ev_evolve_counter', (EV, """                self.save()
                self.step += 1
""", """                self.save()
                self.step = self.step + 1
"""))
r('pa_regime_returns', (PA, """        if self.T > self.mass * regime_factor:
            regime = REGIMES.RADIATION
        elif self.T * regime_factor < self.mass:
            regime = REGIMES.DUST
        else:
            regime = REGIMES.INTERMEDIATE

        return regime""", """        if self.mass * regime_factor < self.T:
            return REGIMES.RADIATION
        if self.mass > self.T * regime_factor:
            return REGIMES.DUST
        return REGIMES.INTERMEDIATE"""))
r('pa_equilibrium_and', (PA, "        return (self.T > self.decoupling_temperature) * self.thermal_dyn",
   "        coupled = self.decoupling_temperature < self.T\n        return coupled * self.thermal_dyn"))
r('pa_energy_helper', (PA, """        if self.mass > 0:
            return numpy.sqrt(p**2 + self.mass**2)
        else:
            return numpy.absolute(p)
""", """        if self.mass > 0:
            squared = self.mass * self.mass + p * p
            return squared**0.5
        return abs(p)
"""))
r('pa_settings_merge', (PA, """        settings = dict(self._defaults)
        settings.update(kwargs)

        for key, value in settings.items():
            setattr(self, key, value)
""", """        for key, default in self._defaults.items():
            setattr(self, key, kwargs.get(key, default))
        for key in kwargs:
            setattr(self, key, kwargs[key])
"""))
r('pa_populate_loop', (PA, """        self.density = regime.density(self)
        self.energy_density = regime.energy_density(self)
        self.pressure = regime.pressure(self)
        self.entropy = regime.entropy(self)
""", """        for quantity in ('density', 'energy_density', 'pressure', 'entropy'):
            setattr(self, quantity, getattr(regime, quantity)(self))
"""))
r('pa_update_split', (PA, """        # Update particle internal params only while it is in equilibrium
        if self.in_equilibrium or (not self.thermal_dyn and self.Q != 0):
            # Particle species has temperature only when it is in equilibrium
            self.init_distribution()
            self.aT = self.params.aT

        self.T = self.aT / self.params.a

        if self.in_equilibrium != self.oldeq and not self.in_equilibrium:
            # Particle decouples, have to init the distribution function array for kinetics
            self.t_decoupling = self.params.t
            self.init_distribution()
""", """        follows_bath = self.oldeq or (self.Q != 0 and not self.thermal_dyn)
        if follows_bath:
            self._follow()

        self.T = self.aT / self.params.a
        decouples = not self.in_equilibrium and self.oldeq
        if decouples:
            # Particle decouples, have to init the distribution function array for kinetics
            self.t_decoupling = self.params.t
            self.init_distribution()
"""), (PA, """    def update_distribution(self):
        \"\"\" Apply""", """    def _follow(self):
        self.init_distribution()
        self.aT = self.params.aT

    def update_distribution(self):
        \"\"\" Apply"""))
r('pa_distribution_step', (PA, """        if not hasattr(self, 'fast_decay'):
            self.old_distribution = self._distribution.copy()
            self._distribution += self.collision_integral * self.params.h
        else:""", """        ordinary = not hasattr(self, 'fast_decay')
        if ordinary:
            self.old_distribution = numpy.array(self._distribution)
            self._distribution = self._distribution + self.params.h * self.collision_integral
        else:"""))
r('pa_collision_kinds', (PA, """                if integral.kind in [CollisionIntegralKind.Full, CollisionIntegralKind.Full_vacuum_decay]:
                    C,B = integral.integrate(ps, stepsize=self.params.h)
                    ABs.append(C)
                    Bs.append(B)
                elif integral.kind in [CollisionIntegralKind.F_f_vacuum_decay, CollisionIntegralKind.F_decay]:
                    G = integral.integrate(ps, stepsize=self.params.h)
                    Bs.append(G)
                    ABs.append(G)
                else:
                    ABs.append(integral.integrate(ps, stepsize=self.params.h))
""", """                result = integral.integrate(ps, stepsize=self.params.h)
                if integral.kind in (CollisionIntegralKind.Full, CollisionIntegralKind.Full_vacuum_decay):
                    ABs.append(result[0])
                    Bs.append(result[1])
                    continue
                ABs.append(result)
                if integral.kind == CollisionIntegralKind.F_decay or integral.kind == CollisionIntegralKind.F_f_vacuum_decay:
                    Bs.append(result)
"""))

KI, UT, KA, IN, F4, F3, CO = 'common/kinematics.py', 'common/utils.py', 'kawano.py', 'interactions/__init__.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'common/__init__.py'
r('ki_cm_momentum_factored', (KI, """    return np.sqrt(
            (mass_1**2 - mass_2**2 - mass_3**2)**2
            - (2 * mass_2 * mass_3)**2
            ) / (2 * mass_1)""", """    threshold, gap = mass_2 + mass_3, mass_2 - mass_3
    return np.sqrt((mass_1 - threshold) * (mass_1 + threshold) * (mass_1 - gap) * (mass_1 + gap)) / (2 * mass_1)"""))
r('ki_boost_helper', (KI, """    momentum_1_lab_max = np.sqrt(energy_1_lab_max**2 - specie_1.conformal_mass**2)
    momentum_1_lab_min = np.sqrt(energy_1_lab_min**2 - specie_1.conformal_mass**2)
    return momentum_1_lab_min, momentum_1_lab_max
""", """    def momentum(energy):
        return np.sqrt(energy**2 - specie_1.conformal_mass**2)

    return tuple(momentum(energy) for energy in (energy_1_lab_min, energy_1_lab_max))
"""), (KI, """    beta = specie_3.grid.MAX_MOMENTUM / np.sqrt(specie_3.conformal_mass**2 + specie_3.grid.MAX_MOMENTUM**2)
    gamma = 1 / np.sqrt(1 - beta**2)
""", """    top = specie_3.grid.MAX_MOMENTUM
    energy_3 = np.sqrt(top**2 + specie_3.conformal_mass**2)
    beta, gamma = top / energy_3, 1. / np.sqrt(1. - (top / energy_3)**2)
"""))
r('ki_cutoff_common', (KI, """    else:
        max_mom = environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV

    upper_element_grid = min(len(grid) - 1, np.searchsorted(grid, max_mom))

    slice_1 = grid[:upper_element_grid + 1]
    slice_2 = [0] * (len(grid[upper_element_grid:]) - 1)

    return np.array(slice_1), slice_2
""", """    else:
        max_mom = environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV

    return split_grid(grid, max_mom)

def split_grid(grid, max_mom):
    last = np.searchsorted(grid, max_mom)
    if last > len(grid) - 1:
        last = len(grid) - 1
    return np.array(grid[:last + 1]), [0 for _ in grid[last + 1:]]
"""))
r('ki_neglect_flags', (KI, """    if interaction.reaction[0].specie.mass == 0 and interaction.reaction[1].side == 1:
        return True

    if utils.reaction_type(interaction).CREATION and interaction.reaction[-1].specie.decayed:
        if interaction.kind in [CollisionIntegralKind.Full, CollisionIntegralKind.Full_vacuum_decay] or hasattr(interaction.particle, 'fast_decay'):
            return True

    if utils""", """    head, tail = interaction.reaction[0], interaction.reaction[-1]
    if interaction.reaction[1].side == 1 and head.specie.mass == 0:
        return True

    two_sided = hasattr(interaction.particle, 'fast_decay') or interaction.kind in (CollisionIntegralKind.Full_vacuum_decay, CollisionIntegralKind.Full)
    if two_sided and utils.reaction_type(interaction).CREATION and tail.specie.decayed:
        return True

    if utils"""))
r('ki_neglect4_any', (KI, """    if utils.reaction_type(interaction).SCATTERING and (interaction.reaction[0].specie.density / interaction.reaction[0].specie.data['params']['density'][0] < scat_thr\\
    or interaction.reaction[1].specie.density / interaction.reaction[1].specie.data['params']['density'][0] < scat_thr)\\
    and (interaction.reaction[2].specie.density / interaction.reaction[2].specie.data['params']['density'][0] < scat_thr or\\
    interaction.reaction[3].specie.density / interaction.reaction[3].specie.data['params']['density'][0] < scat_thr):
        return True
""", """    def diluted(item):
        return item.specie.density / item.specie.data['params']['density'][0] < scat_thr

    if utils.reaction_type(interaction).SCATTERING:
        if any(diluted(item) for item in interaction.reaction[:2]) and any(diluted(item) for item in interaction.reaction[2:]):
            return True
"""))
r('ki_multiplier_counts', (KI, """        left = Counter(item.specie for item in interaction.reaction if item.side == -1)
        right = Counter(item.specie for item in interaction.reaction if item.side == 1)
        if left[interaction.reaction[0].specie] == 2 and right[interaction.reaction[0].specie] in [0, 1]:
            return 2.
        if left[interaction.reaction[0].specie] == 3 and right[interaction.reaction[0].specie] == 0:
            return 3.
""", """        first = interaction.reaction[0].specie
        left = sum(1 for item in interaction.reaction if item.specie == first and item.side == -1)
        right = [item.specie for item in interaction.reaction if item.side == 1].count(first)
        if (left, right) in ((2, 0), (2, 1)):
            return 2.
        if (left, right) == (3, 0):
            return 3.
"""))
r('ki_decayed_guard', (KI, """    if len(particle.data['distribution']) > 1 and particle.mass != 0. and particle.data['params']['density'][0] != 0. \\
    and particle.density / particle.data['params']['density'][0] < dec_thr and not hasattr(particle, 'fast_decay'):
        particle.decayed = True
        particle._distribution = np.zeros(len(ps))
        if particle.name == 'Sterile neutrino (Dirac)':
            os.environ['STERILE_DECAYED'] = 'True'
        return True
    return False
""", """    if hasattr(particle, 'fast_decay') or particle.mass == 0. or len(particle.data['distribution']) <= 1:
        return False
    initial = particle.data['params']['density'][0]
    if initial == 0. or not particle.density / initial < dec_thr:
        return False
    particle._distribution = np.zeros(len(ps))
    particle.decayed = True
    if particle.name == 'Sterile neutrino (Dirac)':
        os.environ['STERILE_DECAYED'] = 'True'
    return True
"""))
r('ki_scaling_named', (KI, """        for key in interaction.reaction[-1].specie.BR:
            if Counter(sym) == Counter(key):
                BR = interaction.reaction[-1].specie.BR[key]
        dof = interaction.particle.dof if interaction.particle.majorana else interaction.particle.dof / 2.
        created""", """        parent = interaction.reaction[-1].specie
        wanted = Counter(sym)
        for key, ratio in parent.BR.items():
            if wanted == Counter(key):
                BR = ratio
        dof = interaction.particle.dof
        if not interaction.particle.majorana:
            dof = dof / 2.
        created"""))
r('ki_grid_meson_early', (KI, """    if not delta_y_meson > 0:
        delta_y_meson = environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV / 3.

    return min(delta_y_meson / 3., environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV)
""", """    standard = environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV
    width = delta_y_meson if delta_y_meson > 0 else standard / 3.
    width /= 3.
    return width if width <= standard else standard
"""))
r('ut_sides_table', (UT, """        self.sumsides = sum([item.side for item in interaction.reaction])
    @property
    def CREATION(self):
        if self.sumsides in [-1, -2]:
            return True
        return False""", """        self.sumsides = 0
        for item in interaction.reaction:
            self.sumsides += item.side
    @property
    def CREATION(self):
        return self.sumsides == -1 or self.sumsides == -2"""))
r('ut_filter_loop', (UT, """        if first_only:
            inter.integrals = [integral for integral in inter.integrals
                            if integral.reaction[0].specie.name not in names\\
                            and sum([item.side for item in integral.reaction]) not in reaction_type]
        else:
            inter.integrals = [integral for integral in inter.integrals
                            if all(item.specie.name not in names for item in integral.reaction)\\
                            and sum([item.side for item in integral.reaction]) not in reaction_type]
""", """        kept = []
        for integral in inter.integrals:
            checked = integral.reaction[:1] if first_only else integral.reaction
            if any(item.specie.name in names for item in checked):
                continue
            if sum(item.side for item in integral.reaction) in reaction_type:
                continue
            kept.append(integral)
        inter.integrals = kept
"""))
r('ut_order_key', (UT, """    particles = [part for (mass, part) in
                sorted(zip([particle.mass for particle in particles], particles), reverse=True)]
    return particles
""", """    pairs = [(particle.mass, particle) for particle in particles]
    pairs.sort(reverse=True)
    return [pair[1] for pair in pairs]
"""))
r('ut_append_grow', (UT, """            self.size = int(1.5*self.size)
            self._data = numpy.resize(self._data, self.size)
        self._data[self.length] = rec
        self.length += 1
""", """            self._grow()
        self._data[self.length] = rec
        self.length = self.length + 1

    def _grow(self):
        self.size = int(self.size * 3. / 2.)
        self._data = numpy.resize(self._data, self.size)
"""))
r('ka_rate_helper', (KA, """    E_e = q * a + y
    if E_e < m_e * a:
        return 0.
    y_e = numpy.sqrt(E_e**2 - (m_e * a)**2)
    return (y**2 * y_e * E_e
            * (1. - particles.electron.distribution(y_e)) * particles.neutrino.distribution(y))


@numpy.vectorize
def _rate2(y):""", """    return _phase_space(q * a + y, y, lambda f_e, f_nu: f_nu * (1. - f_e))


def _phase_space(E_e, y, statistics):
    mass = m_e * a
    if not E_e < mass:
        y_e = numpy.sqrt((E_e - mass) * (E_e + mass))
        return E_e * y_e * y**2 * statistics(particles.electron.distribution(y_e), particles.neutrino.distribution(y))
    return 0.


@numpy.vectorize
def _rate2(y):"""))
r('ka_rates_table', (KA, """    data = []
    for integrand, bounds in [
            (_rate1, (grid.MIN_MOMENTUM, grid.MAX_MOMENTUM)),
            (_rate2, (grid.MIN_MOMENTUM, grid.MAX_MOMENTUM)),
            (_rate3, (grid.MIN_MOMENTUM, (q - m_e) * a)),
            (_rate4, (grid.MIN_MOMENTUM, (q - m_e) * a)),
            (_rate5, ((q + m_e) * a, grid.MAX_MOMENTUM)),
            (_rate6, ((q + m_e) * a, grid.MAX_MOMENTUM))
    ]:
        if bounds[0] < bounds[1]:
            data.append(CONST.rate_normalization / particles.neutrino.params.a**5
                        * integrate_1D(integrand, bounds=bounds)[0])
        else:
            data.append(0.)

    return data
""", """    lowest, highest = grid.MIN_MOMENTUM, grid.MAX_MOMENTUM
    regions = (
        ((_rate1, _rate2), lowest, highest),
        ((_rate3, _rate4), lowest, a * (q - m_e)),
        ((_rate5, _rate6), a * (q + m_e), highest),
    )
    norm = CONST.rate_normalization / particles.neutrino.params.a**5

    def rate(integrand, lower, upper):
        if lower >= upper:
            return 0.
        return norm * integrate_1D(integrand, bounds=(lower, upper))[0]

    return [rate(f, lower, upper) for pair, lower, upper in regions for f in pair]
"""))
r('in_kind_check', (IN, """        if not (kind is None or kind in [CollisionIntegralKind.F_creation, CollisionIntegralKind.F_decay,
                CollisionIntegralKind.F_1, CollisionIntegralKind.F_f,
                CollisionIntegralKind.F_1_vacuum_decay, CollisionIntegralKind.F_f_vacuum_decay,
                CollisionIntegralKind.Full, CollisionIntegralKind.Full_vacuum_decay]
        ):
            raise ValueError("Variable 'kind' set to incorrect value")
        else:
            if kind is None:
                kind = CollisionIntegralKind.Full
            self.kind = kind
""", """        kinds = CollisionIntegralKind
        if kind is None:
            kind = kinds.Full
        if kind not in (kinds.Full, kinds.F_1, kinds.F_f, kinds.F_creation, kinds.F_decay,
                        kinds.Full_vacuum_decay, kinds.F_1_vacuum_decay, kinds.F_f_vacuum_decay):
            raise ValueError("Variable 'kind' set to incorrect value")
        self.kind = kind
"""))
r('in_cross_names', (IN, """        return item._replace(
            crossed=not item.crossed,
            antiparticle=not item.antiparticle if not item.specie.majorana else False,
            side=-item.side
        )
""", """        conjugate = False if item.specie.majorana else not item.antiparticle
        return IntegralItem(-item.side, item.specie, conjugate, item.index, not item.crossed)
"""))
r('in_kinematics_helper', (IN, """                if (
                    (len(lhs) == 1 and lhs[0].specie.mass <= sum(item.specie.mass for item in rhs))
                    or
                    (len(rhs) == 1 and rhs[0].specie.mass <= sum(item.specie.mass for item in lhs))
                ):
                    continue

                k = tuple(map(tuple, lhs + rhs))
                if k not in reactions:
                    reactions[k] = tuple(lhs + rhs)
""", """                if self.forbidden(lhs, rhs) or self.forbidden(rhs, lhs):
                    continue

                ordered = tuple(lhs + rhs)
                reactions.setdefault(tuple(tuple(item) for item in ordered), ordered)
"""), (IN, """    def init_integrals(self, reaction, item):""", """    @staticmethod
    def forbidden(one, many):
        if len(one) != 1:
            return False
        total = 0
        for item in many:
            total += item.specie.mass
        return not one[0].specie.mass > total

    def init_integrals(self, reaction, item):"""))
r('in_dedup_search', (IN, """        old_integral = None

        new_species = self.species(new_integral)

        # Check if there is already a similar integral
        for integral in self.integrals:
            if new_integral.particle == integral.particle and new_species == self.species(integral):
                old_integral = integral
                break

        # If there is no, just append a new one
        if not old_integral:
            self.integrals.append(new_integral)
            return
""", """        new_species = self.species(new_integral)

        similar = [integral for integral in self.integrals
                   if integral.particle == new_integral.particle and self.species(integral) == new_species]
        if not similar:
            self.integrals.append(new_integral)
            return
        old_integral = similar[0]
"""))
r('f4_prefactor', (F4, """        constant = unit * (params.aT / params.a)**5 / 64. / numpy.pi**3 / params.H

        if self.particle.majorana:
            constant /= self.particle.dof
        else:
            constant /= self.particle.dof / 2

        constant *= kinematics.CollisionMultiplier4p(self)

        if not environment.get('LOGARITHMIC_TIMESTEP'):
            constant /= params.x

        stepsize *= constant
""", """        constant = self.prefactor(params, unit) * kinematics.CollisionMultiplier4p(self)

        stepsize = constant * stepsize
"""), (F4, """    def integrate(self, ps, stepsize=None):
""", """    def prefactor(self, params, unit):
        temperature = params.aT / params.a
        states = self.particle.dof if self.particle.majorana else self.particle.dof / 2
        rate = unit * temperature**5 / (64. * numpy.pi**3 * params.H * states)
        return rate if environment.get('LOGARITHMIC_TIMESTEP') else rate / params.x

    def integrate(self, ps, stepsize=None):
"""))
r('f4_tail', (F4, """        if hasattr(self.particle, 'fast_decay'):
            if self.kind in [CollisionIntegralKind.F_decay, CollisionIntegralKind.F_f_vacuum_decay]:
                return numpy.zeros(len(fullstack)), fullstack * constant
            if self.kind in [CollisionIntegralKind.F_creation, CollisionIntegralKind.F_1_vacuum_decay]:
                return fullstack * constant, numpy.zeros(len(fullstack))

        if self.kind""", """        result = fullstack * constant
        if hasattr(self.particle, 'fast_decay'):
            nothing = numpy.zeros(len(result))
            if self.kind in (CollisionIntegralKind.F_creation, CollisionIntegralKind.F_1_vacuum_decay):
                return result, nothing
            if self.kind in (CollisionIntegralKind.F_decay, CollisionIntegralKind.F_f_vacuum_decay):
                return nothing, result

        if self.kind"""))
r('f3_constants', (F3, """        if self.particle.mass == 0:
            constant_0 = 0
        else:
            constant_0 = self.cMs * params.aT / params.a / 8. / numpy.pi / params.H / self.particle.mass**2

        constant_else = self.cMs * params.a / params.aT / 32. / numpy.pi / params.H

        constant = numpy.append(constant_0, numpy.repeat(constant_else, len(ps) - 1))
""", """        constant_else = self.cMs / (32. * numpy.pi * params.H * (params.aT / params.a))
        constant_0 = 0
        if self.particle.mass != 0:
            constant_0 = 4. * constant_else * (params.aT / params.a / self.particle.mass)**2

        constant = numpy.append(constant_0, numpy.repeat(constant_else, len(ps) - 1))
"""))
r('f3_reaction_loop', (F3, """        self.creaction = [
            reaction_t3(
                specie=particle_t3(
                    m=particle.specie.conformal_mass / params.aT,
                    grid=grid_t3(
                        grid=particle.specie.grid.TEMPLATE / params.aT,
                        distribution=particle.specie._distribution
                    ),
                    eta=int(particle.specie.eta),
                    in_equilibrium=int(particle.specie.in_equilibrium),
                    T=particle.specie.aT / params.aT
                ),
                side=particle.side
            )
            for particle in self.reaction
        ]
""", """        self.creaction = []
        for particle in self.reaction:
            specie = particle.specie
            grid = grid_t3(grid=specie.grid.TEMPLATE / params.aT, distribution=specie._distribution)
            self.creaction.append(reaction_t3(
                specie=particle_t3(m=specie.conformal_mass / params.aT, grid=grid, eta=int(specie.eta),
                                   in_equilibrium=int(specie.in_equilibrium), T=specie.aT / params.aT),
                side=particle.side))
"""))
r('co_interp_helper', (CO, """    E_p  = particle.conformal_energy(p, conformal_mass)
    E_lo = particle.conformal_energy(p_lo, conformal_mass)
    E_hi = particle.conformal_energy(p_hi, conformal_mass)
""", """    E_p, E_lo, E_hi = [particle.conformal_energy(momentum, conformal_mass) for momentum in (p, p_lo, p_hi)]
"""))
r('co_update_names', (CO, """        self.N_eff = (
            (rho - (numpy.pi**2 / 15. * self.T**4))
            / (7./8. * numpy.pi**2 / 15. * (self.T / 1.401)**4)
        )
""", """        photons = numpy.pi**2 / 15. * self.T**4
        neutrino = 7./8. * photons / 1.401**4
        self.N_eff = (rho - photons) / neutrino
"""))

C4, DS, C3 = 'interactions/four_particle/cpp/integral.cpp', 'interactions/four_particle/cpp/Ds.cpp', 'interactions/three_particle/cpp/integral.cpp'
r('c4_hypot_and_loop', (C4, """    return sqrt(y*y + mass*mass);
""", """    const dbl square = pow(y, 2) + pow(mass, 2);
    return std::sqrt(square);
"""), (C4, """    while (tail - head > 1) {
        middle = (tail + head) / 2;
        if (grid[middle] > x) {
            tail = middle;
        } else {
            head = middle;
        }
    }
""", """    for (; tail > head + 1; ) {
        middle = head + (tail - head) / 2;
        (grid[middle] > x ? tail : head) = middle;
    }
"""))
r('c4_interpolation_helper', (C4, """    g_hi = (1. / g_hi - eta);
    if (g_hi > 0) {
        g_hi = log(g_hi);
    } else {
        return 0.;
    }

    g_lo = (1. / g_lo - eta);
    if (g_lo > 0) {
        g_lo = log(g_lo);
    } else {
        return 0.;
    }

    dbl g = ((E_p - E_lo) * g_hi + (E_hi - E_p) * g_lo) / (E_hi - E_lo);
""", """    auto odds = [eta](dbl f) { return 1. / f - eta; };
    g_hi = odds(g_hi);
    g_lo = odds(g_lo);
    if (!(g_hi > 0) || !(g_lo > 0)) { return 0.; }

    const dbl share = (E_p - E_lo) / (E_hi - E_lo);
    dbl g = share * log(g_hi) + (1. - share) * log(g_lo);
"""))
r('c4_statistics_ternary', (C4, """            if (reaction[i].side == -1) {
                temp *= f[i];
            } else {
                temp *= 1. - reaction[i].specie.eta * f[i];
            }
        }
    }

    return temp;
}

dbl F_B(""", """            const reaction_t &r = reaction[i];
            temp = temp * (r.side == -1 ? f[i] : 1. - f[i] * r.specie.eta);
        }
    }

    return temp;
}

dbl F_B("""))
r('c4_product_helper', (C4, """    dbl temp(1.);

    for (int i = 0; i < 4; ++i) {
        if (i != skip_index) {
            if (f[i] < 0) {
                throw std::runtime_error("Negative value of distribution function");
            }
            if (reaction[i].side == 1) {
                temp *= f[i];
            } else {
                temp *= 1. - reaction[i].specie.eta * f[i];
            }
        }
    }

    return temp;
}
""", """    return occupation(reaction, f, skip_index, 1);
}
"""), (C4, """/* ## F(fα) functional */
""", """static dbl occupation(const std::vector<reaction_t> &reaction, const std::array<dbl, 4> &f, int skip_index, int filled) {
    dbl product = 1.;
    int i = -1;
    for (const auto &item : reaction) {
        ++i;
        if (i == skip_index) { continue; }
        if (f[i] < 0) {
            throw std::runtime_error("Negative value of distribution function");
        }
        product *= item.side == filled ? f[i] : 1. - item.specie.eta * f[i];
    }
    return product;
}

/* ## F(fα) functional */
"""))
r('c4_bounds_minmax', (C4, """    dbl q1, q2, q3, q4;
    q1 = p[0];
    q2 = p[1];
    q3 = p[2];
    q4 = p[3];

    if (q1 < q2) { std::swap(q1, q2); }
    if (q3 < q4) { std::swap(q3, q4); }

    return (E[3] >= m[3] && q1 <= q2 + q3 + q4 && q3 <= q1 + q2 + q4);
""", """    const dbl largest_in = std::max(p[0], p[1]), largest_out = std::max(p[2], p[3]);
    const dbl total = p[0] + p[1] + p[2] + p[3];

    if (E[3] < m[3]) { return 0.; }
    return 2 * largest_in <= total && 2 * largest_out <= total;
"""))
r('c4_integrand_order', (C4, """    dbl temp = 1.;

    // Avoid rounding errors and division by zero
    for (int k = 1; k < 3; ++k) {
        if (m[k] != 0.) {
            temp *= p[k] / E[k];
        }
    }

    if (temp == 0.) { return integrand; }

    dbl ds = 0.;

    if (Ms[0].K != 0.) {
        ds += Ms[0].K;
    }

    else {
        if (p[0] != 0.) {
            for (const M_t &M : Ms) {
                ds += D(p, E, m, M.K1, M.K2, M.order, sides);
            }
            ds /= p[0] * E[0];
        } else {
            for (const M_t &M : Ms) {
                ds += Db(p, E, m, M.K1, M.K2, M.order, sides);
            }
        }
    }

    temp *= ds;
""", """    dbl ds = Ms[0].K;
    if (ds == 0.) {
        const bool moving = p[0] != 0.;
        for (size_t n = 0; n < Ms.size(); n++) {
            const M_t &M = Ms[n];
            ds += moving ? D(p, E, m, M.K1, M.K2, M.order, sides) : Db(p, E, m, M.K1, M.K2, M.order, sides);
        }
        if (moving) { ds = ds / (E[0] * p[0]); }
    }

    dbl temp = ds;
    if (m[1] != 0.) { temp *= p[1] / E[1]; }
    if (m[2] != 0.) { temp *= p[2] / E[2]; }
"""))
r('c4_kinds_if', (C4, """        case CollisionIntegralKind::F_1:
            return temp * F_1(reaction, f);
        case CollisionIntegralKind::F_f:
            return temp * F_f(reaction, f);
        case CollisionIntegralKind::Full:
        default:
            return temp * (F_1(reaction, f) + f[0] * F_f(reaction, f));
    }
""", """        default:
            break;
    }
    if (integral_kind == CollisionIntegralKind::F_1) { return temp * F_1(reaction, f); }
    const dbl linear = temp * F_f(reaction, f);
    if (integral_kind == CollisionIntegralKind::F_f) { return linear; }
    return temp * F_1(reaction, f) + f[0] * linear;
"""))
r('c4_creation_bounds_helper', (C4, """        dbl max = energy(max_3, reaction[3].specie.m) - energy(p0, reaction[0].specie.m) - energy(p1, reaction[1].specie.m);
        dbl max2 = pow(max, 2) - pow(reaction[2].specie.m, 2);
        dbl min = reaction[3].specie.m - energy(p0, reaction[0].specie.m) - energy(p1, reaction[1].specie.m);
        dbl min2 = pow(min, 2) - pow(reaction[2].specie.m, 2);
        if (max <= 0 || max2 <= 0) {
            return 0.;
        }
        else {
            max_2 = sqrt(max2);
        }
        if (min <= 0 || min2 <= 0) {
            min_2 = 0.;
        }
        else {
            min_2 = sqrt(min2);
        }
""", """        const dbl taken = energy(p0, reaction[0].specie.m) + energy(p1, reaction[1].specie.m);
        max_2 = momentum_left(energy(max_3, reaction[3].specie.m) - taken, reaction[2].specie.m);
        if (max_2 == 0.) { return 0.; }
        min_2 = momentum_left(reaction[3].specie.m - taken, reaction[2].specie.m);
"""), (C4, """dbl integrand_2nd_integration(
""", """dbl momentum_left(dbl E, dbl m) {
    const dbl square = E*E - m*m;
    return E > 0 && square > 0 ? sqrt(square) : 0.;
}


dbl integrand_2nd_integration(
"""))
r('c4_scattering_bounds', (C4, """            dbl min = reaction[2].specie.m + reaction[3].specie.m - energy(p0, reaction[0].specie.m);
            dbl min2 = pow(min, 2) - pow(reaction[1].specie.m, 2);
            if (min <= 0 || min2 <= 0) {
                min_1 = 0.;
            }
            else {
                min_1 = sqrt(min2);
            }
""", """            const dbl m1 = reaction[1].specie.m;
            const dbl missing = reaction[2].specie.m + reaction[3].specie.m - energy(p0, reaction[0].specie.m);
            min_1 = 0.;
            if (missing > m1) {
                min_1 = sqrt((missing - m1) * (missing + m1));
            }
"""))
r('c4_rest_bounds_shared', (C4, """        if (temp < 0) {
            temp = 0;
        }

        return (
                p1 * (pow(m1,2) + pow(m2,2) - pow(m3,2))
                + sqrt(temp)
                )
                / (2 * pow(m1,2));
""", """        const dbl root = temp < 0 ? 0. : sqrt(temp);
        const dbl along = p1 * (m1*m1 + m2*m2 - m3*m3);

        return 0.5 * (along + root) / (m1*m1);
"""))
r('c4_switch_reaction', (C4, """    if (reaction_type == Kinematics::DECAY) {
        min_2 = 0.;
        max_2 = p2_max_dec(reaction, p0, p1);
    }

     if (reaction_type == Kinematics::SCATTERING) {
        min_2 = p2_min_scat(reaction, p0, p1);
        max_2 = p2_max_scat(reaction, p0, p1);
     }
""", """    switch (reaction_type) {
        case Kinematics::DECAY:
            min_2 = 0.;
            max_2 = p2_max_dec(reaction, p0, p1);
            break;
        case Kinematics::SCATTERING:
            max_2 = p2_max_scat(reaction, p0, p1);
            min_2 = p2_min_scat(reaction, p0, p1);
            break;
        default:
            break;
    }
"""))
r('ds_d3_squares', (DS, """            return pow(q4, 3) * (5. * (pow(q1, 2) + pow(q2, 2) + pow(q3, 2)) - pow(q4, 2)) / 30.;
""", """            const dbl s4 = q4 * q4;
            return q4 * s4 * ((q1*q1 + q2*q2 + q3*q3) / 6. - s4 / 30.);
"""), (DS, """    if ((q1 > q2 + q3 + q4) || (q3 > q2 + q1 + q4)) {
        return 0.;
    }

    if (q1 + q2 >= q3 + q4) {
        if (q1 + q4 >= q2 + q3) {
            return (
                pow(q1, 5)""", """    const dbl half = (q1 + q2 + q3 + q4) / 2.;
    if (q1 > half || q3 > half) {
        return 0.;
    }

    if (q1 + q2 >= q3 + q4) {
        if (!(q1 + q4 < q2 + q3)) {
            return (
                pow(q1, 5)"""))
r('ds_d_common', (DS, """    if (K1 != 0.) {
        result += K1 * (E[0] * E[1] * E[2] * E[3] * D1(p[0], p[1], p[2], p[3]) + sisjsksl * D3(p[0], p[1], p[2], p[3]));

        result += K1 * (E[i] * E[j] * sksl * D2(p[i], p[j], p[k], p[l])
                        + E[k] * E[l] * sisj * D2(p[k], p[l], p[i], p[j]));
    }

    if (K2 != 0.) {
        result += K2 * m[i] * m[j] * (E[k] * E[l] * D1(p[0], p[1], p[2], p[3]) + sksl * D2(p[i], p[j], p[k], p[l]));
    }

    return result;
""", """    const dbl d1 = D1(p[0], p[1], p[2], p[3]);
    const dbl dkl = sksl * D2(p[i], p[j], p[k], p[l]);

    if (K2 != 0.) {
        result = K2 * m[i] * m[j] * (E[k] * E[l] * d1 + dkl);
    }

    if (K1 == 0.) { return result; }

    const dbl dij = sisj * D2(p[k], p[l], p[i], p[j]);
    dbl product = d1;
    for (const dbl &e : E) { product *= e; }
    return result + K1 * (product + E[i] * E[j] * dkl + E[k] * E[l] * dij + sisjsksl * D3(p[0], p[1], p[2], p[3]));
"""))
r('ds_db1_branches', (DS, """    dbl y1, y2, y3;
    dbl result;
    std::array<dbl, 3> mom = {q2, q3, q4};

    std::sort(mom.begin(), mom.end(), std::greater<dbl>());

    y1 = mom[0];
    y2 = mom[1];
    y3 = mom[2];

    result = 0.5 *""", """    dbl y1 = q2, y2 = q3, y3 = q4;
    if (y1 < y2) { std::swap(y1, y2); }
    if (y2 < y3) { std::swap(y2, y3); }
    if (y1 < y2) { std::swap(y1, y2); }

    const dbl result = 0.5 *"""))
r('c3_energy_last', (C3, """        E[2] *= -sides[2];

        if (E[2] < m[2]) {return integrand; }

        p[2] = sqrt(pow(E[2], 2) - pow(m[2], 2));

        temp *= p[1];
""", """        E[2] = -sides[2] * E[2];

        if (!(E[2] >= m[2])) {return integrand; }

        p[2] = sqrt((E[2] - m[2]) * (E[2] + m[2]));

        temp = temp * p[1];
"""))
r('c3_bounds_reduced', (C3, """                if (reaction[0].specie.m == 0) {
                    dbl min = p1_bounds_2(reaction, p0);
                    min_1 = std::max(min, -min);
                    dbl temp = p1_bounds_4(reaction, p0, max_2);
                    if (temp == -1) {continue; }
                    max_1 = temp;
                    if (min_1 >= max_1) {continue; }
                }
                else {
                    dbl min = p1_bounds_3(reaction, p0, -1, 1);
                    min_1 = std::max(min, -min);
                    dbl temp = p1_bounds_4(reaction, p0, max_2);
                    if (temp == -1) {continue; }
                    max_1 = std::min(p1_bounds_3(reaction, p0, 1, 1), temp);
                    if (min_1 >= max_1) {continue; }
                }
""", """                const bool massless = reaction[0].specie.m == 0;
                max_1 = p1_bounds_4(reaction, p0, max_2);
                if (max_1 < 0) {continue; }
                min_1 = std::abs(massless ? p1_bounds_2(reaction, p0) : p1_bounds_3(reaction, p0, -1, 1));
                if (!massless) {
                    max_1 = std::min(max_1, p1_bounds_3(reaction, p0, 1, 1));
                }
                if (min_1 >= max_1) {continue; }
"""))


from refactors_more import add
add(r)


def run(name):
    d = tempfile.mkdtemp(prefix='refac', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-r', '/repo/.', d])
        for f, old, new in R[name]:
            p = os.path.join(d, f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                return '%-24s EDIT DOES NOT APPLY (%d) %s' % (name, s.count(old), f)
            s = s.replace(old, new)
            if f.endswith('.py'):
                compile(s, f, 'exec')
            open(p, 'w', encoding='utf-8').write(s)
        bad = []
        H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        cxx = ('P15', 'P16', 'P17', 'P35')
        files = {f for f, _, _ in R[name]}
        for c in CHECKS:
            if not any(f.endswith('.cpp') or f.endswith('.h') for f in files) and c in ('P15', 'P16', 'P35'):
                continue
            if c in ('P33', 'P34') and not any(f.startswith(('library', 'interactions')) and f.endswith('.py') for f in files):
                continue
            if all(f.endswith('.cpp') or f.endswith('.h') for f in files) and (c not in cxx or c == 'P15' and 'Ds' not in ''.join(files)):
                continue
            q = subprocess.run([sys.executable, 'check.py', c], cwd=H, env=dict(os.environ, PYBBN_REPO=d, PYBBN_EVIDENCE=d + '/.ev'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            u = [l.strip()[:int(os.environ.get("W","260"))] for l in q.stdout.splitlines() if l.strip().startswith(('undecided', 'violated', 'UNDECIDED'))]
            if q.returncode or u:
                bad.append('    %s rc=%d %s' % (c, q.returncode, ' | '.join(u[:2])))
        return '%-24s %s' % (name, 'quiet' if not bad else 'NOT QUIET\n' + '\n'.join(bad))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    CHECKS = [c for c in (os.environ.get('CHECKS') or '').split()] or sorted(os.path.basename(p)[:3] for p in glob.glob(H + '/props/P??.py'))
    names = sys.argv[1:] or list(R)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 8))) as ex:
        for line in ex.map(run, names):
            print(line, flush=True)
