"""More behaviour-preserving edits, used by refactors.py."""


def add(r):
    CO, UT, IG, PI = 'common/__init__.py', 'common/utils.py', 'common/integrators/__init__.py', 'common/integrators/paired.py'
    NE, IM, DU, RA = ['particles/%sParticle.py' % n for n in ('NonEq', 'Intermediate', 'Dust', 'Radiation')]
    SA, ENV, IN, BO = 'semianalytic.py', 'environment.py', 'interactions/__init__.py', 'interactions/boltzmann.py'
    F4, F3, KI = 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'common/kinematics.py'
    NU = 'library/NuMSM.py'

    # common
    r('m_units_chain', (CO, """        UNITS.keV = UNITS.eV * 1e3
        UNITS.MeV = UNITS.keV * 1e3
        UNITS.GeV = UNITS.MeV * 1e3
        UNITS.TeV = UNITS.GeV * 1e3
        UNITS.s = 1e22 / 6.582119 / UNITS.MeV
""", """        scale = cls.eV
        for name in ('keV', 'MeV', 'GeV', 'TeV'):
            scale = scale * 1000.
            setattr(UNITS, name, scale)
        hbar = 6.582119e-22  # MeV s
        UNITS.s = 1. / (hbar * UNITS.MeV)
"""))
    r('m_params_kwargs', (CO, """        for key in kwargs:
            setattr(self, key, kwargs[key])

        # As the initial""", """        for key, value in kwargs.items():
            setattr(self, key, value)

        # As the initial"""), (CO, """        self.a = 1 * self.m / self.T
        self.a_ini = self.a
""", """        self.a_ini = self.a = self.m / self.T
"""))
    r('m_params_checks', (CO, """        if environment.get('LOGARITHMIC_TIMESTEP') and not kwargs.get('dy'):
            raise Exception("Using logarithmic timestep, but no Params.dy was specified")
        if not environment.get('LOGARITHMIC_TIMESTEP') and not kwargs.get('dx'):
            raise Exception("Using linear timestep, but no Params.dx was specified")
""", """        logarithmic = environment.get('LOGARITHMIC_TIMESTEP')
        required = 'dy' if logarithmic else 'dx'
        if not kwargs.get(required):
            raise Exception("Using {} timestep, but no Params.{} was specified".format(
                'logarithmic' if logarithmic else 'linear', required))
"""))
    r('m_infer_once', (CO, """        self.x = self.a * self.m
        if environment.get('LOGARITHMIC_TIMESTEP'):
            self.y = numpy.log(self.a)
        self.aT = self.a * self.T

        # Conformal scale factor step size during computations
        if environment.get('LOGARITHMIC_TIMESTEP'):
            self.dx = self.x * self.dy
            self.h = self.dy
        else:
            self.dy = None
            self.h = self.dx
""", """        self.aT = self.T * self.a
        self.x = self.m * self.a

        # Conformal scale factor step size during computations
        if not environment.get('LOGARITHMIC_TIMESTEP'):
            self.h = self.dx
            self.dy = None
            return

        self.y = numpy.log(self.a)
        self.h = self.dy
        self.dx = self.dy * self.x
"""))
    r('m_entropic_generator', (CO, """        dof = 0
        for particle in universe.particles:
            if universe.params.T > particle.mass and particle.in_equilibrium:
                if particle.statistics == STATISTICS.FERMION:
                    dof += particle.dof * 7. / 8.
                else:
                    dof += particle.dof
        return dof
""", """        T = universe.params.T
        return sum(
            particle.dof * (7. / 8. if particle.statistics == STATISTICS.FERMION else 1.)
            for particle in universe.particles
            if particle.in_equilibrium and particle.mass < T
        )
"""))
    r('m_time_step', (CO, """        dt = (1 - old_a / self.a) / self.H
        # dt = self.dx / self.x / self.H
        self.t += dt
""", """        # dt = self.dx / self.x / self.H
        self.t = self.t + (self.a - old_a) / (self.a * self.H)
"""))
    r('m_grid_base', (CO, """class LinearSpacedGrid(object):

    def __init__(self, MOMENTUM_SAMPLES=None, MAX_MOMENTUM=None):
        if not MAX_MOMENTUM:
            MAX_MOMENTUM = environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV
        if not MOMENTUM_SAMPLES:
            MOMENTUM_SAMPLES = environment.get('MOMENTUM_SAMPLES')

        self.MIN_MOMENTUM = 0
        self.MAX_MOMENTUM = MAX_MOMENTUM
        self.BOUNDS = (self.MIN_MOMENTUM, self.MAX_MOMENTUM)
        self.MOMENTUM_SAMPLES = MOMENTUM_SAMPLES
""", """class _Grid(object):

    def _configure(self, samples, max_momentum):
        self.MIN_MOMENTUM = 0
        self.MAX_MOMENTUM = max_momentum or environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV
        self.MOMENTUM_SAMPLES = samples or environment.get('MOMENTUM_SAMPLES')
        self.BOUNDS = (self.MIN_MOMENTUM, self.MAX_MOMENTUM)


class LinearSpacedGrid(_Grid):

    def __init__(self, MOMENTUM_SAMPLES=None, MAX_MOMENTUM=None):
        self._configure(MOMENTUM_SAMPLES, MAX_MOMENTUM)
"""))
    r('m_log_grid', (CO, """        base = 1.2
        return (
            self.MIN_MOMENTUM
            + (self.MAX_MOMENTUM - self.MIN_MOMENTUM)
            * (base ** numpy.arange(0, self.MOMENTUM_SAMPLES, 1) - 1.)
            / (base ** (self.MOMENTUM_SAMPLES - 1.) - 1.)
        )
""", """        base = 1.2
        powers = numpy.power(base, numpy.arange(self.MOMENTUM_SAMPLES)) - 1.
        span = self.MAX_MOMENTUM - self.MIN_MOMENTUM
        return self.MIN_MOMENTUM + span * powers / powers[-1]
"""))
    r('m_linear_weights', (CO, """    def interpolation(x):
        index = numpy.searchsorted(grid, x)

        if index >= len(grid):
            return function[len(grid) - 1]

        if x == grid[index]:
            return function[index]

        # The interval containing `x` starts at the previous grid point
        index = max(index - 1, 0)

        # Determine the closest grid points
        i_low = index
        x_low = grid[i_low]

        i_high = index + 1
        x_high = grid[i_high]

        return (
            function[i_low] * (x_high - x) + function[i_high] * (x - x_low)
        ) / (x_high - x_low)

    return interpolation


def cubic""", """    last = len(grid) - 1

    def interpolation(x):
        i_high = numpy.searchsorted(grid, x)

        if i_high > last:
            return function[last]

        if grid[i_high] == x:
            return function[i_high]

        # The interval containing `x` starts at the previous grid point
        if i_high == 0:
            i_high = 1
        i_low = i_high - 1

        weight = (x - grid[i_low]) / (grid[i_high] - grid[i_low])
        return (1 - weight) * function[i_low] + weight * function[i_high]

    return interpolation


def cubic"""))
    r('m_cubic_horner', (CO, "            return a0*mu*mu*mu + a1*mu*mu + a2*mu + a3\n",
      "            return ((a0*mu + a1)*mu + a2)*mu + a3\n"))
    r('m_binary_find', (CO, """    if x in temp:
        pos = numpy.where(temp == x)
        return pos, pos

    return numpy.searchsorted(temp, x, side='right') - 1, numpy.searchsorted(temp, x, side='right')
""", """    right = numpy.searchsorted(temp, x, side='right')
    if temp[right - 1] != x:
        return right - 1, right

    pos = numpy.where(temp == x)
    return pos, pos
"""))
    # integrators
    r('m_gaussian_names', (IG, """    sub = (b - a) / 2.
    add = (b + a) / 2.

    if sub == 0:
        return 0.

    return sub * numpy.dot(f(sub * gauss_legendre.points + add), gauss_legendre.weights)
""", """    if a == b:
        return 0.

    half, middle = 0.5 * (b - a), 0.5 * (a + b)
    values = f(middle + half * gauss_legendre.points)

    return numpy.dot(gauss_legendre.weights, values) * half
"""))
    r('m_remap_affine', (IG, """    sub_x = (b - a) / 2.
    add_x = (b + a) / 2.
    norm_x = sub_x * x + add_x

    h_x = h(norm_x)
    g_x = g(norm_x)
    sub_y = (h_x - g_x) / 2.
    add_y = (h_x + g_x) / 2.
    norm_y = sub_y * y + add_y

    return sub_x * sub_y * f(norm_x, norm_y)
""", """    def affine(lower, upper, nodes):
        scale = (upper - lower) / 2.
        return scale, scale * nodes + (upper + lower) / 2.

    sub_x, norm_x = affine(a, b, x)
    sub_y, norm_y = affine(g(norm_x), h(norm_x), y)

    return f(norm_x, norm_y) * sub_y * sub_x
"""))
    r('m_bashforth_loop', (IG, """    if order is None:
        order = min(MAX_ADAMS_BASHFORTH_ORDER, len(fs))

    bs, divider = ADAMS_BASHFORTH_COEFFICIENTS[order]
    fs = fs[-order:]
    assert len(fs) == order, (len(fs), order)

    return h * sum(b * f for b, f in zip(bs, fs)) / divider
""", """    order = min(MAX_ADAMS_BASHFORTH_ORDER, len(fs)) if order is None else order

    coefficients, divider = ADAMS_BASHFORTH_COEFFICIENTS[order]
    recent = fs[len(fs) - order:] if len(fs) > order else fs
    assert len(recent) == order, (len(recent), order)

    total = 0
    for i in range(order):
        total += coefficients[i] * recent[i]
    return total * h / divider
"""))
    r('m_moulton_named', (IG, """    fs = fs[len(fs) - (order - 1):] + [A]
    assert len(fs) == order, (len(fs), order)

    return (
        y + h * sum(b * f for b, f in zip(bs, fs)) / divider
    ) / (1 - h * B * bs[-1] / divider)
""", """    fs = list(fs[len(fs) - order + 1:])
    fs.append(A)
    assert len(fs) == order, (len(fs), order)

    weights = [b / divider for b in bs]
    source = y + h * sum(w * f for w, f in zip(weights, fs))
    return source / (1 - h * B * weights[-1])
"""))
    r('m_paired_numpy', (PI, """    integral_1 = numpy.dot(numpy.transpose(weights), numpy.dot(mesh_1, weights))
    integral_f = numpy.dot(numpy.transpose(weights), numpy.dot(mesh_f, weights))

    return integral_1, integral_f
""", """    def contract(mesh):
        return numpy.dot(weights, numpy.dot(mesh, weights))

    return contract(mesh_1), contract(mesh_f)
"""))
    # utils
    r('m_history_index', (UT, """        if index in self.columns:
            return self._data[index][:self.length]
        return self.data[int(index)]
""", """        rows = self._data[:self.length]
        return rows[index] if index in self.columns else rows[int(index)]
"""))
    r('m_history_truncate', (UT, """    def truncate(self):
        self._data = numpy.delete(self._data, self.length + 1, axis=0)
        self.length -= 1

    def savetxt(self, f):
        heading""", """    def truncate(self):
        self.length -= 1

    def savetxt(self, f):
        heading"""))
    r('m_history_grow_early', (UT, """        if self.length == self.size or self.length == len(self._data) - 2:
            self.size = int(1.5*self.size)
            self._data = numpy.resize(self._data, self.size)
        self._data[self.length] = rec
        self.length += 1
""", """        position = self.length
        if position >= len(self._data) - 2:
            self.size = max(int(1.5*self.size), position + 10)
            self._data = numpy.resize(self._data, self.size)
        self._data[position] = rec
        self.length = position + 1
"""))
    r('m_row_repr', (UT, """        row = self.data[index]
        if names:
            heading = [
                '{} = {:.2e}'.format(name, row[name] / unit)
                + (' ' + unit_name if unit_name else '')
                for name, unit_name, unit in zip(self.columns, self.unit_names, self.units)
            ]
        else:
            heading = [
                '{:e}'.format(row[name] / unit)
                for name, unit_name, unit in zip(self.columns, self.unit_names, self.units)
            ]
        return '\\t'.join(heading)
""", """        row = self.data[index]
        cells = []
        for name, unit_name, unit in zip(self.columns, self.unit_names, self.units):
            value = row[name] / unit
            if not names:
                cells.append('{:e}'.format(value))
                continue
            cell = '{} = {:.2e}'.format(name, value)
            cells.append(cell + ' ' + unit_name if unit_name else cell)
        return '\\t'.join(cells)
"""))
    r('m_reaction_type_returns', (UT, """        if self.sumsides in [-1, -2]:
            return True
        return False
""", """        return self.sumsides == -1 or self.sumsides == -2
"""), (UT, """        if self.sumsides in [0]:
            return True
        return False
""", """        return not self.sumsides
"""))
    r('m_filter_particles', (UT, """    particles = [particle for particle in particles if particle.name not in names]
    return particles
""", """    return list(filter(lambda particle: particle.name not in names, particles))
"""))
    # particles
    r('m_noneq_measure', (NE, """    def density(particle):
        temp = particle.grid.TEMPLATE
        return simps((
            particle.distribution(temp) * temp**2
            * particle.dof / 2. / numpy.pi**2 / particle.params.a**3), temp
        )


    def energy_density""", """    def _moment(particle, weight, scale_power):
        momenta = particle.grid.TEMPLATE
        measure = particle.dof / (2. * numpy.pi**2 * particle.params.a**scale_power)
        return simps(measure * weight(momenta) * particle.distribution(momenta), momenta)


    def density(particle):
        return _moment(particle, lambda y: y**2, 3)


    def energy_density"""), (NE, """        temp = particle.grid.TEMPLATE
        return simps((
            particle.distribution(temp) * temp**2 * particle.conformal_energy(temp)
            * particle.dof / 2. / numpy.pi**2 / particle.params.a**4), temp
        )
""", """        return _moment(particle, lambda y: y**2 * particle.conformal_energy(y), 4)
"""))
    r('m_noneq_pressure', (NE, """        temp = particle.grid.TEMPLATE
        if particle.mass == 0.:        
            return simps((
                particle.distribution(temp) * temp**3
                * particle.dof / 6. / numpy.pi**2 / particle.params.a**4), temp
            )
        return simps((
            particle.distribution(temp) * temp**4 / particle.conformal_energy(temp)
            * particle.dof / 6. / numpy.pi**2 / particle.params.a**4), temp
        )
""", """        temp = particle.grid.TEMPLATE
        norm = particle.dof / 6. / numpy.pi**2 / particle.params.a**4
        if particle.mass:
            weight = temp**4 / particle.conformal_energy(temp)
        else:
            weight = temp**3
        return norm * simps(particle.distribution(temp) * weight, temp)
"""))
    r('m_noneq_entropy', (NE, """        integrand = numpy.zeros(len(temp))

        f = particle.distribution(temp)

        integrand[f>0] = (- particle.dof / 2 / numpy.pi**2 / particle.params.a**3
                        * temp[f>0]**2 * (f[f>0] * numpy.log(f[f>0]) + eta * (1 - eta * f[f>0]) * numpy.log(1 - eta * f[f>0])))
""", """        f = particle.distribution(temp)
        filled = f > 0
        occupied, momenta = f[filled], temp[filled]
        blocked = 1 - eta * occupied

        integrand = numpy.zeros(len(temp))
        integrand[filled] = (momenta**2 * (occupied * numpy.log(occupied) + eta * blocked * numpy.log(blocked))
                             * -particle.dof / (2 * numpy.pi**2 * particle.params.a**3))
"""))
    r('m_intermediate_common', (IM, """    density, _ = integrators.integrate_1D(
        lambda p: (
            particle.equilibrium_distribution_function(particle.energy(p) / particle.T)
            * p**2 * particle.dof / 2. / numpy.pi**2
        ), (0, 20 * particle.T)
    )
    return density
""", """    T = particle.T

    def integrand(p):
        occupation = particle.equilibrium_distribution_function(particle.energy(p) / T)
        return particle.dof * occupation * p**2 / (2. * numpy.pi**2)

    return integrators.integrate_1D(integrand, (0, 20 * T))[0]
"""))
    r('m_int_exponent', (IM, """        legendre = particle.dof / 2. / numpy.pi**2 * integrators.integrate_1D(
            lambda y: (
                y**y_power * numpy.exp(particle.conformal_energy(y) / particle.params.aT)
                / (numpy.exp(particle.conformal_energy(y) / particle.params.aT) + particle.eta)**2
            ),
            (particle.grid.MIN_MOMENTUM, particle.grid.MAX_MOMENTUM)
        )[0]

        return legendre
""", """        def integrand(y):
            boltzmann = numpy.exp(particle.conformal_energy(y) / particle.params.aT)
            return y**y_power * boltzmann / (boltzmann + particle.eta)**2

        integral, _ = integrators.integrate_1D(integrand, particle.grid.BOUNDS)
        return particle.dof / (2. * numpy.pi**2) * integral
"""))
    r('m_dust_power', (DU, """        particle.dof
        * numpy.sqrt(particle.mass * particle.T / 2. / numpy.pi)**3
        * numpy.exp(- particle.mass / particle.T)
""", """        particle.dof * numpy.exp(- particle.mass / particle.T)
        * (particle.mass * particle.T / (2. * numpy.pi))**1.5
"""))
    r('m_radiation_weight', (RA, """    density = particle.dof * numpy.pi**2 / 30. * particle.T**4
    if particle.statistics == STATISTICS.FERMION:
        # Multiplied by $\\frac78$ for fermions
        density *= 7./8.
    return density
""", """    weight = 7./8. if particle.statistics == STATISTICS.FERMION else 1.
    return weight * particle.dof * numpy.pi**2 * particle.T**4 / 30.
"""), (RA, """    density = 2. * numpy.pi**2 / 15. * particle.dof * (particle.aT)**3
    if particle.statistics == STATISTICS.FERMION:
        # Multiplied by $\\frac78$ for fermions
        density *= 7./8.
    return density
""", """    if particle.statistics != STATISTICS.FERMION:
        return 2. * numpy.pi**2 / 15. * particle.dof * particle.aT**3
    return 7. * numpy.pi**2 / 60. * particle.dof * particle.aT**3
"""))
    # semianalytic, environment
    r('m_semi_helpers', (SA, """        row = universe.kawano_data[-1]
        rates = [row[column] for column in universe.kawano_data.columns[-6:]]
        neutron_equilibration = (sum(rates[0::2]) / sum(rates[1::2]))
        if neutron_equilibration > 10 or neutron_equilibration < 0.1:
""", """        history = universe.kawano_data
        last, names = history[-1], history.columns[-6:]
        forward = sum(last[name] for name in names[::2])
        backward = sum(last[name] for name in names[1::2])
        neutron_equilibration = forward / backward
        if not 0.1 <= neutron_equilibration <= 10:
"""))
    r('m_semi_fraction', (SA, """        import math
        neutron_to_proton = (
            math.exp(-universe.kawano.q / nparams.T)
            * math.exp(-neutron_decay_time / neutron_lifetime)
        )

        helium_fraction = 2 * neutron_to_proton / (1 + neutron_to_proton)
""", """        import math
        neutron_to_proton = math.exp(
            -(universe.kawano.q / nparams.T + neutron_decay_time / neutron_lifetime))

        helium_fraction = 2 / (1 + 1 / neutron_to_proton)
"""))
    r('m_env_set', (ENV, """    default = defaults.get(name)
    val = os.environ.get(name, default)

    if isinstance(default, bool):
        # Any non-empty string is true for `bool`, the spelling has to be read instead
        if not isinstance(val, bool):
            val = val.strip().lower() not in ('', '0', '-1', 'f', 'false', 'n', 'no', 'off')
    elif default is not None:
        typ = type(default)
        val = typ(val)

    return val""", """    if name not in defaults:
        return os.environ.get(name)

    default = defaults[name]
    text = os.environ.get(name)
    if text is None:
        return default

    if isinstance(default, bool):
        return text.strip().lower() not in {'', '0', '-1', 'f', 'false', 'n', 'no', 'off'}
    return type(default)(text)"""))
    # interactions
    r('m_boltzmann_init', (BO, """        for key in kwargs:
            setattr(self, key, kwargs[key])

        if not self.Ms:
            self.Ms = []

        self.sides = tuple([item.side for item in self.reaction])
""", """        self.__dict__.update(kwargs)

        self.Ms = self.Ms or []
        self.sides = tuple(item.side for item in self.reaction)
"""))
    r('m_permutations', (IN, """        return itertools.permutations(
            [
                IntegralItem(side=-1,
                             specie=particle,
                             antiparticle=antiparticle,
                             index=i,
                             crossed=False)
                for i, (particle, antiparticle)
                in enumerate(zip(particles[0], antiparticles[0]))
            ] + [
                IntegralItem(side=1,
                             specie=particle,
                             antiparticle=antiparticle,
                             index=i,
                             crossed=False)
                for i, (particle, antiparticle)
                in enumerate(zip(particles[1], antiparticles[1]), len(particles[0]))
            ]
        )
""", """        items = []
        for side, species, flags in zip((-1, 1), particles, antiparticles):
            for particle, antiparticle in zip(species, flags):
                items.append(IntegralItem(side, particle, antiparticle, len(items), False))
        return itertools.permutations(items)
"""))
    r('m_crossing_loop', (IN, """                reaction = tuple(
                    self.cross_particle(item)
                    if (item.side > 0 and j <= i) or (item.side < 0 and j > i)
                    else item
                    for j, item in enumerate(perm)
                )

                lhs = [item for item in reaction if item.side == -1]
                rhs = [item for item in reaction if item.side == 1]

                lhs = lhs[0:1] + sorted(lhs[1:])
                rhs = sorted(rhs)
""", """                lhs = [self.cross_particle(item) if item.side == 1 else item for item in perm[:i + 1]]
                rhs = [item if item.side == 1 else self.cross_particle(item) for item in perm[i + 1:]]

                lhs[1:] = sorted(lhs[1:])
                rhs.sort()
"""))
    r('m_integrals_order', (IN, """        particle = item.specie
        particle_Ms = copy.deepcopy(self.Ms)

        for M in particle_Ms:
            if isinstance(M, FourParticleM):
                map = {item.index: i for i, item in enumerate(reaction)}
                M.apply_order(tuple(map[val] for val in M.order), reaction)
""", """        particle = item.specie
        particle_Ms = copy.deepcopy(self.Ms)

        positions = dict((entry.index, i) for i, entry in enumerate(reaction))
        for M in particle_Ms:
            if not isinstance(M, FourParticleM):
                continue
            order = [positions[val] for val in M.order]
            M.apply_order(order, reaction)
"""))
    r('m_dedup_merge', (IN, """        Ms = []
        for new_M in new_integral.Ms:
            reduced = False
            for old_M in old_integral.Ms:
                if old_M.K != 0.:
                    reduced = True
                    old_M += new_M
                    break

                if old_M.stackable(new_M):
                    reduced = True
                    old_M += new_M
                    break

            if not reduced:
                Ms.append(new_M)

        if Ms:
            old_integral.Ms = tuple(list(old_integral.Ms) + Ms)
""", """        remaining = []
        for new_M in new_integral.Ms:
            for old_M in old_integral.Ms:
                if old_M.K != 0. or old_M.stackable(new_M):
                    old_M += new_M
                    break
            else:
                remaining.append(new_M)

        if remaining:
            old_integral.Ms = tuple(old_integral.Ms) + tuple(remaining)
"""))
    r('m_f4_reaction_helper', (F4, """        if not self.creaction:
            self.creaction = [
                reaction_t(
                    specie=particle_t(
                        m=particle.specie.conformal_mass / params.aT,
                        grid=grid_t(
                            grid=particle.specie.grid.TEMPLATE / params.aT,
                            distribution=particle.specie._distribution
                        ),
                        eta=int(particle.specie.eta),
                        in_equilibrium=int(particle.specie.in_equilibrium),
                        T=particle.specie.aT / params.aT
                    ),
                    side=particle.side
                )
                for particle in self.reaction
            ]
""", """        if not self.creaction:
            self.creaction = [self._compiled(item, params.aT) for item in self.reaction]
"""), (F4, """    def integrate(self, ps, stepsize=None):
""", """    @staticmethod
    def _compiled(item, aT):
        specie = item.specie
        grid = grid_t(grid=specie.grid.TEMPLATE / aT, distribution=specie._distribution)
        compiled = particle_t(
            m=specie.conformal_mass / aT, grid=grid, eta=int(specie.eta),
            in_equilibrium=int(specie.in_equilibrium), T=specie.aT / aT
        )
        return reaction_t(specie=compiled, side=item.side)

    def integrate(self, ps, stepsize=None):
"""))
    r('m_f4_output', (F4, """        if hasattr(self.particle, 'fast_decay'):
            if self.kind in [CollisionIntegralKind.F_decay, CollisionIntegralKind.F_f_vacuum_decay]:
                return numpy.zeros(len(fullstack)), fullstack * constant
            if self.kind in [CollisionIntegralKind.F_creation, CollisionIntegralKind.F_1_vacuum_decay]:
                return fullstack * constant, numpy.zeros(len(fullstack))

        if self.kind in [CollisionIntegralKind.F_f, CollisionIntegralKind.F_decay, CollisionIntegralKind.F_f_vacuum_decay]:
            constant *= self.particle._distribution

        return fullstack * constant
""", """        result = fullstack * constant

        if hasattr(self.particle, 'fast_decay'):
            nothing = numpy.zeros(len(result))
            if self.kind in [CollisionIntegralKind.F_decay, CollisionIntegralKind.F_f_vacuum_decay]:
                return nothing, result
            elif self.kind in [CollisionIntegralKind.F_creation, CollisionIntegralKind.F_1_vacuum_decay]:
                return result, nothing

        if self.kind in [CollisionIntegralKind.F_f, CollisionIntegralKind.F_decay, CollisionIntegralKind.F_f_vacuum_decay]:
            result = result * self.particle._distribution

        return result
"""))
    r('m_f4_split', (F4, """            C = A + self.particle.distribution(ps * params.aT) * B
            if interpolate:
                C = list(interp1d(ps, C, kind='linear')(slice_1 / params.aT))
                # AB = list(interp1d(ps, AB, kind='linear')(slice_1 / params.aT))
                B = list(interp1d(ps, B, kind='linear')(slice_1 / params.aT))
            return numpy.array(list(C) + slice_2) * constant, numpy.array(list(B) + slice_2) * constant
""", """            C = A + B * self.particle.distribution(ps * params.aT)
            if interpolate:
                momenta = slice_1 / params.aT
                C, B = [interp1d(ps, values, kind='linear')(momenta) for values in (C, B)]
            total, loss = (numpy.array(list(values) + slice_2) for values in (C, B))
            return constant * total, constant * loss
"""))
    r('m_f3_constants_where', (F3, """        if self.particle.majorana:
            constant /= self.particle.dof
        else:
            constant /= self.particle.dof / 2
""", """        spin_states = self.particle.dof if self.particle.majorana else self.particle.dof / 2
        constant = constant / spin_states
"""), (F3, """        bounds = tuple(b1 / params.aT for b1 in self.grids.BOUNDS) + (self.reaction[2].specie.grid.MAX_MOMENTUM / params.aT, )
""", """        lower, upper = self.grids.BOUNDS
        bounds = (lower / params.aT, upper / params.aT,
                  self.reaction[2].specie.grid.MAX_MOMENTUM / params.aT)
"""))
    # kinematics
    r('m_three_bounds', (KI, """    beta = specie_3.grid.MAX_MOMENTUM / np.sqrt(specie_3.conformal_mass**2 + specie_3.grid.MAX_MOMENTUM**2)
    gamma = 1 / np.sqrt(1 - beta**2)
""", """    decaying_energy = np.sqrt(specie_3.conformal_mass**2 + specie_3.grid.MAX_MOMENTUM**2)
    beta = specie_3.grid.MAX_MOMENTUM / decaying_energy
    gamma = 1 / np.sqrt((1 - beta) * (1 + beta))
"""), (KI, """    if specie_1.mass == 0.:
        energy_1_lab_min = gamma * (energy_1_cm - beta * momentum_1_cm)
    else:
        energy_1_lab_min = specie_1.conformal_mass
""", """    energy_1_lab_min = specie_1.conformal_mass if specie_1.mass else gamma * (energy_1_cm - beta * momentum_1_cm)
"""))
    r('m_grid_bounds', (KI, """    slice_1 = [0] * len(grid[:lower_element_grid])
    slice_2 = grid[lower_element_grid:upper_element_grid + 1]
    slice_3 = [0] * (len(grid[upper_element_grid:]) - 1)

    if lower_element_grid == upper_element_grid:
        slice_2 = []

    return slice_1, np.array(slice_2), slice_3
""", """    below = [0] * lower_element_grid
    above = [0] * (len(grid) - upper_element_grid - 1)
    inside = np.array(grid[lower_element_grid:upper_element_grid + 1])

    if upper_element_grid == lower_element_grid:
        inside = np.array([])

    return below, inside, above
"""))
    r('m_cutoff_4p', (KI, """    # Cut off grid for creation reactions
    if utils.reaction_type(interaction).CREATION:
        slice_1, slice_2 = four_particle_grid_cutoff_creation(interaction.reaction)
        ps = slice_1 / interaction.particle.params.aT

    # Cut off grid for scattering reactions
    if utils.reaction_type(interaction).SCATTERING:
        slice_1, slice_2 = four_particle_grid_cutoff_scattering(interaction.particle)
        ps = slice_1 / interaction.particle.params.aT

    # Cut off grid for decay reactions
    if utils.reaction_type(interaction).DECAY:
        slice_1, slice_2 = four_particle_grid_cutoff_decay(interaction.particle)
        ps = slice_1 / interaction.particle.params.aT

    return ps, slice_1, slice_2
""", """    kind = utils.reaction_type(interaction)
    particle = interaction.particle

    if kind.CREATION:
        slice_1, slice_2 = four_particle_grid_cutoff_creation(interaction.reaction)
    elif kind.SCATTERING:
        slice_1, slice_2 = four_particle_grid_cutoff_scattering(particle)
    elif kind.DECAY:
        slice_1, slice_2 = four_particle_grid_cutoff_decay(particle)

    return slice_1 / particle.params.aT, slice_1, slice_2
"""))
    r('m_decoupling_table', (KI, """    if mass > CONST.lambda_QCD:
        g_star = 61.75
    elif mass > muon_mass:
        g_star = 14.25
    else:
        g_star = 10.75

    theta_sq = mixing_angle**2

    return (1.66 * np.sqrt(g_star) / (CONST.M_p * CONST.G_F**2 * theta_sq))**(1/3)
""", """    thresholds = [(CONST.lambda_QCD, 61.75), (muon_mass, 14.25)]
    g_star = next((dof for threshold, dof in thresholds if mass > threshold), 10.75)

    rate = CONST.M_p * (CONST.G_F * mixing_angle)**2
    return np.cbrt(1.66 * g_star**0.5 / rate)
"""))
    r('m_decoupling_max', (KI, """    T_dec_rel = decoupling_temperature_relativistic(mass, mixing_angle)
    if 1.5 * T_dec_rel > 1.5 * mass:
        os.environ['Relativistic_decoupling'] = 'True'
        return 1.5 * T_dec_rel
    elif mass <= 1.5 * T_dec_rel <= 1.5 * mass:
        return 1.5 * mass
    return mass
""", """    temperature = 1.5 * decoupling_temperature_relativistic(mass, mixing_angle)
    if temperature < mass:
        return mass
    if temperature <= 1.5 * mass:
        return 1.5 * mass
    os.environ['Relativistic_decoupling'] = 'True'
    return temperature
"""))
    r('m_fast_decay_lists', (KI, """    F1s = []
    Ffs = []
    Ffs_temp = []
    dofs = []
    for integral in particle.collision_integrals:
        F1, Ff = integral.integrate(ps, stepsize=particle.params.h)
        F1s.append(F1)
        Ffs_temp.append(Ff)
        dofs.append(particle.dof if particle.majorana else particle.dof / 2)
""", """    Ffs = []
    pairs = [integral.integrate(ps, stepsize=particle.params.h) for integral in particle.collision_integrals]
    F1s = [pair[0] for pair in pairs]
    Ffs_temp = [pair[1] for pair in pairs]
    dofs = [particle.dof if particle.majorana else particle.dof / 2] * len(pairs)
"""))
    r('m_fast_decay_end', (KI, """        coll_creation_th = sum(F1s)
        coll_thermalization_th = (distr_bef - distr_ini)/particle.params.h
        coll_decay_th = sum(Ffs)
        coll_integral_th = coll_creation_th + coll_thermalization_th + coll_decay_th
        particle._distribution = distr_bef
        return coll_integral_th

    coll_creation = sum(F1s)
    coll_decay = sum(Ffs)
    coll_integral = coll_creation + coll_decay
    particle._distribution = distr_bef
    return coll_integral""", """        correction = (distr_bef - distr_ini)/particle.params.h
    else:
        correction = 0

    particle._distribution = distr_bef
    return sum(F1s) + correction + sum(Ffs)"""))
    r('m_interpolation_nodes', (KI, """    interpolate = False
    grid = interaction.particle.grid
    if grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1) < environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV:
        steps = int(np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV)))
        interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], steps))
        ps = ps[interp_pos]
        interpolate = True
    return ps, interpolate
""", """    resolution = environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV
    grid = interaction.particle.grid
    spacing = grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1)
    if spacing >= resolution:
        return ps, False

    steps = int(np.ceil(slice_1[-1] / resolution))
    return ps[np.searchsorted(ps, np.linspace(ps[0], ps[-1], steps))], True
"""))
    r('m_multiplier_helper', (KI, """        left = Counter(item.specie for item in interaction.reaction if item.side == -1)
        right = Counter(item.specie for item in interaction.reaction if item.side == 1)
        if left[interaction.reaction[0].specie] == 2 and right[interaction.reaction[0].specie] == 0:
            return 2.
    return 1.

def store""", """        first = interaction.reaction[0].specie
        sides = [item.side for item in interaction.reaction if item.specie == first]
        if sides == [-1, -1]:
            return 2.
    return 1.

def store"""))
    # library
    r('m_sterile_scattering', (NU, """        return [CrossGeneratingInteraction(
            name="Sterile-active neutrino scattering",
            particles=particles,
            antiparticles=((False, False), (False, False)),
            Ms=Ms,
            integral_type=FourParticleIntegral,
            kind=kind
        ) for particles, Ms in zip(
            [((sterile, active_b), (active_a, active_b)),
            ((active_a, active_b), (sterile, active_b))],
            [(SterileM(theta=theta, K1=K1, order=(0, 1, 2, 3)), ),
            (SterileM(theta=theta, K1=K1, order=(2, 3, 0, 1)), )]
        )]
""", """        initial, final = (sterile, active_b), (active_a, active_b)
        result = []
        for sides, order in [((initial, final), (0, 1, 2, 3)), ((final, initial), (2, 3, 0, 1))]:
            result.append(CrossGeneratingInteraction(
                name="Sterile-active neutrino scattering",
                particles=sides,
                antiparticles=((False, False), (False, False)),
                Ms=(SterileM(theta=theta, K1=K1, order=order), ),
                integral_type=FourParticleIntegral,
                kind=kind
            ))
        return result
"""))
    r('m_sterile_quarks', (NU, """        for quark in quarks:
            for active in neutrinos:
                if thetas[active.flavour]:
                    inters.append(interactions.sterile_quark_neutral(
                        theta=thetas[active.flavour], sterile=sterile,
                        active=active, quark=quark, kind=kind
                    ))

        for up, down in itertools.product([q for q in quarks if q.Q == 2./3.],
                                          [q for q in quarks if q.Q == -1./3.]):
            for lepton in leptons:
                if thetas[lepton.flavour]:
                    inters.append(interactions.sterile_quark_charged(
                        theta=thetas[lepton.flavour], sterile=sterile,
                        lepton=lepton, up=up, down=down, kind=kind
                    ))

        return inters
""", """        mixed = [active for active in neutrinos if thetas[active.flavour]]
        inters += [
            interactions.sterile_quark_neutral(
                theta=thetas[active.flavour], sterile=sterile, active=active, quark=quark, kind=kind
            ) for quark in quarks for active in mixed
        ]

        ups = [q for q in quarks if q.Q > 0]
        downs = [q for q in quarks if q.Q < 0]
        for lepton in leptons:
            theta = thetas[lepton.flavour]
            if not theta:
                continue
            for up in ups:
                for down in downs:
                    inters.append(interactions.sterile_quark_charged(
                        theta=theta, sterile=sterile, lepton=lepton, up=up, down=down, kind=kind
                    ))

        return inters
"""))
    r('m_sterile_kinds', (NU, """        for inter in inters:
            for integral in inter.integrals:
                if hasattr(integral.reaction[0].specie, 'fast_decay'):
                    integral.kind = CollisionIntegralKind.F_creation

        return inters

    # ## Quark interactions
""", """        cls._only_created(inters)

        return inters

    @staticmethod
    def _only_created(inters):
        integrals = itertools.chain.from_iterable(inter.integrals for inter in inters)
        for integral in integrals:
            specie = integral.reaction[0].specie
            if hasattr(specie, 'fast_decay'):
                integral.kind = CollisionIntegralKind.F_creation

    # ## Quark interactions
"""))
