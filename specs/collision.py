"""Collision integrals: what is handed to the integrator and how its result is
normalised."""
import numpy
from scipy.interpolate import interp1d
import environment
from common import CONST, kinematics
from interactions.four_particle.cpp.integral import integration, M_t, grid_t, particle_t, reaction_t, CollisionIntegralKind as Kind
from interactions.three_particle.cpp.integral import integration_3, grid_t3, particle_t3, reaction_t3

GAIN = [Kind.F_creation, Kind.F_1_vacuum_decay]
LOSS = [Kind.F_decay, Kind.F_f_vacuum_decay]
SPLIT = [Kind.Full, Kind.Full_vacuum_decay]


def fresh(integral):
    integral.creaction = None
    integral.cMs = None


def fresh_3p(integral):
    fresh(integral)
    integral.grids.BOUNDS = (integral.grids.MIN_MOMENTUM, integral.grids.MAX_MOMENTUM)


def matrix_elements(integral, Ms):
    fresh(integral)
    integral.Ms = Ms


def states(particle):
    """states of one particle: a Dirac fermion's antiparticle is a species of its own"""
    return particle.dof if particle.majorana else particle.dof / 2


def per_step(params):
    """rates are per unit of the scale variable"""
    return 1 / params.H if environment.get('LOGARITHMIC_TIMESTEP') else 1 / (params.H * params.x)


def registered(integral):
    p = integral.particle
    if p.params.T < p.decoupling_temperature and not p.in_equilibrium:
        p.collision_integrals.append(integral)


def initialize_4p(integral):
    registered(integral)
    if integral.grids is None:
        integral.grids = (integral.reaction[1].specie.grid, integral.reaction[2].specie.grid)
    fresh(integral)


def initialize_3p(integral):
    registered(integral)
    integral.par = integral.particle.params
    if integral.grids is None:
        integral.grids = integral.reaction[1].specie.grid


def contribution(integral, values, c):
    """one kind of term; species that decay within a step keep gain and loss apart"""
    if hasattr(integral.particle, 'fast_decay'):
        nothing = numpy.zeros(len(values))
        if integral.kind in GAIN:
            return values * c, nothing
        if integral.kind in LOSS:
            return nothing, values * c
    if integral.kind in LOSS or integral.kind == Kind.F_f:
        return values * c * integral.particle._distribution
    return values * c


def integrate_4p(integral, ps, h):
    if kinematics.Neglect4pInteraction(integral, ps):
        return kinematics.return_function(integral, ps)
    p = integral.particle
    u = p.params
    reaction = [reaction_t(particle_t(int(i.specie.eta), i.specie.conformal_mass / u.aT,
                                      grid_t(i.specie.grid.TEMPLATE / u.aT, i.specie._distribution),
                                      int(i.specie.in_equilibrium), i.specie.aT / u.aT), i.side)
                for i in integral.reaction]
    weak = 32 * CONST.G_F**2
    Ms = [M_t(list(M.order), M.K1 / weak, M.K2 / weak, M.K / weak) for M in integral.Ms]
    g1, g2 = integral.grids[0], integral.grids[1]
    limits = [g1.MIN_MOMENTUM / u.aT, g1.MAX_MOMENTUM / u.aT, g2.MIN_MOMENTUM / u.aT, g2.MAX_MOMENTUM / u.aT,
              integral.reaction[3].specie.grid.MAX_MOMENTUM / u.aT]
    c = weak * (u.aT / u.a)**5 / (64 * numpy.pi**3) * per_step(u) * kinematics.CollisionMultiplier4p(integral) / states(p)
    kinematics.store_energy(integral)
    nodes, inside, rest = kinematics.grid_cutoff_4p(integral)
    nodes, interpolated = kinematics.interpolation_4p(integral, nodes, inside)

    def term(kind):
        return integration(nodes, limits[0], limits[1], limits[2], limits[3], limits[4], reaction, Ms, h, kind)

    def on_grid(values):
        if interpolated:
            return list(interp1d(nodes, values, kind='linear')(inside / u.aT))
        return list(values)

    if integral.kind in SPLIT and not hasattr(p, 'fast_decay'):
        linear = term(Kind.F_f)
        total = term(Kind.F_1) + p.distribution(nodes * u.aT) * linear
        return numpy.array(on_grid(total) + rest) * c, numpy.array(on_grid(linear) + rest) * c
    values = numpy.array(on_grid(numpy.array(term(integral.kind))) + rest)
    scaled = kinematics.scaling(integral, values, c)
    if scaled is False:
        return kinematics.return_function(integral, values)
    return contribution(integral, scaled, c)


def integrate_3p(integral, ps, h):
    if kinematics.Neglect3pInteraction(integral, ps):
        return kinematics.return_function(integral, ps)
    p = integral.particle
    u = p.params
    reaction = [reaction_t3(particle_t3(int(i.specie.eta), i.specie.conformal_mass / u.aT,
                                        grid_t3(i.specie.grid.TEMPLATE / u.aT, i.specie._distribution),
                                        int(i.specie.in_equilibrium), i.specie.aT / u.aT), i.side)
                for i in integral.reaction]
    low, high = integral.grids.MIN_MOMENTUM / u.aT, integral.grids.MAX_MOMENTUM / u.aT
    top = integral.reaction[2].specie.grid.MAX_MOMENTUM / u.aT
    K = sum([M.K for M in integral.Ms])
    moving = K * u.a / u.aT / (32 * numpy.pi)
    rest = 0 if p.mass == 0 else K * u.aT / u.a / (8 * numpy.pi) / p.mass**2
    # the first momentum of the grid is zero
    c = numpy.append(rest, numpy.repeat(moving, len(ps) - 1)) * per_step(u) * kinematics.CollisionMultiplier3p(integral) / states(p)
    cut = kinematics.grid_cutoff_3p(integral, ps / u.aT)
    if cut is False:
        return kinematics.return_function(integral, ps / u.aT)
    nodes, below, above = cut

    def term(kind):
        return numpy.array(below + integration_3(nodes, low, high, top, reaction, h, kind) + above)

    if integral.kind in SPLIT and not hasattr(p, 'fast_decay'):
        return term(Kind.Full) * c, term(Kind.F_f) * c
    values = term(integral.kind)
    scaled = kinematics.scaling(integral, values, c)
    if scaled is False:
        return kinematics.return_function(integral, values)
    return contribution(integral, scaled, c)
