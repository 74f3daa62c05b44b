import os
import numpy
from collections import Counter
from scipy.integrate import simps

import environment
from common import CONST, UNITS
from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind

HNL = 'Sterile neutrino (Dirac)'


def arrow(interaction):
    """sum of the sides: -1 / -2 creation of the first particle, 0 scattering, 1 / 2 decay"""
    return sum(item.side for item in interaction.reaction)


def with_reaction(interaction, items):
    interaction.reaction = items
    interaction.particle = items[0].specie
    items[0].side = -1


def creation(interaction):
    s = arrow(interaction)
    return s == -1 or s == -2


def scattering(interaction):
    return arrow(interaction) == 0


def decay(interaction):
    s = arrow(interaction)
    return s == 1 or s == 2


def cm_momentum(M, m1, m2):
    # two-body decay momentum: sqrt(lambda(M^2, m1^2, m2^2)) / 2M
    return numpy.sqrt((M**2 - m1**2 - m2**2)**2 - 4 * m1**2 * m2**2) / (2 * M)


def paired(interaction):
    return interaction.kind in [Kind.Full, Kind.Full_vacuum_decay] or hasattr(interaction.particle, 'fast_decay')


def return_function(interaction, ps):
    z = numpy.zeros(len(ps))
    if paired(interaction):
        return z, z
    return z


def three_particle_bounds_creation(reaction):
    A, B, C = reaction[0].specie, reaction[1].specie, reaction[2].specie
    m = A.conformal_mass
    M = C.conformal_mass
    P = C.grid.MAX_MOMENTUM
    k = cm_momentum(M, B.conformal_mass, m)
    e = numpy.sqrt(m**2 + k**2)
    v = P / numpy.sqrt(M**2 + P**2)
    boost = 1 / numpy.sqrt(1 - v**2)
    hi = boost * (e + v * k)
    if A.mass == 0:
        lo = boost * (e - v * k)
    else:
        lo = m
    return numpy.sqrt(lo**2 - m**2), numpy.sqrt(hi**2 - m**2)


def split(grid, upper):
    return numpy.array(grid[:upper + 1]), [0] * (len(grid[upper:]) - 1)


def four_particle_bounds_creation(reaction):
    A, B, C, Dp = reaction[0].specie, reaction[1].specie, reaction[2].specie, reaction[3].specie
    E = numpy.sqrt(Dp.grid.MAX_MOMENTUM**2 + Dp.conformal_mass**2) - B.conformal_mass - C.conformal_mass
    return max(numpy.sqrt(E**2 - A.conformal_mass**2), environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)


def four_particle_grid_cutoff_creation(reaction):
    grid = reaction[0].specie.grid.TEMPLATE
    upper = min(len(grid) - 1, numpy.searchsorted(grid, four_particle_bounds_creation(reaction)))
    return split(grid, upper)


def momentum_limit(particle, default):
    if particle.name == HNL:
        return particle.grid.MAX_MOMENTUM
    if environment.get('HNL_ENERGY'):
        E = float(environment.get('HNL_ENERGY'))
        return max(numpy.sqrt(E**2 - particle.conformal_mass**2), environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)
    return default


def four_particle_grid_cutoff_scattering(particle):
    grid = particle.grid.TEMPLATE
    k = momentum_limit(particle, environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)
    return split(grid, min(len(grid) - 1, numpy.searchsorted(grid, k)))


def four_particle_grid_cutoff_decay(particle):
    grid = particle.grid.TEMPLATE
    k = momentum_limit(particle, particle.grid.MAX_MOMENTUM)
    return split(grid, min(len(grid) - 1, numpy.searchsorted(grid, k)))


def three_particle_grid_bounds_creation(reaction):
    lo, hi = three_particle_bounds_creation(reaction)
    grid = reaction[0].specie.grid.TEMPLATE
    i = max(0, numpy.searchsorted(grid, lo, side='right') - 1)
    j = min(len(grid) - 1, numpy.searchsorted(grid, hi))
    below = [0] * len(grid[:i])
    above = [0] * (len(grid[j:]) - 1)
    if i == j:
        inside = []
    else:
        inside = grid[i:j + 1]
    return below, numpy.array(inside), above


def grid_cutoff_4p(interaction):
    if creation(interaction):
        inside, rest = four_particle_grid_cutoff_creation(interaction.reaction)
    elif scattering(interaction):
        inside, rest = four_particle_grid_cutoff_scattering(interaction.particle)
    else:
        inside, rest = four_particle_grid_cutoff_decay(interaction.particle)
    return inside / interaction.particle.params.aT, inside, rest


def grid_cutoff_3p(interaction, ps):
    if not creation(interaction):
        return ps, [], []
    below, inside, above = three_particle_grid_bounds_creation(interaction.reaction)
    if not inside.any():
        return False
    return inside / interaction.particle.params.aT, below, above


# ---- which reactions are skipped ---------------------------------------------------
def nothing_made_yet(interaction):
    last, first = interaction.reaction[-1].specie, interaction.reaction[0].specie
    return (creation(interaction) and hasattr(last, 'fast_decay') and last.num_creation == 0) or \
        (decay(interaction) and hasattr(first, 'fast_decay') and first.num_creation == 0)


def Neglect3pInteraction(interaction, ps):
    first = interaction.reaction[0].specie
    if first.mass == 0 and interaction.reaction[1].side == 1:
        return True
    if paired(interaction):
        if creation(interaction) and interaction.reaction[-1].specie.decayed:
            return True
        if nothing_made_yet(interaction):
            return True
    return False


def diluted(item, thr):
    return item.specie.density / item.specie.data['params']['density'][0] < thr


def Neglect4pInteraction(interaction, ps):
    r = interaction.reaction
    par = interaction.particle.params
    if creation(interaction) and r[-1].specie.decayed:
        return True
    thr = 1e-10 * (par.a_ini / 10)**3
    if scattering(interaction):
        if (diluted(r[0], thr) or diluted(r[1], thr)) and (diluted(r[2], thr) or diluted(r[3], thr)):
            return True
    if nothing_made_yet(interaction):
        return True
    if scattering(interaction) and any(item.specie.name == HNL for item in r):
        if environment.get('Relativistic_decoupling') and par.T < par.m / par.a_ini / 15.:
            return True
        if par.T < 1. * UNITS.MeV:
            return True
    if decay(interaction) and interaction.particle.name == HNL and par.T > interaction.particle.mass:
        return True
    return False


# ---- identical particles --------------------------------------------------------------
def copies(interaction, side):
    me = interaction.reaction[0].specie
    return Counter(item.specie for item in interaction.reaction if item.side == side)[me]


def counted(interaction, last):
    return HNL in [item.specie.name for item in interaction.reaction] or \
        (creation(interaction) and not (interaction.reaction[last].specie.majorana and interaction.particle.Q))


def CollisionMultiplier4p(interaction):
    if counted(interaction, 3):
        l, r = copies(interaction, -1), copies(interaction, 1)
        if l == 2 and (r == 0 or r == 1):
            return 2.
        if l == 3 and r == 0:
            return 3.
    return 1.


def CollisionMultiplier3p(interaction):
    if counted(interaction, 2):
        if copies(interaction, -1) == 2 and copies(interaction, 1) == 0:
            return 2.
    return 1.


# ---- sampling -------------------------------------------------------------------------
def interpolation_4p(interaction, ps, slice_1):
    grid = interaction.particle.grid
    step = environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV
    if grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1) < step:
        n = int(numpy.ceil(slice_1[-1] / step))
        return ps[numpy.searchsorted(ps, numpy.linspace(ps[0], ps[-1], n))], True
    return ps, False


# ---- decays -----------------------------------------------------------------------------
def has_decayed(particle, ps):
    thr = 1e-10 * (particle.params.a_ini / 10)**3
    if hasattr(particle, 'fast_decay'):
        return False
    n0 = particle.data['params']['density'][0]
    if len(particle.data['distribution']) > 1 and particle.mass != 0 and n0 != 0 and particle.density / n0 < thr:
        particle.decayed = True
        particle._distribution = numpy.zeros(len(ps))
        return True
    return False


# ---- decoupling of sterile neutrinos and momentum grids -----------------------------------
def decoupling_temperature_relativistic(mass, mixing_angle):
    if mass > CONST.lambda_QCD:
        g = 61.75
    elif mass > 105.658 * UNITS.MeV:
        g = 14.25
    else:
        g = 10.75
    return (1.66 * numpy.sqrt(g) / (CONST.M_p * CONST.G_F**2 * mixing_angle**2))**(1. / 3.)


def decoupling_temperature(mass, mixing_angle):
    T = 1.5 * decoupling_temperature_relativistic(mass, mixing_angle)
    if T > 1.5 * mass:
        return T
    if T >= mass:
        return 1.5 * mass
    return mass


def sampling():
    return environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV


def grid_resolution_HNL(mass, mixing_angle):
    return numpy.sqrt(3 - 8 / numpy.pi) * UNITS.MeV


def near_muon(mass):
    return mass > 105.658 * UNITS.MeV and mass - 105.658 * UNITS.MeV < 10 * UNITS.MeV


def grid_resolution_neutrino(mass, mixing_angle):
    if mass < 134.98 * UNITS.MeV:
        return sampling() / 2. if near_muon(mass) else sampling()
    masses = numpy.array([134.98, 139.57, 547.86, 775.11, 782.65, 957.78, 1019.46]) * UNITS.MeV
    m = masses[numpy.searchsorted(masses, mass) - 1]
    return min(.75 * 2 * cm_momentum(mass, 0, m) * grid_resolution_HNL(mass, mixing_angle) / mass, sampling() / 3.)


def spread(E, k, m, M, dy):
    return numpy.sqrt((E + dy * k / M)**2 - m**2) - numpy.sqrt((E - dy * k / M)**2 - m**2)


def grid_resolution_meson(mass, mixing_angle):
    if mass < 134.98 * UNITS.MeV:
        return sampling()
    masses = numpy.array([134.98, 139.57, 493.677, 497.611, 547.86, 775.11, 782.65, 957.78, 1019.46]) * UNITS.MeV
    m = masses[numpy.searchsorted(masses, mass) - 1]
    k = cm_momentum(mass, 0, m)
    d = spread(numpy.sqrt(k**2 + m**2), k, m, mass, grid_resolution_HNL(mass, mixing_angle))
    if not d > 0:
        d = sampling() / 3.
    return min(d / 3., sampling())


def grid_resolution_lepton(mass, mixing_angle, std=False):
    mu, pi = 105.658 * UNITS.MeV, 139.57 * UNITS.MeV
    if mass < pi or std:
        return sampling() / 2. if near_muon(mass) else sampling()
    k = cm_momentum(pi, 0, mu)
    return min(spread(numpy.sqrt(k**2 + mu**2), k, mu, pi, 0.67 * numpy.sqrt(pi * UNITS.MeV * 0.5)), sampling())


def grid_params_HNL(mass, mixing_angle):
    a = UNITS.MeV / decoupling_temperature(mass, mixing_angle)
    k = numpy.sqrt((UNITS.MeV * numpy.log(1e100))**2 - (mass * a)**2)
    return int(k / grid_resolution_HNL(mass, mixing_angle)), k


def grid_params_neutrino(mass, mixing_angle):
    k = mass * environment.get('MAX_SCALE_FACTOR')
    return int(k / grid_resolution_neutrino(mass, mixing_angle)), k


def produced(mass, m):
    if mass - m < 0.35 * UNITS.MeV:
        return 10 * environment.get('MAX_SCALE_FACTOR') * UNITS.MeV
    return numpy.sqrt(mass**2 - m**2) * environment.get('MAX_SCALE_FACTOR')


def grid_params_meson(mass, mixing_angle):
    pi = 134.98 * UNITS.MeV
    k = environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV if mass < pi else produced(mass, pi)
    return int(k / grid_resolution_meson(mass, mixing_angle)), k


def grid_params_lepton(mass, mixing_angle, std=False):
    mu = 105.658 * UNITS.MeV
    k = mass * environment.get('MAX_SCALE_FACTOR') if mass < mu or std else produced(mass, mu)
    return int(k / grid_resolution_lepton(mass, mixing_angle, std)), k


def known_arrow(interaction):
    return arrow(interaction) in [-2, -1, 0, 1, 2]
