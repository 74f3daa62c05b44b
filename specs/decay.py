"""Fast decaying species: what is created in a step decays in that step."""
import os
import numpy
from collections import Counter
from scipy.integrate import simps


def with_channels(particle, channels):
    particle.collision_integrals = channels
    for c in channels:
        c.particle = particle


def two_body(particle, channels, reactions, thermal, redistributed):
    with_channels(particle, channels)
    for c, r in zip(channels, reactions):
        c.reaction = r
        r[0].side = -1
        r[1].side = 1
        r[2].side = 1
    particle.thermal_dyn = thermal
    particle.majorana = thermal
    particle.params.h = particle.params.dy
    particle.conformal_mass = particle.mass
    if redistributed:
        particle.thermalization = True


def named(key, items):
    return Counter(key) == Counter(''.join([item.specie.symbol for item in items]))


def known(channels):
    """each channel is a decay listed among the decays of its first species"""
    return all(any(named(k, c.reaction[1:]) for k in c.reaction[0].specie.BR) and sum([i.side for i in c.reaction]) in (1, 2) for c in channels)


def branching(parent, products):
    for key in parent.BR:
        if named(key, products):
            b = parent.BR[key]
    return b


def fast_decay(particle, ps):
    g = particle.grid.TEMPLATE
    h = particle.params.h
    rates = [i.integrate(ps, stepsize=h) for i in particle.collision_integrals]
    dof = particle.dof if particle.majorana else particle.dof / 2
    source = sum([r[0] for r in rates])
    left = 0
    if particle.thermal_dyn:
        left = particle.equilibrium_distribution(conf_mass=particle.mass * particle.aT / particle.decoupling_temperature) \
            * numpy.exp((particle.t_decoupling - particle.params.t) / particle.lifetime)
    direct = left + source * h
    if hasattr(particle, 'thermalization'):
        w = particle.conformal_mass * particle.aT
        before = left + h * 4 * numpy.pi * simps(source * g**2, g) * numpy.exp(-g**2 / (2 * w)) / (2 * numpy.pi * w)**(3 / 2)
        redistributed = (before - direct) / h
    else:
        before = direct
        redistributed = 0
    number = simps(source * dof * g**2, g)
    loss = 0
    for i, r in zip(particle.collision_integrals, rates):
        f = r[1] * before
        lost = -simps(f * dof * g**2, g)
        if lost != 0:
            loss = loss + f * branching(i.reaction[0].specie, i.reaction[1:]) * number / lost
    particle.num_creation = number
    particle._distribution = before
    return source + redistributed + loss


def scaling(interaction, fullstack, constant):
    p = interaction.particle
    parent = interaction.reaction[-1].specie
    net = sum([i.side for i in interaction.reaction])
    if (net == -1 or net == -2) and hasattr(parent, 'fast_decay'):
        g = p.grid.TEMPLATE
        created = simps(constant * fullstack * (p.dof if p.majorana else p.dof / 2) * g**2, g)
        if created == 0:
            return False
        return fullstack * branching(parent, interaction.reaction[:-1]) * parent.num_creation / created
    return fullstack


def has_decayed(particle, ps):
    recorded = particle.data['params']['density']
    if len(particle.data['distribution']) > 1 and particle.mass != 0 and recorded[0] != 0 and not hasattr(particle, 'fast_decay'):
        # a comoving volume: densities dilute with the cube of the initial scale factor
        if particle.density < recorded[0] * 1e-10 * (particle.params.a_ini / 10)**3:
            particle.decayed = True
            particle._distribution = numpy.zeros(len(ps))
            if particle.name == 'Sterile neutrino (Dirac)':
                os.environ['STERILE_DECAYED'] = 'True'
            return True
    return False
