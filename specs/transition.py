"""Changes of the species content and of the set of reactions."""
from common import UNITS


def particle_filter(names, particles):
    return [p for p in particles if p.name not in names]


def net(integral):
    return sum([item.side for item in integral.reaction])


def interaction_filter(names, interaction, first_only=True, reaction_type=[None]):
    for inter in interaction:
        if first_only:
            inter.integrals = [i for i in inter.integrals if i.reaction[0].specie.name not in names and net(i) not in reaction_type]
        else:
            inter.integrals = [i for i in inter.integrals
                               if all(item.specie.name not in names for item in i.reaction) and net(i) not in reaction_type]
    return interaction


def add_particles(self, particles):
    for p in particles:
        p.set_params(self.params)
    from common import utils
    self.particles = utils.particle_orderer(self.particles + particles)


def with_masses(particles, masses, names):
    for p, m, n in zip(particles, masses, names):
        p.mass = m
        p.name = n
        p.symbol = n
