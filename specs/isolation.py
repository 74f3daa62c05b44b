"""Objects built after others have been set up and changed."""
import particles
import interactions
from common import STATISTICS, UNITS
from interactions.four_particle import FourParticleM
from interactions.three_particle import ThreeParticleM
from library import SM


def look(p):
    return (p.mass, p.decoupling_temperature, p.dof, p.statistics, p.thermal_dyn, p.params, p.name, p.symbol, p.grid, p.decayed,
            p.collision_integrals, p._distribution, p.collision_integral,
            p.data['distribution'].length, p.data['collision_integral'].length, p.data['params'].length, p.data['params'].columns,
            hasattr(p, 'fast_decay'), hasattr(p, 'BR'))


def particle(value, grid, other):
    return look(particles.Particle(name='second', mass=value, grid=grid))


def particle_after(value, grid, other):
    p = particles.Particle(name='first', dof=4, mass=other, statistics=STATISTICS.BOSON, grid=grid, thermal_dyn=False,
                           decoupling_temperature=other, symbol='f', fast_decay=True, BR=other)
    p.collision_integrals.append(other)
    p.data['distribution'].length = 5
    p.data['collision_integral'].length = 6
    p.data['params'].length = 7
    p.decayed = True
    p._distribution = other
    return look(particles.Particle(name='second', mass=value, grid=grid))


def defaults(value, grid, other):
    p = particles.Particle()
    return (p.grid, p.mass, p.dof, p.collision_integrals)


def defaults_after(value, grid, other):
    p = particles.Particle(mass=other, grid=grid, dof=other)
    p.collision_integrals.append(other)
    return defaults(value, grid, other)


def table(value, grid, other):
    return SM.particles.photon, SM.particles.leptons.electron, SM.particles.hadrons.charged_pion


def table_after(value, grid, other):
    p = particles.Particle(**SM.particles.photon)
    p.dof = other
    p.set_grid(grid)
    q = particles.Particle(**SM.particles.leptons.electron)
    q.mass = other
    r = particles.Particle(**SM.particles.hadrons.charged_pion)
    r.Q = other
    return table(value, grid, other)


def element(value, grid, other):
    M = FourParticleM(K1=value)
    N = ThreeParticleM(K=value)
    return M.K1, M.K2, M.K, M.order, N.K, FourParticleM().K1, FourParticleM().order, ThreeParticleM().K


def element_after(value, grid, other):
    M = FourParticleM(K1=other, K2=other, K=other, order=(3, 2, 1, 0))
    M += FourParticleM(K1=other, K2=other)
    M *= other
    N = ThreeParticleM(K=other)
    N += ThreeParticleM(K=other)
    return element(value, grid, other)


def two_grids(value, grid, other):
    g = type(grid)(MOMENTUM_SAMPLES=7, MAX_MOMENTUM=value)
    return g.MOMENTUM_SAMPLES, g.MAX_MOMENTUM, g.BOUNDS
