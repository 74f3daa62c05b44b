"""Reactions: a process, all its crossings, and the squared matrix element each of
them has.  An element is a list of (K, K1, K2, i, j, k, l): constant part and
coefficients of (p_i p_j)(p_k p_l) and m_i m_j (p_k p_l), where the momenta are
numbered in the order in which the process lists its particles."""
from interactions import CrossGeneratingInteraction
from interactions.four_particle import FourParticleIntegral, FourParticleM
from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM

PAIRS = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]


def scalar_product(dots, i, j):
    return dots[(min(i, j), max(i, j))]


def polynomial(terms, masses, dots):
    total = 0
    for K, K1, K2, i, j, k, l in terms:
        total = total + K + K1 * scalar_product(dots, i, j) * scalar_product(dots, k, l) \
            + K2 * masses[i] * masses[j] * scalar_product(dots, k, l)
    return total


# -- what the code generates -------------------------------------------------------
def element(integral, dots):
    four = isinstance(integral, FourParticleIntegral)
    terms = [(M.K, M.K1, M.K2) + tuple(M.order) if four else (M.K, 0, 0, 0, 1, 0, 2) for M in integral.Ms]
    return polynomial(terms, [x.specie.mass for x in integral.reaction], dots)


def names(integral, side):
    return [x.specie.name for x in integral.reaction if x.side == side]


def generated(interactions, dots):
    return [(i.particle.name, i.reaction[0].specie.name, names(i, -1), names(i, 1), isinstance(i, FourParticleIntegral), i.kind, element(i, dots))
            for inter in interactions for i in inter.integrals]


def charges(interactions):
    """additive quantum numbers before minus after each reaction"""
    return [(sum(-x.side * (-1 if x.antiparticle else 1) * x.specie.Q for x in i.reaction), 0 if i.reaction[0].antiparticle else 1)
            for inter in interactions for i in inter.integrals]


def conserved(interactions):
    return [(0, 1) for inter in interactions for i in inter.integrals]


# -- what a process requires ----------------------------------------------------------
def conjugate(specie, anti):
    return False if specie.majorana else not anti


def required(process, kind, dots):
    """one collision integral per species of the process and assignment of the particles to the sides"""
    before, after, terms, elastic = process
    particles = [(s, a, -1) for s, a in before] + [(s, a, 1) for s, a in after]
    n = len(particles)
    four = n == 4
    out = {}
    for mask in range(1, 2**n - 1):
        chosen = [i for i in range(n) if mask // 2**i % 2]
        moved = [i for i in range(n) if (particles[i][2] == -1) != (i in chosen)]
        flags = [conjugate(particles[i][0], particles[i][1]) if i in moved else particles[i][1] for i in range(n)]
        others = sorted([i for i in range(n) if i not in chosen], key=lambda i: (particles[i][0].name, flags[i], i))
        for first in chosen:
            if flags[first]:
                continue
            rest = sorted([i for i in chosen if i != first], key=lambda i: (particles[i][0].name, flags[i], i))
            positions = [first] + rest + others
            place = {p: i for i, p in enumerate(positions)}
            masses = [particles[p][0].mass for p in positions]
            if len(chosen) == 1 and masses[0] <= sum(masses[1:]):
                continue
            if len(others) == 1 and masses[-1] <= sum(masses[:-1]):
                continue
            here = polynomial([(K, K1, -K2 if (i in moved) != (j in moved) else K2, place[i], place[j], place[k], place[l])
                               for K, K1, K2, i, j, k, l in terms], masses, dots)
            label = (tuple(particles[p][0].name for p in positions), len(chosen))
            if label in out:
                # a constant element of a four-particle process is the same for every assignment
                out[label] = (particles[first][0].name, out[label][1] if four and terms[0][0] != 0 else out[label][1] + here)
            else:
                out[label] = (particles[first][0].name, here)
    return [(name, label[0][0], list(label[0][:label[1]]), list(label[0][label[1]:]), four, kind, value) for label, (name, value) in out.items()]


def all_required(processes, kind, dots):
    return [x for p in processes for x in required(p, kind, dots)]


# -- interactions with arbitrary couplings ------------------------------------------------
def four(particles, flags, elements, kind, weight):
    return [CrossGeneratingInteraction(particles=particles, antiparticles=flags, kind=kind, integral_type=FourParticleIntegral,
                                       Ms=tuple(FourParticleM(K=K, K1=K1, K2=K2, order=(i, j, k, l)) for K, K1, K2, i, j, k, l in elements))]


def three(particles, flags, elements, kind, weight):
    return [CrossGeneratingInteraction(particles=particles, antiparticles=flags, kind=kind, integral_type=ThreeParticleIntegral,
                                       Ms=tuple(ThreeParticleM(K=x[0]) for x in elements))]


def process(particles, flags, elements):
    return list(zip(particles[0], flags[0])), list(zip(particles[1], flags[1])), elements, None


from interactions.four_particle.cpp.integral import CollisionIntegralKind
FULL = CollisionIntegralKind.Full


def two_body(particles, flags, K, kind, name, washout):
    return CrossGeneratingInteraction(name=name, particles=particles, antiparticles=flags, kind=kind, integral_type=ThreeParticleIntegral,
                                      washout_temperature=washout, Ms=(ThreeParticleM(K=K),))


def kinds_made(particles, flags, K, kind, name, washout):
    inter = two_body(particles, flags, K, kind, name, washout)
    return [inter.name] + [(i.particle.name, i.kind, i.washout_temperature) for i in inter.integrals]


def kinds_required(particles, flags, K, kind, name, washout):
    return [name] + [(p.name, kind, washout) for p in (particles[0][0], particles[1][0], particles[1][1])]

