"""Squared matrix elements: polynomials in the scalar products of the momenta."""
from specs.reactions import polynomial, names, element
from interactions import IntegralItem, IntegralDeduplicator, Interaction
from interactions.four_particle import FourParticleM, FourParticleIntegral
from interactions.three_particle import ThreeParticleM, ThreeParticleIntegral
from library.SM import WeakM
from library.NuMSM import SterileM
from common import CONST


# -- as the code builds them ------------------------------------------------------------
def value(M, masses, dots):
    return polynomial([(M.K, M.K1, M.K2) + tuple(M.order)], masses, dots)


def made(K, K1, K2, order, masses, dots):
    return value(FourParticleM(K=K, K1=K1, K2=K2, order=order), masses, dots)


def made_one(name, v, order, masses, dots):
    if name == 'K1':
        return value(FourParticleM(K1=v, order=order), masses, dots)
    if name == 'K2':
        return value(FourParticleM(K2=v, order=order), masses, dots)
    return value(FourParticleM(K=v), masses, dots)


def reordered(K, K1, K2, order, new, items, masses, dots):
    M = FourParticleM(K=K, K1=K1, K2=K2, order=order)
    M.apply_order(new, items)
    return value(M, masses, dots)


def combined(order1, order2, c1, c2, masses, dots):
    a = FourParticleM(K1=c1[0], K2=c1[1], order=order1)
    b = FourParticleM(K1=c2[0], K2=c2[1], order=order2)
    if a.stackable(b):
        a += b
        return value(a, masses, dots)
    return value(a, masses, dots) + value(b, masses, dots)


def multiplied(c, order, by, masses, dots):
    M = FourParticleM(K1=c[0], K2=c[1], order=order)
    M *= by
    return value(M, masses, dots)


def weak(K, K1, K2, order, masses, dots):
    return value(WeakM(K=K, K1=K1, K2=K2, order=order), masses, dots)


def sterile(theta, K1, K2, order, masses, dots):
    return value(SterileM(theta=theta, K1=K1, K2=K2, order=order), masses, dots)


def sterile_plain(K1, K2, order, masses, dots):
    return value(SterileM(K1=K1, K2=K2, order=order), masses, dots)


def three(a, b, by):
    M = ThreeParticleM(K=a)
    M += ThreeParticleM(K=b)
    M *= by
    return M.K


# -- as they have to be ------------------------------------------------------------------
def product(K, K1, K2, order, masses, dots):
    return polynomial([(K, K1, K2) + tuple(order)], masses, dots)


def product_one(name, v, order, masses, dots):
    return product(v if name == 'K' else 0, v if name == 'K1' else 0, v if name == 'K2' else 0, order if name != 'K' else (0, 1, 2, 3), masses, dots)


def crossed(K, K1, K2, order, new, items, masses, dots):
    return product(K, K1, -K2 if items[new[0]].crossed != items[new[1]].crossed else K2, new, masses, dots)


def total(order1, order2, c1, c2, masses, dots):
    return product(0, c1[0], c1[1], order1, masses, dots) + product(0, c2[0], c2[1], order2, masses, dots)


def scaled(c, order, by, masses, dots):
    return by * product(0, c[0], c[1], order, masses, dots)


def weak_product(K, K1, K2, order, masses, dots):
    return product(K, 32 * CONST.G_F**2 * K1, 32 * CONST.G_F**2 * K2, order, masses, dots)


def sterile_product(theta, K1, K2, order, masses, dots):
    return product(0, 32 * CONST.G_F**2 * theta**2 * K1, 32 * CONST.G_F**2 * theta**2 * K2, order, masses, dots)


def sterile_plain_product(K1, K2, order, masses, dots):
    return sterile_product(1, K1, K2, order, masses, dots)


def three_product(a, b, by):
    return (a + b) * by


# -- collections of integrals ----------------------------------------------------------
def integrals_of(descr):
    out = []
    for particle, lhs, rhs, terms in descr:
        if len(lhs) + len(rhs) == 4:
            out.append(FourParticleIntegral(particle=particle, reaction=items(lhs, rhs), kind=None,
                                            Ms=tuple(FourParticleM(K1=K1, K2=K2, order=(i, j, k, l)) for K, K1, K2, i, j, k, l in terms)))
        else:
            out.append(ThreeParticleIntegral(particle=particle, reaction=items(lhs, rhs), kind=None, Ms=tuple(ThreeParticleM(K=t[0]) for t in terms)))
    return out


def items(lhs, rhs):
    return tuple([IntegralItem(side=-1, specie=s, antiparticle=False, index=i, crossed=False) for i, s in enumerate(lhs)]
                 + [IntegralItem(side=1, specie=s, antiparticle=False, index=len(lhs) + i, crossed=False) for i, s in enumerate(rhs)])


def deduplicated(descr, dots):
    return [(i.particle.name, names(i, -1), names(i, 1), element(i, dots)) for i in IntegralDeduplicator(integrals_of(descr)).integrals]


def through_interaction(descr, dots):
    class Some(Interaction):
        integrals = integrals_of(descr)
    return [(i.particle.name, names(i, -1), names(i, 1), element(i, dots)) for i in Some(name='some').integrals]


def grouped(descr, dots):
    """one integral per species and reaction, with the sum of the matrix elements"""
    out = {}
    for particle, lhs, rhs, terms in descr:
        label = (particle.name, tuple(s.name for s in lhs), tuple(s.name for s in rhs))
        out[label] = (out[label] if label in out else 0) + polynomial(terms, [s.mass for s in lhs + rhs], dots)
    return [(label[0], list(label[1]), list(label[2]), v) for label, v in out.items()]
