from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load(prims=QUAD, uninterpreted=[D + 'distribution'])
    p = obj(it, 'particle', PARTICLE)
    for m in ['Radiation', 'Dust', 'Intermediate', 'NonEq']:
        for f in ['numerator', 'denominator']:
            C.func('%s-%s' % (m.lower(), f), it, 'particles.%sParticle:%s' % (m, f), 'specs.thermo:%s_%s' % (m.lower(), f), [p])
    it = C.load(uninterpreted=[D + x for x in ('update', 'integrate_collisions', 'update_distribution')])
    u = obj(it, 'universe', 'evolution.Universe')
    C.func('sum-over-species', it, 'evolution:Universe.calculate_temperature_terms', 'specs.universe:calculate_temperature_terms', [u])
    C.func('rate', it, 'evolution:Universe.integrand', 'specs.universe:integrand', [u, S('t'), S('y')], attrs=('fraction',))
