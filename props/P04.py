from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load(prims=QUAD, uninterpreted=[D + 'distribution'])
    p = obj(it, 'particle', PARTICLE)
    for f in ['density', 'energy_density', 'pressure', 'entropy']:
        C.func('noneq-' + f, it, 'particles.NonEqParticle:' + f, 'specs.thermo:noneq_' + f, [p])
