from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load(prims=QUAD, uninterpreted=[D + 'distribution'])
    p = obj(it, 'particle', PARTICLE)
    for m in ['Radiation', 'Dust', 'Intermediate']:
        for f in ['density', 'energy_density', 'pressure', 'entropy']:
            C.func('%s-%s' % (m.lower(), f), it, 'particles.%sParticle:%s' % (m, f), 'specs.thermo:%s_%s' % (m.lower(), f), [p])
    it = C.load()
    for name, spec in (('Fermi', 'fermi'), ('Bose', 'bose')):
        C.func(spec, it, 'common.statistics:' + name, 'specs.thermo:' + spec, [S('e')])
