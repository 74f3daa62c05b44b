from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    un = ['particles.AbstractParticle.populate_methods', D + 'populate_methods', D + 'distribution']
    eff = effects('append', 'populate_methods', 'update')
    it = C.load(prims=QUAD, uninterpreted=un)
    p = obj(it, 'particle', PARTICLE)
    for f in ['update', 'init_distribution', 'equilibrium_distribution']:
        C.func(f, it, 'particles:DistributionParticle.' + f, 'specs.particle:' + f, [p], tr=eff)
    C.func('equilibrium_distribution-at', it, 'particles:DistributionParticle.equilibrium_distribution',
           'specs.particle:equilibrium_distribution', [p, S('y'), S('aT1'), S('M')])
    C.func('init_distribution-mass', it, 'particles:DistributionParticle.init_distribution',
           'specs.particle:init_distribution', [p, S('M')])
    C.func('set_grid', it, 'particles:DistributionParticle.set_grid', 'specs.particle:set_grid', [p, S('grid2')])
    it = C.load(uninterpreted=[D + 'update', 'particles.AbstractParticle.populate_methods'])
    p = obj(it, 'particle', PARTICLE)
    C.func('set_params', it, 'particles:DistributionParticle.set_params', 'specs.particle:set_params', [p, S('params2')], tr=eff)
    C.func('distribution', it, 'particles:DistributionParticle.distribution', 'specs.particle:distribution', [p, S('k')])
