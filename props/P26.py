from .lib import *
TECHNIQUE = TECH
NAMES = ['SPLIT_COLLISION_INTEGRAL', 'FIXED_ORDER_1D_QUADRATURE', 'GAUSS_LEGENDRE_ORDER', 'GAUSS_LAGUERRE_ORDER', 'LOGARITHMIC_TIMESTEP',
         'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION', 'ADAMS_MOULTON_DISTRIBUTION_CORRECTION', 'MOMENTUM_SAMPLES', 'MAX_MOMENTUM_MEV',
         'MAX_SCALE_FACTOR', 'FOUR_PARTICLE_GRID_RESOLUTION', 'NORMAL_HIERARCHY_NEUTRINOS', 'REGIME_SWITCHING_FACTOR',
         'SIMPSONS_INTEGRATION', 'SIMPSONS_NONEQ_PARTICLES', 'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES']


def check(C, tier):
    it = C.load()
    it.prims.pop('environment.get')
    C.func('defaults', it, 'specs.settings:table', 'specs.settings:table_required', [], where='environment:defaults')
    for n in NAMES + ['HNL_ENERGY']:
        C.func(n, it, 'environment:get', 'specs.settings:given', [K(n)])
