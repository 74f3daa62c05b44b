import os
import environment

OFF = ('', '0', '-1', 'f', 'false', 'n', 'no', 'off')

DEFAULTS = {
    'SPLIT_COLLISION_INTEGRAL': True,
    'FIXED_ORDER_1D_QUADRATURE': True,
    'GAUSS_LEGENDRE_ORDER': 100,
    'GAUSS_LAGUERRE_ORDER': 100,
    'LOGARITHMIC_TIMESTEP': True,
    'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION': True,
    'ADAMS_MOULTON_DISTRIBUTION_CORRECTION': False,
    'MOMENTUM_SAMPLES': 401,
    'MAX_MOMENTUM_MEV': 100,
    'MAX_SCALE_FACTOR': 10,
    'FOUR_PARTICLE_GRID_RESOLUTION': 0.24999,
    'NORMAL_HIERARCHY_NEUTRINOS': True,
    'REGIME_SWITCHING_FACTOR': 1e3,
    'SIMPSONS_INTEGRATION': False,
    'SIMPSONS_NONEQ_PARTICLES': True,
    'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES': True,
}


def code(name):
    return environment.get(name)


def given(name):
    """the value in effect: the text of the environment read as the kind of the default"""
    default = DEFAULTS.get(name)
    text = os.environ.get(name)
    if text is None:
        return default
    if isinstance(default, bool):
        return text.strip().lower() not in OFF
    if default is None:
        return text
    return type(default)(text)


def table():
    return environment.defaults


def table_required():
    return DEFAULTS
