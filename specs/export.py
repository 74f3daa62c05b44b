import numpy
import kawano
from common import CONST, UNITS
from common.integrators import integrate_1D


def mass_gap():
    return kawano.q


def q_required(neutron, proton):
    return neutron['mass'] - proton['mass']


def phase(a, y, E_e):
    """y^2 p_e E_e, or zero where no electron of that energy exists"""
    m = kawano.m_e * a
    return y**2 * numpy.sqrt(E_e**2 - m**2) * E_e


def weak(a, y, sign_q, sign_y, electron_in, neutrino_in):
    e, n = kawano.particles.electron, kawano.particles.neutrino
    E_e = sign_q * kawano.q * a + sign_y * y
    if E_e < kawano.m_e * a:
        return 0.
    p_e = numpy.sqrt(E_e**2 - (kawano.m_e * a)**2)
    fe, fn = e.distribution(p_e), n.distribution(y)
    if not electron_in:
        fe = 1. - fe
    if not neutrino_in:
        fn = 1. - fn
    return y**2 * p_e * E_e * fe * fn


def rate(a, f, lo, hi):
    if lo < hi:
        return CONST.rate_normalization / kawano.particles.neutrino.params.a**5 * integrate_1D(f, bounds=(lo, hi))[0]
    return 0.


def baryonic_rates(a):
    g = kawano.particles.neutrino.grid
    lo, hi = g.MIN_MOMENTUM, g.MAX_MOMENTUM
    q, m = kawano.q, kawano.m_e
    return [
        rate(a, lambda y: weak(a, y, 1, 1, False, True), lo, hi),           # n nu -> p e
        rate(a, lambda y: weak(a, y, 1, 1, True, False), lo, hi),           # p e -> n nu
        rate(a, lambda y: weak(a, y, 1, -1, False, False), lo, (q - m) * a),   # n -> p e nu
        rate(a, lambda y: weak(a, y, 1, -1, True, True), lo, (q - m) * a),     # p e nu -> n
        rate(a, lambda y: weak(a, y, -1, 1, True, False), (q + m) * a, hi),    # n e -> p nu
        rate(a, lambda y: weak(a, y, -1, 1, False, True), (q + m) * a, hi),    # p nu -> n e
    ]


def init_kawano(electron, neutrino):
    return electron, neutrino


def init_kawano_code(electron, neutrino):
    kawano.init_kawano(electron=electron, neutrino=neutrino)
    return kawano.particles.electron, kawano.particles.neutrino


def heading():
    return [(row[0], row[2]) for row in kawano.heading]


def heading_required():
    return [
        ('t', UNITS.s), ('x', UNITS.MeV), ('Tg', UNITS.K9), ('dTg/dt', UNITS.K9 / UNITS.s), ('rho_tot', UNITS.g_cm3), ('H', 1 / UNITS.s),
        ('n nue->p e', 1.), ('p e->n nue', 1.), ('n->p e nue', 1.), ('p e nue->n', 1.), ('n e->p nue', 1.), ('p nue->n e', 1.)]


def constants():
    return kawano.q, kawano.m_e, kawano.T_kawano


def constants_required():
    from library import SM
    h = SM.particles.hadrons
    return h.neutron['mass'] - h.proton['mass'], SM.particles.leptons.electron['mass'], 10 * UNITS.MeV
