from .quantities import *
import math
from fractions import Fraction
TECHNIQUE = ('abstract evaluation of class attributes to monomials in the symbolic base unit; dimension and size are read off the '
             'normal form and compared with reference values')
EV = 1.
MEV, GEV = 1e6, 1e9
HBAR = 6.582119569e-16      # eV s
HBARC = 1.973269804e-7      # eV m
KG = 5.60958860e35          # eV
S, M = 1 / HBAR, 1 / HBARC
UNITS = {
    'keV': (1e3, 1), 'MeV': (MEV, 1), 'GeV': (GEV, 1), 'TeV': (1e12, 1), 's': (S, -1), 'kg': (KG, 1), 'm': (M, -1),
    'N': (KG * M / S**2, 2), 'K9': (8.617333e-5 * 1e9, 1), 'g_cm3': (KG * 1e-3 / (M * 1e-2)**3, 4),
}
CONST = {
    # name: value, power, tolerance
    'M_p': (1.22089e28, 1, 1e-4), 'G': (1 / 1.22089e28**2, -2, 2e-4), 'G_F': (1.16638e-23, -2, 1e-3), 'H': ((1.39e-33, 1.6e-33), 1, 0),
    'sin_theta_w_2': ((0.22, 0.24), 0, 0), 'alpha': (1 / 137.036, 0, 1e-5), 'lambda_QCD': ((130 * MEV, 220 * MEV), 1, 0),
    'M_W': (80.38 * GEV, 1, 3e-4), 'eta': ((5.8e-10, 6.4e-10), 0, 0), 'f_K': (155.6 * MEV, 1, 5e-3),
    'delta_m12_sq': (7.45e-5, 2, 0.03), 'delta_m13_sq': (2.5e-3, 2, 0.03), 'rate_normalization': (17.54e-30, -5, 1e-3),
    # 16 sqrt 2 G_F / (3 M_W^2) times the energy density of electron pairs over T^4
    'MSW_constant': (16 * math.sqrt(2) * 1.16638e-23 / 3 / (80.38 * GEV)**2 * 7 * math.pi**2 / 60, -4, 0.005),
}


def check(C, tier):
    it = C.load()
    u, c = it.cls_by_qual('common.UNITS'), it.cls_by_qual('common.CONST')
    for n, (v, p) in UNITS.items():
        quantity(C, 'unit-' + n, 'common:UNITS.' + n, lambda n=n: it.freeze(it.getattr(u, n)), v, p, 1e-5)
    for n, (v, p, t) in CONST.items():
        quantity(C, 'constant-' + n, 'common:CONST.' + n, lambda n=n: it.freeze(it.getattr(c, n)), v, p, t)
    g = lambda n: it.getattr(c, n)
    C.values('couplings-right', 'common:CONST.g_R', it, lambda: g('g_R'), lambda: g('sin_theta_w_2'))
    C.values('couplings-left', 'common:CONST.g_L', it, lambda: g('g_L'), lambda: Num(T.add(as_poly(g('sin_theta_w_2')), T.const(Fraction(1, 2)))))
    C.values('gravity', 'common:CONST.G', it, lambda: g('G'), lambda: Num(T.power(as_poly(g('M_p')), -2)))
