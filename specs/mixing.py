import numpy
from numpy import sin, cos, arctan

FL = ['electron', 'muon', 'tau']


def angles(MSW_12, MSW_13, matter):
    t12, t13 = 0.57636, 0.14715
    if matter:
        t12 = arctan(sin(2 * t12) / (cos(2 * t12) + MSW_12)) / 2
        t13 = arctan(sin(2 * t13) / (cos(2 * t13) + MSW_13)) / 2
    return t12, t13


def probabilities(MSW_12, MSW_13, matter):
    """phase-averaged transition probabilities sum_i |U_ai|^2 |U_bi|^2 for theta_23 = 0"""
    t12, t13 = angles(MSW_12, MSW_13, matter)
    s, c, S, Cc = sin(t12)**2, cos(t12)**2, sin(t13)**2, cos(t13)**2
    U = {'electron': (c * Cc, s * Cc, S), 'muon': (s, c, 0), 'tau': (c * S, s * S, Cc)}
    return tuple(U[a][0] * U[b][0] + U[a][1] * U[b][1] + U[a][2] * U[b][2] for a in FL for b in FL)


def probabilities_code(MSW_12, MSW_13, matter):
    from library import SM
    m = SM.particles.leptons.oscillations_map(MSW_12, MSW_13, matter)
    return tuple(m[(a, b)] for a in FL for b in FL)


def rows(MSW_12, MSW_13, matter):
    from library import SM
    m = SM.particles.leptons.oscillations_map(MSW_12, MSW_13, matter)
    return tuple(sum(m[(a, b)] for b in FL) for a in FL)


def ones(MSW_12, MSW_13, matter):
    return 1, 1, 1


def init_oscillations(self, pattern, particles, matter):
    self.pattern_function = pattern
    self.oscillation_particles = particles
    self.oscillation_matter = matter
    self.oscillation_parameters()
