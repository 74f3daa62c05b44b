from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load()
    Kq, Sq = 'common.kinematics:', 'specs.kinematics:'
    a = [S('mass'), S('mixing')]
    for f in ['decoupling_temperature_relativistic', 'decoupling_temperature']:
        C.func(f, it, Kq + f, Sq + f, a)
    for k in ['HNL', 'neutrino', 'meson', 'lepton']:
        for f in ['grid_resolution_', 'grid_params_']:
            C.func(f + k, it, Kq + f + k, Sq + f + k, a)
    C.func('grid_resolution_lepton_std', it, Kq + 'grid_resolution_lepton', Sq + 'grid_resolution_lepton', a + [TRUE])
    C.func('grid_params_lepton_std', it, Kq + 'grid_params_lepton', Sq + 'grid_params_lepton', a + [TRUE])
