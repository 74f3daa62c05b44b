from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load()
    Kq, Sq = 'common.kinematics:', 'specs.kinematics:'
    I = obj(it, 'interaction', 'interactions.boltzmann.BoltzmannIntegral')
    p = obj(it, 'particle', PARTICLE)
    r = it.getattr(I, 'reaction')
    known = C.run(it, 'specs.kinematics:known_arrow', [I]).ret
    for f, a in [('cm_momentum', [S('M'), S('m1'), S('m2')]),
                 ('three_particle_bounds_creation', [r]), ('three_particle_grid_bounds_creation', [r]),
                 ('four_particle_bounds_creation', [r]), ('four_particle_grid_cutoff_creation', [r]),
                 ('four_particle_grid_cutoff_scattering', [p]), ('four_particle_grid_cutoff_decay', [p]),
                 ('grid_cutoff_3p', [I, S('ps')])]:
        C.func(f, it, Kq + f, Sq + f, a)
    C.func('grid_cutoff_4p', it, Kq + 'grid_cutoff_4p', Sq + 'grid_cutoff_4p', [I], assume=known)
    C.func('interpolation_4p', it, Kq + 'interpolation_4p', Sq + 'interpolation_4p', [I, S('ps'), S('sl')])
